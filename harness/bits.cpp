// Bit-level helpers, called through their public declarations.
#include <cstdint>
#include <cmath>
#include "utils.h"
extern "C" {
uint64_t bits_pow2(uint64_t n) { return next_power_of_two(n); }
unsigned bits_high_u64(uint64_t v) { return highest_bit_set(v); }
int64_t bits_high_i64(int64_t v) { return highest_bit_set(v); }
unsigned bits_high_u32(unsigned v) { return highest_bit_set(v); }
int bits_high_i32(int v) { return highest_bit_set(v); }
uint32_t bits_inter_u32(uint32_t r, uint32_t c) { return bit_interleave(r, c); }
uint64_t bits_inter_u64(uint64_t r, uint64_t c) { return bit_interleave(r, c); }
}
