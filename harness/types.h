// Value, index and narrow index types of the analysed instantiation.
#include <cstdint>
#ifndef TCFG
#define TCFG 0
#endif
#if TCFG == 0
typedef float T_; typedef uint32_t I_; typedef uint16_t S_;
#elif TCFG == 1
typedef double T_; typedef uint64_t I_; typedef uint32_t S_;
#elif TCFG == 2
typedef double T_; typedef int32_t I_; typedef uint16_t S_;
#elif TCFG == 3
typedef double T_; typedef uint32_t I_; typedef uint16_t S_;
#endif
