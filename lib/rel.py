"""Judging an effect summary by a relation its instances must satisfy (under random interpretation of its atoms)."""
import interp
def ordered(effs, tries, setup, judge, kinds=("call", "ret", "set")):
    """judge(I, ctx, instances in execution order) -> None or a description; returns (description or None, number of interpretations)"""
    if not effs: return None, 0
    fn = effs[0].summ.fn; order = fn.order()
    def keys(x):
        if isinstance(x, str): return order[fn.blocks[fn.loops[int(x[1:])].header].insts[0].id]
        return order[x.id]
    fs = [interp.Gen(e.summ).effect(e, plain=True, keys=keys) for e in effs if e.kind in kinds]
    hs = interp.hints_of(effs); good = 0
    for k in range(tries):
        I = interp.Interp(9000 + k, hs); ctx = setup(I, k)
        if ctx is None: continue
        try:
            out = []
            I.fuel = interp.FUEL
            for f in fs: out += list(f(I))
        except (interp.TooBig, interp.NoMeaning, ValueError, OverflowError): continue
        good += 1
        d = judge(I, ctx, [t[1:] for t in sorted(out, key=lambda t: t[0])])
        if d: return d, good
    return None, good
