"""Random interpretation of effect summaries (after Gulwani & Necula): the closed-form summaries - not the program -
are evaluated over random meanings of their atoms (arguments, memory contents as uninterpreted functions of the
address), so that algebraically equal index sets and values compare equal however they are written."""
import random, zlib
from summ import Poly, show, akey, coeff

class TooBig(Exception): pass
class NoMeaning(Exception): pass

SP = 1 << 44
FUEL = 15000
SIZES = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "i1": 1, "ptr": 8, "float": 4, "double": 8}

class Uninit(Exception): pass
class Un:
    """the contents of a variable before anything was stored in it: may be copied, but not used"""
    def __init__(s, name): s.name = name
    def use(s, *a): raise Uninit(s.name)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = __mod__ = __rmod__ = __floordiv__ = __rfloordiv__ = __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = use
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __index__ = __int__ = __hash__ = __divmod__ = __rdivmod__ = use
class Interp:
    def __init__(s, seed, hints=()):
        s.reads = None
        s.seed = seed; s.rnd = random.Random(seed); s.memo = {}; s.fuel = FUEL
        s.hints = [h for h in hints if 1 < h < 5000]
        s.big = s.rnd.choice([0, 0, 0, 0, 70000, 1 << 20, 300]) 
        s.lin = s.rnd.choice([1, 1, 2, 3])
        s.small = s.rnd.choice([2, 4, 7])
        s.large = [h for h in hints if 5000 <= h < (1 << 31) - 1]; s.shrink = s.rnd.random() < 0.4
        s.hint = s.rnd.choice(s.hints) if s.hints and s.rnd.random() < 0.5 else None
    def h(s, *k):
        return zlib.crc32(repr((s.seed,) + k).encode()) * 2654435761 % (1 << 32) >> 3
    def L(s, t, a):
        k = (t, a)
        if s.reads is not None: s.reads.add(a)
        r = s.memo.get(k)
        if r is not None: return r
        if t == "ptr": r = (s.h("p", a) % (1 << 22) + 1) * SP
        elif t in ("float", "double"): r = s.h("f", a) % 1000003
        else:
            base, off = divmod(a, SP); sz = SIZES.get(t, 4); idx = off // sz
            mode = s.h("m", base) % 4
            if mode == 3 or idx > 100000: r = s.h("v", a) % s.small
            else:
                r = s.lin * idx + s.h("v", a) % s.small
                if mode == 2: r += s.big
            if s.hint is not None and s.h("hh", a) % 3 == 0: r += s.hint + s.h("h3", a) % 3 - 1
            bits = sz * 8
            if bits < 32: r %= 1 << bits
        s.memo[k] = r
        return r
    def A(s, i, name):
        r = s.memo.get(("A", i))
        if r is None and name.startswith("?"): r = s.memo[("A", i)] = s.h("b", i) >> 7 & 1
        if r is None:
            r = s.memo[("A", i)] = (s.h("a", i) % (1 << 22) + 1) * SP if not name.startswith("#") else s.h("n", i) % (s.small + 1) + (s.hint or 0)
        return r
    def UN(s, name): return Un(name)
    def U(s, *k):
        r = s.memo.get(k)
        if r is None: r = s.memo[k] = s.h(*k)
        return r
    def K(s, *k):
        r = s.memo.get(k)
        if r is None: r = s.memo[k] = s.h(*k) % (s.small + 2)
        return r
    def C(s, v):
        """large constants in comparisons: kept, or brought (with their neighbours) into the range of the other values"""
        if not s.shrink: return v
        m = min((x for x in s.large if abs(x - v) <= 64), default=v)
        return s.h("C", m) % 6 + 1 + v - m
    def tick(s):
        s.fuel -= 1
        if s.fuel < 0: raise TooBig()
    def SUM(s, n, f):
        t = 0
        for k in range(max(0, n)):
            s.tick(); t += f(k)
        return t
    def ITER(s, init, after, exitc, nxt):
        st = init
        while True:
            s.tick()
            if not after and exitc(st): return
            yield st
            if after and exitc(st): return
            st = nxt(st)
    def EXIT(s, init, exitc, nxt, val):
        st = init
        while not exitc(st):
            s.tick(); st = nxt(st)
        return val(st)
    def FOR(s, n, init, nxt):
        st = init
        for k in range(max(0, n)):
            s.tick(); yield st
            st = nxt(st)
    def DIV(s, a, b):
        if b == 0: raise NoMeaning()
        return a // b

class Gen:
    def __init__(s, summ=None): s.n = 0; s.summ = summ
    def iv(s, l): return "v" + str(l).replace("-", "_")
    def mus(s, l):
        """state of loop l: [(name, init, next)], iteration variable first"""
        if s.summ is None: raise NoMeaning("mu")
        out = []
        for (k, i), d in sorted(s.summ.mudefs.items()):
            if "L%d" % k != l: continue
            if not isinstance(d, tuple): raise NoMeaning("recurrence")
            out.append(("m%s_%d" % (l, i), d[0], d[1]))
        return out
    def loopsrc(s, l):
        ms = s.mus(l); names = "(%s,)" % ",".join([s.iv(l)] + [m[0] for m in ms])
        lam = lambda body: "(lambda st_:(lambda %s:%s)(*st_))" % (",".join([s.iv(l)] + [m[0] for m in ms]), body)
        init = "(0,%s)" % "".join(s.poly(m[1]) + "," for m in ms)
        nxt = lam("(%s+1,%s)" % (s.iv(l), "".join(s.poly(m[2]) + "," for m in ms)))
        return names, lam, init, nxt
    def exitsrc(s, l, lam):
        n = int(l[1:]); c = s.summ.counts.get(n)
        if c is not None: return lam("%s>=%s" % (s.iv(l), s.poly(c)))
        return lam(s.poly(s.summ._exitc[n]))
    def poly(s, p, cmp=False):
        if not isinstance(p, Poly): return repr(p)
        if not p.m: return "0"
        out = []
        for k, v in p.m.items():
            f = [s.atom(a) for a in k]
            if v != 1 or not f: f = [repr(v) if getattr(v, "denominator", 1) == 1 and isinstance(v, int) else ("(%d)" % v if v.denominator == 1 else "I.U('q',%r)" % str(v))] + f
            if cmp and not k and v.denominator == 1 and 5000 <= abs(v) < (1 << 31) - 1: f = ["%sI.C(%d)" % ("-" if v < 0 else "", abs(v))]
            out.append("*".join(f))
        return "(" + "+".join(out) + ")"
    def atom(s, a):
        k = a[0]; P = s.poly
        if k == "arg": return "I.A(%d,%r)" % (a[1], a[2])
        if k == "uninit": return "I.UN(%r)" % (a[1:],)
        if k == "load": return "I.L(%r,%s)" % (a[1], P(a[2]))
        if k == "iv": return s.iv(a[1])
        if k == "udiv": return "I.DIV(%s,%s)" % (P(a[1]), P(a[2]))
        if k == "max": return "max(%s)" % ",".join(map(P, a[1:]))
        if k == "min": return "min(%s)" % ",".join(map(P, a[1:]))
        if k == "select": return "(%s if %s else %s)" % (P(a[2]), P(a[1]), P(a[3]))
        if k == "lt": return "(%s<%s)" % (P(a[1], True), P(a[2], True))
        if k == "le": return "(%s<=%s)" % (P(a[1], True), P(a[2], True))
        if k == "eq": return "(%s==%s)" % (P(a[1], True), P(a[2], True))
        if k == "ne": return "(%s!=%s)" % (P(a[1], True), P(a[2], True))
        if k == "and01": return "(1 if (%s) and (%s) else 0)" % (P(a[1]), P(a[2]))
        if k == "not": return "(not %s)" % P(a[1])
        if k == "trunc": return "(%s%%%d)" % (P(a[2]), 1 << a[1])
        if k == "and": return "(%s&%s)" % (P(a[1]), P(a[2]))
        if k == "or": return "(%s|%s)" % (P(a[1]), P(a[2]))
        if k == "xor": return "(%s^%s)" % (P(a[1]), P(a[2]))
        if k == "sum": return "I.SUM(%s,lambda %s:%s)" % (P(a[2]), s.iv(a[1]), P(a[3]))
        if k == "acc": return "(%s+I.SUM(%s,lambda %s:%s))" % (P(a[2]), s.iv("L%d" % a[1]), s.iv("L%d" % a[1]), P(a[3]))
        if k == "mu":
            s.mus(a[1]); return "m%s_%d" % (a[1], a[2])
        if k == "exit":
            names, lam, init, nxt = s.loopsrc(a[1])
            return "I.EXIT(%s,%s,%s,%s)" % (init, s.exitsrc(a[1], lam), nxt, lam(P(a[2])))
        if k in ("merge", "self", "while"): raise NoMeaning(k)
        if k == "call" and str(a[1]).startswith("i"): return "I.K(%r,%s)" % (k, ",".join(P(x) if isinstance(x, Poly) else repr(x) for x in a[1:]))
        return "I.U(%r,%s)" % (k, ",".join(P(x) if isinstance(x, Poly) else repr(x) for x in a[1:])) if len(a) > 1 else "I.U(%r)" % k
    def guard(s, g):
        if isinstance(g, Poly): return s.poly(g)
        # ("switch", v, ("in"/"notin", cases))
        return "(%s %s %r)" % (s.poly(g[1]), "in" if g[2][0] == "in" else "not in", tuple(int(x) for x in g[2][1]))
    def effect(s, e, plain=False, keys=None):
        """python source of a generator function yielding the effect's instances; plain: stored loads are values, not
        copies; keys: instruction order, each instance is given with its place in the execution"""
        s.n += 1
        src = "def f(I):\n"; ind = " "
        gs = [(g, s.vars_g(g)) for g in e.guards]
        bound = set()
        def emit():
            nonlocal src, ind
            for g, v in list(gs):
                if v <= bound:
                    src += ind + "if %s:\n" % s.guard(g); ind += " "; gs.remove((g, v))
        emit()
        for l, c in e.loops:
            v = s.iv(l)
            w = [a for a in c.atoms() if a[0] == "while"]
            if w:
                names, lam, init, nxt = s.loopsrc(l)
                src += ind + "for %s in I.ITER(%s,%d,%s,%s):\n" % (names, init, w[0][3], s.exitsrc(l, lam), nxt); ind += " "
            elif str(l)[:1] == "L" and s.summ is not None and s.mus(l):
                names, lam, init, nxt = s.loopsrc(l)
                if "m" + str(l) in s.vars_g(c): src += ind + "for %s in I.ITER(%s,0,%s,%s):\n" % (names, init, lam("%s>=%s" % (v, s.poly(c))), nxt)
                else: src += ind + "for %s in I.FOR(%s,%s,%s):\n" % (names, s.poly(c), init, nxt)
                ind += " "
            else:
                src += ind + "for %s in range(max(0,%s)):\n" % (v, s.poly(c)); ind += " "
                src += ind + "I.tick()\n"
            bound.add(v); bound |= {"m" + str(l)}; emit()
        if gs: raise NoMeaning("guard")
        ld = None
        if e.kind == "set" and len(e.val.m) == 1 and not plain:
            (k, v), = e.val.m.items()
            if v == 1 and len(k) == 1 and k[0][0] == "load": ld = k[0]
        if keys is not None:
            ks = []
            for l, _ in e.loops: ks += [repr(keys(l)), s.iv(l)] if str(l)[:1] == "L" and str(l)[1:].isdigit() else ["0", s.iv(l)]
            src += ind + "yield ((%s,),%s)\n" % (",".join(ks + [repr(keys(e.inst))]), ",".join([repr(e.kind), s.poly(e.addr), s.poly(e.val) if e.val is not None else "None"] + [s.poly(x) for x in e.extra]))
        elif ld is not None:
            src += ind + "yield ('cp',%s,%s,%d)\n" % (s.poly(e.addr), s.poly(ld[2]), SIZES.get(ld[1], 4))
        elif e.kind == "set" and not e.val.m and not plain:
            src += ind + "yield ('zero',%s,%d)\n" % (s.poly(e.addr), SIZES.get(e.inst.d.get("vt"), 4))
        elif e.kind == "memset" and not e.val.m:
            src += ind + "yield ('zero',%s,%s)\n" % (s.poly(e.addr), s.poly(e.extra[0]))
        elif e.kind == "memcpy":
            src += ind + "yield ('cp',%s,%s,%s)\n" % (s.poly(e.addr), s.poly(e.val), s.poly(e.extra[0]))
        else: src += ind + "yield (%s,)\n" % ",".join([repr(e.kind), s.poly(e.addr), s.poly(e.val) if e.val is not None else "None"] + [s.poly(x) for x in e.extra])
        d = {}
        exec(src, d)
        return d["f"]
    def vars_g(s, g):
        out = set()
        def walk(p, hid):
            for a in p.atoms(): wa(a, hid)
        def wa(a, hid):
            if a[0] == "iv":
                if a not in hid: out.add(s.iv(a[1]))
                return
            if a[0] == "mu":
                if ("iv", a[1]) not in hid: out.add("m" + a[1])
                return
            if a[0] == "exit":
                walk(a[2], hid | {("iv", a[1])})
                for l in s.summ.fva(a):
                    if ("iv", l) not in hid: out.add(s.iv(l))
                return
            if a[0] in ("sum",):
                walk(a[2], hid); walk(a[3], hid | {("iv", a[1])}); return
            if a[0] == "acc": out.add(s.iv("L%d" % a[1]))
            for x in a[1:]:
                if isinstance(x, Poly): walk(x, hid)
        walk(g if isinstance(g, Poly) else g[1], frozenset())
        return out

def hints_of(effs):
    out = set()
    def wp(p):
        for k, v in p.m.items():
            if isinstance(v, int): out.add(abs(v))
            for a in k:
                for x in a[1:]:
                    if isinstance(x, Poly): wp(x)
                    elif a[0] == "trunc" and isinstance(x, int) and x < 30: out.add(1 << x)
    for d in {id(e.summ): e.summ for e in effs if e.summ}.values():
        for x in d.mudefs.values():
            if isinstance(x, tuple): wp(x[0]); wp(x[1])
    for e in effs:
        for _, c in e.loops: wp(c)
        for g in e.guards: wp(g if isinstance(g, Poly) else g[1])
        wp(e.addr)
        if e.val is not None: wp(e.val)
        for x in e.extra: wp(x)
    return sorted(out)

def state(fs, I):
    st = {}
    for f in fs:
        for t in f(I):
            if t[0] == "add": 
                k = ("add", t[1]); st[k] = st.get(k, 0) + t[2]
            elif t[0] in ("zero", "cp"):
                n = t[-1]
                if n > 4096: raise TooBig()
                for b in range(n): st[(t[0], t[1] + b) + ((t[2] + b,) if t[0] == "cp" else ())] = 1
                I.fuel -= n // 4
            elif t[0] in ("set", "ret"): st[(t[0], t[1], t[2])] = 1
            else: st[t] = st.get(t, 0) + 1
    return {k: v for k, v in st.items() if not (k[0] == "add" and v == 0)}

def differ(ea, eb, tries=120, seed=1, assume=None):
    d = differ1(ea, eb, tries, seed, assume)
    if d is not None and any(e.kind == "set" for e in ea) and any(e.kind == "set" for e in eb):
        try:
            if differ1(ea, eb, tries, seed, assume, True) is None: return None
        except NoMeaning: pass
    return d
def differ1(ea, eb, tries, seed, assume, plain=False):
    """None if the two effect lists agree under every tried interpretation; else a description of a difference.
    Raises NoMeaning if they cannot be interpreted."""
    fa = [Gen(e.summ).effect(e, plain) for e in ea]; fb = [Gen(e.summ).effect(e, plain) for e in eb]
    hs = hints_of(ea + eb); good = 0; nontriv = 0
    for k in range(tries * 4):
        if k >= tries and nontriv >= max(8, tries // 10) and good >= tries // 4: break
        I = Interp(seed * 1000 + k, hs)
        if assume: assume(I)
        r = []
        for f in (fa, fb):
            I.fuel = FUEL
            try: r.append((state(f, I), FUEL - I.fuel))
            except TooBig: r.append((None, FUEL))
            except (NoMeaning, ValueError, OverflowError, NameError): break
        if len(r) < 2: continue
        (sa, na), (sb, nb) = r
        if sa is None or sb is None:
            if min(na, nb) * 20 < FUEL and (sa or sb or min(na, nb) == 0) and (sa is None) != (sb is None): return "interpretation %d: iteration counts differ (%d/%d)" % (k, na, nb)
            continue
        good += 1; nontriv += bool(sa or sb)
        if sa != sb:
            d = [(t, sa.get(t), sb.get(t)) for t in sorted(set(sa) | set(sb), key=repr) if sa.get(t) != sb.get(t)]
            return "interpretation %d: %d of %d effects differ" % (k, len(d), len(set(sa) | set(sb)))
    if good < tries // 4 or nontriv < 8: raise NoMeaning("too few interpretations: %d/%d" % (good, nontriv))
    return None

def conflict(e, f, writes=False, tries=24, seed=7):
    """may effects e and f touch a common location (one of them writing it)?  decided on their address sets"""
    try: ge, gf = Gen(e.summ).effect(e), Gen(f.summ).effect(f)
    except NoMeaning: return None
    hs = hints_of([e, f]); seen = 0
    for k in range(tries):
        I = Interp(seed * 1000 + k, hs); acc = []
        try:
            for g in (ge, gf):
                I.fuel = FUEL; I.reads = set(); w = set(); r = set()
                for t in g(I):
                    if t[0] in ("zero", "cp"):
                        w |= set(range(t[1], t[1] + min(t[-1], 4096)))
                        if t[0] == "cp": r |= set(range(t[2], t[2] + min(t[-1], 4096)))
                    elif t[0] in ("set", "add"): w |= {t[1]}
                    else: return None
                acc.append((w, r | I.reads))
        except (TooBig, NoMeaning, ValueError, OverflowError, NameError): continue
        seen += 1
        (w1, r1), (w2, r2) = acc
        if w1 & w2 or not writes and (w1 & r2 or w2 & r1): return True
    return False if seen > 3 else None

def witness(ea, eb, alla, allb, tries=160, seed=11, assume=None):
    """an interpretation under which the two lists differ although nothing either of them reads was written by the
    functions themselves (earlier instances of the same effect included); None if there is none"""
    sides = []
    hs = hints_of(ea + eb)
    try:
        for es, al in ((ea, alla), (eb, allb)):
            sides.append(([Gen(e.summ).effect(e, True) for e in es], [Gen(e.summ).effect(e, True) for e in al if e.kind in ("set", "add", "memset", "memcpy") and not any(e is x for x in es)]))
    except NoMeaning: return None
    wid = lambda e: SIZES.get(e.inst.d.get("vt"), 8)
    for k in range(tries):
        I = Interp(seed * 1000 + k, hs)
        if assume: assume(I)
        sts = []; clean = True
        try:
            for fs, others in sides:
                I.fuel = FUEL * 2; wr = set(); runs = []
                for f in others:
                    for t in f(I): wr |= written(t)
                for f in fs:
                    I.reads = set(); own = set(); st = []
                    for t in f(I):
                        w = written(t)
                        for a in I.reads:
                            if a in own and not (a in w and a not in own): clean = False
                        if any(a not in w and a in wr for a in I.reads): clean = False
                        I.reads = set(); own |= w; st.append(t)
                    runs.append((own, st))
                # what one of the effects writes is read by another
                if len(fs) > 1:
                    for n, f in enumerate(fs):
                        I.reads = set()
                        for t in f(I): pass
                        if any(I.reads & o for m, (o, _) in enumerate(runs) if m != n): clean = False
                I.reads = None
                sts.append(state([lambda I, st=st: st for _, st in runs], I))
                if not clean: break
        except (TooBig, NoMeaning, ValueError, OverflowError, NameError): continue
        finally: I.reads = None
        if clean and len(sts) == 2 and sts[0] != sts[1]: return "interpretation %d" % k
    return None
def written(t):
    if t[0] in ("set", "add"): return {t[1]}
    if t[0] in ("zero", "cp", "memset", "memcpy"):
        n = t[-1] if isinstance(t[-1], int) else 1 << 30
        if n > 4096: raise TooBig()
        return set(range(t[1], t[1] + n))
    return set()
