"""Verdicts, evidence files, known findings."""
import json, os, sys, time
import build
KF = os.path.join(build.VERIF, "known_findings.txt")

class Check:
    def __init__(s, pid, level="other"):
        s.pid = pid; s.t0 = time.time(); s.tier = os.environ.get("VERIF_TIER", "quick"); s.seed = int(os.environ.get("VERIF_SEED", "1"))
        s.level = level; s.viol = []; s.known = []; s.obl = 0; s.done = 0; s.samples = []; s.undecided = []; s.cov = {}; s.rules = []; s.analysed = []; s.assume = []; s.controls = 0
        s.kf = {}
        if os.path.exists(KF):
            for l in open(KF):
                l = l.strip()
                if l.startswith("finding:"):
                    # finding: property=<id> key=<key> <text>
                    d = l.split(None, 3)
                    p = d[1].split("=", 1)[1]; k = d[2].split("=", 1)[1]
                    if p == pid: s.kf[k] = d[3] if len(d) > 3 else ""
    def rule(s, text): 
        if text not in s.rules: s.rules.append(text)
    def ok(s, what=None):
        s.obl += 1; s.done += 1
        if what and len(s.samples) < 12: s.samples.append(what)
    def bad(s, key, text, where=None):
        """a violated obligation; key identifies the construct (no line numbers)"""
        s.obl += 1
        if key in s.kf:
            if key not in s.known: s.known.append(key)
            return
        s.viol.append({"key": key, "where": where, "what": text})
    def undec(s, what, why):
        s.obl += 1; s.undecided.append({"what": what, "why": why})
    def control(s, cond, what):
        """a positive control of the analysis itself"""
        s.controls += 1
        if not cond: raise build.Broken("positive control failed: " + what)
    def parallel(s, fn, items):
        """fn(check, item) for every item, in processes of their own; results are added up in order"""
        import multiprocessing as mp
        build.ensure_tool(); build.tmp()
        with mp.get_context("fork").Pool(min(len(items), os.cpu_count() or 1)) as pool:
            for r in pool.map(_one, [(s, fn, i) for i in items], chunksize=1):
                if isinstance(r, str): raise build.Broken(r)
                for k in ("viol", "undecided", "analysed"): getattr(s, k).extend(r[k])
                s.samples = (s.samples + r["samples"])[:12]
                s.obl += r["obl"]; s.done += r["done"]; s.controls += r["controls"]
                for k in r["known"]:
                    if k not in s.known: s.known.append(k)
                for t in r["rules"]: s.rule(t)
    def finish(s, min_obl=1):
        if s.obl < min_obl: raise build.Broken("only %d obligations found, expected at least %d" % (s.obl, min_obl))
        for k in s.known: print("KNOWN-FINDING: property=%s %s (%s)" % (s.pid, s.kf[k], k))
        cov = {"explanation": "Static analysis of /repo's current source: " + " | ".join(s.rules), "obligations": s.obl, "discharged": s.done,
               "undecided": len(s.undecided), "undecided_items": s.undecided[:40], "known_findings": s.known, "samples": s.samples, "analysed": s.analysed[:200], "positive_controls": s.controls}
        cov.update(s.cov)
        ev = {"property": s.pid, "tier": s.tier, "seed": s.seed, "level": s.level, "coverage": cov, "assumptions": s.assume, "wall_s": round(time.time() - s.t0, 2), "violations": len(s.viol)}
        os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(build.VERIF, "evidence", s.pid + ".json"), "w"), indent=1)
        if s.viol:
            os.makedirs(os.path.join(build.VERIF, "build"), exist_ok=True)
            rp = os.path.join(build.VERIF, "build", "violation-%s.json" % s.pid)
            json.dump(s.viol, open(rp, "w"), indent=1)
            for v in s.viol[:20]: print("  [%s] %s: %s" % (v["key"], v["where"] or "", v["what"]))
            print("VIOLATION property=%s replay=%s" % (s.pid, rp))
            return 1
        print("%s: %d obligations, %d discharged, %d undecided, %d known findings (%.1fs)" % (s.pid, s.obl, s.done, len(s.undecided), len(s.known), time.time() - s.t0))
        return 0

def _one(a):
    s, fn, item = a
    import traceback
    c = Check(s.pid, s.level)
    try: fn(c, item)
    except build.Broken as e: return str(e)
    except Exception: c.undec("analysis of %r" % (item,), "analysis gave up: " + traceback.format_exc()[-600:])
    return {k: getattr(c, k) for k in ("viol", "undecided", "analysed", "samples", "obl", "done", "controls", "known", "rules")}
