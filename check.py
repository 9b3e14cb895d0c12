#!/usr/bin/env python3
"""check.py ID: decides one property on /repo's current sources.  See DESIGN.md."""
import hashlib, json, os, re, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/lib")
sys.dont_write_bytecode = True
import engine
from engine import Unit, Macro, CheckError

REPLAYS = f"{engine.BUILD}/replays"
FLOOR = .5          # share of harnesses that must be decided


def known():
    """{(property, witness, harness): text} of the findings listed as known"""
    o = {}
    p = f"{HERE}/known-findings.txt"
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) witness=\[(.*?)\] harness=(\S+) (.*)", l.strip())
        if m:
            o[(m[1], m[2], m[3])] = m[4]
    return o


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed, self.t0 = pid, tier, seed, time.time()
        self.known, self.viol, self.notes, self.seen = known(), [], [], []
        self.cov = {}

    def violation(self, witness, harness, what, detail):
        k = (self.pid, witness, harness)
        if k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {witness}: {self.known[k]}", flush=True)
            self.seen.append(witness)
            return
        self.viol.append((witness, harness, what, detail))

    def finish(self, level, assumptions):
        os.makedirs(REPLAYS, exist_ok=True)
        for i, (w, h, what, detail) in enumerate(self.viol):
            if i >= 25:
                print(f"... and {len(self.viol) - i} more")
                break
            n = hashlib.sha1(f"{w}|{h}".encode()).hexdigest()[:10]
            p = f"{REPLAYS}/{self.pid}-{n}.json"
            json.dump({"property": self.pid, "witness": w, "harness": h, "what": what, **detail}, open(p, "w"), indent=1)
            print(f"VIOLATION property={self.pid} replay={p}")
            print(f"  [{w}] {h}: {what}")
        for n in self.notes[:20]:
            print("note:", n)
        e = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
             "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(f"{HERE}/evidence", exist_ok=True)
        json.dump(e, open(f"{HERE}/evidence/{self.pid}.json", "w"), indent=1)
        print(f"{self.pid} {self.tier}: {len(self.viol)} violations, " + ", ".join(f"{k} {v}" for k, v in self.cov.items() if isinstance(v, (int, float))) + f", {e['wall_s']} s")
        return 1 if self.viol else 0


ASSUME = ["the analyser's model of the compiler's intermediate representation is right (rustc's MIR of the nightly toolchain, overflow checks on, 64-bit little-endian target)",
          "the layout model in lib/model.py states the documented layout",
          "programs outside the analysed witness layouts follow the same generator code paths"]


def bitcheck(rep, jobs):
    import harness
    progs = hs = bits = und = steps = 0
    fns, nontriv, samples, kinds = set(), 0, [], {}
    by = {}
    for j in jobs:
        by.setdefault(j.features, []).append(j)
    for features, js in by.items():
        units, meta, n = [], {}, 0
        # one module per layout and feature set, with the harnesses of every job that wants it
        merged = {}
        for j in js:
            for key, L in j.layouts:
                m = merged.setdefault(key, (L, []))
                for k in j.kinds:
                    if (k, j) not in m[1]:
                        m[1].append((k, j))
        for key, (L, ks) in merged.items():
            mod = f"m{n}"
            n += 1
            use, judge = [], {}
            for k, j in ks:
                if k not in use:
                    use.append(k)
            text, hl = harness.module(mod, L, use)
            keepfn = [j.keep for _, j in ks]
            if all(keepfn):
                hl = [h for h in hl if any(f(h.fn.split("::")[-1]) for f in keepfn)]
            units.append(Unit(key, text, hl))
            for h in hl:
                meta[h.fn] = (key, L, h, units[-1], all(j.panics_only for _, j in ks))
        macro = Macro(features)
        res, broken = engine.run(units, macro, tag=rep.pid)
        progs += len(units)
        gone = set()
        for u, ms in broken:
            gone.add(u.key)
            rep.violation(u.key, "compiles", "a documented layout no longer compiles: " + ms[0][:300],
                          {"features": features, "messages": ms[:10], "source": u.text})
        for fn, (key, L, h, u, ponly) in meta.items():
            if key in gone:
                continue
            r = res.get(fn)
            name = fn.split("::")[-1]
            if r is None or "error" in r:
                und += 1
                if len(rep.notes) < 8:
                    rep.notes.append(f"undecided: [{key}] {name}: {(r or {}).get('error', 'no result')}")
                hs += 1
                continue
            hs += 1
            bits += r.get("bits", 0)
            steps += r.get("steps", 0)
            kinds[re.sub(r"_.*", "", name)] = kinds.get(re.sub(r"_.*", "", name), 0) + 1
            fns.add((u.key, r.get("functions")))
            if len(samples) < 4 and r.get("bits", 0) and len(samples) * 97 <= hs:
                samples.append({"witness": key, "features": features, "harness": h.rust, "bits_compared": r.get("bits", 0), "mir_steps": r.get("steps", 0)})
            src = {"features": features, "function": h.rust, "source": u.text, "specification": h.spec[:6000]}
            if r.get("panics"):
                p = r["panics"][0]
                rep.violation(key, name, f"a reachable panic: {p['what']} when {p['when'] or 'always'}", {**src, "panics": r["panics"][:5]})
            elif r.get("nbad") and not ponly:
                b = r["bad"][0]
                rep.violation(key, name, f"{r['nbad']} of {r.get('bits')} bits differ from the documented value; first: {b['bit']} is [{b['got']}] instead of [{b['want']}] when {b['when'] or 'always'}",
                              {**src, "bad": r["bad"][:20]})
    rep.cov = {"programs": progs, "disagreements_checked": bits, "harnesses": hs, "undecided": und, "mir_steps": steps,
               "harnesses_by_kind": kinds, "samples": samples,
               "rule": "every output bit of the harness, as a canonical Boolean function of the input bits, equals the bit the layout model gives; no panic terminator has a satisfiable path condition"}
    if hs and und > hs * (1 - FLOOR) and not rep.viol:
        rep.finish("translation_validation", ASSUME)
        raise CheckError(f"{und} of {hs} harnesses undecided")
    return rep.finish("translation_validation", ASSUME)


def main():
    pid = sys.argv[1]
    if pid == "setup":
        engine.analyser()
        for f in ("derive", engine.FULL):
            Macro(f)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rep = Report(pid, tier, seed)
    import checks
    if pid in checks.JOBS:
        return bitcheck(rep, checks.JOBS[pid](tier, seed))
    import rules
    return getattr(rules, pid.lower())(rep)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR:", e, file=sys.stderr)
        sys.exit(2)
