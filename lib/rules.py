"""Checks decided by compiling witnesses (C22, C23) and by scanning typed witness crates (C29)."""
import engine, rejects
from engine import Macro, HANG


def batch(rep, cases, macro, tag, note):
    """cases: (rule, key, bad source or None, good source or None)"""
    todo = []
    for i, (rule, key, bad, good) in enumerate(cases):
        if bad:
            todo.append((("b", i), bad))
        if good:
            todo.append((("g", i), good))
    uniq, alias = {}, {}
    for k, src in todo:                      # the same accepted twin serves many pairs
        alias[k] = uniq.setdefault(src, k)
    got = engine.accepts([(k, s) for s, k in uniq.items()], macro, tag=rep.pid + tag)
    nb = ng = 0
    reported = set()
    for (side, i), src in todo:
        rule, key, bad, good = cases[i]
        ms = got[alias[(side, i)]]
        if side == "b":
            nb += 1
            if not ms or ms == [HANG]:
                rep.violation(f"{rule}: {key}{note}", "rejected", "the definition compiles" if not ms else HANG, {"source": bad, "accepted_twin": good})
        else:
            if alias[(side, i)] in reported:
                continue
            ng += 1
            if ms:
                reported.add(alias[(side, i)])
                rep.violation(f"{rule}: {key}{note}", "accepted", "a valid definition no longer compiles: " + ms[0][:200], {"source": good, "messages": ms[:5]})
    return nb, ng, got


ASSUME = ["a definition counts as rejected when rustc reports an error for the module it stands in (from the macro or from the code it generates)",
          "each witness stands for the definitions that take the same path through the macro's validation",
          "the macro is built once with and once without overflow checks"]


def c22(rep):
    cases = []
    by = {}
    for name, fam in rejects.FAMILIES:
        l = [(name, k, b, g) for k, b, g in fam()]
        by[name] = len(l)
        cases += l
    nb = ng = 0
    for checks, note in ((True, ""), (False, " (macro without overflow checks)")):
        if not checks and rep.tier == "quick":
            sub = [c for i, c in enumerate(cases) if c[0] != "width" or i % 6 == 0]
        else:
            sub = cases
        b, g, got = batch(rep, sub, Macro(engine.FULL, checks), "n" if not checks else "c", note)
        nb, ng = nb + b, ng + g
    rep.cov = {"programs": nb + ng, "disagreements_checked": nb + ng, "explanation": "compile-fail witnesses: every definition with the defect must be rejected by rustc with the macro of the current tree, its twin without the defect must compile",
               "rejected_witnesses": nb, "accepted_twins": ng, "pairs_by_rule": by, "samples": [{"rule": c[0], "key": c[1]} for c in cases[:: max(1, len(cases) // 8)]]}
    return rep.finish("other", ASSUME)


def c23(rep):
    import checks
    q = rep.tier == "quick"
    ls = checks.small(rep.tier, rep.seed, .5) + checks.rnd(rep.tier, rep.seed, 150, 2500)
    ls = checks.sample(ls, 260, rep.seed) if q else ls
    cases = []
    for key, L in ls:
        for k, ok, src in rejects.enforced(L):
            cases.append(("enforcement", f"{key}, {rejects.bits_defined(L)} bits, {k}", None if ok else src, src if ok else None))
    b, g, _ = batch(rep, cases, Macro(engine.FULL), "c", "")
    rep.cov = {"programs": b + g, "disagreements_checked": b + g, "explanation": "compile-fail witnesses: a layout with an enforcement attribute compiles exactly when the attribute states the number of bits its fields define (enums: no fewer)",
               "layouts": len(ls), "rejected_witnesses": b, "accepted_twins": g, "samples": [{"key": c[1]} for c in cases[:: max(1, len(cases) // 8)]]}
    return rep.finish("other", ASSUME[:2])


def defs_of(L):
    o, seen = [], set()

    def walk(x):
        for d in x.needs():
            if d.name not in seen:
                seen.add(d.name)
                walk(d)
                o.append(d.defs())
    walk(L)
    return "\n".join(o + [L.defs()])


NOSTD = "#![no_std]\n#![allow(warnings)]\n#![forbid(unsafe_code)]\n"


def c29(rep):
    import checks, concurrent.futures, re
    q = rep.tier == "quick"
    ls = checks.small(rep.tier, rep.seed, .5) + checks.sample(checks.ints(rep.tier), 40) + checks.rnd(rep.tier, rep.seed, 80, 1500)
    ls = [(k, defs_of(L)) for k, L in (checks.sample(ls, 240) if q else ls)]
    cl = [(k, defs_of(L)) for k, L in checks.sample(checks.fam_cenum(3), 60 if q else 400)]
    ls += cl
    nf = ncrate = 0
    samples = []

    def judge(r, where, features, src_of, own):
        nonlocal nf, ncrate
        ncrate += 1
        for u in r["unsafe"]:
            k, src = src_of(u["in"])
            rep.violation(f"{where}: {k}", "unsafe", f"{u['what']} in {u['in']}", {"features": features, "at": u["at"], "source": src})
        for f in r["fns"]:
            nf += 1
            k, src = src_of(f["path"])
            bad = sorted({x.split("|")[0] for x in f["reach"]} - {"core", "bondrewd", "w", "compiler_builtins"} - ({"alloc"} if "dyn_fns" in features else set()))
            if bad:
                rep.violation(f"{where}: {k}", "no_std", f"{f['path']} reaches {', '.join(x for x in f['reach'] if x.split('|')[0] in bad)[:200]}", {"features": features, "source": src})
            if features == "derive" and not own:
                fall = [x for x in f["returns"] if re.search(r"(^|::)(Result|Option|Poll|ControlFlow)$|Error$", x)]
                if fall:
                    rep.violation(f"{where}: {k}", "fallible", f"{f['path']} returns {', '.join(fall)} without an optional feature", {"features": features, "source": src})
        if own and "std" in r["crates"]:
            rep.violation(where, "no_std", "the crate links std without its std feature", {"features": features, "crates": r["crates"]})

    sets = ("derive", "derive,hex_fns", "derive,dyn_fns", engine.FULL)
    for fi, features in enumerate(sets):
        m = Macro(features, std=False)
        own = f"{engine.BUILD}/ws/bondrewd/src/lib.rs"
        cfg = [x for f in features.split(",") + ["bondrewd-derive"] for x in ("--cfg", f'feature="{f}"')]
        r, errs = engine.scan(m, own, f"own{fi}", ["--crate-name", "bondrewd", "--extern", f"bondrewd_derive={m.so}", *cfg])
        if r is None:
            rep.violation(f"the bondrewd crate with {features} and without std", "no_std", "does not compile: " + errs[0][:200], {"features": features})
        else:
            judge(r, f"the bondrewd crate with {features}", features, lambda p: (p, None), True)
        got = engine.accepts(ls, m, tag=f"{rep.pid}{fi}", header=NOSTD)
        good = []
        for k, src in ls:
            if got[k]:
                rep.violation(k, "no_std", f"does not compile in a no_std crate that forbids unsafe code, with {features}: " + got[k][0][:200], {"features": features, "source": src})
            else:
                good.append((k, src))
        parts = [good[i::8] for i in range(8)]

        def one(pi):
            part = parts[pi]
            txt = NOSTD + "\n".join(f"pub mod m{i} {{ use bondrewd::*;\n{src}\n}}" for i, (_, src) in enumerate(part))
            return part, engine.scan(m, txt, f"{fi}-{pi}", ["--crate-name", "w"])
        with concurrent.futures.ThreadPoolExecutor(engine.JOBS) as ex:
            for part, (r, errs) in ex.map(one, range(8)):
                if r is None:
                    if part:
                        raise engine.CheckError("scan failed: " + str(errs[:1]))
                    continue

                def src_of(path):
                    x = re.search(r"\bm(\d+)::", path)
                    return part[int(x[1])] if x else (path, None)
                judge(r, features, features, src_of, False)
                if len(samples) < 4:
                    samples.append({"features": features, "functions": [f["path"] for f in r["fns"][:6]]})
    rep.cov = {"programs": len(ls) * len(sets), "disagreements_checked": nf, "functions_scanned": nf, "crates_scanned": ncrate, "samples": samples,
               "explanation": "effect scan of the typed program: no unsafe block, function, impl, assembly or foreign item in generated code or in the bondrewd crate; bodies reach core and bondrewd only (alloc with dyn_fns); with only the derive feature no function returns Result, Option or an error; every witness compiles in a no_std crate that forbids unsafe code"}
    return rep.finish("other", ["witness layouts take every path of the generators"])


def c37(rep):
    import texts
    return texts.c37(rep)


def c39(rep):
    import checks, concurrent.futures, re
    q = rep.tier == "quick"
    cov = dict(bodies=0, calls=0, statics=0, walks=0, crates=0)

    def judge(r, where, rule, src_of=lambda p: None):
        cov["crates"] += 1
        for k in ("bodies", "calls", "statics", "walks"):
            cov[k] += r[k]
        seen = set()
        for f in r["found"]:
            k = (f["what"], f["in"])
            if k not in seen:
                seen.add(k)
                rep.violation(f"{where}: {f['in'] or 'the crate'}", rule, f"{f['in'] or 'the crate'} {f['what']}", {"what": f["what"], "at": f["at"], "source": src_of(f["in"])})

    m = Macro(engine.FULL)
    for features in ("", "dyn_fns,hex_fns,part_eq_enums"):
        r, errs = engine.effects(m, features)
        if r is None:
            raise engine.CheckError("the macro's crate could not be analysed: " + str(errs[:2]))
        judge(r, f"the macro's crate with features [{features}]", "expansion")
    own = f"{engine.BUILD}/ws/bondrewd/src/lib.rs"
    for fi, features in enumerate(("", engine.FULL + ",std")):
        cfg = [x for f in [f for f in features.split(",") if f] + ["bondrewd-derive"] for x in ("--cfg", f'feature="{f}"')]
        r, errs = engine.scan(m, own, f"eown{fi}", ["--crate-name", "bondrewd", "--extern", f"bondrewd_derive={m.so}", *cfg], mode="effects")
        if r is None:
            raise engine.CheckError("the bondrewd crate could not be analysed: " + str(errs[:2]))
        judge(r, f"the bondrewd crate with features [{features}]", "library")
    ls = checks.small(rep.tier, rep.seed, .5) + checks.sample(checks.ints(rep.tier), 60) + checks.rnd(rep.tier, rep.seed, 80, 600)
    ls = checks.sample(ls, 200, rep.seed) if q else checks.sample(ls, 1500, rep.seed)
    ls += checks.sample(checks.fam_cenum(3), 40 if q else 400)
    ds = [(k, defs_of(L)) for k, L in ls]
    got = engine.accepts(ds, m, tag=rep.pid)
    good = [(k, s) for k, s in ds if not got[k]]
    parts = [good[i:i + 60] for i in range(0, len(good), 60)]

    def one(i):
        txt = "#![allow(warnings)]\n" + "\n".join(f"pub mod m{j} {{ use bondrewd::*;\n{src}\n}}" for j, (_, src) in enumerate(parts[i]))
        return i, engine.scan(m, txt, f"ew{i}", ["--crate-name", "w"], mode="effects")
    with concurrent.futures.ThreadPoolExecutor(engine.JOBS) as ex:
        for i, (r, errs) in ex.map(one, range(len(parts))):
            if r is None:
                raise engine.CheckError("generated code could not be analysed: " + str(errs[:2]))

            def src_of(path):
                x = re.search(r"\bm(\d+)::", path)
                return parts[i][int(x[1])][1] if x else None
            judge(r, "generated code", "generated", src_of)
    rep.cov = {"programs": len(good), "disagreements_checked": cov["calls"], "bodies_analysed": cov["bodies"], "calls_analysed": cov["calls"], "statics": cov["statics"], "hash_table_walks": cov["walks"],
               "crates_analysed": cov["crates"], "layouts_that_did_not_compile": len(ds) - len(good),
               "samples": [{"crate": "bondrewd_derive"}, {"crate": "bondrewd"}] + [{"layout": k} for k, _ in good[:4]],
               "explanation": "effect analysis: no body of the macro's crate, of the bondrewd crate or of generated code keeps state, reads the environment, files, clocks, randomness, addresses or source positions, or lets the order of a hash table reach its result"}
    return rep.finish("other", ["syn, quote, proc_macro2, convert_case and the standard library do what their documentation says", "witness layouts take every path of the generators"])


def c40(rep):
    import iface
    return iface.c40(rep)


def c41(rep):
    import explain
    return explain.c41(rep)
