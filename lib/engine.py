"""Builds the analyser, the macro (from /repo's current sources) and the witness crates, and runs the
analysis in parallel shards."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, threading, time, tomllib
import mkws

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BONDREWD_REPO", "/repo")
BUILD = os.environ.get("BITFLOW_BUILD", os.path.join(HERE, ".build"))
JOBS = int(os.environ.get("BITFLOW_JOBS", "8"))
FULL = "derive,dyn_fns,hex_fns"


STARTED = time.time()
# a quick check must answer within 900 s: what is not analysed by then is undecided
TIME = int(os.environ.get("BITFLOW_TIME", "760" if os.environ.get("VERIF_TIER", "quick") == "quick" else "100000"))
EXPAND = 120        # a shard's macro expansion and type check take a few seconds


class CheckError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    return _sysroot


def analyser():
    r = sh(["cargo", "+nightly", "build", "--offline", "--release", "--quiet", "--target-dir", f"{BUILD}/bitflow"], cwd=f"{HERE}/bitflow")
    if r.returncode:
        raise CheckError("the analyser does not build:\n" + r.stderr[-3000:])
    return f"{BUILD}/bitflow/release/bitflow"


class Macro:
    """the two crates of /repo, built with a feature set"""

    def __init__(self, features=FULL, checks=True, std=True):
        """checks=False: the macro as a release build runs it, without overflow checks; std=False: bondrewd
        without its default features"""
        tag = hashlib.sha1(features.encode()).hexdigest()[:6] + ("" if checks else "n") + ("" if std else "c")
        self.features, self.std = features, std
        ws, self.target = f"{BUILD}/ws", f"{BUILD}/macro-{tag}"
        mkws.make(REPO, ws)
        r = sh(["cargo", "+nightly", "build", "--offline", "--quiet", "-p", "bondrewd", "--features", features, *([] if std else ["--no-default-features"]),
                "--target-dir", self.target, "--message-format=json"], env={"RUSTFLAGS": "-Zalways-encode-mir", **({} if checks else {"CARGO_PROFILE_DEV_BUILD_OVERRIDE_OVERFLOW_CHECKS": "false", "CARGO_PROFILE_DEV_BUILD_OVERRIDE_DEBUG_ASSERTIONS": "false"})}, cwd=ws)
        if r.returncode:
            raise CheckError("/repo does not build:\n" + r.stderr[-3000:] + r.stdout[-2000:])
        self.rlib = self.rmeta = self.so = None
        self.deps = {}
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                n = m["target"]["name"].replace("-", "_")
                for f in m["filenames"]:
                    if f.endswith((".rlib", ".rmeta", ".so")):
                        self.deps.setdefault(n, []).append(f)
                    if n == "bondrewd" and f.endswith(".rlib"):
                        self.rlib = f
                    if n == "bondrewd" and f.endswith(".rmeta"):
                        self.rmeta = f
                    if n == "bondrewd_derive" and f.endswith(".so"):
                        self.so = f
        if not (self.rlib and self.so):
            raise CheckError("cargo reported no bondrewd artifacts")
        if self.rmeta is None:
            c = self.rlib[:-5] + ".rmeta"
            self.rmeta = c if os.path.exists(c) else self.rlib

    def rustc_args(self):
        return ["--sysroot", sysroot(), "--edition", "2021", "--crate-type", "lib", "--extern", f"bondrewd={self.rmeta}",
                "-L", f"dependency={os.path.dirname(self.rmeta)}", "-L", f"dependency={os.path.dirname(self.so)}",
                "--error-format=json"]


HANG = "the macro does not terminate"
HEADER = "#![allow(warnings)]\n"


class Message(str):
    """text of a compiler error, its code (None for an error of a macro) and the source it points at"""
    code = at = None


def parse_errors(stderr, path):
    """[(line or None, message)]"""
    out = []
    for l in stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            if "panicked" in l or "overflowed its stack" in l:
                out.append((None, l))
            continue
        if m.get("level") not in ("error", "error: internal compiler error"):
            continue
        if not m.get("spans") and m.get("message", "").startswith("aborting due to"):
            continue
        line = None
        for s in m.get("spans", []):
            x = s
            while x.get("expansion") and x["file_name"] != path:
                x = x["expansion"]["span"]
            if os.path.basename(x["file_name"]) == os.path.basename(path):
                line = x["line_start"]
                if s.get("is_primary"):
                    break
        notes = " ".join(c.get("message", "") for c in m.get("children", []))
        msg = Message((m.get("message", "") + (" | " + notes if notes else ""))[:500])
        msg.code = (m.get("code") or {}).get("code")
        x = next((s for s in m.get("spans", []) if s.get("is_primary")), None)
        if x and os.path.basename(x["file_name"]) == os.path.basename(path) and x.get("text"):
            msg.at = (x["text"][0]["text"], x["text"][0]["highlight_start"] - 1, x["text"][0]["highlight_end"] - 1)
        out.append((line, msg))
    return out


class Unit:
    """one witness module and its harnesses"""

    def __init__(self, key, text, harnesses):
        self.key, self.text, self.hs = key, text, harnesses


hang_lock, hang_found = threading.Lock(), threading.Event()


def analyse(cmd, env, cwd, begun):
    """the analyser's stderr, or None when it is still expanding macros after EXPAND seconds"""
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET")}
    e.update(env)
    if os.path.exists(begun):
        os.remove(begun)
    with open(f"{cwd}/stderr", "w+") as f:
        p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.DEVNULL, stderr=f)
        try:
            try:
                p.wait(EXPAND)
            except subprocess.TimeoutExpired:
                if not os.path.exists(begun):
                    return None
                p.wait()
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
        f.seek(0)
        return f.read()


def hanging(units, args, d):
    """a unit whose macro invocation does not terminate, or None"""
    def hangs(us, limit):
        open(f"{d}/h.rs", "w").write(HEADER + "".join(u.text for u in us))
        try:
            sh(["rustc", "+nightly"] + args + ["--emit=metadata", "-o", f"{d}/h.rmeta", f"{d}/h.rs"], cwd=d, timeout=limit)
        except subprocess.TimeoutExpired:
            return True
        return False
    if not hangs(units, 60):
        return None
    while len(units) > 1:
        a, b = units[:len(units) // 2], units[len(units) // 2:]
        units = a if hangs(a, 20) else b
    return units[0] if hangs(units, 20) else None


def run_shard(args):
    """returns (results by harness name, {module index: [messages]})"""
    tool, macro_args, units, d, extra = args
    os.makedirs(d, exist_ok=True)
    live, broken, res = list(range(len(units))), {}, {}
    stats = {"compile": 0}
    for attempt in range(40):
        if not live:
            break
        txt, line, ranges, spec = HEADER, HEADER.count("\n") + 1, [], []
        for i in live:
            n = units[i].text.count("\n")
            ranges.append((line, line + n - 1, i))
            line += n
            txt += units[i].text
            spec += [h.spec for h in units[i].hs]
        open(f"{d}/w.rs", "w").write(txt)
        open(f"{d}/s.txt", "w").write("\n".join(spec) + "\n")
        if os.path.exists(f"{d}/out.json"):
            os.remove(f"{d}/out.json")
        if hang_found.is_set():         # one shard has shown that the macro hangs: enough
            break
        stderr = analyse([tool, f"{d}/s.txt", f"{d}/out.json", "--"] + macro_args + ["-Zmir-opt-level=0", "-Zalways-encode-mir", "-Cdebug-assertions=on", "-Coverflow-checks=on", f"{d}/w.rs"],
                         {"LD_LIBRARY_PATH": sysroot() + "/lib", "RUST_MIN_STACK": "1000000000", "BITFLOW_DEADLINE": str(int(STARTED + TIME)), **extra}, d, f"{d}/out.json.begun")
        if stderr is None:
            with hang_lock:
                if hang_found.is_set():
                    break
                u = hanging([units[i] for i in live], macro_args, d)
                if u is None:
                    raise CheckError(f"macro expansion of a shard takes more than {EXPAND} s")
                hang_found.set()
                broken[units.index(u)] = [HANG]
            break
        stats["compile"] += 1
        if os.path.exists(f"{d}/out.json"):
            for x in json.load(open(f"{d}/out.json")):
                res[x["name"]] = x
            break
        errs = parse_errors(stderr, f"{d}/w.rs")
        bad = {}
        for ln, msg in errs:
            if ln is None:
                continue
            for a, b, i in ranges:
                if a <= ln <= b:
                    bad.setdefault(i, []).append(msg)
        if not bad:
            if len(live) == 1:
                broken.setdefault(live[0], []).append((errs[0][1] if errs else stderr[-800:]) or "no diagnostics")
                live = []
                continue
            raise CheckError("witness crate fails without a location: " + json.dumps(errs[:3]) + stderr[-600:])
        for i, ms in bad.items():
            broken.setdefault(i, []).extend(ms)
        live = [i for i in live if i not in bad]
    return res, broken, stats


def run(units, macro=None, jobs=None, dump=False, tag="run"):
    """analyse all units; returns (results, broken units, totals)"""
    tool = analyser()
    macro = macro or Macro()
    jobs = jobs or JOBS
    n = max(1, min(jobs * 3, (len(units) + 5) // 6), (len(units) + 59) // 60)
    shards = [units[i::n] for i in range(n)]
    base = f"{BUILD}/w-{tag}-{os.getpid()}"
    shutil.rmtree(base, ignore_errors=True)
    extra = {"BITFLOW_DUMP": "1"} if dump else {}
    jobsargs = [(tool, macro.rustc_args(), s, f"{base}/{i}", extra) for i, s in enumerate(shards)]
    res, broken = {}, []
    try:
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for i, (r, b, st) in enumerate(ex.map(run_shard, jobsargs)):
                res.update(r)
                broken += [(shards[i][k], ms) for k, ms in b.items()]
    finally:
        if not os.environ.get("BITFLOW_KEEP"):
            shutil.rmtree(base, ignore_errors=True)
    return res, broken


def compile_fail(cases, macro=None, jobs=None, tag="cf"):
    """cases: [(key, source)] each compiled alone; returns {key: (ok, [messages])}"""
    macro = macro or Macro()
    base = f"{BUILD}/c-{tag}-{os.getpid()}"
    shutil.rmtree(base, ignore_errors=True)
    args = macro.rustc_args()

    def one(ic):
        i, (key, src, *extra) = ic
        d = f"{base}/{i}"
        os.makedirs(d)
        open(f"{d}/w.rs", "w").write(src)
        r = sh(["rustc", "+nightly"] + args + (extra[0] if extra else []) + ["--emit=metadata", "-o", f"{d}/w.rmeta", f"{d}/w.rs"], cwd=d)
        errs = [m for _, m in parse_errors(r.stderr, f"{d}/w.rs")]
        if r.returncode and not errs:
            errs = [r.stderr[-600:]]
        return key, (r.returncode == 0, errs)

    try:
        with concurrent.futures.ThreadPoolExecutor(jobs or JOBS) as ex:
            return dict(ex.map(one, enumerate(cases)))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def accepts(cases, macro=None, jobs=None, tag="acc", header=HEADER, extra=()):
    """cases: [(key, module body)]; returns {key: [messages]} - an empty list means the body compiles.

    Many bodies share a crate; bodies with errors are taken out until the rest compiles, so that errors
    of a later compiler phase are not hidden by those of an earlier one."""
    macro = macro or Macro()
    base = f"{BUILD}/a-{tag}-{os.getpid()}"
    shutil.rmtree(base, ignore_errors=True)
    args = macro.rustc_args()
    n = max(1, min((jobs or JOBS) * 2, (len(cases) + 11) // 12), (len(cases) + 59) // 60)

    def shard(k):
        mine = cases[k::n]
        d = f"{base}/{k}"
        os.makedirs(d)
        got = {key: [] for key, _ in mine}
        live = list(mine)
        for _ in range(60):
            if not live:
                return got
            txt, line, ranges = header, header.count("\n") + 1, []
            for i, (key, body) in enumerate(live):
                m = f"pub mod m{i} {{ use bondrewd::*;\n{body}\n}}\n"
                ranges.append((line, line + m.count("\n") - 1, key))
                line += m.count("\n")
                txt += m
            open(f"{d}/w.rs", "w").write(txt)
            try:
                r = sh(["rustc", "+nightly"] + args + list(extra) + ["--emit=metadata", "-o", f"{d}/w.rmeta", f"{d}/w.rs"], cwd=d, timeout=60)
            except subprocess.TimeoutExpired:
                for c in live:
                    got[c[0]] += alone(c, f"{d}/one")
                return got
            if r.returncode == 0:
                return got
            bad = set()
            errs = parse_errors(r.stderr, f"{d}/w.rs")
            for ln, msg in errs:
                for a, b, key in ranges:
                    if ln is not None and a <= ln <= b:
                        got[key].append(msg)
                        bad.add(key)
            if not bad:
                if len(live) > 1:       # no location: try one at a time
                    for c in live:
                        got[c[0]] += alone(c, f"{d}/one")
                    return got
                got[live[0][0]].append(errs[0][1] if errs else r.stderr[-400:])
                return got
            live = [c for c in live if c[0] not in bad]
        raise CheckError("bodies keep failing")

    def alone(c, d):
        os.makedirs(d, exist_ok=True)
        open(f"{d}/w.rs", "w").write(header + f"pub mod m {{ use bondrewd::*;\n{c[1]}\n}}\n")
        try:
            r = sh(["rustc", "+nightly"] + args + list(extra) + ["--emit=metadata", "-o", f"{d}/w.rmeta", f"{d}/w.rs"], cwd=d, timeout=20)
        except subprocess.TimeoutExpired:
            return [HANG]
        if r.returncode == 0:
            return []
        errs = parse_errors(r.stderr, f"{d}/w.rs")
        return [m for _, m in errs] or [r.stderr[-400:]]

    try:
        out = {}
        with concurrent.futures.ThreadPoolExecutor(jobs or JOBS) as ex:
            for g in ex.map(shard, range(n)):
                out.update(g)
        return out
    finally:
        shutil.rmtree(base, ignore_errors=True)


def scan(macro, src, name, args=(), mode="scan"):
    """effect scan of one crate: (result, [messages])"""
    tool = analyser()
    d = f"{BUILD}/s-{name}-{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    try:
        if not os.path.exists(src):
            open(f"{d}/w.rs", "w").write(src)
            src = f"{d}/w.rs"
        r = sh([tool, mode, f"{d}/out.json", "--"] + macro.rustc_args() + ["-Zmir-opt-level=0", "-Zalways-encode-mir", *args, src],
               env={"LD_LIBRARY_PATH": sysroot() + "/lib"}, cwd=d)
        if not os.path.exists(f"{d}/out.json"):
            return None, [m for _, m in parse_errors(r.stderr, src)] or [r.stderr[-600:]]
        return json.load(open(f"{d}/out.json")), []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def effects(macro, features, src=None):
    """what the bodies of the macro's crate can depend on: (result, [messages])"""
    tool = analyser()
    d = f"{BUILD}/e-{hashlib.sha1((features + str(src)).encode()).hexdigest()[:8]}-{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    manifest = tomllib.load(open(f"{BUILD}/ws/bondrewd-derive/Cargo.toml", "rb"))
    path = src or f"{BUILD}/ws/bondrewd-derive/" + manifest.get("lib", {}).get("path", "src/lib.rs")
    args = ["--sysroot", sysroot(), "--edition", manifest["package"].get("edition", "2015"), "--crate-type", "proc-macro", "--crate-name", "bondrewd_derive",
            "--extern", "proc_macro", "-L", f"dependency={os.path.dirname(macro.so)}", "--error-format=json", "-Zmir-opt-level=0", "-Zalways-encode-mir"]
    for n, fs in sorted(macro.deps.items()):
        if n not in ("bondrewd", "bondrewd_derive"):
            args += [x for f in fs for x in ("--extern", f"{n}={f}", "-L", f"dependency={os.path.dirname(f)}")]
    for f in features.split(","):
        args += ["--cfg", f'feature="{f}"']
    try:
        r = sh([tool, "effects", f"{d}/out.json", "--"] + args + [path], env={"LD_LIBRARY_PATH": sysroot() + "/lib"}, cwd=d)
        if not os.path.exists(f"{d}/out.json"):
            return None, [m for _, m in parse_errors(r.stderr, path)] or [r.stderr[-600:]]
        return json.load(open(f"{d}/out.json")), []
    finally:
        shutil.rmtree(d, ignore_errors=True)
