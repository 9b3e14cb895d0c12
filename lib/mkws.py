"""Writes a cargo workspace that builds /repo's two crates.

/repo's own manifests cannot be resolved offline (bondrewd names a private registry for the derive
crate), so the manifests are re-emitted with that one dependency redirected to its sibling.  Sources
are mirrored by content, so cargo rebuilds exactly when /repo's text differs from the last build."""
import json, os, sys, tomllib


def val(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {val(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(map(val, v)) + "]"
    return json.dumps(v)


def table(name, items):
    return f"[{name}]\n" + "".join(f"{json.dumps(k)} = {val(v)}\n" for k, v in items.items()) + "\n"


def put(path, data):
    if isinstance(data, str):
        data = data.encode()
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path, "rb").read() != data:
        open(path, "wb").write(data)


def mirror(src, dst):
    want = set()
    for d, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), src)
            want.add(rel)
            put(os.path.join(dst, rel), open(os.path.join(d, f), "rb").read())
    for d, _, fs in os.walk(dst):
        for f in fs:
            if os.path.relpath(os.path.join(d, f), dst) not in want:
                os.remove(os.path.join(d, f))


def make(repo, ws):
    for member in ("bondrewd", "bondrewd-derive"):
        m = tomllib.load(open(f"{repo}/{member}/Cargo.toml", "rb"))
        m.pop("dev-dependencies", None)
        for name, dep in m.get("dependencies", {}).items():
            if isinstance(dep, dict) and ("registry" in dep or "path" in dep):
                keep = {k: v for k, v in dep.items() if k not in ("registry", "path", "version")}
                keep["path"] = f"../{name}"
                m["dependencies"][name] = keep
        pkg = {k: v for k, v in m["package"].items() if k in ("name", "version", "edition")}
        lib = dict(m.get("lib", {}))
        lib.setdefault("path", "src/lib.rs")
        mirror(f"{repo}/{member}/src", f"{ws}/{member}/src")
        txt = table("package", pkg) + table("lib", lib)
        txt += table("dependencies", m.get("dependencies", {})) + table("features", m.get("features", {}))
        put(f"{ws}/{member}/Cargo.toml", txt)
    put(f"{ws}/Cargo.toml", '[workspace]\nmembers = ["bondrewd", "bondrewd-derive"]\nresolver = "2"\n'
        '[profile.dev]\ndebug = 0\n[profile.dev.build-override]\nopt-level = 1\n')


if __name__ == "__main__":
    make(sys.argv[1], sys.argv[2])
