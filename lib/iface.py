"""C40: the generated interface.  Every item the documentation names is coerced to its documented type in a
sibling module of the definition, and must be visible outside the crate."""
import concurrent.futures
import re
import engine, checks
from engine import Macro
from model import Enum
from rules import defs_of


def items(L, features):
    """[(what, path or None, statement)] of the interface of a layout's type"""
    n, b = L.name, L.B
    dyn, hexf = "dyn_fns" in features, "hex_fns" in features
    o = [("Bitfields::into_bytes", None, f"let _: fn({n}) -> [u8; {b}] = <{n} as Bitfields<{b}>>::into_bytes;"),
         ("Bitfields::from_bytes", None, f"let _: fn([u8; {b}]) -> {n} = <{n} as Bitfields<{b}>>::from_bytes;"),
         ("Bitfields::BIT_SIZE", None, f"const _: usize = <{n} as Bitfields<{b}>>::BIT_SIZE;"),
         ("Bitfields::BYTE_SIZE", None, f"const _: [u8; {b}] = [0; <{n} as Bitfields<{b}>>::BYTE_SIZE];")]
    E = "BitfieldLengthError"
    if dyn:
        o += [("BitfieldsDyn::from_vec", None, f"let _: fn(&mut Vec<u8>) -> Result<{n}, {E}> = <{n} as BitfieldsDyn<{b}>>::from_vec;"),
              ("BitfieldsDyn::from_slice", None, f"let _: fn(&[u8]) -> Result<{n}, {E}> = <{n} as BitfieldsDyn<{b}>>::from_slice;"),
              ("check_slice", f"{n}::check_slice", f"let _: fn(&'a [u8]) -> Result<{n}Checked<'a>, {E}> = {n}::check_slice;"),
              ("check_slice_mut", f"{n}::check_slice_mut", f"let _: fn(&'a mut [u8]) -> Result<{n}CheckedMut<'a>, {E}> = {n}::check_slice_mut;"),
              ("the view", f"{n}Checked", ""), ("the mutable view", f"{n}CheckedMut", ""),
              ("from_unchecked_slice", f"{n}Checked::from_unchecked_slice", f"let _: fn(&'a [u8]) -> {n}Checked<'a> = {n}Checked::<'a>::from_unchecked_slice;"),
              ("from_unchecked_slice", f"{n}CheckedMut::from_unchecked_slice", f"let _: fn(&'a mut [u8]) -> {n}CheckedMut<'a> = {n}CheckedMut::<'a>::from_unchecked_slice;")]
    if hexf:
        t = f"<{n} as BitfieldHex<{2 * b}, {b}>>"
        o += [("BitfieldHex::from_hex", None, f"let _: fn([u8; {2 * b}]) -> Result<{n}, BitfieldHexError> = {t}::from_hex;"),
              ("BitfieldHex::into_hex_upper", None, f"let _: fn({n}) -> [u8; {2 * b}] = {t}::into_hex_upper;"),
              ("BitfieldHex::into_hex_lower", None, f"let _: fn({n}) -> [u8; {2 * b}] = {t}::into_hex_lower;")]
    if hexf and dyn:
        t = f"<{n} as BitfieldHexDyn<{2 * b}, {b}>>"
        o += [("BitfieldHexDyn::from_hex_vec", None, f"let _: fn(&mut Vec<u8>) -> Result<{n}, BitfieldHexDynError> = {t}::from_hex_vec;"),
              ("BitfieldHexDyn::from_hex_slice", None, f"let _: fn(&[u8]) -> Result<{n}, BitfieldHexDynError> = {t}::from_hex_slice;")]
    for nm, acc in L.accessors():
        t = L.acc_ty(acc).rust
        w = acc == "id" or L.can_write(acc)
        o.append((f"read_{nm}", f"{n}::read_{nm}", f"let _: fn(&[u8; {b}]) -> {t} = {n}::read_{nm};"))
        if w:
            o.append((f"write_{nm}", f"{n}::write_{nm}", f"let _: fn(&mut [u8; {b}], {t}) = {n}::write_{nm};"))
        if not dyn:
            continue
        o.append((f"read_slice_{nm}", f"{n}::read_slice_{nm}", f"let _: fn(&[u8]) -> Result<{t}, {E}> = {n}::read_slice_{nm};"))
        if acc == "id":
            continue
        for v in ("Checked", "CheckedMut"):
            o.append((f"the view's read_{nm}", f"{n}{v}::read_{nm}", f"let _: fn(&{n}{v}<'a>) -> {t} = {n}{v}::<'a>::read_{nm};"))
        if w:
            o.append((f"write_slice_{nm}", f"{n}::write_slice_{nm}", f"let _: fn(&mut [u8], {t}) -> Result<(), {E}> = {n}::write_slice_{nm};"))
            o.append((f"the view's write_{nm}", f"{n}CheckedMut::write_{nm}", f"let _: fn(&mut {n}CheckedMut<'a>, {t}) = {n}CheckedMut::<'a>::write_{nm};"))
    if isinstance(L, Enum):
        o.append(("id", f"{n}::id", f"let _: fn(&{n}) -> {L.id_ty.rust} = {n}::id;"))
    return o


def enum_items(D):
    n = D.name
    return [("BitfieldEnum::from_primitive", None, f"let _: fn(u8) -> {n} = <{n} as BitfieldEnum>::from_primitive;"),
            ("BitfieldEnum::into_primitive", None, f"let _: fn({n}) -> u8 = <{n} as BitfieldEnum>::into_primitive;"),
            ("BitfieldEnum::Primitive", None, f"let _: <{n} as BitfieldEnum>::Primitive = 0u8;")]


def body(defs, its):
    return f"pub mod d {{ use bondrewd::*;\n{defs}\n}}\nmod w {{ #[allow(unused)] use bondrewd::*; use super::d::*;\nfn w<'a>() {{\n" + "\n".join(s for _, _, s in its if s) + "\n} }"


def library(features, std):
    """the crate's own items"""
    o = ["fn show<T: core::fmt::Display + core::fmt::Debug + Send + Sync + 'static>() {}"]
    f = []
    if std:
        o.append("fn err<T: std::error::Error>() {}")
    errs = (["BitfieldLengthError"] if "dyn_fns" in features else []) + (["BitfieldHexError"] if "hex_fns" in features else []) + \
           (["BitfieldHexDynError"] if "dyn_fns" in features and "hex_fns" in features else [])
    for e in errs:
        f.append(f"show::<{e}>();" + (f" err::<{e}>();" if std else ""))
    if "BitfieldLengthError" in errs:
        f.append("let BitfieldLengthError(a, b) = BitfieldLengthError(1usize, 2usize); let _: (usize, usize) = (a, b);")
    if "BitfieldHexError" in errs:
        f.append("let BitfieldHexError(a, b) = BitfieldHexError('c', 2usize); let _: (char, usize) = (a, b);")
    if "BitfieldHexDynError" in errs:
        f.append("match BitfieldHexDynError::from(BitfieldHexError('c', 1)) { BitfieldHexDynError::Hex(x) => { let _: BitfieldHexError = x; }, BitfieldHexDynError::Length(x) => { let _: BitfieldLengthError = x; } }")
        f.append("let _: BitfieldHexDynError = BitfieldLengthError(1, 2).into();")
    return "\n".join(o) + "\nfn all() {\n" + "\n".join(f) + "\n}"


def norm(p):
    while True:
        q = re.sub(r"(::)?<[^<>]*>", "", p)
        if q == p:
            return p
        p = q


def c40(rep):
    q = rep.tier == "quick"
    ls = checks.small(rep.tier, rep.seed, .5) + checks.rnd(rep.tier, rep.seed, 80, 1500)
    ls = checks.sample(ls, 260 if q else 1200, rep.seed)
    ces = checks.sample(checks.fam_cenum(3), 40 if q else 300)
    nitems = nvis = nprog = 0
    samples = []
    sets = ("derive", "derive,hex_fns", "derive,dyn_fns", engine.FULL)
    for fi, features in enumerate(sets):
        m = Macro(features)
        full = features == engine.FULL
        use = ls if full or not q else ls[fi::3]
        cases = [(k, defs_of(L), items(L, features)) for k, L in use] + [(k, defs_of(D), enum_items(D)) for k, D in (ces if full else [])]
        src = {k: body(d, its) for k, d, its in cases}
        nprog += len(src)
        nitems += sum(len(its) for _, _, its in cases)
        got = engine.accepts(list(src.items()) + [("the bondrewd crate", library(features, True))], m, tag=f"{rep.pid}{fi}")
        for k, ms in got.items():
            if ms:
                rep.violation(k, "interface", f"with {features}, an item of the documented interface is missing, hidden or of another type: " + "; ".join(ms[:2])[:400],
                              {"features": features, "messages": ms[:8], "source": src.get(k) or library(features, True)})
        if features != "derive":
            mc = Macro(features, std=False)
            g = engine.accepts([("the bondrewd crate without std", library(features, False))], mc, tag=f"{rep.pid}c{fi}", header="#![no_std]\n#![allow(warnings)]\n")
            for k, ms in g.items():
                if ms:
                    rep.violation(k, "interface", f"with {features}: " + ms[0][:300], {"features": features, "messages": ms[:8]})
        good = [c for c in cases if not got[c[0]]]
        parts = [good[i:i + 60] for i in range(0, len(good), 60)]

        def one(i):
            txt = "#![allow(warnings)]\n" + "\n".join(f"pub mod m{j} {{ use bondrewd::*;\n{d}\n}}" for j, (_, d, _) in enumerate(parts[i]))
            return engine.scan(m, txt, f"if{fi}-{i}", ["--crate-name", "w"])
        with concurrent.futures.ThreadPoolExecutor(engine.JOBS) as ex:
            scans = list(ex.map(one, range(len(parts))))
        for part, (r, errs) in zip(parts, scans):
            if r is None:
                raise engine.CheckError("scan failed: " + str(errs[:1]))
            vis = {}
            for f in r["fns"] + r["items"]:
                vis.setdefault(norm(f["path"]), []).append(f["public"])
            for j, (k, d, its) in enumerate(part):
                for what, path, _ in its:
                    if path is None:
                        continue
                    v = vis.get(f"m{j}::{path}")
                    nvis += 1
                    if v is None:
                        rep.notes.append(f"{k}: {path} not found by the scan")
                    elif not any(v):
                        rep.violation(k, "visibility", f"with {features}, {path} cannot be used outside the crate", {"features": features, "source": d})
            if len(samples) < 6:
                samples.append({"features": features, "layout": part[0][0], "items": [x[0] for x in part[0][2]][:12]})
    if nvis and len(rep.notes) * 2 > nvis:
        raise engine.CheckError("most items were not found by the scan: " + rep.notes[0])
    rep.cov = {"programs": nprog, "disagreements_checked": nitems + nvis, "items_typed": nitems, "visibilities": nvis, "feature_sets": len(sets), "samples": samples,
               "explanation": "type-level witnesses: each documented item is coerced to its documented function type outside the defining module (any other type, or a missing item, fails to compile), and the typed program is queried for its visibility"}
    return rep.finish("other", ["witness layouts take every path of the generators"])
