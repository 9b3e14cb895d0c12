"""Witness layouts: structured families and a seeded random generator.

A family returns a list of (key, layout).  Keys describe the layout and identify it in reports and in
known-findings.txt, so they never contain counters that shift when a family grows."""
import copy, functools, itertools, random, re
from model import *

PRIMS = list(INTS)
FLAG4 = [(0, 0), (1, 0), (0, 1), (1, 1)]       # (reverse, lsb0)


class Names:
    def __init__(self):
        self.n = 0

    def __call__(self, p):
        self.n += 1
        return f"{p}{self.n}"


def tag(o):
    return f"{o.get('endian') or 'default'}{' reverse' if o.get('reverse') else ''}{' lsb0' if o.get('lsb0') else ''}"


def lead(off, name="l"):
    if off == 0:
        return []
    return [F(name, Int("u8" if off <= 8 else "u16" if off <= 16 else "u32" if off <= 32 else "u64"), off)]


def around(m, off, tail, **o):
    """a structure with the field of interest m between a lead of `off` bits and a tail"""
    return Struct("S", lead(off, "l") + [m] + lead(tail, "t"), **o)


def wide(size):
    """interesting widths of a primitive: all up to 17 and around every byte boundary"""
    return sorted({w for w in range(1, size + 1)
                   if w <= 17 or w % 8 in (0, 1, 7) or w >= size - 2})


def dense(size):
    return list(range(1, size + 1))


# ------------------------------------------------------------------------------------ field types
def e8(nm, cat="tuple"):
    return EnumDef(nm, [("A", None, "unit"), ("B", 5, "unit"), ("C", None, "unit"), ("D", None, cat)])


def e8inv(nm):
    return EnumDef(nm, [("A", None, "unit"), ("B", None, "invalid"), ("C", None, "unit"), ("D", None, "unit")])


def inner_struct(nm, **o):
    return Struct(nm, [F("x", Int("u8"), 3), F("y", Int("i16"), 11), F("z", Bool())], **o)


def inner_enum(nm, **o):
    return Enum(nm, 3, [Var("Alpha", [F("a", Int("u8"), 5)]), Var("Beta", [F("b", Int("u16"), 9), F("c", Bool())]), Var("Gamma")], **o)


def specials():
    """(name, constructor of a fresh type, widths)"""
    return [
        ("bool", Bool, [1, 2, 3, 8]),
        ("char", Char, [7, 8, 9, 15, 16, 17, 20, 21, 24, 31, 32]),
        ("f32", lambda: Float("f32"), [32]),
        ("f64", lambda: Float("f64"), [64]),
        ("enum", lambda: EnumP(e8("E8")), list(range(1, 9))),
        ("raw enum", lambda: EnumP(RawEnum("Er")), list(range(1, 9))),
    ]


def elements():
    """(name, element constructor, element widths) for arrays"""
    return [
        ("u8", lambda: Int("u8"), [1, 3, 5, 7, 8]),
        ("i8", lambda: Int("i8"), [1, 4, 7, 8]),
        ("u16", lambda: Int("u16"), [3, 8, 9, 11, 15, 16]),
        ("i16", lambda: Int("i16"), [2, 8, 10, 13, 16]),
        ("u32", lambda: Int("u32"), [5, 12, 17, 24, 31, 32]),
        ("i32", lambda: Int("i32"), [9, 23, 24, 32]),
        ("u64", lambda: Int("u64"), [7, 33, 48, 64]),
        ("i64", lambda: Int("i64"), [20, 41, 64]),
        ("u128", lambda: Int("u128"), [65, 100, 128]),
        ("i128", lambda: Int("i128"), [66, 127, 128]),
        ("bool", Bool, [1]),
        ("char", Char, [8, 16, 21, 32]),
        ("f32", lambda: Float("f32"), [32]),
        ("f64", lambda: Float("f64"), [64]),
        ("enum", lambda: EnumP(e8("E8")), [2, 3, 8]),
        ("struct", lambda: Nested(inner_struct("In")), [15, 16]),
        ("struct 1", lambda: Nested(RawLay("RawA", 1)), [2, 5, 7, 8]),
        ("struct 2", lambda: Nested(RawLay("RawB", 2)), [9, 11, 13, 14, 16]),
        ("struct 3", lambda: Nested(RawLay("RawC", 3)), [17, 18, 20, 22, 23, 24]),
    ]


# ---------------------------------------------------------------------------------------- families
def fam_prim(types=PRIMS, widths=wide, offs=range(8), tails=(0,), ends=("be", "le"), flags=((0, 0),)):
    o = []
    for ty in types:
        t = Int(ty)
        for w in widths(t.size):
            for off in offs:
                for tail in tails:
                    for en in ends:
                        for r, l in flags:
                            if not t.endian_matters and en != ends[0]:
                                continue
                            k = dict(endian=en, reverse=bool(r), lsb0=bool(l))
                            o.append((f"{ty}:{w} at {off} tail {tail} {tag(k)}", around(F("m", Int(ty), w), off, tail, **k)))
    return o


def fam_special(offs=range(8), tails=(0, 3), ends=("be", "le"), flags=((0, 0),), which=None):
    o = []
    for nm, mk, ws in specials():
        if which and nm not in which:
            continue
        for w in ws:
            for off in offs:
                for tail in tails:
                    for en in ends:
                        if not mk().endian_matters and en != ends[0]:
                            continue
                        for r, l in flags:
                            k = dict(endian=en, reverse=bool(r), lsb0=bool(l))
                            L = around(F("m", mk(), w, how="nat" if w == mk().width else "bit"), off, tail, **k)
                            if nm == "bool" and len(set(L.touched(len(lead(off))))) > 1:
                                continue            # the macro rejects booleans across bytes
                            o.append((f"{nm}:{w} at {off} tail {tail} {tag(k)}", L))
    return o


def fam_elarr(offs=(0, 1, 3, 7, 9), tails=(0, 3), ends=("be", "le"), flags=((0, 0),), ns=(1, 2, 3, 5), which=None):
    o = []
    for nm, mk, ws in elements():
        if which and nm not in which:
            continue
        for w in ws:
            for n in ns:
                if n * w > 260:
                    continue
                for off in offs:
                    for tail in tails:
                        for en in ends:
                            if not mk().endian_matters and en != ends[0]:
                                continue
                            for r, l in flags:
                                k = dict(endian=en, reverse=bool(r), lsb0=bool(l))
                                nat = w == mk().width
                                if nm in ("f32", "f64") or (nat and (off + n) % 2):
                                    m = F("m", Arr(mk(), n), struct_size=nm.startswith("struct"))
                                elif nm.startswith("struct"):
                                    m = F("m", Arr(mk(), n), n * w, how="elbit", struct_size=True)
                                else:
                                    m = F("m", Arr(mk(), n), n * w, how="elbit")
                                o.append((f"[{nm};{n}]:{w} each at {off} tail {tail} {tag(k)}", around(m, off, tail, **k)))
    return o


def fam_blarr(types=("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128"), offs=(0, 1, 3, 7, 9), tails=(0, 3),
              ends=("be", "le"), flags=((0, 0),), ns=(1, 2, 3, 5)):
    o = []
    for ty in types:
        full = Int(ty).size
        for n in ns:
            for first in sorted({1, 3, 7, 8, 9, full // 2 + 1, full - 1, full}):
                if first > full:
                    continue
                w = first + (n - 1) * full
                if w > 300:
                    continue
                for off in offs:
                    for tail in tails:
                        for en in ends:
                            if full == 8 and en != ends[0]:
                                continue
                            for r, l in flags:
                                k = dict(endian=en, reverse=bool(r), lsb0=bool(l))
                                o.append((f"[{ty};{n}] block of {w} at {off} tail {tail} {tag(k)}",
                                          around(F("m", Arr(Int(ty), n, "bl"), w), off, tail, **k)))
    return o


def fam_nested(offs=(0, 1, 3, 5, 7, 8, 11), tails=(0, 3), ends=("be", "le"), flags=((0, 0),), inner_flags=((0, 0), (1, 0), (0, 1))):
    """a structure or enum used as a field; inner widths from its exact bits to its whole bytes"""
    o = []
    for kind in ("struct", "enum"):
        for ir, il in inner_flags:
            for ie in ("be", "le"):
                ik = dict(endian=ie, reverse=bool(ir), lsb0=bool(il))
                mk = (lambda: inner_struct("In", **ik)) if kind == "struct" else (lambda: inner_enum("In", **ik))
                L0 = mk()
                for w in sorted({L0.bits, L0.B * 8}):
                    for off in offs:
                        for tail in tails:
                            for en in ends:
                                for r, l in flags:
                                    k = dict(endian=en, reverse=bool(r), lsb0=bool(l))
                                    o.append((f"{kind} {tag(ik)} in {w} bits at {off} tail {tail}, outer {tag(k)}",
                                              around(F("m", Nested(mk()), w, how="bit", struct_size=True), off, tail, **k)))
    return o


def fam_raw(offs=range(8), tails=(0, 3), flags=((0, 0),), sizes=(1, 2, 3, 5)):
    """nested fields whose type implements the trait by hand and takes every value"""
    o = []
    for B in sizes:
        for w in sorted({B * 8, B * 8 - 1, B * 8 - 3, B * 8 - 7}):
            for off in offs:
                for tail in tails:
                    for r, l in flags:
                        k = dict(endian="be" if (w + off) % 2 else "le", reverse=bool(r), lsb0=bool(l))
                        o.append((f"raw {B} bytes in {w} bits at {off} tail {tail} {tag(k)}",
                                  around(F("m", Nested(RawLay("Raw", B)), w, how="bit", struct_size=True), off, tail, **k)))
    return o


def pack_nested(flags=FLAG4, sizes=(1, 2, 3, 4, 5, 6, 8, 17), **kw):
    """nested fields of every width and offset; the types take every value, or derive the trait themselves"""
    it = []
    for B in sizes:
        for w in range(8 * B - 7, 8 * B + 1):
            for off in range(8):
                it.append((w, off, lambda n, B=B, w=w: F(n, Nested(RawLay(f"Bytes{'ABCDEFGHIJKLMNOPQRS'[B]}", B)), w, how="bit", struct_size=True)))
                if B <= 5:
                    # one type for each width and kind: an integer, big or little endian, and a flag
                    def derived(n, B=B, w=w, off=off):
                        i = (w + off) % 12
                        d = Struct(f"In{B}W{w}K{i}", ([F("x", Int(f"{'ui'[i % 2]}{8 * [1, 2, 4, 4, 8, 8][B]}"), w - 1)] if w > 1 else []) + [F("z", Bool())],
                                   endian=["be", "le"][i % 2], reverse=i % 3 == 1, lsb0=i % 4 > 1)
                        return F(n, Nested(d), w, how="bit", struct_size=True)
                    it.append((w, off, derived))
    return pack("nested", it, flags, most=6, room=260, **kw)


# ---------------------------------------------------------------------------------- covering packs
def pack(name, items, flags=FLAG4, room=330, most=9, opts=None, spread=False):
    """structures that together contain every item at every bit offset it asks for.

    items: (width, offset, constructor of a field given its name).  Fields follow each other without
    gaps, so the next item is drawn from those that want the offset reached; a small filler is used
    when there is none left.  With `spread` each item goes to one of the flag combinations, not all."""
    out = []
    for fi, (r, l) in enumerate(flags):
        left = {k: [] for k in range(8)}
        for n, it in enumerate(items):
            if not spread or (n + it[0] + it[1] + n // 7) % len(flags) == fi:
                left[it[1]].append(it)
        for k in left:                      # mix widths and kinds; the wide ones go first
            random.Random(k).shuffle(left[k])
            left[k].sort(key=lambda it: it[0] > 40)
        i = 0
        while any(left.values()):
            fs, used = [], 0
            while len(fs) < most and any(left.values()):
                o = used % 8
                cand = left[o]
                if cand and used + cand[-1][0] <= room:
                    w, _, mk = cand.pop()
                    fs.append(mk(f"m{len(fs)}"))
                    used += w
                    continue
                if cand and fs:
                    break
                if cand:
                    w, _, mk = cand.pop()
                    fs.append(mk(f"m{len(fs)}"))
                    used += w
                    break
                want = next(d for d in range(1, 9) if left[(o + d) % 8])
                fs.append(F(f"p{len(fs)}", Int("u8"), want))
                used += want
            if used % 8:
                fs.append(F("pad", Int("u8"), 8 - used % 8))
            k = dict(reverse=bool(r), lsb0=bool(l), **(opts or {}))
            k["endian"] = ["be", "le"][i % 2]
            out.append((f"{name} {tag(k)} #{i}", Struct("S", fs, **k)))
            i += 1
    return out


def pack_prims(types=PRIMS, widths=dense, flags=FLAG4, ends=("be", "le"), offs=range(8), **kw):
    """every integer type, width, bit offset and endianness"""
    it = []
    for ty in types:
        for w in widths(Int(ty).size):
            for off in offs:
                for en in ends:
                    if not Int(ty).endian_matters and en != ends[0]:
                        continue
                    it.append((w, off, lambda n, ty=ty, w=w, en=en: F(n, Int(ty), w, endian=en if Int(ty).endian_matters else None)))
    return pack("integers", it, flags, **kw)


def pack_specials(flags=FLAG4, ends=("be", "le"), offs=range(8), which=None, **kw):
    it = []
    for nm, mk, ws in specials():
        if which and nm not in which:
            continue
        if nm == "bool":
            ws = [1]
        if nm == "char":
            ws = list(range(1, 33))
        for w in ws:
            for off in offs:
                for en in ends:
                    if not mk().endian_matters and en != ends[0]:
                        continue
                    it.append((w, off, lambda n, mk=mk, w=w, en=en: F(n, mk(), w, how="nat" if w == mk().width else "bit", endian=en if mk().endian_matters else None)))
    return pack("kinds" if not which else " ".join(which), it, flags, room=200, **kw)


def pack_elarrs(flags=FLAG4, ends=("be", "le"), offs=range(8), ns=(1, 2, 3, 4, 7), which=None, most=240, **kw):
    it = []
    for nm, mk, ws in elements():
        if which and nm not in which:
            continue
        if isinstance(mk(), Int) and not isinstance(mk(), Float):
            ws = dense(mk().size)
        for w in ws:
            for n in ns:
                if n * w > most:
                    continue
                for off in offs:
                    # the widths between are taken with one length each
                    if type(mk()) is Int and w > 17 and w % 8 not in (0, 1, 7) and w < mk().size - 1 and ns[(w // 8 + off) % len(ns)] != n:
                        continue
                    en = ends[(off + w + n + w // 8) % len(ends)]
                    def mkf(name, mk=mk, w=w, n=n, en=en, nm=nm, off=off):
                        e = en if mk().endian_matters else None
                        if nm in ("f32", "f64", "bool") or w == mk().width and (off + n) % 2:
                            return F(name, Arr(mk(), n), struct_size=nm.startswith("struct"), endian=None if nm.startswith("struct") else e)
                        return F(name, Arr(mk(), n), n * w, how="elbit", struct_size=nm.startswith("struct"), endian=None if nm.startswith("struct") else e)
                    it.append((n * w, off, mkf))
    return pack("element arrays", it, flags, most=6, room=400, **kw)


def pack_blarrs(types=("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128"), flags=FLAG4, ends=("be", "le"), offs=range(8), ns=(1, 2, 3, 4, 7), **kw):
    it = []
    for ty in types:
        full = Int(ty).size
        for n in ns:
            for first in dense(full):
                w = first + (n - 1) * full
                if w > 260:
                    continue
                for off in offs:
                    if first not in wide(full) and ns[(first // 8 + off) % (2 if full > 64 else 3 if full > 32 else len(ns))] != n:
                        continue
                    en = ends[(off + n + first) % len(ends)]
                    it.append((w, off, lambda name, ty=ty, n=n, w=w, en=en: F(name, Arr(Int(ty), n, "bl"), w, endian=en if Int(ty).endian_matters else None)))
    return pack("block arrays", it, flags, most=5, room=400, **kw)


def mixes():
    """small multi-field structures touching every field kind; used wherever a property is about
    something orthogonal to the kind of field"""
    yield "ints", lambda: [F("a", Int("u8"), 3), F("b", Int("i16"), 9), F("c", Int("u32"), 17), F("d", Int("i64"), 40)]
    yield "whole", lambda: [F("a", Int("u16")), F("b", Int("i32")), F("c", Int("u8")), F("d", Int("u64"))]
    yield "wide", lambda: [F("a", Int("u128"), 101), F("b", Bool()), F("c", Int("i128"), 70)]
    yield "doc", lambda: [F("one", Bool()), F("two", Float("f32")), F("three", Int("i16"), 14), F("four", Int("u8"), 6)]
    yield "text", lambda: [F("a", Int("u8"), 5), F("b", Char()), F("c", Char(), 21), F("d", Float("f64"))]
    yield "enum", lambda: [F("a", EnumP(e8("E8")), 3), F("b", Int("u8"), 2), F("c", EnumP(e8inv("Ei"))), F("d", EnumP(e8("En", "named")), 7)]
    yield "arrays", lambda: [F("a", Int("u8"), 3), F("b", Arr(Int("u8"), 3), 15), F("c", Arr(Int("i16"), 2), 22), F("d", Arr(Bool(), 5))]
    yield "blocks", lambda: [F("a", Int("u8"), 3), F("b", Arr(Int("u8"), 3, "bl"), 19), F("c", Arr(Int("u16"), 2, "bl"), 25)]
    yield "nested", lambda: [F("a", Int("u8"), 3), F("b", Nested(inner_struct("In")), 15, how="bit", struct_size=True), F("c", Nested(inner_enum("Ie")), 13, how="bit", struct_size=True), F("d", Int("u16"), 9)]
    yield "tiny", lambda: [F("a", Int("u8"), 3)]
    yield "byte", lambda: [F("a", Int("u8"))]
    yield "bits1", lambda: [F("a", Bool()), F("b", Bool()), F("c", Int("u8"), 1), F("d", Int("i8"), 1), F("e", Bool()), F("f", Int("u16"), 1), F("g", Bool()), F("h", Bool()), F("i", Bool())]


def fam_mix(ends=("be", "le"), flags=((0, 0),), which=None, **kw):
    o = []
    for nm, mk in mixes():
        if which and nm not in which:
            continue
        for en in ends:
            for r, l in flags:
                k = dict(endian=en, reverse=bool(r), lsb0=bool(l))
                o.append((f"{nm} {tag(k)}", Struct("S", mk(), **k, **kw)))
    return o


def fam_flags(flags=FLAG4, ends=("be", "le"), which=("reserve", "read_only", "redundant"), widths=(1, 5, 8, 10, 16)):
    o = []
    for en in ends:
        for r, l in flags:
            k = dict(endian=en, reverse=bool(r), lsb0=bool(l))
            for fl in which:
                for w in widths:
                    for ty in ("u16", "i16"):
                        for pos in ((1, 2, 3) if fl != "redundant" else (2,)):
                            def fs(**x):
                                b = [F("a", Int("u8"), 3), F("b", Int("i16"), 9), F("c", Int("u32"), 17)]
                                b.insert(pos, F("m", Int(ty), w, **{fl: True}, **x))
                                return b
                            o.append((f"{fl} {ty}:{w} as field {pos} {tag(k)}", Struct("S", fs(), **k)))
                            if fl == "redundant":
                                o.append((f"{fl} {ty}:{w} at 3 {tag(k)}", Struct("S", fs(how="bits", at=3), **k)))
            if "reserve" in which:
                for nm, t in (("bool", Bool()), ("f32", Float("f32")), ("array", Arr(Int("u8"), 3)), ("char", Char())):
                    o.append((f"reserve {nm} {tag(k)}", Struct("S", [F("a", Int("u8"), 3), F("m", t, reserve=True), F("c", Int("u32"), 17)], **k)))
                o.append((f"two reserves {tag(k)}", Struct("S", [F("m", Int("u8"), 3, reserve=True), F("b", Int("u16"), 9), F("n", Int("u16"), 11, reserve=True), F("c", Bool())], **k)))
            if "read_only" in which:
                for nm, t in (("bool", Bool()), ("f32", Float("f32")), ("array", Arr(Int("u8"), 3)), ("char", Char())):
                    o.append((f"read_only {nm} {tag(k)}", Struct("S", [F("a", Int("u8"), 3), F("m", t, read_only=True), F("c", Int("u32"), 17)], **k)))
                o.append((f"read_only over others {tag(k)}", Struct("S", [F("a", Int("u8"), 3), F("b", Int("i16"), 9, how="bits", at=3), F("m", Int("u8"), 8, how="bits", at=5, read_only=True, overlap=8), F("c", Int("u32"), 17, how="bits", at=12)], **k)))
                o.append((f"read_only half over {tag(k)}", Struct("S", [F("a", Int("u8"), 3), F("b", Int("i16"), 9), F("m", Int("u8"), 8, how="bits", at=8, read_only=True, overlap=4), F("c", Int("u32"), 17, how="bits", at=16)], **k)))
            if "redundant" in which:
                o.append((f"redundant before {tag(k)}", Struct("S", [F("l", Int("u8"), 2), F("m", Int("u8"), 6, redundant=True)] + [F(f"f{i}", Bool()) for i in range(6)] + [F("t", Int("u16"), 9)], **k)))
                o.append((f"two redundant {tag(k)}", Struct("S", [F("a", Int("u16"), 12), F("m", Int("u8"), 5, how="bits", at=1, redundant=True), F("n", Arr(Int("u8"), 2), 8, how="bits", at=4, redundant=True), F("c", Int("u8"))], **k)))
                o.append((f"redundant whole {tag(k)}", Struct("S", [F("a", Arr(Int("u8"), 4)), F("m", Int("u32"), 32, how="bits", at=0, redundant=True)], **k)))
    return o


def thin(items, n):
    """n of the items, spread over the list, always the same ones; all of them without n"""
    if n is None or len(items) <= n:
        return list(items)
    return [items[i] for i in sorted(random.Random(len(items)).sample(range(len(items)), n))]


def fam_marked(which=("reserve", "read_only", "redundant"), flags=FLAG4, n=None):
    """fields of every kind, width and offset under a mark: every other field of a packed structure (the
    two choices of which), or all of them as redundant views of an array of bytes"""
    o = []
    todo = [(i, k, L, mark) for i, (k, L) in enumerate(all_packed(flags)) for mark in which]
    for i, k, L, mark in thin(todo, n):
        fs = [copy.copy(f) for f in L.fields]
        opts = dict(endian=L.endian, reverse=L.reverse, lsb0=L.lsb0)
        if mark != "redundant":
            for j, f in enumerate(fs):
                leaf = f.ty.sub if isinstance(f.ty, Arr) else f.ty
                setattr(f, mark, (i + j) % 2 == 0 and (mark != "reserve" or isinstance(leaf, (Int, Float, Bool, Char))))
            o.append((f"{mark} {k}", Struct("S", fs, **opts)))
            continue
        host = F("host", Arr(Int("u8"), L.B))
        for f, (a, _) in zip(fs, L.span0):
            if isinstance(f.ty, Arr):
                f.extra = {"elbit": f"element_bit_length = {f.w // f.ty.n}", "blbit": f"block_bit_length = {f.w}"}.get(f.how, f.extra)
            f.how, f.at, f.redundant = "bits", a, True
        o.append((f"redundant {k}", Struct("S", ([host] + fs) if i % 2 else (fs + [host]), **opts)))
    return o


@functools.lru_cache
def _all_packed(flags):
    return (pack_prims(flags=flags, spread=True) + pack_specials(flags=flags, spread=True)
            + pack_nested(flags=flags, spread=True) + pack_elarrs(flags=flags, spread=True) + pack_blarrs(flags=flags, spread=True))


def all_packed(flags=FLAG4):
    return _all_packed(tuple(map(tuple, flags)))


def fam_filled(flags=FLAG4, n=None):
    """packed structures whose last byte is partly unused, with and without further unused bytes"""
    o = []
    for i, (k, L) in thin(list(enumerate(all_packed(flags))), n):
        fs = [f for f in L.fields if f.name != "pad"]
        opts = dict(endian=L.endian, reverse=L.reverse, lsb0=L.lsb0)
        if i % 3:
            opts["fill"] = L.B + i % 4
        o.append((f"{k} filled with {opts.get('fill', 0) and i % 4} more bytes", Struct("S", fs, **opts)))
    return o


def fam_variants(flags=FLAG4, captured=False, n=None):
    """enums whose variants are packed structures of every kind, width and offset of field"""
    o = []
    alls = all_packed(flags)
    for fl in flags:
        ls = [(k, L) for k, L in alls if (L.reverse, L.lsb0) == (bool(fl[0]), bool(fl[1]))]
        random.Random(7).shuffle(ls)
        for i in thin(range(0, len(ls) - 1, 2), n and -(-n // len(flags))):
            (ka, A), (kb, B) = ls[i], ls[i + 1]
            m, ib = i // 2, 2 + i // 2 % 23
            fs = lambda L: [copy.copy(f) for f in L.fields if f.name != "pad"]
            cap = [F("idv", Int("u8" if ib <= 8 else "u16" if ib <= 16 else "u32"), ib, how="nat", capture=True)] if captured else []
            vs = [Var("Alpha", fs(A), vid=[None, 2][m % 2], endian=A.endian), Var("Beta", cap + fs(B), endian=B.endian, invalid=captured),
                  Var("Gamma", [F("q", Int("u16"), 11)], invalid=m % 3 == 0 and not captured)]
            o.append((f"variants {ka} | {'captured id ' if cap else ''}{kb}", Enum("S", ib, vs, endian=A.endian, reverse=A.reverse, lsb0=A.lsb0)))
    return o


def fam_places(flags=FLAG4, n=None):
    """packed structures in which every position is spelt, in another order than that of the bits; a
    gap here and there"""
    o = []
    for i, (k, L) in thin(list(enumerate(all_packed(flags))), n):
        fs, gap = [], 0
        for j, (f, (a, _)) in enumerate(zip(L.fields, L.span0)):
            f = copy.copy(f)
            if isinstance(f.ty, Arr):
                f.extra = {"elbit": f"element_bit_length = {f.w // f.ty.n}", "blbit": f"block_bit_length = {f.w}"}.get(f.how, f.extra)
            if i % 3 == 1 and j == 1:
                gap = 8 * (1 + i % 2)
            f.how, f.at = "bits", a + gap
            fs.append(f)
        random.Random(i).shuffle(fs)
        o.append((f"{k} placed{' with a gap' if gap else ''}", Struct("S", fs, endian=L.endian, reverse=L.reverse, lsb0=L.lsb0)))
    return o


def fam_endians(flags=FLAG4, n=None):
    """packed structures in which the endianness of each field is spelt in some way, or left to the default"""
    o = []
    sp = {"be": ["be", "msb", "big"], "le": ["le", "lsb", "little", "lil"]}
    for i, (k, L) in thin(list(enumerate(all_packed(flags))), n):
        r = random.Random(i)
        fs = [copy.copy(f) for f in L.fields]
        for f in fs:
            if f.endian:
                f.endian = None if f.endian == L.endian and r.random() < .6 else f.endian
                f.spell = f.endian and r.choice(sp[f.endian])
        o.append((f"{k} spelt", Struct("S", fs, endian=L.endian, spell=r.choice(sp[L.endian]), reverse=L.reverse, lsb0=L.lsb0)))
    return o


def fam_overlap(flags=FLAG4, ends=("be", "le")):
    """fields that are written to shared bits: the one declared later has the last word"""
    kinds = [("u16:11", lambda: Int("u16"), 11), ("i32:20", lambda: Int("i32"), 20), ("u64", lambda: Int("u64"), 64), ("u8:5", lambda: Int("u8"), 5),
             ("f32", lambda: Float("f32"), 32), ("char", lambda: Char(), 21), ("[u8;3]", lambda: Arr(Int("u8"), 3), 24),
             ("[u16;3] elements", lambda: Arr(Int("u16"), 3), 27), ("[i16;2] block", lambda: Arr(Int("i16"), 2, "bl"), 27),
             ("enum", lambda: EnumP(e8("E8")), 5), ("bool", lambda: Bool(), 1)]
    o, i = [], 0
    for en in ends:
        for r, l in flags:
            k = dict(endian=en, reverse=bool(r), lsb0=bool(l))
            for (n1, t1, w1), (n2, t2, w2) in itertools.product(kinds, kinds):
                for where in ("tail", "inside", "whole"):
                    i += 1
                    a = 1 + i % 7 if n1 != "bool" else i % 7
                    at, sh = {"tail": (a + w1 - max(1, w1 // 3), max(1, w1 // 3)), "inside": (a + w1 // 2, w1 - w1 // 2), "whole": (a, w1)}[where]
                    sh = min(sh, w2)
                    end = max(a + w1, at + w2)
                    # the overlap is declared by one of the two fields
                    mark = (i // 2) % 2 and sh <= w1
                    for h in ("struct", "enum"):
                        if h == "struct" and l:
                            continue        # such a structure is packed from its last field to its first
                        z = 3 if h == "enum" else 0
                        x = lambda n, w: {"[u16;3] elements": f"element_bit_length = {w // 3}", "[i16;2] block": f"block_bit_length = {w}"}.get(n, "")
                        fs = ([F("lead", Int("u8"), a)] if a else []) + [F("m", t1(), w1, how="bits", at=z + a, overlap=sh if mark else 0, extra=x(n1, w1)),
                              F("n", t2(), w2, how="bits", at=z + at, overlap=0 if mark else sh, extra=x(n2, w2)), F("tail", Int("u8"), 7, how="bits", at=z + end)]
                        o.append((f"{n2} shares the {where} of {n1} in {h} {tag(k)}", Struct("S", fs, **k) if h == "struct" else
                                  Enum("S", 3, [Var("Alpha", fs), Var("Beta", [F("q", Int("u8"), 5)]), Var("Gamma")], **k)))
    return o


def fam_fill(flags=FLAG4, ends=("be", "le")):
    o = []
    for en in ends:
        for r, l in flags:
            k = dict(endian=en, reverse=bool(r), lsb0=bool(l))
            for nm, mk in mixes():
                need = (Struct("S", mk()).bits + 7) // 8
                for extra in (0, 1, 3, 9):
                    o.append((f"{nm} filled to {need + extra} bytes {tag(k)}", Struct("S", mk(), fill=need + extra, **k)))
    return o


def fam_bits(flags=FLAG4, ends=("be", "le")):
    """positions spelt with bits, in and out of declaration order, alone and mixed"""
    o = []
    sets = {"three": [("a", "u8", 3, 0), ("b", "i16", 9, 3), ("c", "u32", 17, 12)],
            "aligned": [("a", "u8", 8, 0), ("b", "i16", 16, 8), ("c", "u32", 24, 24)],
            "gaps": [("a", "u8", 3, 2), ("b", "i16", 9, 11), ("c", "u32", 17, 29)],
            "byte gaps": [("a", "u8", 5, 8), ("b", "i16", 16, 24), ("c", "u32", 24, 48)]}
    for en in ends:
        for r, l in flags:
            k = dict(endian=en, reverse=bool(r), lsb0=bool(l))
            for sn, st in sets.items():
                for perm in itertools.permutations(st):
                    o.append((f"bits {sn} {''.join(p[0] for p in perm)} {tag(k)}",
                              Struct("S", [F(n, Int(t), w, how="bits", at=s) for n, t, w, s in perm], **k)))
            o.append((f"bits then running {tag(k)}", Struct("S", [F("a", Int("u8"), 3, how="bits", at=0), F("b", Int("i16"), 9), F("c", Int("u32"), 17)], **k)))
            o.append((f"running then bits {tag(k)}", Struct("S", [F("a", Int("u8"), 3), F("b", Int("i16"), 9), F("c", Int("u32"), 17, how="bits", at=12)], **k)))
            o.append((f"gap then running {tag(k)}", Struct("S", [F("a", Int("u8"), 3, how="bits", at=6), F("b", Int("i16"), 9), F("c", Int("u32"), 17)], **k)))
            o.append((f"gap with fill {tag(k)}", Struct("S", [F("a", Int("u8"), 3, how="bits", at=6), F("b", Int("i16"), 9, how="bits", at=14)], fill=4, **k)))
            o.append((f"gap in a variant {tag(k)}", Enum("S", 3, [Var("Alpha", [F("a", Int("u8"), 3, how="bits", at=6), F("b", Int("u16"), 13, how="bits", at=20)]), Var("Beta", [F("b", Int("i16"), 11)])], **k)))
    return o


def spellings():
    """equivalent ways of giving the same width: (name, type constructor, [(how, width)])"""
    return [
        ("u8 natural", lambda: Int("u8"), 8, ("nat", "bit", "byte", "bits")),
        ("i16 natural", lambda: Int("i16"), 16, ("nat", "bit", "byte", "bits")),
        ("u32 as 3 bytes", lambda: Int("u32"), 24, ("bit", "byte", "bits")),
        ("i64 as 5 bytes", lambda: Int("i64"), 40, ("bit", "byte", "bits")),
        ("u128 natural", lambda: Int("u128"), 128, ("nat", "bit", "byte", "bits")),
        ("u16 as 11 bits", lambda: Int("u16"), 11, ("bit", "bits")),
        ("f32", lambda: Float("f32"), 32, ("nat", "bit", "byte", "bits")),
        ("f64", lambda: Float("f64"), 64, ("nat", "bit", "byte", "bits")),
        ("bool", Bool, 1, ("nat", "bit", "bits")),
        ("char", Char, 32, ("nat", "bit", "byte", "bits")),
        ("[u8;3] natural", lambda: Arr(Int("u8"), 3), 24, ("nat", "bit", "byte", "bits", "elbit", "elbyte")),
        ("[u32;3] of 2 bytes", lambda: Arr(Int("u32"), 3), 48, ("bit", "byte", "bits", "elbit", "elbyte")),
        ("[u16;2] of 11 bits", lambda: Arr(Int("u16"), 2), 22, ("bit", "bits", "elbit")),
        ("[u32;3] block of 9 bytes", lambda: Arr(Int("u32"), 3, "bl"), 72, ("blbit", "blbyte")),
        ("[u8;4] block of 3 bytes and a half", lambda: Arr(Int("u8"), 4, "bl"), 28, ("blbit",)),
        ("[f32;2]", lambda: Arr(Float("f32"), 2), 64, ("nat", "bit", "byte", "bits", "elbit", "elbyte")),
        ("[f64;3]", lambda: Arr(Float("f64"), 3), 192, ("nat", "bit", "byte", "bits", "elbit", "elbyte")),
        ("[char;2] natural", lambda: Arr(Char(), 2), 64, ("nat", "bit", "byte", "bits", "elbit", "elbyte")),
        ("[char;3] of 21 bits", lambda: Arr(Char(), 3), 63, ("bit", "bits", "elbit")),
        ("[bool;9]", lambda: Arr(Bool(), 9), 9, ("nat", "bit", "bits", "elbit")),
        ("[u8;1] of 3 bits", lambda: Arr(Int("u8"), 1), 3, ("bit", "bits", "elbit")),
        ("[enum;3] natural", lambda: Arr(EnumP(e8("E8")), 3), 24, ("nat", "bit", "byte", "bits", "elbit", "elbyte")),
        ("[enum;3] of 3 bits", lambda: Arr(EnumP(e8("E8")), 3), 9, ("elbit",)),
        ("enum", lambda: EnumP(e8("E8")), 8, ("nat", "bit", "byte", "bits")),
        ("struct of 2 bytes", lambda: Nested(inner_struct("In")), 16, ("bit", "byte", "bits")),
        ("struct of 15 bits", lambda: Nested(inner_struct("In")), 15, ("bit", "bits")),
        ("[struct;2] of 2 bytes", lambda: Arr(Nested(inner_struct("In")), 2), 32, ("bit", "byte", "bits", "elbit", "elbyte")),
        ("[struct;3] of 15 bits", lambda: Arr(Nested(inner_struct("In")), 3), 45, ("elbit",)),
    ]


def fam_spell(flags=FLAG4, ends=("be", "le"), offs=(0, 3, 8)):
    o = []
    for nm, mk, w, hows in spellings():
        for en in ends:
            for r, l in flags:
                k = dict(endian=en, reverse=bool(r), lsb0=bool(l))
                for off in offs:
                    for how in hows:
                        for ss in (False, True) if "struct" in nm else (False,):
                            m = F("m", mk(), w, how=how, struct_size=ss)
                            o.append((f"{nm} by {how} at {off}{' with struct_size' if ss else ''} {tag(k)}", around(m, off, 5, **k)))
    return o


# ------------------------------------------------------------------------------------------- enums
def variant_sets(idbits):
    it = next(f"u{k}" for k in (8, 16, 32, 64, 128) if idbits <= k)
    cap = lambda: F("idv", Int(it), idbits, how="nat", capture=True)
    top = (1 << idbits) - 1
    return {
        "plain": lambda: [Var("Alpha", [F("a", Int("u8"), 3)]), Var("Beta", [F("b", Int("u16"), 13), F("c", Bool())]), Var("Gamma")],
        "ids": lambda: [Var("Alpha", [F("a", Int("u16"), 16)], vid=2), Var("Beta", [F("b", Int("i16"), 11)]), Var("Gamma", vid=1), Var("Delta", [F("d", Int("u8"), 7)], invalid=True)],
        "catch first": lambda: [Var("Alpha", [F("a", Int("u16"), 16)], invalid=True), Var("Beta", [F("b", Int("i16"), 11)]), Var("Gamma")],
        "catch mid": lambda: [Var("Alpha", [F("a", Int("u16"), 16)]), Var("Beta", [F("b", Int("i16"), 11)], invalid=True), Var("Gamma"), Var("Delta", [F("d", Int("u8"), 7)])],
        "tuple": lambda: [Var("Alpha", [F("a", Int("u16"), 9), F("b", Int("u8"), 4)], kind="tuple"), Var("Beta", [F("b", Int("i16"), 11)], kind="tuple"), Var("Gamma")],
        "discriminants": lambda: [Var("Alpha", [F("a", Int("u16"), 9)], disc=3), Var("Beta", [F("b", Int("i16"), 11)]), Var("Gamma", disc=0)],
        "units": lambda: [Var("Alpha"), Var("Beta"), Var("Gamma")],
        "top id": lambda: [Var("Alpha", [F("a", Int("u8"), 6)], vid=top), Var("Beta", [F("b", Int("u8"), 5)]), Var("Gamma", [F("g", Int("i32"), 19)])],
        "capture": lambda: [Var("Alpha", [F("a", Int("u8"), 3)]), Var("Beta", [F("b", Int("u8"), 5)]), Var("Gamma", [cap(), F("g", Int("u16"), 10)], invalid=True)],
        "capture last": lambda: [Var("Alpha", [F("a", Int("u8"), 3)]), Var("Beta", [F("b", Int("u8"), 5)]), Var("Gamma", [cap(), F("g", Int("u16"), 10)])],
        "capture tuple": lambda: [Var("Alpha", [F("a", Int("u8"), 3)], kind="tuple"), Var("Beta", [F("b", Int("u8"), 5)]), Var("Gamma", [cap(), F("g", Int("u16"), 10)], kind="tuple", invalid=True)],
        "kinds": lambda: [Var("Alpha", [F("a", Char()), F("b", Bool())]), Var("Beta", [F("b", Float("f32")), F("c", Arr(Int("u8"), 3), 15)], endian="le"),
                          Var("Gamma", [F("n", Nested(inner_struct("In")), 15, how="bit", struct_size=True), F("e", EnumP(e8("E8")), 3)]), Var("Delta", [F("d", Int("i64"), 41, endian="le")], endian="be")],
        "marked": lambda: [Var("Alpha", [F("a", Int("u8"), 3), F("r", Int("u16"), 9, reserve=True), F("b", Int("u8"), 5)]),
                           Var("Beta", [F("b", Int("u16"), 13), F("m", Int("u8"), 4, read_only=True), F("q", Int("u8"), 6, how="bits", at=idbits + 2, redundant=True)]), Var("Gamma", [F("g", Int("u8"))])],
    }


def fam_enum(idbits=(2, 3, 5, 8, 9, 12, 16, 20, 24, 32, 40), ends=("be", "le"), flags=FLAG4, which=None):
    o = []
    for ib in idbits:
        for nm, mk in variant_sets(ib).items():
            if which and nm not in which:
                continue
            for en in ends:
                for r, l in flags:
                    k = dict(endian=en, reverse=bool(r), lsb0=bool(l))
                    o.append((f"enum {nm} id {ib} {tag(k)}", Enum("S", ib, mk(), **k)))
            if ib % 8 == 0 and nm == "plain":
                o.append((f"enum {nm} id {ib} by bytes", Enum("S", ib, mk(), id_how="byte")))
            for i, how in enumerate(("implied", "all", "implied by bytes")):
                L = Enum("S", ib, mk(), id_how=how, endian=ends[(ib + i) % len(ends)], lsb0=bool((i + ib // 2) % 2 and (0, 1) in flags))
                if how != "implied by bytes" or (L.bits - ib) % 8 == 0:
                    if L.bits > ib:
                        o.append((f"enum {nm} id {ib} {how}", L))
    return o


# ------------------------------------------------------------------------------------------ random
class Rand:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.nm = Names()

    def ty(self, depth, room, arr=True):
        """(type, width, how, needs struct_size)"""
        r = self.r
        k = r.random()
        if k < .5:
            t = Int(r.choice(PRIMS))
            w = min(room, r.choice([t.size, r.randint(1, t.size), r.randint(1, min(t.size, 17))]))
            return t, w, ("nat" if w == t.size else "bit"), False
        if k < .58:
            return Bool(), 1, "nat", False
        if k < .64 and room >= 32:
            t = Char()
            w = r.choice([32, 21, r.randint(7, 32)])
            return t, w, ("nat" if w == 32 else "bit"), False
        if k < .70 and room >= 64:
            t = Float(r.choice(["f32", "f64"]))
            return t, t.width, "nat", False
        if k < .76 and room >= 8:
            t = EnumP(self.cenum())
            w = r.randint(1, 8)
            return t, w, ("nat" if w == 8 else "bit"), False
        if k < .88 and arr and room >= 4:
            n = r.randint(1, 4)
            for _ in range(20):
                s, w, how, ss = self.ty(depth + 1, max(1, room // n), False)
                if not isinstance(s, Arr) and w * n <= room:
                    break
            else:
                return Bool(), 1, "nat", False
            if isinstance(s, Int) and not isinstance(s, Float) and r.random() < .3:
                full = s.size
                first = r.randint(1, full)
                w = first + (n - 1) * full
                if w <= room:
                    return Arr(Int(s.rust), n, "bl"), w, "blbit", False
                return Bool(), 1, "nat", False
            a = Arr(s, n)
            return a, w * n, ("nat" if how == "nat" else "elbit"), ss
        if depth < 2 and room >= 24:
            L = self.struct(depth + 1, min(room, 40)) if r.random() < .6 else self.enum(depth + 1, min(room, 40))
            if L.B * 8 <= room and L.nvars <= 90:
                t = Nested(L)
                return t, L.B * 8 if r.random() < .5 else max(L.bits, 1), "bit", True
        return Int("u8"), min(room, r.randint(1, 8)), "bit", False

    def cenum(self):
        r = self.r
        n = r.randint(1, 5)
        vs = [(f"V{i}", None, "unit") for i in range(n)]
        last = r.choice(["unit", "tuple", "named"])
        vs.append(("Last", None, last))
        return EnumDef(self.nm("C"), vs, prim_attr=r.random() < .5)

    def fields(self, depth, room, marks=True, base=0):
        r = self.r
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
        fs, used = [], base
        for i in range(n):
            left = room - (used - base)
            if left < 1:
                break
            t, w, how, ss = self.ty(depth, left)
            f = F(f"f{i}", t, w, how=how, struct_size=ss)
            if how == "bit" and not ss and not isinstance(t, (Bool, Float)) and r.random() < .25:
                used += r.choice([0, 0, 0, 1, 5, 9]) if used + w + 9 <= base + room else 0
                f.how, f.at = "bits", used
            if f.how == "bit" and w % 8 == 0 and r.random() < .5:
                f.how = "byte"
            if r.random() < .25 and not ss:
                f.endian = r.choice(["be", "le"])
                f.spell = r.choice({"be": ["be", "msb", "big"], "le": ["le", "lsb", "little", "lil"]}[f.endian])
            if marks and i and r.random() < .12 and not ss and not isinstance(t, EnumP) and not (isinstance(t, Arr) and isinstance(t.sub, EnumP)):
                f.reserve = True
            elif marks and i and r.random() < .1:
                f.read_only = True
            fs.append(f)
            used += w
        if marks and used - base > 4 and r.random() < .2:
            a = r.randint(base, used - 2)
            w = r.randint(1, min(16, used - a))
            fs.append(F("red", Int("u16"), w, how="bits", at=a, redundant=True))
        return fs

    def opts(self):
        r = self.r
        return dict(endian=r.choice(["be", "le", "be", "le", None]), reverse=r.random() < .3, lsb0=r.random() < .3)

    def struct(self, depth=0, room=None, marks=True):
        r = self.r
        room = room or r.choice([8, 16, 24, 40, 64, 100, 160])
        o = self.opts()
        L = Struct(self.nm("S"), self.fields(depth, room, marks and depth == 0), **o)
        if depth == 0 and r.random() < .2:
            L = Struct(L.name, L.fields, fill=L.B + r.randint(0, 3), **o)
        return L

    def enum(self, depth=0, room=None, marks=True):
        r = self.r
        room = room or r.choice([8, 16, 24, 40, 64])
        ib = r.choice([2, 3, 4, 5, 7, 8]) if depth else r.choice([2, 3, 5, 8, 9, 11, 16, 17, 24])
        n = r.randint(1 if depth else 2, min(5, (1 << ib) - 1))
        o = self.opts()
        vs = []
        ids = r.sample(range(1 << min(ib, 9)), n)
        use = r.choice(["auto", "vid", "mixed"])
        cat = r.choice([None, None, r.randrange(n)])
        for i in range(n):
            kind = r.choice(["unit", "named", "named", "tuple"])
            left = max(1, room - ib)
            fs = [] if kind == "unit" else self.fields(depth + 1, left, marks and depth == 0 and kind == "named", base=ib)
            v = Var(f"V{'abcdefgh'[i]}", fs, kind=kind, vid=ids[i] if use == "vid" or use == "mixed" and r.random() < .5 else None,
                    invalid=cat == i, endian=r.choice([None, None, "be", "le"]))
            vs.append(v)
        c = cat if cat is not None else n - 1
        if r.random() < .25 and vs[c].kind == "named":
            it = next(f"u{k}" for k in (8, 16, 32, 64, 128) if ib <= k)
            vs[c].fields.insert(0, F("idv", Int(it), ib, how="nat", capture=True))
        return Enum(self.nm("S"), ib, vs, **o)


def fam_random(seed, n, enums=.3, marks=True):
    o = []
    for i in range(n):
        g = Rand(seed * 100003 + i)
        L = g.enum(marks=marks) if g.r.random() < enums else g.struct(marks=marks)
        o.append((f"random {seed}/{i}", L))
    return o


# ------------------------------------------------------------------------------------ C-like enums
def fam_cenum(maxn=4, eq=False, cats=("none", "inv0", "invmid", "tup", "named")):
    o = []
    for n in range(1, maxn + 1):
        for ds in itertools.product([None, 0, 1, 2, 3, 7, 200, 255], repeat=n):
            ex = [d for d in ds if d is not None]
            cur, rust = 0, []
            for d in ds:                        # rustc numbers the variants its own way and rejects clashes
                cur = d if d is not None else cur
                rust.append(cur)
                cur += 1
            if len(set(ex)) != len(ex) or len(set(rust)) != n or max(rust) > 255:
                continue
            for cat in cats:
                ks = ["unit"] * n
                if cat == "inv0":
                    ks[0] = "invalid"
                elif cat == "invmid":
                    if n < 3:
                        continue
                    ks[n // 2] = "invalid"
                elif cat in ("tup", "named"):
                    if ds[-1] is not None:
                        continue
                    ks[-1] = "tuple" if cat == "tup" else "named"
                o.append((f"C-like {['auto' if d is None else d for d in ds]} {cat}",
                          EnumDef("E", [(f"V{i}", d, k) for i, (d, k) in enumerate(zip(ds, ks))], prim_attr=sum(map(len, ks)) % 2 == 0, eq=eq)))
    return o


# --------------------------------------------------------------------------- sizes beyond the usual
def fam_bytes(flags=FLAG4, ends=("be", "le")):
    """every whole-byte width of every integer type, given in bits and in bytes, alone and in arrays"""
    o, i = [], 0
    for ty in PRIMS:
        size = Int(ty).size
        for by in range(1, size // 8 + 1):
            for en in ends:
                if size == 8 and en != ends[0]:
                    continue
                for r, l in flags:
                    k = dict(endian=en, reverse=bool(r), lsb0=bool(l))
                    for n, hows in ((0, ("byte", "bit", "bits")), (2, ("elbyte", "elbit", "byte", "bits")), (3, ("elbyte", "byte"))):
                        if by * 8 * n > 260:
                            continue
                        for how in hows:
                            i += 1
                            off = (0, 3, 8, 6, 13)[i % 5]
                            m = F("m", Arr(Int(ty), n) if n else Int(ty), by * 8 * max(n, 1), how=how)
                            o.append((f"{'[%s;%d]' % (ty, n) if n else ty} of {by} bytes by {how} at {off} {tag(k)}", around(m, off, 5, **k)))
                    for n in (2, 3):
                        w = by * 8 + (n - 1) * size
                        if w > 260 or ty in ("bool",):
                            continue
                        i += 1
                        off = (0, 3, 8, 6, 13)[i % 5]
                        o.append((f"[{ty};{n}] block of {w // 8} bytes by blbyte at {off} {tag(k)}", around(F("m", Arr(Int(ty), n, "bl"), w, how="blbyte"), off, 5, **k)))
    return o


def deep(n, **o):
    L = inner_struct("D0", **o)
    for i in range(1, n):
        L = Struct(f"D{i}", [F("a", Int("u8"), 1 + i), F("n", Nested(L), L.B * 8, how="bit", struct_size=True), F("c", Int("i16"), 9)], **o)
    return L


def fam_large(flags=FLAG4, ends=("be", "le"), which=None):
    """many fields, long arrays, many variants, wide ids, deep nesting and fields beyond byte 255"""
    o = []
    tys = ["u8", "i16", "u32", "i64", "i8", "u16", "u64", "i32"]

    def many():
        return [F(f"f{i}", Int(tys[i % 8]), 1 + (i * 5) % min(Int(tys[i % 8]).size, 19)) for i in range(45)]

    def variants(n, ids=None):
        return [Var(f"V{'abcdefgh'[i // 8]}{'abcdefgh'[i % 8]}", [F("p", Int("u16"), 1 + i % 16)] if i % 3 else [], vid=ids(i) if ids else None) for i in range(n)]

    sts = {
        "45 fields": many,
        "32 and 33 flags": lambda: [F(f"f{i}", Bool()) for i in range(65)],
        "bytes": lambda: [F(f"f{i}", Int("u8")) for i in range(40)],
        "[u8;33] of 3 bits": lambda: [F("a", Int("u8"), 3), F("m", Arr(Int("u8"), 33), 99, how="elbit"), F("t", Int("u16"), 9)],
        "[bool;70]": lambda: [F("a", Int("u8"), 3), F("m", Arr(Bool(), 70)), F("t", Int("u16"), 9)],
        "[u16;17] natural": lambda: [F("a", Int("u8"), 3), F("m", Arr(Int("u16"), 17)), F("t", Int("u16"), 9)],
        "[i64;12] of 37 bits": lambda: [F("a", Int("u8"), 5), F("m", Arr(Int("i64"), 12), 444, how="elbit"), F("t", Int("u16"), 9)],
        "[u8;40] block": lambda: [F("a", Int("u8"), 3), F("m", Arr(Int("u8"), 40, "bl"), 316), F("t", Int("u16"), 9)],
        "[u32;11] block": lambda: [F("a", Int("u8"), 6), F("m", Arr(Int("u32"), 11, "bl"), 325), F("t", Int("u16"), 9)],
        "beyond byte 31": lambda: [F("a", Arr(Int("u8"), 31)), F("b", Int("u32"), 27), F("c", Int("i16"), 11), F("d", Int("u64"))],
        "beyond byte 255": lambda: [F("a", Int("u8"), 3, how="bits", at=0), F("m", Int("u32"), 21, how="bits", at=2035), F("n", Int("i64"), 40, how="bits", at=2061), F("t", Bool())],
        "around byte 256": lambda: [F("a", Arr(Int("u8"), 255, "bl"), 2037, how="blbit"), F("m", Int("u32"), 21), F("n", Int("i64"), 40), F("t", Bool())],
        "[u8;300] of 1 bit": lambda: [F("a", Int("u8"), 3), F("m", Arr(Int("u8"), 300), 300, how="elbit"), F("t", Int("u16"), 9)],
        "[u16;260] block": lambda: [F("a", Int("u8"), 3), F("m", Arr(Int("u16"), 260, "bl"), 4150), F("t", Int("u16"), 9)],
        "three levels": lambda: [F("a", Int("u8"), 2), F("n", Nested(deep(3)), deep(3).B * 8, how="bit", struct_size=True), F("t", Int("u8"), 6)],
        "array of structures": lambda: [F("a", Int("u8"), 2), F("m", Arr(Nested(deep(2)), 5), 5 * deep(2).B * 8, how="elbit", struct_size=True), F("t", Int("u8"), 6)],
    }
    ens = {
        "20 variants": (5, lambda: variants(20)), "40 variants id 9": (9, lambda: variants(40)), "33 variants spread": (8, lambda: variants(33, lambda i: (i * 37 + 5) % 256)),
        "descending ids": (5, lambda: variants(9, lambda i: 30 - 3 * i)),
    }
    for en in ends:
        for r, l in flags:
            k = dict(endian=en, reverse=bool(r), lsb0=bool(l))
            for nm, mk in sts.items():
                o.append((f"large {nm} {tag(k)}", Struct("S", mk(), **k)))
            for nm, (ib, mk) in ens.items():
                o.append((f"large {nm} {tag(k)}", Enum("S", ib, mk(), **k)))
            for n in (40, 255, 256, 257, 300):
                o.append((f"large filled to {n} bytes {tag(k)}", Struct("S", [F("a", Int("u8"), 3), F("m", Int("u32"), 21), F("t", Int("u16"), 9)], fill=n, **k)))
            o.append((f"large variant beyond byte 255 {tag(k)}", Enum("S", 5, [Var("Alpha", [F("a", Arr(Int("u8"), 256, "bl"), 2043), F("m", Int("u32"), 21), F("n", Int("i64"), 40)]), Var("Beta", [F("b", Int("u8"), 5)]), Var("Gamma")], **k)))
            o.append((f"large one bit id {tag(k)}", Enum("S", 1, [Var("Alpha", [F("a", Int("u16"), 10)]), Var("Beta", [F("b", Bool())])], **k)))
            for ib in (48, 63, 64, 65, 100, 127, 128):
                top = (1 << ib) - 1
                o.append((f"large id of {ib} {tag(k)}", Enum("S", ib, [Var("Alpha", [F("a", Int("u8"), 6)], vid=top), Var("Beta", [F("b", Int("u8"), 5)], vid=(1 << (ib - 1)) + 1), Var("Gamma", [F("g", Int("i32"), 19)])], **k)))
                o.append((f"large captured id of {ib} {tag(k)}", Enum("S", ib, [Var("Alpha", [F("a", Int("u8"), 6)], vid=top), Var("Beta", [F("b", Int("u8"), 5)], vid=(1 << (ib - 1)) + 1),
                          Var("Gamma", [F("idv", Int("u64" if ib <= 64 else "u128"), ib, how="nat", capture=True), F("g", Int("i32"), 19)], invalid=True)], **k)))
    return o


NAMES = ("slice_length buf_len buffer value c id bytes data x self_ output input index len i j n out buf temp prim size bits "
         "bit_size byte_size from_bytes into_bytes from_slice new default clone eq a1 f_0 _pad _a a_ fieldName XYZ sChecked "
         "variant read write check slice length_error r#type r#match r#fn r#struct r#self_ r#async r#try fill_bits").split()
SCOPES = ["type Result<T> = core::result::Result<T, ()>;", "pub struct Result;", "pub struct Vec;", "pub struct Option;",
          "pub struct String;", "pub trait Default {}", "pub trait PartialEq {}", "pub trait Into {}", "pub trait From {}",
          "pub trait TryFrom {}", "pub trait Iterator {}", "pub trait ToString {}", "pub trait AsRef {}",
          "pub mod core {}", "pub mod std {}", "pub mod alloc {}", "pub mod result {}", "pub mod exports {}",
          "pub struct BitfieldLengthError;", "pub struct BitfieldHexError;", "pub fn check(a: u8) -> u8 { a }",
          "pub const A: u8 = 7;", "pub const SIZE: usize = 3;", "pub const BYTE_SIZE: usize = 3;", "pub const BIT_SIZE: usize = 3;",
          "macro_rules! panic { () => {} }", "macro_rules! vec { () => {} }", "macro_rules! matches { () => {} }"]
BEFORE = ["/// a documented thing\n", "#[allow(dead_code)] ", "#[doc = \"x\"] #[cfg(all())] ", "#[doc(hidden)] ", "/** block */ #[allow(unused)] ",
          "#[doc = concat!(\"a\", \"b\")] ", "#[cfg_attr(all(), doc = \"x\")] #[doc(alias(\"x\"))] #[allow(clippy::all)] "]
VIS = ["", "pub ", "pub(crate) ", "pub(super) "]


def name_kinds():
    return [("u16:11", lambda n, **o: F(n, Int("u16"), 11, **o)), ("u64", lambda n, **o: F(n, Int("u64"), **o)),
            ("[u8;2]", lambda n, **o: F(n, Arr(Int("u8"), 2), **o)), ("bool", lambda n, **o: F(n, Bool(), **o)),
            ("i32:20", lambda n, **o: F(n, Int("i32"), 20, **o)), ("char", lambda n, **o: F(n, Char(), **o)),
            ("f32", lambda n, **o: F(n, Float("f32"), **o)), ("[i16;2] block", lambda n, **o: F(n, Arr(Int("i16"), 2, "bl"), 27, **o)),
            ("[u32;3] elements", lambda n, **o: F(n, Arr(Int("u32"), 3), 63, **o)), ("nested", lambda n, **o: F(n, Nested(inner_struct("In")), 16, struct_size=True, how="nat", **o)),
            ("enum", lambda n, **o: F(n, EnumP(e8("E8")), 3, **o))]


def host(how, fs, **o):
    """the fields in a structure or in a variant"""
    so = {k: v for k, v in o.items()}
    if how == "struct":
        return Struct(so.pop("name", "S"), fs, **so)
    vn = so.pop("variants", ("Alpha", "Beta", "Gamma"))
    return Enum(so.pop("name", "S"), 3, [Var(vn[0], fs), Var(vn[1], [F("q", Int("u8"), 5)]), Var(vn[2])], **so)


def fam_names():
    """the same layouts under other names, visibilities, attributes of others and scopes"""
    o, i = [], 0
    mk = name_kinds()
    hs = ("struct", "enum")
    ends = ("be", "le")
    for n in NAMES:
        for h in hs:
            if n == "id" and h == "enum":
                continue            # the getter of the id has that name
            for nm, m in mk:
                i += 1
                fs = [F("lead", Int("u8"), 1 + i % 7), F("tail", Int("u16"), 9)]
                fs.insert(i // 3 % 3, m(n))
                if nm == "bool":
                    fs = [m(n)] + [f for f in fs if f.name != n]
                o.append((f"named {n} {nm} in {h}", host(h, fs, endian=ends[i // 2 % 2], reverse=i % 5 == 0, lsb0=i % 7 == 0)))
    # a field with a name the filler of a smaller variant has
    for n in ("fill_bits", "bondrewd_fill_bits", "fill", "variant_fill_bits"):
        for nm, m in mk:
            for small in ("named", "unit"):
                i += 1
                o.append((f"small variant with {n} {nm} {small}", Enum("S", 3, [
                    Var("Alpha", [F("w", Arr(Int("u64"), 3))]), Var("Beta", [m(n)] if small == "named" else [F("z", Int("u8"), 1), F(n, Int("u8"), 6)]), Var("Gamma")],
                    endian=ends[i % 2], lsb0=i % 3 == 0)))
    # two fields whose names extend each other
    for h in hs:
        for a, b in (("a", "a_bytes"), ("a", "a_0"), ("b", "slice_b"), ("read", "read_b"), ("write", "write_slice"), ("a", "aa"), ("x", "x_"), ("a_b", "ab"), ("is_err", "err")):
            for (na, ma), (nb, mb) in itertools.product(mk[:3] + mk[7:9], mk[:5]):
                fs = [ma(a), F("t", Int("u8"), 3), mb(b)]
                if nb == "bool":
                    fs = [mb(b), ma(a)]
                i += 1
                if b == "slice_b" or b.startswith("write_s"):
                    fs = fs[-1:]
                o.append((f"named {a} {na} and {b} {nb} in {h}", host(h, fs, endian=ends[i % 2])))
    # names of types and variants
    for h in hs:
        for n in "Result Vec Option String Error Bitfield Checked Out Buffer Box T N SIZE My_Type MyType1 A".split():
            for nm, m in mk:
                i += 1
                o.append((f"type {n} with {nm} in {h}", host(h, [F("l", Int("u8"), 3), m("m")] if nm != "bool" else [m("m")], name=n, endian=ends[i % 2])))
    for v in (("Ok", "Err", "Rest"), ("Some", "None", "Many"), ("Result", "Option", "Vec"), ("S", "T", "U"), ("Slf", "Super", "Crate"), ("Id", "Variant", "Bytes"),
              ("A", "Ab", "Abc"), ("Alpha", "AlphaBeta", "Beta"), ("Bool", "Char", "Str"), ("Default", "Invalid", "Reserve")):
        for nm, m in mk:
            i += 1
            o.append((f"variants {' '.join(v)} with {nm}", host("enum", [F("l", Int("u8"), 3), m("m")] if nm != "bool" else [m("m")], variants=v, endian=ends[i % 2])))
    # what is in scope
    for s in SCOPES:
        for h in hs:
            for nm, m in mk:
                for extra in ({}, {"reserve": True}):
                    i += 1
                    if extra and nm in ("nested", "enum", "char"):
                        continue        # no default value
                    o.append((f"scope {s} {nm}{' reserve' if extra else ''} in {h}", host(h, [F("l", Int("u8"), 3), m("m", **extra)] if nm != "bool" else [m("m", **extra)], scope=[s], endian=ends[i % 2])))
    # attributes of others, documentation, visibility
    for b in BEFORE:
        for h in hs:
            for nm, m in mk:
                i += 1
                fs = [F("l", Int("u8"), 3, before=BEFORE[i % len(BEFORE)]), m("m", before=b)]
                if h == "struct":
                    fs[0].vis, fs[1].vis = VIS[i % 4], VIS[(i // 4) % 4]
                else:
                    fs[0].vis = fs[1].vis = ""
                L = host(h, fs if nm != "bool" else fs[1:], before=b, vis=VIS[i % 4], endian=ends[i % 2])
                if h == "enum":
                    L.variants[0].before = L.variants[1].before = b
                    L.variants[1].fields[0].before = BEFORE[(i + 2) % len(BEFORE)]
                o.append((f"attributes {b.strip()} {nm} in {h} seen {VIS[i % 4].strip() or 'privately'}", L))
    return o


def in_module(L, mod="q"):
    """the definition inside a module, named by its path"""
    src = L.defs()
    for f in getattr(L, "fields", []):
        assert not f.ty.needs
    L.name = f"{mod}::{L.name}"
    L.defs = lambda: f"pub mod {mod} {{ use bondrewd::*;\n{src}\n}}"
    return L


def fam_orders(ends=("be", "le")):
    """definitions whose attributes are listed in every order"""
    def fields(z):
        return {"enum": [F("m", EnumP(e8("E8")), 5, how="bits", at=z + 3)],
                "enum array": [F("m", Arr(EnumP(e8("E8")), 3), 12, how="bits", at=z + 2, extra="element_bit_length = 4")],
                "struct": [F("m", Nested(inner_struct("In")), 16, how="bits", at=z + 2, struct_size=True)],
                "struct array": [F("m", Arr(Nested(inner_struct("In")), 2), 32, how="bits", at=z + 2, struct_size=True, extra="element_bit_length = 16")],
                "element array": [F("m", Arr(Int("i16"), 3), 27, how="bits", at=z + 2, endian="le", extra="element_bit_length = 9")],
                "block array": [F("m", Arr(Int("u16"), 3, "bl"), 45, how="bits", at=z + 2, endian="le", extra="block_bit_length = 45")],
                "element bytes": [F("m", Arr(Int("u32"), 2), 48, how="bits", at=z + 2, endian="be", extra="element_byte_length = 3")],
                "reserve": [F("m", Int("u16"), 11, how="bits", at=z + 2, endian="le", reserve=True)],
                "redundant": [F("a", Int("u32"), 20, how="bits", at=z), F("m", Int("u16"), 11, how="bits", at=z + 2, endian="le", redundant=True)],
                "read_only": [F("a", Int("u32"), 20, how="bits", at=z), F("m", Int("u16"), 11, how="bits", at=z + 12, endian="be", read_only=True, overlap=8)],
                "widths": [F("m", Int("u32"), 16, how="byte", endian="le", read_only=True)],
                "size by name": [F("a", Int("u8"), 2), F("m", Nested(inner_struct("In")), 13, struct_size=True)]}
    o = []
    for en in ends:
        for h in ("struct", "enum"):
            z = 3 if h == "enum" else 0
            for nm in fields(0):
                mk = lambda: fields(z)[nm] + [F("t", Int("u8"), 7)]
                n = max(f.attrs(0, 0).count("=") + f.attrs(0, 0).count("reserve") + f.attrs(0, 0).count("read_only") + f.attrs(0, 0).count("redundant") for f in mk())
                for perm in itertools.permutations(range(n)):
                    for apart in (False, True):
                        L = Struct("S", mk(), endian=en) if h == "struct" else Enum("S", 3, [Var("Alpha", mk()), Var("Beta", [F("q", Int("u8"), 5)]), Var("Gamma")], endian=en)
                        o.append((f"{nm} in {h} {en}, attributes in order {perm}{' apart' if apart else ''}", spelt(L, ("permuted", perm, apart))))
        for perm in itertools.permutations(range(4)):
            fs = lambda: [F("a", Int("u16"), 11), F("b", Int("u8"), 5)]
            o.append((f"structure {en}, attributes in order {perm}", spelt(Struct("S", fs(), endian=en, lsb0=True, reverse=True, fill=4), ("permuted", perm, perm[0] % 2))))
            o.append((f"enum {en}, attributes in order {perm}", spelt(Enum("S", 3, [Var("Alpha", fs()), Var("Beta")], endian=en, lsb0=True, reverse=True), ("permuted", perm, perm[0] % 2))))
    return o


def spelt(L, how):
    """the same definition with the types of its fields spelt differently"""
    if how[0] == "permuted":
        def again(m):
            a = m[1].split(", ")
            if len(a) == len(how[1]):
                a = [a[i] for i in how[1]]
            return " ".join(f"#[bondrewd({x})]" for x in a) if how[2] else f"#[bondrewd({', '.join(a)})]"
        src = re.sub(r"#\[bondrewd\((.*?)\)\]", again, L.defs())
        L.defs = lambda: src
        return L
    if how in ("apart", "backwards", "apart backwards"):
        def again(m):
            a = m[1].split(", ")[::-1 if "backwards" in how else 1]
            return " ".join(f"#[bondrewd({x})]" for x in a) if "apart" in how else f"#[bondrewd({', '.join(a)})]"
        src = re.sub(r"#\[bondrewd\((.*?)\)\]", again, L.defs())
        L.defs = lambda: src
        return L
    fs = L.fields if isinstance(L, Struct) else [f for v in L.variants for f in v.fields]
    old = [f.ty.rust for f in fs]
    prim = lambda x: x if ":" in x or x[0].isupper() else f"::core::primitive::{x}"

    def each(x, g):
        if x[0] != "[":
            return g(x)
        e, n = x[1:-1].rsplit("; ", 1)
        return f"[{each(e, g)}; {n}]"

    new, args = [], []
    for i, x in enumerate(old):
        if how == "fragments":
            args.append(x)
            new.append(f"$t{i}")
        elif how == "element fragments":
            new.append(each(x, lambda y: args.append(y) or f"$t{i}"))
        elif how == "parentheses":
            new.append(each(x, lambda y: f"({y})"))
        else:
            new.append(each(x, prim))
    for f, x in zip(fs, new):
        f.ty.rust = x
    src = L.defs()
    for f, x in zip(fs, old):
        f.ty.rust = x
    if args:
        pat = ", ".join(f"$t{i}:ty" for i in range(len(args)))
        src = f"macro_rules! make {{ ({pat}) => {{ {src} }} }}\nmake!({', '.join(args)});"
    L.defs = lambda: src
    return L


def fam_spelt():
    """the types of fields named by their paths, in parentheses, through macros; attributes written apart"""
    o, i = [], 0
    mk = name_kinds() + [("nested by path", lambda n: F(n, Nested(in_module(inner_struct("In"))), 16, struct_size=True, how="nat")),
                         ("nested by path of 13", lambda n: F(n, Nested(in_module(inner_struct("In"))), 13)),
                         ("nested enum by path", lambda n: F(n, Nested(in_module(inner_enum("In"))), 16, struct_size=True, how="nat")),
                         ("[nested by path;2]", lambda n: F(n, Arr(Nested(in_module(inner_struct("In"))), 2), 30, struct_size=True)),
                         ("enum by path", lambda n: F(n, EnumP(in_module(e8("E8"))), 3)),
                         ("[enum by path;3]", lambda n: F(n, Arr(EnumP(in_module(e8("E8"))), 3), 9)),
                         ("[bool;5]", lambda n: F(n, Arr(Bool(), 5))), ("[char;2]", lambda n: F(n, Arr(Char(), 2))), ("i8:3", lambda n: F(n, Int("i8"), 3)), ("i128:90", lambda n: F(n, Int("i128"), 90))]
    for h in ("struct", "enum"):
        for nm, m in mk:
            for how in ("plain", "paths", "parentheses", "fragments", "element fragments"):
                for en, (r, l) in zip(("be", "le", "be", "le"), FLAG4):
                    i += 1
                    fs = [F("l", Int("u8"), 2 + i % 5), m("m"), F("t", Int("i16"), 11)]
                    if nm == "bool":
                        fs = fs[1:]
                    L = host(h, fs, endian=en, reverse=bool(r), lsb0=bool(l))
                    if how != "plain":
                        L = spelt(L, how)
                    elif "path" not in nm:
                        continue
                    o.append((f"types by {how} {nm} in {h} {en}{' reverse' if r else ''}{' lsb0' if l else ''}", L))
    return o


def fam_cnames():
    """C-like enums under other names and scopes"""
    o, i = [], 0
    for s in SCOPES + [""]:
        for cat in ("unit", "tuple", "named", "invalid"):
            for eq in (False, True):
                i += 1
                o.append((f"scope {s} {cat}{' eq' if eq else ''}", EnumDef("S", [("A", None, "unit"), ("B", 5, "unit"), ("C", None, cat)], eq=eq, scope=[s] if s else (), vis=VIS[i % 4], before=BEFORE[i % len(BEFORE)])))
    for v in (("Ok", "Err", "Rest"), ("Some", "None", "Many"), ("Result", "Option", "Vec"), ("S", "T", "U"), ("Default", "Invalid", "Into"), ("X1", "A_B", "Y")):
        for cat in ("unit", "tuple", "named", "invalid"):
            i += 1
            o.append((f"variants {' '.join(v)} {cat}", EnumDef("S", [(v[0], None, "unit"), (v[1], 9, "unit"), (v[2], None, cat)], eq=i % 2 == 0, before=BEFORE[i % len(BEFORE)])))
    return o
