"""Compile-fail witnesses: pairs of definitions that differ only in the defect, (rule, key, rejected,
accepted).  Either may be None.  The rejected one must not build, the accepted one must."""
import itertools
from corpus import *

PRE = ("#[derive(BitfieldEnum, Clone, Copy)] #[bondrewd_enum(u8)] pub enum En { A, B, C }\n"
       "#[derive(Bitfields, Clone, Copy)] #[bondrewd(default_endianness = \"be\")] pub struct In { pub x: u16, #[bondrewd(bit_length = 3)] pub y: u8 }\n")
BE = 'default_endianness = "be"'
ID2 = BE + ", id_bit_length = 2"


def S(body, at=BE):
    return PRE + f"#[derive(Bitfields)]\n#[bondrewd({at})]\npub struct S {{ {body} }}"


def T(body, at=BE):
    return PRE + f"#[derive(Bitfields)]\n#[bondrewd({at})]\npub struct S({body});"


def E(body, at=ID2, pre=""):
    return PRE + f"#[derive(Bitfields)]\n{pre}#[bondrewd({at})]\npub enum S {{ {body} }}"


def C(body, at="", pre=""):
    return f"#[derive(BitfieldEnum)]\n{pre}{at}pub enum S {{ {body} }}"


FLAGS = [BE, BE + ", reverse", BE + ', read_from = "lsb0"', BE + ', reverse, read_from = "lsb0"', 'default_endianness = "le"']


def widths():
    """fields wider than their type; each alone, after other fields, in a variant, in every layout mode"""
    def ways(w, at):
        yield f"bit_length = {w}"
        yield f'bits = "{at}..{at + w}"'
        if w % 8 == 0:
            yield f"byte_length = {w // 8}"

    def homes(attr, ty, at, modes):
        f = f"#[bondrewd({attr})] a: {ty}"
        lead = {0: "", 3: "#[bondrewd(bit_length = 3)] z: u8, ", 8: "z: u8, "}[at]
        for m in modes:
            yield f"in a struct at {at} with {m}", S(lead + f + ", b: u8", m)
        if at == 0:
            yield "in a tuple struct", None
    for t in [f"{s}{w}" for w in (8, 16, 32, 64, 128) for s in "ui"] + ["char"]:
        n = 32 if t == "char" else int(t[1:])
        for over in (1, 2, 7, 8, n):
            for at in (0, 3, 8):
                good = dict((h, s) for h, s in homes(f"bit_length = {n}", t, at, FLAGS) if s)
                for a in ways(n + over, at):
                    for h, s in homes(a, t, at, FLAGS if over in (1, 8) else FLAGS[:1]):
                        if s:
                            yield f"{t} {a} {h}", s, good.get(h) if over == 1 else None
        for over in (1, 8):
            yield (f"{t} of {n + over} bits in a variant", E(f"A {{ #[bondrewd(bit_length = {n + over})] a: {t} }}, B"),
                   E(f"A {{ #[bondrewd(bit_length = {n})] a: {t} }}, B"))
            yield (f"{t} of {n + over} bits in a tuple variant", E(f"A(#[bondrewd(bit_length = {n + over})] {t}), B"),
                   E(f"A(#[bondrewd(bit_length = {n})] {t}), B"))
        if t != "char":
            for k in (1, 2, 3):
                for over in (1, 8):
                    yield (f"[{t}; {k}] elements of {n + over}", S(f"#[bondrewd(element_bit_length = {n + over})] a: [{t}; {k}], b: u8"),
                           S(f"#[bondrewd(element_bit_length = {n})] a: [{t}; {k}], b: u8"))
                    yield (f"[{t}; {k}] block of {n * k + over}", S(f"#[bondrewd(block_bit_length = {n * k + over})] a: [{t}; {k}], b: u8"),
                           S(f"#[bondrewd(block_bit_length = {n * k})] a: [{t}; {k}], b: u8"))
                    yield (f"[{t}; {k}] of {(n + over) * k} bits", S(f"#[bondrewd(bit_length = {(n + over) * k})] a: [{t}; {k}], b: u8"),
                           S(f"#[bondrewd(bit_length = {n * k})] a: [{t}; {k}], b: u8"))
                    yield (f"[{t}; {k}] over bits of {(n + over) * k}", S(f'#[bondrewd(bits = "0..{(n + over) * k}")] a: [{t}; {k}], b: u8'),
                           S(f'#[bondrewd(bits = "0..{n * k}")] a: [{t}; {k}], b: u8'))
                yield (f"[{t}; {k}] elements of {n // 8 + 1} bytes", S(f"#[bondrewd(element_byte_length = {n // 8 + 1})] a: [{t}; {k}], b: u8"), None)
                yield (f"[{t}; {k}] block of {n // 8 * k + 1} bytes", S(f"#[bondrewd(block_byte_length = {n // 8 * k + 1})] a: [{t}; {k}], b: u8"), None)
    for t, n in (("f32", 32), ("f64", 64)):
        for w in sorted({1, 8, 16, n // 2, n - 8, n - 1, n + 1, n + 8, 2 * n} - {n}):
            for a in (f"bit_length = {w}", f'bits = "0..{w}"') + ((f"byte_length = {w // 8}",) if w % 8 == 0 else ()):
                yield f"{t} {a}", S(f"#[bondrewd({a})] a: {t}, b: u8"), S(f"#[bondrewd(bit_length = {n})] a: {t}, b: u8")
            yield f"[{t}; 2] elements of {w}", S(f"#[bondrewd(element_bit_length = {w})] a: [{t}; 2], b: u8"), S(f"#[bondrewd(element_bit_length = {n})] a: [{t}; 2], b: u8")
    for w in (9, 10, 16, 17):
        yield f"enum of {w} bits", S(f'#[bondrewd(enum_primitive = "u8", bit_length = {w})] a: En, b: u8'), S('#[bondrewd(enum_primitive = "u8", bit_length = 8)] a: En, b: u8')
        yield f"enum elements of {w} bits", S(f'#[bondrewd(enum_primitive = "u8", element_bit_length = {w})] a: [En; 2], b: u8'), S('#[bondrewd(enum_primitive = "u8", element_bit_length = 8)] a: [En; 2], b: u8')
    for w in (25, 26, 32, 40):
        yield f"nested struct of 3 bytes on {w} bits", S(f"#[bondrewd(struct_size = 3, bit_length = {w})] a: In, b: u8"), S("#[bondrewd(struct_size = 3, bit_length = 24)] a: In, b: u8")
    for s in (1, 2, 4, 5, 16):
        yield f"nested struct of 3 bytes given as {s}", S(f"#[bondrewd(struct_size = {s})] a: In, b: u8"), S("#[bondrewd(struct_size = 3)] a: In, b: u8")


def overlaps():
    """every relative position of two fields (and a third elsewhere), declared in either order"""
    A = (8, 16)
    rel = [(s, e) for s in (2, 8, 11, 16, 19) for e in (5, 8, 11, 16, 20) if s < e]
    modes = FLAGS[:4]
    for (s, e) in rel:
        hit = s < A[1] and A[0] < e
        for order in (0, 1):
            fs = [f'#[bondrewd(bits = "{A[0]}..{A[1]}")] a: u8', f'#[bondrewd(bits = "{s}..{e}")] b: u32']
            if order:
                fs.reverse()
            for mi, m in enumerate(modes):
                src = S(", ".join(fs), m)
                key = f"bits {A[0]}..{A[1]} and {s}..{e}{' swapped' if order else ''} with {m}"
                if hit:
                    fs2 = [f.replace('")] b', '", redundant)] b') for f in fs]
                    yield key, src, S(", ".join(fs2), m) if mi == 0 and order == 0 and s >= A[0] and e <= A[1] else None
                    far = fs[:1] + ['#[bondrewd(bits = "40..45")] far: u8'] + fs[1:]
                    if mi < 2:
                        yield key + " with a field between", S(", ".join(far), m), None
                else:
                    yield key, None, src
        if hit:
            yield (f"variant bits {A[0]}..{A[1]} and {s}..{e}", E(f'A {{ #[bondrewd(bits = "{A[0]}..{A[1]}")] a: u8, #[bondrewd(bits = "{s}..{e}")] b: u32 }}, B'), None)
            yield (f"later variant bits {A[0]}..{A[1]} and {s}..{e}", E(f'B, A {{ #[bondrewd(bits = "{A[0]}..{A[1]}")] a: u8, #[bondrewd(bits = "{s}..{e}")] b: u32 }}'), None)
        else:
            yield (f"variant bits {A[0]}..{A[1]} and {s}..{e}", None, E(f'A {{ #[bondrewd(bits = "{A[0]}..{A[1]}")] a: u8, #[bondrewd(bits = "{s}..{e}")] b: u32 }}, B'))
    kinds = [("u8", "", 8), ("i16", "", 16), ("bool", "", 1), ("f32", "", 32), ("char", "", 32), ("[u8; 2]", "", 16), ("[u16; 2]", "block_bit_length", 32),
             ("In", "struct_size = 3", 24), ("En", 'enum_primitive = "u8"', 8)]
    for t, a, w in kinds:                       # a field of every kind over the one before it
        if a == "block_bit_length":
            continue
        x = (a + ", " if a else "")
        yield (f"{t} over the end of the field before", S(f'z: u16, #[bondrewd({x}bits = "15..{15 + w}")] a: {t}'),
               S(f'z: u16, #[bondrewd({x}bits = "16..{16 + w}")] a: {t}') if w >= 1 else None)
        yield (f"a field over the end of {t}", S(f'{"#[bondrewd(" + a + ")] " if a else ""}z: {t}, #[bondrewd(bits = "{w - 1}..{w + 5}")] a: u8'),
               S(f'{"#[bondrewd(" + a + ")] " if a else ""}z: {t}, #[bondrewd(bits = "{w}..{w + 6}")] a: u8'))
    for n in range(2, 6):                       # overlap with a field that is not a neighbour
        fs = [f"f{i}: u8" for i in range(n)]
        for j in range(n):
            yield (f"last of {n} fields over field {j}", S(", ".join(fs) + f', #[bondrewd(bits = "{j * 8 + 3}..{j * 8 + 6}")] x: u8'),
                   S(", ".join(fs) + f', #[bondrewd(bits = "{j * 8 + 3}..{j * 8 + 6}", redundant)] x: u8'))
            yield (f"last of {n} fields over part of field {j} and on", S(", ".join(fs) + f', #[bondrewd(bits = "{j * 8 + 7}..{j * 8 + 9}")] x: u8'), None)
    for n in (3, 4):                            # fields that share bits by permission come before
        for at in range(n):
            for w, x in (("redundant", 'bits = "0..4", redundant'), ("reserve", "reserve"), ("overlapping_bits", f'bits = "{8 * at - 4}..{8 * at}", overlapping_bits = 4')):
                if at == 0 and w != "reserve":
                    continue
                fs = [f"f{i}: u8" for i in range(n)]
                fs[at] = f"#[bondrewd({x})] f{at}: u8"
                shift = 0 if w == "reserve" else 1
                for j in range(n):
                    if j == at and shift or w == "overlapping_bits" and j == at - 1:
                        continue
                    o = 8 * (j - (shift if j > at else 0))
                    yield (f"last of {n} fields over field {j}, field {at} is {w}", S(", ".join(fs) + f', #[bondrewd(bits = "{o + 3}..{o + 6}")] x: u8'),
                           S(", ".join(fs) + f', #[bondrewd(bits = "{o + 3}..{o + 6}", redundant)] x: u8'))
    for ib in (1, 2, 5, 8, 12):                 # the id of an enum
        at = BE + f", id_bit_length = {ib}"
        for s in sorted({0, ib // 2, ib - 1}):
            yield (f"variant field over bit {s} of an id of {ib}", E(f'A {{ #[bondrewd(bits = "{s}..{ib + 4}")] a: u32 }}, B', at),
                   E(f'A {{ #[bondrewd(bits = "{ib}..{ib + 4}")] a: u32 }}, B', at))
    yield ("explicit field then running fields into an earlier one", S('#[bondrewd(bits = "8..16")] a: u8, #[bondrewd(bits = "0..4")] b: u8, c: u8'),
           S('#[bondrewd(bits = "8..16")] a: u8, #[bondrewd(bits = "0..4")] b: u8, #[bondrewd(bit_length = 4)] c: u8'))


def attrs():
    """field and struct attributes that contradict each other or cannot be read"""
    def f(a, ok=None, t="u8"):
        return f"{t} with {a}", S(f"#[bondrewd({a})] a: {t}, b: u8"), S(f"#[bondrewd({ok})] a: {t}, b: u8") if ok else None
    yield f("bit_length = 8, byte_length = 1", "bit_length = 8")
    yield f("byte_length = 1, bit_length = 8", "byte_length = 1")
    yield f("bit_length = 3, bit_length = 4", "bit_length = 3")
    yield f('bits = "0..3", bit_length = 3', 'bits = "0..3"')
    for g in ["3..3", "5..3", "7..0", "0..=3", "a..3", "0..b", "..3", "3..", "..", "", "0-3", "0...3", "-1..3", "0..3..5", "1.5..3"]:
        yield f(f'bits = "{g}"', 'bits = "0..3"')
    for g in ["bits = 3", 'bit_length = "3"', "bit_length = -3", "bit_length = 3.5", 'byte_length = "1"', 'endianness = "foo"', 'endianness = "LE"', 'endianness = ""', "overlapping_bits = 9", 'overlapping_bits = "3"',
              "capture_id", "element_bit_length = 3", "element_byte_length = 1", "block_bit_length = 3", "block_byte_length = 1", "struct_size = 1", 'enum_primitive = "u8"']:
        yield f(g, "bit_length = 8")
    for p in ["u16", "i8", "x8", "f32", "bool", ""]:
        yield f(f'enum_primitive = "{p}"', 'enum_primitive = "u8"', "En")
    for t in ["usize", "isize", "String", "&'static u8", "(u8, u8)", "Vec<u8>", "In", "En", "[In; 2]", "[En; 2]", "std::num::NonZeroU8", "Option<u8>", "[u8]", "()", "*const u8", "fn()", "&'static [u8]", "[usize; 2]", "[String; 2]"]:
        yield f"field of type {t}", S(f"a: {t}, b: u8"), None
        yield f"field of type {t} in a variant", E(f"A {{ a: {t} }}, B"), None
    for t in ("usize", "isize"):
        for a in ("bit_length = 8", "byte_length = 8", "bit_length = 64", 'bits = "0..8"', 'endianness = "le"', "reserve", 'bits = "0..64", redundant'):
            yield f"field of type {t} with {a}", S(f"#[bondrewd({a})] a: {t}, b: u8"), S(f"#[bondrewd({a})] a: {'u' if t[0] == 'u' else 'i'}64, b: u8")  if "redundant" not in a else None
            yield f"variant's field of type {t} with {a}", E(f"A {{ #[bondrewd({a})] a: {t} }}, B"), None
        for a in ("element_bit_length = 8", "element_byte_length = 1", "block_bit_length = 16", "block_byte_length = 2", "bit_length = 16", 'bits = "0..16"'):
            yield f"field of type [{t}; 2] with {a}", S(f"#[bondrewd({a})] a: [{t}; 2], b: u8"), None
    yield "nested type without the trait", PRE + "pub struct Q; " + S("#[bondrewd(struct_size = 4)] a: Q, b: u8")[len(PRE):], None
    yield "enum field type without the trait", PRE + "pub struct Q; " + S('#[bondrewd(enum_primitive = "u8")] a: Q, b: u8')[len(PRE):], None
    for n, bad in ((2, (1, 7, 9, 11, 15)), (3, (1, 8, 10, 20, 23)), (4, (3, 9, 30))):
        for w in bad:
            yield f"[u8; {n}] of {w} bits", S(f"#[bondrewd(bit_length = {w})] a: [u8; {n}], b: u8"), S(f"#[bondrewd(bit_length = {n * 5})] a: [u8; {n}], b: u8")
            yield f"[u8; {n}] over {w} bits", S(f'#[bondrewd(bits = "0..{w}")] a: [u8; {n}], b: u8'), S(f'#[bondrewd(bits = "0..{n * 5}")] a: [u8; {n}], b: u8')
        for w in {1, (n - 1) * 8 - 1, (n - 1) * 8}:
            yield f"[u8; {n}] block of {w} bits", S(f"#[bondrewd(block_bit_length = {w})] a: [u8; {n}], b: u8"), S(f"#[bondrewd(block_bit_length = {(n - 1) * 8 + 1})] a: [u8; {n}], b: u8")
    body = "#[bondrewd(bit_length = 4)] a: u8, b: u8"
    for g in ['default_endianness = "foo"', "default_endianness = 3", 'default_endianness = ""', 'read_from = "foo"', "read_from = 3", 'read_from = "msb"', "fill_bytes = 0", "fill_bytes = 1", 'fill_bytes = "3"', "fill_bytes = 3, fill_bytes = 4",
              'enforce_bits = "12"', 'enforce_bytes = "2"']:
        yield f"struct with {g}", S(body, g), S(body, BE)
    for n in range(0, 6):
        for t, w in (("u16", 16), ("u32", 32), ("[u8; 5]", 40)):
            if n * 8 < w:
                yield f"{t} filled to {n} bytes", S(f"a: {t}", BE + f", fill_bytes = {n}"), S(f"a: {t}", BE + f", fill_bytes = {w // 8}")
                yield f"{t} filled to {n} bytes, lsb0", S(f"a: {t}", BE + f', read_from = "lsb0", fill_bytes = {n}'), None
    yield "unit struct", PRE + "#[derive(Bitfields)] pub struct S;", None
    yield "union", PRE + "#[derive(Bitfields)] pub union S { a: u8, b: u16 }", None
    yield "generic field", PRE + "#[derive(Bitfields)] pub struct S<T> { a: u8, b: T }", None


def variants():
    """enums whose ids cannot tell the variants apart"""
    cap = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    for ib in (1, 2, 3, 4):
        n = 1 << ib
        at = BE + f", id_bit_length = {ib}"
        yield f"{n + 1} variants with an id of {ib} bits", E(", ".join(cap[: n + 1]), at), E(", ".join(cap[:n]), at)
        yield f"{n + 2} variants with an id of {ib} bits", E(", ".join(cap[: n + 2]), at), None
        for i in range(2):
            for big in (n, n + 1, 2 * n):
                v = ["A { a: u8 }", "B"]
                bad, ok = list(v), list(v)
                bad[i] = f"#[bondrewd(variant_id = {big})] " + bad[i]
                ok[i] = f"#[bondrewd(variant_id = {n - 1})] " + ok[i]
                yield f"variant {i} has id {big} with an id of {ib} bits", E(", ".join(bad), at), E(", ".join(ok), at)
        yield (f"discriminant {n} with an id of {ib} bits", E(f"A {{ a: u8 }} = {n}, B = 0", at, "#[repr(u8)]\n"), E(f"A {{ a: u8 }} = {n - 1}, B = 0", at, "#[repr(u8)]\n"))
    for ib in (7, 8, 15, 16, 31, 32, 33, 63, 64, 65):
        at = BE + f", id_bit_length = {ib}"
        yield f"id {1 << ib} in {ib} bits", E(f"A {{ a: u8 }}, #[bondrewd(variant_id = {1 << ib})] B", at), E(f"A {{ a: u8 }}, #[bondrewd(variant_id = {(1 << ib) - 1})] B", at)
    for n in (2, 3, 4):
        for i, j in itertools.combinations(range(n), 2):
            for style in ("attribute", "discriminant", "mixed"):
                def mk(k, v):
                    d = (style == "discriminant") or (style == "mixed" and k == j)
                    body = f"{cap[k]} {{ a: u8 }}"
                    return f"{body} = {v}" if d else f"#[bondrewd(variant_id = {v})] {body}"
                bad = [mk(k, (1 if k == j else k + (k == 0 and 0)) if k != i else 1) if k in (i, j) else f"#[bondrewd(variant_id = {k + 2})] {cap[k]}" for k in range(n)]
                ok = [mk(k, 1 if k == j else 0) if k in (i, j) else f"#[bondrewd(variant_id = {k + 2})] {cap[k]}" for k in range(n)]
                at = BE + ", id_bit_length = 4"
                pre = "#[repr(u8)]\n" if style != "attribute" else ""
                yield f"variants {i} and {j} of {n} share an id, by {style}", E(", ".join(bad), at, pre), E(", ".join(ok), at, pre) if style == "attribute" else None
    for n in (2, 3, 4):
        for i, j in itertools.combinations(range(n), 2):
            bad = [("#[bondrewd(invalid)] " if k in (i, j) else "") + f"{cap[k]} {{ a: u8 }}" for k in range(n)]
            ok = [("#[bondrewd(invalid)] " if k == i else "") + f"{cap[k]} {{ a: u8 }}" for k in range(n)]
            yield f"variants {i} and {j} of {n} both catch all", E(", ".join(bad)), E(", ".join(ok))
    for t in ("u16", "u32", "i8", "bool", "char", "f32", "[u8; 1]"):
        yield f"captured id of type {t}", E(f"A {{ a: u8 }}, B {{ #[bondrewd(capture_id)] i: {t}, x: u8 }}"), E("A { a: u8 }, B { #[bondrewd(capture_id)] i: u8, x: u8 }")
    for t in ("u8", "u32", "i16"):
        yield f"captured id of 9 bits in {t}", E(f"A {{ a: u8 }}, B {{ #[bondrewd(capture_id)] i: {t}, x: u8 }}", BE + ", id_bit_length = 9"), E("A { a: u8 }, B { #[bondrewd(capture_id)] i: u16, x: u8 }", BE + ", id_bit_length = 9")
    yield "captured id not first", E("A { a: u8 }, B { x: u8, #[bondrewd(capture_id)] i: u8 }"), E("A { a: u8 }, B { #[bondrewd(capture_id)] i: u8, x: u8 }")
    yield "captured id in a struct", S("#[bondrewd(capture_id)] i: u8, x: u8"), None
    yield "id of 129 bits", E("A { a: u8 }, B", BE + ", id_bit_length = 129"), E("A { a: u8 }, B", BE + ", id_bit_length = 128")
    yield "id of 17 bytes", E("A { a: u8 }, B", BE + ", id_byte_length = 17"), E("A { a: u8 }, B", BE + ", id_byte_length = 16")
    yield "id of 0 bits", E("A { a: u8 }, B", BE + ", id_bit_length = 0"), E("A { a: u8 }, B", BE + ", id_bit_length = 1")
    yield "no id length", E("A { a: u8 }, B", BE), E("A { a: u8 }, B")
    yield "no variants", E(""), None
    yield "variant with both kinds of id", E("#[bondrewd(variant_id = 2)] A { a: u8 } = 1, B { a: u8 }", pre="#[repr(u8)]\n"), None
    yield "negative discriminant", E("A { a: u8 } = -1, B { a: u8 }", pre="#[repr(i8)]\n"), None
    yield "variant id as text", E('#[bondrewd(variant_id = "1")] A { a: u8 }, B { a: u8 }'), E('#[bondrewd(variant_id = 1)] A { a: u8 }, B { a: u8 }')
    for p in range(1, 8):
        yield f"payload of {p} bits for 8", E("A { a: u8 }, B", ID2 + f", payload_bit_length = {p}"), E("A { a: u8 }, B", ID2 + ", payload_bit_length = 8")
    for i, p, t in itertools.product((1, 2, 3, 8), (7, 8, 9, 16), (8, 9, 10, 11, 16, 17, 18, 24)):
        if p < 8 or i + p != t:
            yield f"id {i}, payload {p}, total {t}", E("A { a: u8 }, B", BE + f", id_bit_length = {i}, payload_bit_length = {p}, enforce_bits = {t}"), E("A { a: u8 }, B", BE + f", id_bit_length = {i}, payload_bit_length = 8, enforce_bits = {i + 8}")
        if p >= 8 and t <= p or p < 8:
            yield f"payload {p}, total {t}", E("A { a: u8 }, B", BE + f", payload_bit_length = {p}, enforce_bits = {t}"), E("A { a: u8 }, B", BE + f", payload_bit_length = 8, enforce_bits = {8 + i}")
    for n in (3, 4, 5, 8, 9):
        need = (n - 1).bit_length()
        vs = ", ".join(f"V{chr(97 + k)} {{ a: u8 }}" for k in range(n))
        for i in range(1, need):
            yield f"{n} variants, {i} id bits left by payload and total", E(vs, BE + f", payload_bit_length = 8, enforce_bits = {8 + i}"), E(vs, BE + f", payload_bit_length = 8, enforce_bits = {8 + need}")


def cenums():
    """BitfieldEnum definitions whose values cannot be told apart or represented"""
    for at in ("", "#[bondrewd_enum(u8)] "):
        for n in (2, 3, 4):
            for i, j in itertools.combinations(range(n), 2):
                v = [f"V{k} = {k + 10}" for k in range(n)]
                bad = list(v)
                bad[j] = f"V{j} = {i + 10}"
                yield f"{at}values {i} and {j} of {n} are the same", C(", ".join(bad), at), C(", ".join(v), at)
                inv = [("#[bondrewd_enum(invalid)] " if k in (i, j) else "") + f"V{k}" for k in range(n)]
                ok = [("#[bondrewd_enum(invalid)] " if k == i else "") + f"V{k}" for k in range(n)]
                yield f"{at}variants {i} and {j} of {n} are both invalid", C(", ".join(inv), at), C(", ".join(ok), at)
        for big in (256, 257, 511, 512, 65535, 65536):
            yield f"{at}value {big}", C(f"A = {big}, B", at), C("A = 255, B = 1", at)
            yield f"{at}last value {big}", C(f"A, B = {big}", at), C("A, B = 255", at)
        yield f"{at}257 variants", C(", ".join(f"V{i}" for i in range(257)), at), C(", ".join(f"V{i}" for i in range(256)), at) if at else C(", ".join(f"V{i}" for i in range(255)), at)
        yield f"{at}negative value", C("A = -1, B", at), None
        yield f"{at}invalid and primitive", C("#[bondrewd_enum(invalid)] A, B(u8)", at), C("A, B(u8)", at)
        yield f"{at}two primitive catchers", C("A(u8), B(u8)", at), C("A, B(u8)", at)
        for t in ("u16", "u32", "i8", "bool", "char", "String", "[u8; 1]"):
            yield f"{at}catcher of {t}", C(f"A, B({t})", at), C("A, B(u8)", at)
            yield f"{at}named catcher of {t}", C(f"A, B {{ v: {t} }}", at), C("A, B { v: u8 }", at)
        yield f"{at}two fields", C("A, B(u8, u8)", at), None
        yield f"{at}two named fields", C("A, B { x: u8, y: u8 }", at), None
        yield f"{at}no variants", C("", at), None
    yield "struct", "#[derive(BitfieldEnum)] pub struct S;", None
    yield "struct with fields", "#[derive(BitfieldEnum)] pub struct S { a: u8 }", None
    for a in ("u16", "i8", "foo", "u32"):
        yield f"enum attribute {a}", C("A, B", f"#[bondrewd_enum({a})] "), C("A, B", "#[bondrewd_enum(u8)] ")


def empties():
    """definitions that hold no bits, or that use bits the structure does not have"""
    for m in FLAGS + [BE + ", enforce_bits = 0", BE + ", enforce_full_bytes"]:
        for f in ("#[bondrewd(bit_length = 0)] a: u8", "#[bondrewd(byte_length = 0)] a: u8", '#[bondrewd(bits = "0..0")] a: u8', "#[bondrewd(bit_length = 0)] a: bool", "#[bondrewd(bit_length = 0)] a: [u8; 2]",
                  "#[bondrewd(element_bit_length = 0)] a: [u8; 2]", "#[bondrewd(struct_size = 0)] a: In", "a: [u8; 0]", "a: [bool; 0]", "a: [u32; 0]"):
            for lead, tail in (("", ""), ("z: u8, ", ""), ("", ", b: u8"), ("z: u16, ", ", b: u8")):
                yield f"{lead}{f}{tail} with {m}", S(lead + f + tail, m), None
    for m in FLAGS:
        for f in ("#[bondrewd(redundant)] a: u8", "#[bondrewd(overlapping_bits = 8)] a: u8", "#[bondrewd(redundant)] a: u8, #[bondrewd(redundant, bits = \"0..4\")] b: u8", ""):
            yield f"only {f or 'nothing'} with {m}", S(f, m), None
        for w in (1, 7, 8, 9, 20):
            yield f"redundant field past the end by {w} with {m}", S(f'z: u8, #[bondrewd(bits = "8..{8 + w}", redundant)] a: u32', m), None
    yield "array with no elements in a variant", E("A { a: [u8; 0] }, B"), None
    yield "field with no bits in a variant", E("A { #[bondrewd(bit_length = 0)] a: u8 }, B"), None
    for t in range(0, 4):
        for a in (f"id_bit_length = 4, enforce_bits = {t}", f"payload_bit_length = 8, enforce_bits = {t}", f"payload_byte_length = 1, enforce_bits = {t}", f"id_bit_length = 4, payload_bit_length = 0, enforce_bits = {t}"):
            yield f"enum of {t} bits with {a}", E("A { a: u8 }, B", BE + ", " + a), None


FAMILIES = [("width", widths), ("overlap", overlaps), ("attribute", attrs), ("variant id", variants), ("BitfieldEnum value", cenums), ("empty", empties)]


def bits_defined(L):
    """what the enforcement attributes count: the bits of the fields"""
    if isinstance(L, Struct):
        return sum(f.w - f.overlap for f in L.fields if not f.redundant)
    return L.bits


def enforced(L):
    """(key, wants to build, source) for one layout under every enforcement around its size"""
    n = bits_defined(L)
    isS = isinstance(L, Struct)
    how = None if isS else L.id_how

    def src(e):
        old, L.enforce = L.enforce, e
        if how in ("implied", "implied by bytes", "all"):    # these state the total themselves
            L.id_how = "bit"
        o = []
        seen = set()

        def walk(x):
            for d in x.needs():
                if d.name not in seen:
                    seen.add(d.name)
                    walk(d)
                    o.append(d.defs())
        walk(L)
        t = "\n".join(o + [L.defs()])
        L.enforce = old
        if how:
            L.id_how = how
        return t
    for k in sorted({n - 8, n - 2, n - 1, n, n + 1, n + 2, n + 7, n + 8}):
        if k < 0 or (k > n and not isS):
            continue
        yield f"enforce_bits = {k}", k == n, src(f"enforce_bits = {k}")
    b = (n + 7) // 8
    for k in (b - 1, b, b + 1):
        if k < 0 or (k * 8 > n and not isS):
            continue
        yield f"enforce_bytes = {k}", k * 8 == n, src(f"enforce_bytes = {k}")
    if isS:
        yield "enforce_full_bytes", n % 8 == 0, src("enforce_full_bytes")
    elif n % 8:
        yield "enforce_full_bytes", False, src("enforce_full_bytes")
