"""Independent model of the documented bondrewd layout.

Everything here is written from README.md and the derive documentation, never from the macro's
code.  A model object knows (a) the Rust definition a user would write, (b) where every bit of every
value lives in the byte form, and (c) how harness functions for it are spelt.  The expected value of
every output bit of a harness is emitted as a token of the analyser's specification language:
  0 | 1 | v<k> (input bit k) | n<k> (node k of this harness) | x (unconstrained), optionally !-prefixed
"""

INTS = {f"{s}{w}": (s == "i", w) for s in "ui" for w in (8, 16, 32, 64, 128)}


def neg(t):
    if t == "0":
        return "1"
    if t == "1":
        return "0"
    return t[1:] if t[0] == "!" else "!" + t


class Nodes:
    """Per-harness table of derived bits."""

    def __init__(self):
        self.lines = []
        self.memo = {}

    def _mk(self, op, *a):
        k = (op, a)
        if k not in self.memo:
            self.lines.append("N " + op + " " + " ".join(a))
            self.memo[k] = f"n{len(self.lines) - 1}"
        return self.memo[k]

    def ite(self, c, a, b):
        if c == "1" or a == b:
            return a
        if c == "0":
            return b
        if a == "1" and b == "0":
            return c
        if a == "0" and b == "1":
            return neg(c)
        return self._mk("i", c, a, b)

    def and_(self, ts):
        ts = [t for t in ts if t != "1"]
        if "0" in ts:
            return "0"
        if not ts:
            return "1"
        return ts[0] if len(ts) == 1 else self._mk("&", *ts)

    def or_(self, ts):
        ts = [t for t in ts if t != "0"]
        if "1" in ts:
            return "1"
        if not ts:
            return "0"
        return ts[0] if len(ts) == 1 else self._mk("|", *ts)

    def eq_const(self, bits, k):
        """bits (LSB first) == constant k"""
        if k >> len(bits):
            return "0"
        return self.and_([b if (k >> i) & 1 else neg(b) for i, b in enumerate(bits)])

    def lt_const(self, bits, k):
        """unsigned bits < k"""
        if k >> len(bits):
            return "1"
        r = "0"
        for i, b in enumerate(bits):
            r = self.ite(b, r if (k >> i) & 1 else "0", "1" if (k >> i) & 1 else r)
        return r

    def table(self, bits, f, outw):
        """outw-bit table lookup f(value of bits)"""
        def rec(i, base):
            if i < 0:
                v = f(base)
                return tuple("1" if (v >> k) & 1 else "0" for k in range(outw))
            lo, hi = rec(i - 1, base), rec(i - 1, base | 1 << i)
            return tuple(self.ite(bits[i], h, l) for h, l in zip(hi, lo))
        return list(rec(len(bits) - 1, 0))


def byte_chunks(w):
    n = (w + 7) // 8
    return [(c * 8, min(8, w - c * 8)) for c in range(n)]


def order(w, endian):
    """value-bit index stored at each position of a w-bit field, first position first.

    big endian: most significant bit first.  little endian: the value's bytes in little-endian
    order (the last one holding whatever bits are left), each byte most significant bit first."""
    if endian == "be":
        return list(range(w - 1, -1, -1))
    out = []
    for lo, n in byte_chunks(w):
        out += list(range(lo + n - 1, lo - 1, -1))
    return out


# --------------------------------------------------------------------------------------- types
class Ty:
    """A field type. arg_ty: harness argument type; nvars/inbits: how the analyser numbers it."""
    needs = ()          # nested definitions
    endian_matters = False

    def ctor(self, e):
        return e

    def dtor(self, e):
        return e


class Int(Ty):
    def __init__(self, name):
        self.rust = self.arg_ty = name
        self.signed, self.size = INTS[name]
        self.width = self.nbits = self.nvars = self.size
        self.endian_matters = self.size > 8
        self.zero = "0"

    def inbits(self, v):
        return [f"v{v + i}" for i in range(self.size)]

    def enc(self, b, w, endian, nd):
        return [b[k] for k in order(w, endian)]

    def dec(self, p, w, endian, nd):
        out = ["0"] * self.size
        for q, k in enumerate(order(w, endian)):
            out[k] = p[q]
        if self.signed:
            for k in range(w, self.size):
                out[k] = out[w - 1]
        return out

    def default(self):
        return ["0"] * self.size


class Float(Int):
    def __init__(self, name):
        self.rust = self.arg_ty = name
        self.signed = False
        self.size = self.width = self.nbits = self.nvars = int(name[1:])
        self.endian_matters = True
        self.zero = "0.0"


class Bool(Ty):
    rust = arg_ty = "bool"
    width = nbits = nvars = 1
    zero = "false"

    def inbits(self, v):
        return [f"v{v}"]

    def enc(self, b, w, endian, nd):
        return ["0"] * (w - 1) + [b[0]]

    def dec(self, p, w, endian, nd):
        return [nd.or_(p)]

    def default(self):
        return ["0"]


class Char(Ty):
    rust = arg_ty = "char"
    width = nbits = 32
    nvars = 21
    endian_matters = True
    zero = "'\\0'"

    def inbits(self, v):
        return [f"v{v + i}" for i in range(21)] + ["0"] * 11

    def enc(self, b, w, endian, nd):
        return [b[k] for k in order(w, endian)]

    def dec(self, p, w, endian, nd):
        out = ["0"] * 32
        for q, k in enumerate(order(w, endian)):
            out[k] = p[q]
        ok = nd.and_([nd.lt_const(out, 0x110000),
                      nd.or_([nd.lt_const(out, 0xD800), neg(nd.lt_const(out, 0xE000))])])
        return [nd.ite(ok, b, "1" if (0xFFFD >> i) & 1 else "0") for i, b in enumerate(out)]

    def default(self):
        return ["0"] * 32


class EnumDef:
    """#[derive(BitfieldEnum)]: variants are (name, discriminant or None, kind) with kind in
    unit | invalid | tuple | named (tuple/named carry the unmatched value)."""

    def __init__(self, name, variants, prim_attr=True, eq=False, scope=(), before="", vis="pub "):
        self.eq, self.scope, self.before, self.vis = eq, [Item(x) for x in scope], before, vis
        self.name, self.variants, self.prim_attr = name, variants, prim_attr
        self.ids = []
        used = {d for _, d, _ in variants if d is not None}
        nxt = 0
        for _, d, k in variants:
            if d is None:
                while nxt in used:
                    nxt += 1
                d = nxt
                used.add(d)
            self.ids.append(d)
        self.catch = len(variants) - 1
        for i, (_, _, k) in enumerate(variants):
            if k != "unit":
                self.catch = i

    def needs(self):
        return list(self.scope)

    def defs(self):
        o = [self.before + "#[derive(BitfieldEnum, Clone, Copy)]"]
        if any(d is not None for _, d, _ in self.variants) and any(k in ("tuple", "named") for _, _, k in self.variants):
            o.append("#[repr(u8)]")
        at = (["u8"] if self.prim_attr else []) + (["partial_eq"] if self.eq else [])
        if at:
            o.append(f"#[bondrewd_enum({', '.join(at)})]")
        o.append(f"{self.vis}enum {self.name} {{")
        for (n, d, k) in self.variants:
            a = self.before + ("#[bondrewd_enum(invalid)] " if k == "invalid" else "")
            b = {"tuple": "(u8)", "named": " { value: u8 }"}.get(k, "")
            o.append(f"  {a}{n}{b}{'' if d is None else f' = {d}'},")
        return "\n".join(o + ["}"])

    def index(self, x):
        for i, d in enumerate(self.ids):
            if i != self.catch and d == x:
                return i
        return self.catch

    def canon(self, x):
        i = self.index(x)
        if i == self.catch and self.variants[i][2] in ("tuple", "named"):
            return x
        return self.ids[i]


class EnumP(Ty):
    arg_ty = "u8"
    nbits = nvars = width = 8
    zero = "0"

    def __init__(self, d):
        self.d = d
        self.rust = d.name
        self.needs = (d,)

    def ctor(self, e):
        return f"{self.rust}::from_primitive({e})"

    def dtor(self, e):
        return f"({e}).into_primitive()"

    def inbits(self, v):
        return [f"v{v + i}" for i in range(8)]

    def enc(self, b, w, endian, nd):
        c = nd.table(b, self.d.canon, 8)
        return [c[k] for k in order(w, "be")]

    def dec(self, p, w, endian, nd):
        raw = ["0"] * 8
        for q, k in enumerate(order(w, "be")):
            raw[k] = p[q]
        return nd.table(raw, self.d.canon, 8)


class Nested(Ty):
    """field whose type itself derives Bitfields"""

    def __init__(self, lay):
        self.lay = lay
        self.rust = lay.name
        self.needs = (lay,)
        self.arg_ty = lay.arg_ty
        self.nvars, self.nbits = lay.nvars, lay.nbits
        self.width = lay.B * 8
        self.zero = lay.zero

    def ctor(self, e):
        return self.lay.ctor(e)

    def dtor(self, e):
        return self.lay.dtor(e)

    def inbits(self, v):
        return self.lay.inbits(v)

    def enc(self, b, w, endian, nd):
        img = self.lay.image(b, nd)
        return img[:w]

    def dec(self, p, w, endian, nd):
        return self.lay.parse(list(p) + ["0"] * (self.lay.B * 8 - w), nd)

    def default(self):
        return self.lay.default()


class RawLay:
    """a hand written implementation of the traits that passes its bytes through unchanged: used as a
    nested field it can take every value, so nothing about the nested type is assumed"""

    def __init__(self, name, B):
        self.name, self.B, self.bits = name, B, B * 8
        self.arg_ty = f"[u8; {B}]"
        self.nvars = self.nbits = B * 8
        self.zero = f"[0; {B}]"

    def needs(self):
        return []

    def defs(self):
        n, b = self.name, self.B
        return (f"#[derive(Clone, Copy)]\npub struct {n}(pub [u8; {b}]);\n"
                f"impl bondrewd::Bitfields<{b}> for {n} {{ const BIT_SIZE: usize = {b * 8}; "
                f"fn into_bytes(self) -> [u8; {b}] {{ self.0 }} fn from_bytes(x: [u8; {b}]) -> Self {{ {n}(x) }} }}")

    def ctor(self, e):
        return f"{self.name}({e})"

    def dtor(self, e):
        return f"({e}).0"

    def inbits(self, v):
        return [f"v{v + i}" for i in range(self.B * 8)]

    def image(self, b, nd):
        return [b[i // 8 * 8 + 7 - i % 8] for i in range(self.B * 8)]

    def parse(self, img, nd):
        return [img[i // 8 * 8 + 7 - i % 8] for i in range(self.B * 8)]

    def default(self):
        return ["0"] * (self.B * 8)


class RawEnum:
    """hand written BitfieldEnum that keeps its value"""

    def __init__(self, name):
        self.name = name

    def needs(self):
        return []

    def defs(self):
        n = self.name
        return (f"#[derive(Clone, Copy)]\npub struct {n}(pub u8);\n"
                f"impl bondrewd::BitfieldEnum for {n} {{ type Primitive = u8; fn from_primitive(p: u8) -> Self {{ {n}(p) }} fn into_primitive(self) -> u8 {{ self.0 }} }}")

    def canon(self, x):
        return x


class Arr(Ty):
    """array; kind 'el' (w = n * element width) or 'bl' (only the first element is shortened)"""

    def __init__(self, sub, n, kind="el"):
        self.sub, self.n, self.kind = sub, n, kind
        self.rust = f"[{sub.rust}; {n}]"
        self.arg_ty = f"[{sub.arg_ty}; {n}]"
        self.needs = sub.needs
        self.nvars, self.nbits = n * sub.nvars, n * sub.nbits
        self.width = n * sub.width
        self.endian_matters = sub.endian_matters
        self.zero = "[" + ", ".join([sub.zero] * n) + "]"

    def ctor(self, e):
        if self.sub.ctor("q") == "q":
            return e
        return "[" + ", ".join(self.sub.ctor(f"{e}[{i}]") for i in range(self.n)) + "]"

    def dtor(self, e):
        if self.sub.dtor("q") == "q":
            return e
        return "[" + ", ".join(self.sub.dtor(f"{e}[{i}]") for i in range(self.n)) + "]"

    def inbits(self, v):
        o = []
        for i in range(self.n):
            o += self.sub.inbits(v + i * self.sub.nvars)
        return o

    def spans(self, w):
        if self.kind == "el":
            e = w // self.n
            return [(i * e, e) for i in range(self.n)]
        full = self.sub.width
        first = w - (self.n - 1) * full
        assert 0 < first <= full
        return [(0, first)] + [(first + i * full, full) for i in range(self.n - 1)]

    def enc(self, b, w, endian, nd):
        o = []
        for i, (s, n) in enumerate(self.spans(w)):
            o += self.sub.enc(b[i * self.sub.nbits:(i + 1) * self.sub.nbits], n, endian, nd)
        return o

    def dec(self, p, w, endian, nd):
        o = []
        for s, n in self.spans(w):
            o += self.sub.dec(p[s:s + n], n, endian, nd)
        return o

    def default(self):
        return self.sub.default() * self.n


# --------------------------------------------------------------------------------------- fields
class F:
    """One field. w: bit width (None = natural). how: how the width/position is spelt in attributes
    (nat | bit | byte | bits | elbit | elbyte | blbit | blbyte).  at: explicit first bit (with 'bits')."""

    def __init__(self, name, ty, w=None, how=None, at=None, endian=None, spell=None, reserve=False,
                 read_only=False, redundant=False, overlap=0, struct_size=False, capture=False, extra="", before="", vis="pub "):
        self.name, self.ty, self.before, self.vis = name, ty, before, vis
        self.w = ty.width if w is None else w
        if how is None:
            if isinstance(ty, Arr):
                how = ("blbit" if ty.kind == "bl" else ("nat" if w is None else "elbit"))
            else:
                how = "nat" if w is None else "bit"
        self.how, self.at, self.endian, self.spell = how, at, endian, spell
        self.reserve, self.read_only, self.redundant, self.overlap = reserve, read_only, redundant, overlap
        self.struct_size, self.capture, self.extra = struct_size, capture, extra

    def attrs(self, s, e):
        a = []
        inner = self.ty
        while isinstance(inner, Arr):
            inner = inner.sub
        if isinstance(inner, EnumP):
            a.append('enum_primitive = "u8"')
        if self.struct_size:
            a.append(f"struct_size = {inner.lay.B}")
        h, w = self.how, self.w
        if h == "bit":
            a.append(f"bit_length = {w}")
        elif h == "byte":
            a.append(f"byte_length = {w // 8}")
        elif h == "bits":
            a.append(f'bits = "{s}..{e}"')
        elif h == "elbit":
            a.append(f"element_bit_length = {w // self.ty.n}")
        elif h == "elbyte":
            a.append(f"element_byte_length = {w // self.ty.n // 8}")
        elif h == "blbit":
            a.append(f"block_bit_length = {w}")
        elif h == "blbyte":
            a.append(f"block_byte_length = {w // 8}")
        if self.endian:
            a.append(f'endianness = "{self.spell or self.endian}"')
        for k, v in (("reserve", self.reserve), ("read_only", self.read_only),
                     ("redundant", self.redundant), ("capture_id", self.capture)):
            if v:
                a.append(k)
        if self.overlap:
            a.append(f"overlapping_bits = {self.overlap}")
        if self.extra:
            a.append(self.extra)
        return self.before + (f"#[bondrewd({', '.join(a)})] " if a else "")


def plain(n):
    """an identifier as it appears inside a longer one"""
    return n.removeprefix("r#")


class Item:
    """Something else in scope of a definition."""

    def __init__(self, text):
        self.text = self.name = text

    def needs(self):
        return []

    def defs(self):
        return self.text


def place(fields, start=0):
    """logical [start, end) of each field and the number of bits up to the end of the last one"""
    pos, last, total = [], start, start
    for f in fields:
        if f.capture:
            pos.append((0, f.w))
            continue
        s = last if f.at is None else f.at
        pos.append((s, s + f.w))
        if not f.redundant:
            last = s + f.w
            total = max(total, last)
    return pos, total


class Common:
    def phys(self, p, total):
        """array bit index (byte * 8 + significance) of logical position p"""
        byte, bit = divmod(p, 8)
        if self.reverse:
            byte = self.B - 1 - byte
        return byte * 8 + 7 - bit

    def attr_line(self, a):
        return f"#[bondrewd({', '.join(a)})]\n" if a else ""


DERIVE = "#[derive(Bitfields, Clone, Copy)]\n"


class Struct(Common):
    def __init__(self, name, fields, endian="be", spell=None, lsb0=False, reverse=False, fill=None,
                 enforce=None, tuple_=False, note="", msb0_attr=False, scope=(), before="", vis="pub "):
        self.name, self.fields = name, fields
        self.scope, self.before, self.vis = [Item(x) for x in scope], before, vis
        self.endian, self.spell, self.lsb0, self.reverse = endian, spell, lsb0, reverse
        self.fill, self.enforce, self.tuple_, self.note = fill, enforce, tuple_, note
        self.msb0_attr = msb0_attr
        if tuple_:
            for i, f in enumerate(fields):
                f.name = f"field_{i}"
        self.span0, self.used = place(fields)
        self.bits = fill * 8 if fill else self.used
        self.B = (self.bits + 7) // 8
        # lsb0: bit 0 is the other end of the bits the structure uses
        self.span = [(self.bits - e, self.bits - s) if lsb0 else (s, e) for s, e in self.span0]
        self.arg_ty = "(" + "".join(f.ty.arg_ty + ", " for f in fields) + ")"
        self.nvars = sum(f.ty.nvars for f in fields)
        self.nbits = sum(f.ty.nbits for f in fields)
        self.zero = "(" + "".join(f.ty.zero + ", " for f in fields) + ")"

    # ---- Rust source
    def needs(self):
        o = list(self.scope)
        for f in self.fields:
            for n in f.ty.needs:
                if n not in o:
                    o.append(n)
        return o

    def defs(self):
        a = []
        if self.endian:
            a.append(f'default_endianness = "{self.spell or self.endian}"')
        if self.lsb0:
            a.append('read_from = "lsb0"')
        elif self.msb0_attr:
            a.append('read_from = "msb0"')
        if self.reverse:
            a.append("reverse")
        if self.enforce:
            a.append(self.enforce)
        if self.fill:
            a.append(f"fill_bytes = {self.fill}")
        o = DERIVE + self.attr_line(a) + self.before
        if self.tuple_:
            fs = [f"  {f.attrs(s, e)}{f.vis}{f.ty.rust}," for f, (s, e) in zip(self.fields, self.span0)]
            return o + f"{self.vis}struct {self.name}(\n" + "\n".join(fs) + "\n);"
        fs = [f"  {f.attrs(s, e)}{f.vis}{f.name}: {f.ty.rust}," for f, (s, e) in zip(self.fields, self.span0)]
        return o + f"{self.vis}struct {self.name} {{\n" + "\n".join(fs) + "\n}"

    def ctor(self, e):
        xs = [f.ty.ctor(f"{e}.{i}") for i, f in enumerate(self.fields)]
        if self.tuple_:
            return f"{self.name}({', '.join(xs)})"
        return f"{self.name} {{ " + ", ".join(f"{f.name}: {x}" for f, x in zip(self.fields, xs)) + " }"

    def mem(self, i):
        return str(i) if self.tuple_ else self.fields[i].name

    def dtor(self, e):
        return "(" + "".join(f.ty.dtor(f"({e}).{self.mem(i)}") + ", " for i, f in enumerate(self.fields)) + ")"

    # ---- semantics
    def inbits(self, v):
        o = []
        for f in self.fields:
            o += f.ty.inbits(v)
            v += f.ty.nvars
        return o

    def slices(self):
        k = 0
        for f in self.fields:
            yield k, k + f.ty.nbits
            k += f.ty.nbits

    def fe(self, f):
        return f.endian or self.endian or "le"

    def image(self, b, nd):
        """first-position-first image of into_bytes, byte 0 first (physical order)"""
        img = ["0"] * (self.B * 8)
        for f, (s, e), (a, z) in zip(self.fields, self.span, self.slices()):
            if f.reserve or f.read_only or f.redundant:
                continue
            for q, t in enumerate(f.ty.enc(b[a:z], f.w, self.fe(f), nd)):
                ph = self.phys(s + q, self.bits)
                img[ph // 8 * 8 + 7 - ph % 8] = t
        return img

    def get(self, img, i, nd):
        f, (s, e) = self.fields[i], self.span[i]
        p = []
        for q in range(s, e):
            ph = self.phys(q, self.bits)
            p.append(img[ph // 8 * 8 + 7 - ph % 8])
        return f.ty.dec(p, f.w, self.fe(f), nd)

    def put(self, img, i, b, nd):
        img = list(img)
        f, (s, e) = self.fields[i], self.span[i]
        for q, t in enumerate(f.ty.enc(b, f.w, self.fe(f), nd)):
            ph = self.phys(s + q, self.bits)
            img[ph // 8 * 8 + 7 - ph % 8] = t
        return img

    def parse(self, img, nd):
        o = []
        for i, f in enumerate(self.fields):
            o += f.ty.default() if f.reserve else self.get(img, i, nd)
        return o

    def default(self):
        o = []
        for f in self.fields:
            o += f.ty.default()
        return o

    @staticmethod
    def can_write(acc):
        return True

    def touched(self, i):
        """bytes a field occupies: (lowest, highest) index"""
        s, e = self.span[i]
        b = [self.phys(q, self.bits) // 8 for q in range(s, e)]
        return min(b), max(b)

    def accessors(self):
        return [(plain(f.name), i) for i, f in enumerate(self.fields)]

    def acc_ty(self, i):
        return self.fields[i].ty


def snake(n):
    o = ""
    for i, c in enumerate(n):
        if c.isupper() and i:
            o += "_"
        o += c.lower()
    return o


class Var:
    def __init__(self, name, fields=(), disc=None, vid=None, kind=None, invalid=False, endian=None, extra="", before=""):
        self.name, self.fields, self.before = name, list(fields), before
        self.disc, self.vid, self.invalid, self.endian, self.extra = disc, vid, invalid, endian, extra
        self.kind = kind or ("named" if self.fields else "unit")
        if self.kind == "tuple":
            # the id counts as the variant's first value: its own fields are numbered from 1, unless
            # the first of them captures the id
            cap = any(f.capture for f in self.fields)
            for i, f in enumerate(self.fields):
                f.name = f"field_{i + (not cap)}"


class Enum(Common):
    """#[derive(Bitfields)] on an enum: id field first, then the variant's fields, zero filled."""

    def __init__(self, name, id_bits, variants, endian="be", spell=None, lsb0=False, reverse=False,
                 enforce=None, id_how="bit", payload=None, note="", scope=(), before="", vis="pub "):
        self.scope, self.before, self.vis = [Item(x) for x in scope], before, vis
        self.name, self.id_bits, self.variants = name, id_bits, variants
        self.endian, self.spell, self.lsb0, self.reverse = endian, spell, lsb0, reverse
        self.enforce, self.id_how, self.payload, self.note = enforce, id_how, payload, note
        used = {v.disc if v.disc is not None else v.vid for v in variants} - {None}
        nxt = 0
        for v in variants:
            v.id = v.disc if v.disc is not None else v.vid
            if v.id is None:
                while nxt in used:
                    nxt += 1
                v.id = nxt
                used.add(nxt)
        self.catch = len(variants) - 1
        for i, v in enumerate(variants):
            if v.invalid:
                self.catch = i
        self.used = id_bits
        for v in variants:
            v.span0, v.used = place(v.fields, id_bits)
            self.used = max(self.used, v.used)
        self.bits = self.used
        self.B = (self.bits + 7) // 8
        for v in variants:
            v.span = [(self.bits - e, self.bits - s) if lsb0 else (s, e) for s, e in v.span0]
        self.idspan = (self.bits - id_bits, self.bits) if lsb0 else (0, id_bits)
        self.id_ty = Int(next(f"u{k}" for k in (8, 16, 32, 64, 128) if id_bits <= k))
        self.groups = ["(" + "".join(f.ty.arg_ty + ", " for f in v.fields) + ")" for v in variants]
        self.arg_ty = "(u8, " + ", ".join(self.groups) + ")"
        self.nvars = 8 + sum(f.ty.nvars for v in variants for f in v.fields)
        self.nbits = 8 + sum(f.ty.nbits for v in variants for f in v.fields)
        self.gz = ["(" + "".join(f.ty.zero + ", " for f in v.fields) + ")" for v in variants]
        self.zero = "(0, " + ", ".join(self.gz) + ")"

    def needs(self):
        o = list(self.scope)
        for v in self.variants:
            for f in v.fields:
                for n in f.ty.needs:
                    if n not in o:
                        o.append(n)
        return o

    def defs(self):
        a = []
        if self.endian:
            a.append(f'default_endianness = "{self.spell or self.endian}"')
        if self.lsb0:
            a.append('read_from = "lsb0"')
        if self.reverse:
            a.append("reverse")
        if self.id_how == "bit":
            a.append(f"id_bit_length = {self.id_bits}")
        elif self.id_how == "byte":
            a.append(f"id_byte_length = {self.id_bits // 8}")
        elif self.id_how == "implied":      # by what the total leaves besides the payload
            a += [f"payload_bit_length = {self.bits - self.id_bits}", f"enforce_bits = {self.bits}"]
        elif self.id_how == "implied by bytes":
            a += [f"payload_byte_length = {(self.bits - self.id_bits) // 8}", f"enforce_bits = {self.bits}"]
        elif self.id_how == "all":
            a += [f"enforce_bits = {self.bits}", f"id_bit_length = {self.id_bits}", f"payload_bit_length = {self.bits - self.id_bits}"]
        if self.payload:
            a.append(self.payload)
        if self.enforce:
            a.append(self.enforce)
        rep = ""
        if any(v.disc is not None for v in self.variants):
            rep = f"#[repr({self.id_ty.rust})]\n"
        o = DERIVE + rep + self.attr_line(a) + self.before + f"{self.vis}enum {self.name} {{\n"
        for v in self.variants:
            va = []
            if v.vid is not None:
                va.append(f"variant_id = {v.vid}")
            if v.invalid:
                va.append("invalid")
            if v.endian:
                va.append(f'default_endianness = "{v.endian}"')
            if v.extra:
                va.append(v.extra)
            o += "  " + v.before + self.attr_line(va)
            fs = [f"{f.attrs(s, e)}{'' if v.kind == 'tuple' else f.name + ': '}{f.ty.rust}"
                  for f, (s, e) in zip(v.fields, v.span0)]
            body = {"unit": "", "tuple": "(" + ", ".join(fs) + ")", "named": " { " + ", ".join(fs) + " }"}[v.kind]
            o += f"  {v.name}{body}{'' if v.disc is None else f' = {v.disc}'},\n"
        return o + "}"

    def build(self, k, e):
        v = self.variants[k]
        xs = [f.ty.ctor(f"{e}.{i}") for i, f in enumerate(v.fields)]
        if v.kind == "unit":
            return f"{self.name}::{v.name}"
        if v.kind == "tuple":
            return f"{self.name}::{v.name}({', '.join(xs)})"
        return f"{self.name}::{v.name} {{ " + ", ".join(f"{f.name}: {x}" for f, x in zip(v.fields, xs)) + " }"

    def ctor(self, e):
        n = len(self.variants)
        arms = [f"{k} => {self.build(k, f'{e}.{k + 1}')}" for k in range(n - 1)]
        arms.append(f"_ => {self.build(n - 1, f'{e}.{n}')}")
        return f"match {e}.0 {{ {', '.join(arms)} }}"

    def pat(self, k):
        v = self.variants[k]
        names = [f"p{i}" for i in range(len(v.fields))]
        if v.kind == "unit":
            return f"{self.name}::{v.name}", names
        if v.kind == "tuple":
            return f"{self.name}::{v.name}({', '.join(names)})", names
        return f"{self.name}::{v.name} {{ " + ", ".join(f"{f.name}: {x}" for f, x in zip(v.fields, names)) + " }", names

    def dtor(self, e):
        arms = []
        for k, v in enumerate(self.variants):
            p, names = self.pat(k)
            gs = list(self.gz)
            gs[k] = "(" + "".join(f.ty.dtor(n) + ", " for f, n in zip(v.fields, names)) + ")"
            arms.append(f"{p} => ({k}u8, {', '.join(gs)})")
        return f"match {e} {{ {', '.join(arms)} }}"

    def inbits(self, v0):
        o = [f"v{v0 + i}" for i in range(8)]
        v0 += 8
        for v in self.variants:
            for f in v.fields:
                o += f.ty.inbits(v0)
                v0 += f.ty.nvars
        return o

    def gslices(self):
        """per variant: list of (a, z) ranges of flattened bits, one per field"""
        k = 8
        o = []
        for v in self.variants:
            g = []
            for f in v.fields:
                g.append((k, k + f.ty.nbits))
                k += f.ty.nbits
            o.append(g)
        return o

    def fe(self, v, f):
        return f.endian or v.endian or self.endian or "le"

    def ide(self):
        return self.endian or "le"

    def setpos(self, img, s, toks):
        for q, t in enumerate(toks):
            ph = self.phys(s + q, self.bits)
            img[ph // 8 * 8 + 7 - ph % 8] = t

    def getpos(self, img, s, e):
        o = []
        for q in range(s, e):
            ph = self.phys(q, self.bits)
            o.append(img[ph // 8 * 8 + 7 - ph % 8])
        return o

    def vimage(self, k, groups, nd):
        """image of variant k, groups: list of bit lists, one per field"""
        img = ["0"] * (self.B * 8)
        v = self.variants[k]
        idb = ["1" if (v.id >> i) & 1 else "0" for i in range(self.id_ty.size)]
        for f, (s, e), b in zip(v.fields, v.span, groups):
            if f.capture:
                idb = b
                continue
            if f.reserve or f.read_only or f.redundant:
                continue
            self.setpos(img, s, f.ty.enc(b, f.w, self.fe(v, f), nd))
        self.setpos(img, self.idspan[0], self.id_ty.enc(idb, self.id_bits, self.ide(), nd))
        return img

    def image(self, b, nd):
        n = len(self.variants)
        imgs = [self.vimage(k, [b[a:z] for a, z in g], nd) for k, g in enumerate(self.gslices())]
        out = imgs[n - 1]
        for k in range(n - 2, -1, -1):
            c = nd.eq_const(b[:8], k)
            out = [nd.ite(c, x, y) for x, y in zip(imgs[k], out)]
        return out

    def idval(self, img, nd):
        return self.id_ty.dec(self.getpos(img, *self.idspan), self.id_bits, self.ide(), nd)

    def conds(self, img, nd):
        """for each variant, the condition under which from_bytes yields it"""
        idv = self.idval(img, nd)
        c = {}
        for k, v in enumerate(self.variants):
            if k != self.catch:
                c[k] = nd.eq_const(idv, v.id)
        c[self.catch] = nd.and_([neg(c[k]) for k in c])
        return [c[k] for k in range(len(self.variants))]

    def vget(self, img, k, i, nd):
        v = self.variants[k]
        f, (s, e) = v.fields[i], v.span[i]
        if f.capture:
            return self.idval(img, nd)
        return f.ty.dec(self.getpos(img, s, e), f.w, self.fe(v, f), nd)

    def parse(self, img, nd):
        cs = self.conds(img, nd)
        o = ["0"] * 8
        for i in range(8):
            o[i] = nd.or_([c for k, c in enumerate(cs) if (k >> i) & 1])
        for k, v in enumerate(self.variants):
            for i, f in enumerate(v.fields):
                t = f.ty.default() if f.reserve else self.vget(img, k, i, nd)
                o += [nd.and_([cs[k], x]) for x in t]
        return o

    def put(self, img, acc, b, nd):
        img = list(img)
        if acc == "id":
            self.setpos(img, self.idspan[0], self.id_ty.enc(b, self.id_bits, self.ide(), nd))
            return img
        k, i = acc
        v = self.variants[k]
        f, (s, e) = v.fields[i], v.span[i]
        self.setpos(img, s, f.ty.enc(b, f.w, self.fe(v, f), nd))
        return img

    def get(self, img, acc, nd):
        return self.idval(img, nd) if self.is_id(acc) else self.vget(img, acc[0], acc[1], nd)

    @staticmethod
    def is_id(acc):
        return acc == "id" or acc[0] == "cap"

    @staticmethod
    def can_write(acc):
        return acc[0] != "cap"

    def touched(self, acc):
        s, e = self.idspan if self.is_id(acc) else self.variants[acc[0]].span[acc[1]]
        b = [self.phys(q, self.bits) // 8 for q in range(s, e)]
        return min(b), max(b)

    def accessors(self):
        o = [("variant_id", "id")]
        for k, v in enumerate(self.variants):
            for i, f in enumerate(v.fields):
                nm = "variant_id" if f.capture and v.kind == "tuple" else plain(f.name)
                o.append((f"{snake(v.name)}_{nm}", (k, i) if not f.capture else ("cap", k, i)))
        return o

    def acc_ty(self, acc):
        return self.id_ty if self.is_id(acc) else self.variants[acc[0]].fields[acc[1]].ty
