"""Harness functions (Rust) and their specifications for a layout from model.py.

H(kind) -> list of (function name, rust text, spec lines).  Vectors are in analyser order: inputs are
numbered in argument order, outputs flattened in declaration order."""
from model import Nodes, neg, plain, Struct, Enum


def pos2out(img):
    """image (position order) -> flattened output order of a byte array (LSB first per byte)"""
    return [img[i // 8 * 8 + 7 - i % 8] for i in range(len(img))]


def buf(v, n):
    """image of an n-byte input array whose first variable is v"""
    return [f"v{v + i // 8 * 8 + 7 - i % 8}" for i in range(n * 8)]


def const(k, w=64):
    return ["1" if (k >> i) & 1 else "0" for i in range(w)]


class H:
    def __init__(self, mod, name, rust, out, nd=None, cap=None, assume=None, equal=None):
        self.fn, self.rust = f"{mod}::{name}", rust
        l = [f"H {mod}::{name}" + (f" {cap}" if cap else "")]
        if nd:
            l += nd.lines
        if assume and assume != "1":
            l.append("A " + assume)
        if equal:
            l.append("E " + f"{mod}::{equal}")
        elif out is not None:
            l.append("O " + " ".join(out))
        self.spec = "\n".join(l)


# ---- one-shot conversions -------------------------------------------------------------------
def k_into(m, L):
    nd = Nodes()
    img = L.image(L.inbits(0), nd)
    return [H(m, "h_into", f"pub fn h_into(a: {L.arg_ty}) -> [u8; {L.B}] {{ {L.name}::into_bytes({L.ctor('a')}) }}",
              pos2out(img), nd)]


def k_from(m, L):
    nd = Nodes()
    return [H(m, "h_from", f"pub fn h_from(x: [u8; {L.B}]) -> {L.arg_ty} {{ let s = {L.name}::from_bytes(x); {L.dtor('s')} }}",
              L.parse(buf(0, L.B), nd), nd)]


def k_rt(m, L):
    """struct -> bytes -> struct"""
    nd = Nodes()
    img = L.image(L.inbits(0), nd)
    return [H(m, "h_rt", f"pub fn h_rt(a: {L.arg_ty}) -> {L.arg_ty} {{ let s = {L.name}::from_bytes({L.name}::into_bytes({L.ctor('a')})); {L.dtor('s')} }}",
              L.parse(img, nd), nd)]


def k_brt(m, L):
    """bytes -> struct -> bytes"""
    nd = Nodes()
    v = L.parse(buf(0, L.B), nd)
    return [H(m, "h_brt", f"pub fn h_brt(x: [u8; {L.B}]) -> [u8; {L.B}] {{ {L.name}::from_bytes(x).into_bytes() }}",
              pos2out(L.image(v, nd)), nd)]


def k_idem(m, L):
    """encode/decode/encode is encode (structural, no layout knowledge)"""
    return k_into(m, L) and [
        H(m, "h_e1", f"pub fn h_e1(a: {L.arg_ty}) -> [u8; {L.B}] {{ {L.name}::into_bytes({L.ctor('a')}) }}", None),
        H(m, "h_e2", f"pub fn h_e2(a: {L.arg_ty}) -> [u8; {L.B}] {{ {L.name}::from_bytes({L.name}::into_bytes({L.ctor('a')})).into_bytes() }}",
          None, equal="h_e1")]


# ---- single-field access ----------------------------------------------------------------------
def k_read(m, L):
    o = []
    for nm, acc in L.accessors():
        nd, t = Nodes(), L.acc_ty(acc)
        o.append(H(m, f"r_{nm}", f"pub fn r_{nm}(x: [u8; {L.B}]) -> {t.arg_ty} {{ let s = {L.name}::read_{nm}(&x); {t.dtor('s')} }}",
                   L.get(buf(0, L.B), acc, nd), nd))
    return o


def k_write(m, L):
    o = []
    for nm, acc in L.accessors():
        if not L.can_write(acc):
            continue
        nd, t = Nodes(), L.acc_ty(acc)
        img = L.put(buf(t.nvars, L.B), acc, t.inbits(0), nd)
        o.append(H(m, f"w_{nm}", f"pub fn w_{nm}(v: {t.arg_ty}, mut x: [u8; {L.B}]) -> [u8; {L.B}] {{ {L.name}::write_{nm}(&mut x, {t.ctor('v')}); x }}",
                   pos2out(img), nd))
    return o


def k_wr(m, L):
    """write then read back through the accessors"""
    o = []
    for nm, acc in L.accessors():
        if not L.can_write(acc):
            continue
        nd, t = Nodes(), L.acc_ty(acc)
        img = L.put(buf(t.nvars, L.B), acc, t.inbits(0), nd)
        o.append(H(m, f"wr_{nm}", f"pub fn wr_{nm}(v: {t.arg_ty}, mut x: [u8; {L.B}]) -> {t.arg_ty} {{ {L.name}::write_{nm}(&mut x, {t.ctor('v')}); let s = {L.name}::read_{nm}(&x); {t.dtor('s')} }}",
                   L.get(img, acc, nd), nd))
    return o


def k_sib_read(m, L):
    """struct only: from_bytes agrees with calling every read function"""
    rs = "".join(f.ty.dtor(f"{L.name}::read_{plain(f.name)}(&x)") + ", " if not f.reserve else (f.ty.zero + ", ") for f in L.fields)
    return [H(m, "s_from", f"pub fn s_from(x: [u8; {L.B}]) -> {L.arg_ty} {{ let s = {L.name}::from_bytes(x); {L.dtor('s')} }}", None),
            H(m, "s_reads", f"pub fn s_reads(x: [u8; {L.B}]) -> {L.arg_ty} {{ ({rs}) }}", None, equal="s_from")]


def k_sib_write(m, L):
    """struct only: into_bytes agrees with writing every written field into a cleared array"""
    ws = "".join(f"{L.name}::write_{plain(f.name)}(&mut x, {f.ty.ctor(f'a.{i}')}); " for i, f in enumerate(L.fields)
                 if not (f.reserve or f.read_only or f.redundant))
    return [H(m, "s_into", f"pub fn s_into(a: {L.arg_ty}) -> [u8; {L.B}] {{ {L.name}::into_bytes({L.ctor('a')}) }}", None),
            H(m, "s_writes", f"pub fn s_writes(a: {L.arg_ty}) -> [u8; {L.B}] {{ let mut x = [0u8; {L.B}]; {ws}x }}", None, equal="s_into")]


# ---- slices -----------------------------------------------------------------------------------
LENERR = "bondrewd::BitfieldLengthError(g, e)"


def lens(v):
    return [f"v{v + i}" for i in range(63)]


def k_slice_ok(m, L):
    """read_slice_/write_slice_ on a slice of at least the structure's size agree with the array accessors"""
    o, cap = [], L.B + 2
    for nm, acc in L.accessors():
        t = L.acc_ty(acc)
        # reads
        nd = Nodes()
        long_ = neg(nd.lt_const(lens(0), L.B))
        img = buf(63, L.B)
        out = ["1"] + L.get(img, acc, nd)
        o.append(H(m, f"rs_{nm}", f"pub fn rs_{nm}(x: &[u8]) -> (bool, {t.arg_ty}) {{ match {L.name}::read_slice_{nm}(x) {{ Ok(s) => (true, {t.dtor('s')}), Err(_) => (false, {t.zero}) }} }}",
                   out, nd, cap, long_))
        if acc == "id" or not L.can_write(acc):
            continue
        nd = Nodes()
        v = t.nvars
        long_ = neg(nd.lt_const(lens(v), L.B))
        img = L.put(buf(v + 63, L.B), acc, t.inbits(0), nd)
        rest = [f"v{v + 63 + L.B * 8 + i}" for i in range((cap - L.B) * 8)]
        o.append(H(m, f"ws_{nm}", f"pub fn ws_{nm}(v: {t.arg_ty}, x: &mut [u8]) -> bool {{ {L.name}::write_slice_{nm}(x, {t.ctor('v')}).is_ok() }}",
                   ["1"] + pos2out(img) + rest, nd, cap, long_))
    return o


def k_slice_err(m, L):
    """for every length: succeeds iff every byte of the field is inside the slice, else reports
    (given, needed) and leaves the slice alone; never panics"""
    o, cap = [], L.B + 2
    for nm, acc in L.accessors():
        t = L.acc_ty(acc)
        need = L.touched(acc)[1] + 1
        nd = Nodes()
        short = nd.lt_const(lens(0), need)
        err = [nd.and_([short, x]) for x in lens(0) + ["0"]] + [nd.and_([short, x]) for x in const(need)]
        o.append(H(m, f"re_{nm}", f"pub fn re_{nm}(x: &[u8]) -> (bool, usize, usize) {{ match {L.name}::read_slice_{nm}(x) {{ Ok(_) => (true, 0, 0), Err({LENERR}) => (false, g, e) }} }}",
                   [neg(short)] + err, nd, cap))
        if acc == "id" or not L.can_write(acc):
            continue
        nd = Nodes()
        v = t.nvars
        short = nd.lt_const(lens(v), need)
        err = [nd.and_([short, x]) for x in lens(v) + ["0"]] + [nd.and_([short, x]) for x in const(need)]
        cur = buf(v + 63, cap)
        new = L.put(cur, acc, t.inbits(0), nd)
        out = [nd.ite(short, a, b) for a, b in zip(cur, new)]
        o.append(H(m, f"we_{nm}", f"pub fn we_{nm}(v: {t.arg_ty}, x: &mut [u8]) -> (bool, usize, usize) {{ match {L.name}::write_slice_{nm}(x, {t.ctor('v')}) {{ Ok(_) => (true, 0, 0), Err({LENERR}) => (false, g, e) }} }}",
                   [neg(short)] + err + pos2out(out), nd, cap))
    return o


def k_check_err(m, L):
    o, cap = [], L.B + 2
    for f, arg in (("check_slice", "x: &[u8]"), ("check_slice_mut", "x: &mut [u8]")):
        nd = Nodes()
        short = nd.lt_const(lens(0), L.B)
        err = [nd.and_([short, x]) for x in lens(0) + ["0"]] + [nd.and_([short, x]) for x in const(L.B)]
        out = [neg(short)] + err + (pos2out(buf(63, cap)) if "mut" in f else [])
        o.append(H(m, f"ce_{f}", f"pub fn ce_{f}({arg}) -> (bool, usize, usize) {{ match {L.name}::{f}(x) {{ Ok(_) => (true, 0, 0), Err({LENERR}) => (false, g, e) }} }}",
                   out, nd, cap))
    return o


def k_checked(m, L):
    """Checked / CheckedMut accessors agree with the array accessors"""
    o, cap = [], L.B + 2
    for nm, acc in L.accessors():
        if acc == "id":
            continue
        t = L.acc_ty(acc)
        for f, arg, pre in (("check_slice", "x: &[u8]", "c"), ("check_slice_mut", "x: &mut [u8]", "cm")):
            nd = Nodes()
            ok = neg(nd.lt_const(lens(0), L.B))
            out = ["1"] + L.get(buf(63, L.B), acc, nd) + (pos2out(buf(63, cap)) if pre == "cm" else [])
            o.append(H(m, f"{pre}r_{nm}", f"pub fn {pre}r_{nm}({arg}) -> (bool, {t.arg_ty}) {{ match {L.name}::{f}(x) {{ Ok(c) => {{ let s = c.read_{nm}(); (true, {t.dtor('s')}) }}, Err(_) => (false, {t.zero}) }} }}",
                       out, nd, cap, ok))
        if not L.can_write(acc):
            continue
        nd = Nodes()
        v = t.nvars
        ok = neg(nd.lt_const(lens(v), L.B))
        img = L.put(buf(v + 63, cap)[:L.B * 8], acc, t.inbits(0), nd) + buf(v + 63, cap)[L.B * 8:]
        o.append(H(m, f"cmw_{nm}", f"pub fn cmw_{nm}(v: {t.arg_ty}, x: &mut [u8]) -> bool {{ match {L.name}::check_slice_mut(x) {{ Ok(mut c) => {{ c.write_{nm}({t.ctor('v')}); true }}, Err(_) => false }} }}",
                   ["1"] + pos2out(img), nd, cap, ok))
    return o


def k_unchecked(m, L):
    """a view made without a check works for every field whose bytes are inside the slice, however short"""
    o, cap = [], L.B + 1
    for nm, acc in L.accessors():
        if acc == "id":
            continue
        t = L.acc_ty(acc)
        need = L.touched(acc)[1] + 1
        for f, arg, pre in ((f"{L.name}Checked", "x: &[u8]", "u"), (f"{L.name}CheckedMut", "x: &mut [u8]", "um")):
            nd = Nodes()
            ok = neg(nd.lt_const(lens(0), need))
            out = L.get(buf(63, L.B), acc, nd) + (pos2out(buf(63, cap)) if pre == "um" else [])
            o.append(H(m, f"{pre}r_{nm}", f"pub fn {pre}r_{nm}({arg}) -> {t.arg_ty} {{ let c = {f}::from_unchecked_slice(x); let s = c.read_{nm}(); {t.dtor('s')} }}",
                       out, nd, cap, ok))
        if not L.can_write(acc):
            continue
        nd = Nodes()
        v = t.nvars
        ok = neg(nd.lt_const(lens(v), need))
        img = L.put(buf(v + 63, cap), acc, t.inbits(0), nd)
        o.append(H(m, f"umw_{nm}", f"pub fn umw_{nm}(v: {t.arg_ty}, x: &mut [u8]) {{ let mut c = {L.name}CheckedMut::from_unchecked_slice(x); c.write_{nm}({t.ctor('v')}); }}",
                   pos2out(img), nd, cap, ok))
    return o


def k_dyn(m, L):
    """from_slice for every length; from_vec for lengths around the structure's size"""
    o, cap = [], L.B + 2
    nd = Nodes()
    short = nd.lt_const(lens(0), L.B)
    v = L.parse(buf(63, L.B), nd)
    err = [nd.and_([short, x]) for x in lens(0) + ["0"]] + [nd.and_([short, x]) for x in const(L.B)]
    # a failing call returns the all-zero argument tuple
    out = [neg(short)] + [nd.and_([neg(short), x]) for x in v] + err
    o.append(H(m, "d_slice", f"pub fn d_slice(x: &[u8]) -> (bool, {L.arg_ty}, usize, usize) {{ match <{L.name} as BitfieldsDyn<{L.B}>>::from_slice(x) {{ Ok(s) => (true, {L.dtor('s')}, 0, 0), Err({LENERR}) => (false, {L.zero}, g, e) }} }}",
               out, nd, cap))
    for n in sorted({0, max(0, L.B - 1), L.B, L.B + 1, L.B + 3}):
        nd = Nodes()
        if n >= L.B:
            rest = n - L.B
            out = ["1"] + L.parse(buf(0, L.B), nd) + const(0) + const(0) + const(rest) + [f"v{L.B * 8 + i}" for i in range(rest * 8)]
        else:
            rest = n
            out = ["0"] + ["0"] * L.nbits + const(n) + const(L.B) + const(n) + [f"v{i}" for i in range(n * 8)]
        o.append(H(m, f"d_vec{n}", f"pub fn d_vec{n}(x: [u8; {n}]) -> (bool, {L.arg_ty}, usize, usize, usize, [u8; {rest}]) {{ let mut q = x.to_vec(); let r = <{L.name} as BitfieldsDyn<{L.B}>>::from_vec(&mut q); let mut t = [0u8; {rest}]; let mut i = 0; while i < {rest} {{ t[i] = q[i]; i += 1; }} match r {{ Ok(s) => (true, {L.dtor('s')}, 0, 0, q.len(), t), Err({LENERR}) => (false, {L.zero}, g, e, q.len(), t) }} }}",
                   out, nd))
    return o


# ---- sizes --------------------------------------------------------------------------------------
def k_size(m, L):
    o = [H(m, "z_sizes", f"pub fn z_sizes() -> (usize, usize, usize) {{ fn n<const WIDE: usize, LAY: Bitfields<WIDE>>(_: core::marker::PhantomData<LAY>) -> usize {{ WIDE }} (<{L.name} as Bitfields<{L.B}>>::BIT_SIZE, <{L.name} as Bitfields<{L.B}>>::BYTE_SIZE, n(core::marker::PhantomData::<{L.name}>)) }}",
           const(L.bits) + const(L.B) + const(L.B))]
    return o


# ---- enum ids -------------------------------------------------------------------------------------
def _ids(L, b, nd):
    n = len(L.variants)
    outs = []
    for k, (v, g) in enumerate(zip(L.variants, L.gslices())):
        t = const(v.id, L.id_ty.size)
        for f, (a, z) in zip(v.fields, g):
            if f.capture:
                t = b[a:z]
        outs.append(t)
    r = outs[n - 1]
    for k in range(n - 2, -1, -1):
        c = nd.eq_const(b[:8], k)
        r = [nd.ite(c, x, y) for x, y in zip(outs[k], r)]
    return r


def k_id(m, L):
    """id() of every variant value (captured id for a capturing variant)"""
    o = []
    nd = Nodes()
    r = _ids(L, L.inbits(0), nd)
    o.append(H(m, "i_id", f"pub fn i_id(a: {L.arg_ty}) -> {L.id_ty.rust} {{ let s = {L.ctor('a')}; s.id() }}", r, nd))
    return o


# ---- hex --------------------------------------------------------------------------------------
def hexdigit_enc(nd, nib, upper):
    return nd.table(nib, lambda x: ord(("0123456789ABCDEF" if upper else "0123456789abcdef")[x]), 8)


def k_hex_enc(m, L):
    o = []
    for nm, up in (("into_hex_upper", True), ("into_hex_lower", False)):
        nd = Nodes()
        by = pos2out(L.image(L.inbits(0), nd))
        out = []
        for i in range(L.B):
            out += hexdigit_enc(nd, by[i * 8 + 4:i * 8 + 8], up) + hexdigit_enc(nd, by[i * 8:i * 8 + 4], up)
        o.append(H(m, f"x_{nm}", f"pub fn x_{nm}(a: {L.arg_ty}) -> [u8; {2 * L.B}] {{ {L.ctor('a')}.{nm}() }}", out, nd))
    return o


def hexdigit_dec(nd, ch):
    """(valid, nibble) of an 8-bit character"""
    al = "0123456789abcdefABCDEF"
    t = nd.table(ch, lambda c: 0x10 | int(chr(c), 16) if chr(c) in al else 0, 5)
    return t[4], t[:4]


def hexdec(nd, chars):
    """decode LSB-first characters; (ok, bytes in LSB-first order, offending char, its index)"""
    oks, by = [], []
    for i in range(0, len(chars), 2):
        (a, hi), (b, lo) = hexdigit_dec(nd, chars[i]), hexdigit_dec(nd, chars[i + 1])
        oks += [a, b]
        by += lo + hi
    ch, ix = ["0"] * 8, ["0"] * 64
    for i in range(len(chars) - 1, -1, -1):
        ch = [nd.ite(oks[i], x, y) for x, y in zip(ch, chars[i])]
        ix = [nd.ite(oks[i], x, y) for x, y in zip(ix, const(i))]
    return nd.and_(oks), by, ch, ix


def lsb2img(by):
    return [by[i // 8 * 8 + 7 - i % 8] for i in range(len(by))]


def k_hex_dec(m, L):
    """from_hex: any mixture of cases decodes; the first character that is no digit is reported"""
    nd = Nodes()
    n = 2 * L.B
    ok, by, ch, ix = hexdec(nd, [[f"v{8 * i + k}" for k in range(8)] for i in range(n)])
    v = [nd.and_([ok, x]) for x in L.parse(lsb2img(by), nd)]
    return [H(m, "x_from", f"pub fn x_from(x: [u8; {n}]) -> (bool, {L.arg_ty}, u32, usize) {{ match {L.name}::from_hex(x) {{ Ok(s) => (true, {L.dtor('s')}, 0, 0), Err(bondrewd::BitfieldHexError(c, i)) => (false, {L.zero}, c as u32, i) }} }}",
              [ok] + v + ch + ["0"] * 24 + ix, nd)]


def k_hex_rt(m, L):
    """from_hex(into_hex(s)) is from_bytes(into_bytes(s)), both cases"""
    o = []
    for nm in ("into_hex_upper", "into_hex_lower"):
        nd = Nodes()
        o.append(H(m, f"xr_{nm}", f"pub fn xr_{nm}(a: {L.arg_ty}) -> (bool, {L.arg_ty}) {{ match {L.name}::from_hex({L.ctor('a')}.{nm}()) {{ Ok(s) => (true, {L.dtor('s')}), Err(_) => (false, {L.zero}) }} }}",
                   ["1"] + L.parse(L.image(L.inbits(0), nd), nd), nd))
    return o


def k_hex_slice(m, L):
    """from_hex_slice for every length, from_hex_vec around the required length"""
    o = []
    n = 2 * L.B
    cap = n + 1
    nd = Nodes()
    short = nd.lt_const(lens(0), n)
    ok, by, ch, ix = hexdec(nd, [[f"v{63 + 8 * i + k}" for k in range(8)] for i in range(n)])
    good = nd.and_([neg(short), ok])
    bad = nd.and_([neg(short), neg(ok)])
    v = [nd.and_([good, x]) for x in L.parse(lsb2img(by), nd)]
    kind = [nd.ite(short, "0", nd.ite(ok, "0", "1")), short]
    a = [nd.ite(short, x, nd.and_([bad, y])) for x, y in zip(lens(0) + ["0"], ch + ["0"] * 56)]
    b = [nd.ite(short, x, nd.and_([bad, y])) for x, y in zip(const(n), ix)]
    arms = f"Ok(s) => (0u8, {L.dtor('s')}, 0, 0), Err(BitfieldHexDynError::Hex(BitfieldHexError(c, i))) => (1u8, {L.zero}, c as usize, i), Err(BitfieldHexDynError::Length(BitfieldLengthError(g, e))) => (2u8, {L.zero}, g, e)"
    rt = f"(u8, {L.arg_ty}, usize, usize)"
    o.append(H(m, "x_slice", f"pub fn x_slice(x: &[u8]) -> {rt} {{ match <{L.name} as BitfieldHexDyn<{n}, {L.B}>>::from_hex_slice(x) {{ {arms} }} }}",
               kind + ["0"] * 6 + v + a + b, nd, cap))
    for k in sorted({0, n - 1, n, n + 1}):
        nd = Nodes()
        if k < n:
            out = const(2, 8) + ["0"] * L.nbits + const(k) + const(n)
        else:
            ok, by, ch, ix = hexdec(nd, [[f"v{8 * i + j}" for j in range(8)] for i in range(n)])
            v = [nd.and_([ok, x]) for x in L.parse(lsb2img(by), nd)]
            out = [neg(ok)] + ["0"] * 7 + v + ch + ["0"] * 56 + ix
        o.append(H(m, f"x_vec{k}", f"pub fn x_vec{k}(x: [u8; {k}]) -> {rt} {{ let mut q = x.to_vec(); match <{L.name} as BitfieldHexDyn<{n}, {L.B}>>::from_hex_vec(&mut q) {{ {arms} }} }}",
                   out, nd))
    return o


# ---- C-like enums ---------------------------------------------------------------------------------
def _pats(D):
    return [f"{D.name}::{nm}{ {'tuple': '(_)', 'named': ' { .. }'}.get(k, '') } => {i}u8" for i, (nm, _, k) in enumerate(D.variants)]


def k_prim(m, D):
    """from_primitive picks the documented variant; into_primitive gives its value back"""
    v = [f"v{i}" for i in range(8)]
    nd, nd2 = Nodes(), Nodes()
    o = [H(m, "h_idx", f"pub fn h_idx(x: u8) -> u8 {{ match {D.name}::from_primitive(x) {{ {', '.join(_pats(D))} }} }}",
           nd.table(v, D.index, 8), nd),
         H(m, "h_canon", f"pub fn h_canon(x: u8) -> u8 {{ {D.name}::from_primitive(x).into_primitive() }}",
           nd2.table(v, D.canon, 8), nd2)]
    # into_primitive of every variant, including values from_primitive never produces
    for i, (nm, _, k) in enumerate(D.variants):
        e = {"tuple": f"{D.name}::{nm}(x)", "named": f"{D.name}::{nm} {{ value: x }}"}.get(k, f"{D.name}::{nm}")
        o.append(H(m, f"h_into{i}", f"pub fn h_into{i}(x: u8) -> u8 {{ {e}.into_primitive() }}",
                   v if k in ("tuple", "named") else const(D.ids[i], 8)))
    return o


def k_prim_eq(m, D):
    """comparison of a C-like enum with a primitive: equal to its own value, catch-all variants never"""
    nd = Nodes()
    o = []
    for i, (nm, _, k) in enumerate(D.variants):
        e = {"tuple": f"{D.name}::{nm}(x)", "named": f"{D.name}::{nm} {{ value: x }}"}.get(k, f"{D.name}::{nm}")
        nd = Nodes()
        r = "0" if i == D.catch else nd.eq_const([f"v{8 + j}" for j in range(8)], D.ids[i])
        o.append(H(m, f"h_eq{i}", f"pub fn h_eq{i}(x: u8, y: u8) -> bool {{ {e} == y }}", [r], nd))
    return o


def k_id_eq(m, L):
    """comparison of an enum with an id value is comparison of its id()"""
    nd = Nodes()
    n = L.nvars
    ids = _ids(L, L.inbits(0), nd)
    r = nd.and_([nd.ite(a, f"v{n + i}", neg(f"v{n + i}")) for i, a in enumerate(ids)])
    return [H(m, "i_eq", f"pub fn i_eq(a: {L.arg_ty}, y: {L.id_ty.rust}) -> bool {{ let s = {L.ctor('a')}; s == y }}", [r], nd)]


def module(name, L, kinds):
    """Rust module text and harness list"""
    done, defs = [], []

    def walk(x):
        if x in done:
            return
        for n in (x.needs() if hasattr(x, "needs") else []):
            walk(n)
        done.append(x)
        d = x.defs()
        if d not in defs:
            defs.append(d)

    walk(L)
    hs = []
    for k in kinds:
        hs += k(name, L)
    txt = f"pub mod {name} {{ use bondrewd::*;\n" + "\n".join(defs) + "\n" + "\n".join(h.rust for h in hs) + "\n}\n"
    return txt, hs
