"""C37: what the error types display, from the compiler's intermediate representation.

The harness formats an error into a byte sink; `core::fmt`'s own machinery, which has no MIR to follow,
is replaced by models: literal pieces are copied, and a displayed value is written as a tag byte that
occurs in no text followed by the raw bytes of the value."""
import re
import engine
from engine import Macro, Unit

N = 200
TAGS = {0xF5: ("number", 8), 0xF6: ("number in hexadecimal", 8), 0xF7: ("character", 4), 0xF8: ("number in another radix", 8)}

MODELS = r"""
pub mod models {
    use core::fmt::{self, Write};
    use core::{marker::PhantomData, ptr::NonNull};
    pub struct Sink { pub b: [u8; %(N)d], pub n: usize }
    impl fmt::Write for Sink {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            for x in s.as_bytes() { self.b[self.n] = *x; self.n += 1; }
            Ok(())
        }
    }
    // the compiler lays these out as it does the private types they stand for
    struct Args<'a> { template: NonNull<u8>, args: NonNull<Arg<'a>> }
    #[derive(Clone, Copy)]
    enum ArgTy<'a> {
        Placeholder { value: NonNull<()>, formatter: unsafe fn(NonNull<()>, &mut fmt::Formatter<'_>) -> fmt::Result, _lifetime: PhantomData<&'a ()> },
        Count(u16),
    }
    #[derive(Clone, Copy)]
    #[repr(align(2))]
    struct Arg<'a> { ty: ArgTy<'a> }
    struct Opts { flags: u32, width: u16, precision: u16 }
    struct Fmtr<'a> { options: Opts, buf: &'a mut (dyn fmt::Write + 'a) }
    unsafe fn str_at<'a>(p: *const u8, n: usize) -> &'a str { core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n)) }
    unsafe fn show(out: &mut dyn Write, a: Arg, flags: u32, width: u16, precision: u16) -> fmt::Result {
        let mut f = Fmtr { options: Opts { flags, width, precision }, buf: out };
        match a.ty {
            ArgTy::Placeholder { value, formatter, .. } => formatter(value, core::mem::transmute::<&mut Fmtr, &mut fmt::Formatter>(&mut f)),
            _ => Ok(()),
        }
    }
    pub fn model__fmt_write(out: &mut dyn Write, a: fmt::Arguments<'_>) -> fmt::Result {
        unsafe {
            let a: Args = core::mem::transmute(a);
            let (raw, args, template) = (a.args.as_ptr() as usize, a.args.as_ptr(), a.template.as_ptr());
            if raw & 1 == 1 { return out.write_str(str_at(template, raw >> 1)); }
            let (mut t, mut k) = (template as *const u8, 0usize);
            loop {
                let n = *t;
                t = t.add(1);
                if n == 0 { return Ok(()); }
                if n < 0x80 { out.write_str(str_at(t, n as usize))?; t = t.add(n as usize); }
                else if n == 0x80 { let l = *t as usize + 256 * *t.add(1) as usize; t = t.add(2); out.write_str(str_at(t, l))?; t = t.add(l); }
                else {
                    let (mut flags, mut width, mut precision) = (0xE000_0020u32, 0u16, 0u16);
                    if n & 1 != 0 { flags = *t as u32 | (*t.add(1) as u32) << 8 | (*t.add(2) as u32) << 16 | (*t.add(3) as u32) << 24; t = t.add(4); }
                    if n & 2 != 0 { width = *t as u16 | (*t.add(1) as u16) << 8; t = t.add(2); }
                    if n & 4 != 0 { precision = *t as u16 | (*t.add(1) as u16) << 8; t = t.add(2); }
                    if n & 8 != 0 { k = *t as usize + 256 * *t.add(1) as usize; t = t.add(2); }
                    show(out, *args.add(k), flags, width, precision)?;
                    k += 1;
                }
            }
        }
    }
    fn raw(f: &mut fmt::Formatter<'_>, b: &[u8]) -> fmt::Result {
        unsafe { core::mem::transmute::<&mut fmt::Formatter, &mut Fmtr>(f).buf.write_str(core::str::from_utf8_unchecked(b)) }
    }
    fn num(f: &mut fmt::Formatter<'_>, tag: u8, v: u64) -> fmt::Result {
        let x = v.to_le_bytes();
        raw(f, &[tag, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]])
    }
    fn chr(f: &mut fmt::Formatter<'_>, v: char) -> fmt::Result {
        let x = (v as u32).to_le_bytes();
        raw(f, &[0xF7, x[0], x[1], x[2], x[3]])
    }
    pub fn model__fmt_Formatter_pad(f: &mut fmt::Formatter<'_>, s: &str) -> fmt::Result { raw(f, s.as_bytes()) }
    pub fn model__fmt_Formatter_write_str(f: &mut fmt::Formatter<'_>, s: &str) -> fmt::Result { raw(f, s.as_bytes()) }
    pub fn model__fmt_Formatter_write_fmt(f: &mut fmt::Formatter<'_>, a: fmt::Arguments<'_>) -> fmt::Result {
        unsafe { model__fmt_write(core::mem::transmute::<&mut fmt::Formatter, &mut Fmtr>(f).buf, a) }
    }
    pub fn model__fmt_Formatter_Write_write_str(f: &mut fmt::Formatter<'_>, s: &str) -> fmt::Result { raw(f, s.as_bytes()) }
    pub fn model__fmt_Formatter_Write_write_char(f: &mut fmt::Formatter<'_>, c: char) -> fmt::Result { chr(f, c) }
    pub fn model__str_Display_fmt(s: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result { raw(f, s.as_bytes()) }
    pub fn model__char_Display_fmt(c: &char, f: &mut fmt::Formatter<'_>) -> fmt::Result { chr(f, *c) }
    pub fn model__char_Debug_fmt(c: &char, f: &mut fmt::Formatter<'_>) -> fmt::Result { chr(f, *c) }
%(ints)s
    pub fn text<T: fmt::Display>(e: T) -> ([u8; %(N)d], u64) {
        let mut s = Sink { b: [0; %(N)d], n: 0 };
        let _ = fmt::Write::write_fmt(&mut s, format_args!("{}", e));
        (s.b, s.n as u64)
    }
}
"""


def models():
    ints = ""
    for t in ("usize", "u8", "u16", "u32", "u64", "isize", "i32", "i64"):
        for tr, tag in (("Display", 0xF5), ("LowerHex", 0xF6), ("UpperHex", 0xF6), ("Binary", 0xF8), ("Octal", 0xF8)):
            ints += f"    pub fn model__{t}_{tr}_fmt(v: &{t}, f: &mut fmt::Formatter<'_>) -> fmt::Result {{ num(f, {tag}, *v as u64) }}\n"
    return MODELS % dict(N=N, ints=ints)


CASES = (
    ("length error", "a: usize, b: usize", "bondrewd::BitfieldLengthError(a, b)", "len"),
    ("hex error", "a: char, b: usize", "bondrewd::BitfieldHexError(a, b)", "hex"),
    ("hex error of a dynamic decoder", "a: char, b: usize", "bondrewd::BitfieldHexDynError::Hex(bondrewd::BitfieldHexError(a, b))", "hex"),
    ("length error of a dynamic decoder", "a: usize, b: usize", "bondrewd::BitfieldHexDynError::Length(bondrewd::BitfieldLengthError(a, b))", "len"),
    ("hex error converted to that of a dynamic decoder", "a: char, b: usize", "bondrewd::BitfieldHexDynError::from(bondrewd::BitfieldHexError(a, b))", "hex"),
    ("length error converted to that of a dynamic decoder", "a: usize, b: usize", "bondrewd::BitfieldHexDynError::from(bondrewd::BitfieldLengthError(a, b))", "len"),
)


def pieces(dump, const=None):
    """[("text", str) or (kind, argument)] of a dumped harness result, or a string saying why not;
    const: the arguments are constants, and a value is shown by itself"""
    by, end = {}, None
    for l in dump:
        p, v = l.split(" = ", 1)
        m = re.fullmatch(r"ret\.0\[(\d+)\] bit (\d+)", p)
        if m:
            by.setdefault(int(m[1]), {})[int(m[2])] = v
        else:
            m = re.fullmatch(r"ret\.1 bit (\d+)", p)
            if not m or v not in "01":
                return f"the length of the text depends on the error: {l}"
            end = (end or 0) | int(v) << int(m[1])
    o, i = [], 0
    while i < end:
        b = by[i]
        if any(x not in ("0", "1") for x in b.values()):
            return f"byte {i} of the text is no constant and no number: {b}"
        c = sum(int(x) << k for k, x in b.items())
        i += 1
        if c not in TAGS:
            if o and o[-1][0] == "text":
                o[-1] = ("text", o[-1][1] + bytes([c]))
            else:
                o.append(("text", bytes([c])))
            continue
        kind, n = TAGS[c]
        got = [by[i + k // 8][k % 8] for k in range(8 * n)]
        i += n
        who = None
        if const and all(v in "01" for v in got):
            who = sum(int(v) << k for k, v in enumerate(got))
        for arg in ("arg0", "arg1"):
            if all(v == f"{arg}.bit{k}" or (kind == "character" and k > 20 and v == "0") for k, v in enumerate(got)):
                who = arg
        o.append((kind, who))
    return o


FIELDS = {"len": (("the number of bytes provided", "number"), ("the number of bytes expected", "number")),
          "hex": (("the invalid character", "character"), ("the index of the invalid character", "number"))}
LABELS = (re.compile(r"provid|given|receiv|\bgot\b|actual|found", re.I), re.compile(r"expect|requir|need|at least|want", re.I))


def judge(kind, ps, args=("arg0", "arg1")):
    """what is wrong with the text, or None"""
    shown = " ".join(t.decode("utf8", "replace") if k == "text" else "{" + str(t) + "}" for k, t in ps)
    if args[0] != "arg0":        # known values may stand in the wording
        ps = [p for k, t in ps for p in ([("text" if i % 2 == 0 else "number", x if i % 2 == 0 else int(x)) for i, x in enumerate(re.split(rb"(\d+)", t))] if k == "text" else [(k, t)])]
    for i, (what, how) in enumerate(FIELDS[kind]):
        if (how, args[i]) not in ps:
            return f"{what} is not in the text [{shown}]"
    if kind == "len" and args[0] != args[1]:
        for clause in re.split(r"[,.;:]| but | and ", shown):
            nums = re.findall(r"\{(.*?)\}", clause)
            says = [bool(x.search(clause)) for x in LABELS]
            if len(nums) == 1 and says[0] != says[1] and nums[0] == str(args[says.index(False)]):
                return f"[{clause.strip()}] shows {FIELDS[kind][says.index(False)][0]} (the whole text: [{shown}])"
    return None


class Harness:
    def __init__(self, fn):
        self.fn, self.spec = fn, f"H {fn} 32"


CHARS = "gZ\u00e9/:\0 \n\u20ac\""


def fixed(kind, k):
    """some arguments, for texts whose wording depends on the error: Rust literals and their bits"""
    v = ((0, 1), (1, 2), (2, 1), (9, 300), (0x1_0000_0002, 7), (255, 256), (16, 17), (70000, 65536), (3, 10), (1000, 0))[k]
    if kind == "len":
        return [f"{x}usize" for x in v], v
    return [f"'\\u{{{ord(CHARS[k]):x}}}'", f"{v[1]}usize"], (ord(CHARS[k]), v[1])


def c37(rep):
    txt = "pub mod m0 {\n" + models()
    hs, what = [], {}
    for i, (name, params, expr, kind) in enumerate(CASES):
        txt += f"pub fn t{i}({params}) -> ([u8; {N}], u64) {{ models::text({expr}) }}\n"
        hs.append(Harness(f"m0::t{i}"))
        what[f"m0::t{i}"] = (name, kind, None, expr)
        for k in range(len(CHARS)):
            lits, v = fixed(kind, k)
            txt += f"pub fn t{i}_{k}() -> ([u8; {N}], u64) {{ let (a, b) = ({lits[0]}, {lits[1]}); models::text({expr}) }}\n"
            hs.append(Harness(f"m0::t{i}_{k}"))
            what[f"m0::t{i}_{k}"] = (name, kind, v, expr)
    txt += "}\n"
    res, broken = engine.run([Unit("texts", txt, hs)], Macro(engine.FULL), dump=True, tag="C37")
    if broken:
        raise engine.CheckError("the error types no longer have the documented shape: " + broken[0][1][0][:300])
    und = steps = bits = 0
    samples, decided = [], set()
    for fn, (name, kind, const, expr) in what.items():
        r = res.get(fn) or {"error": "no result"}
        if const and (name in decided):
            continue
        steps += r.get("steps", 0)
        ps = r["error"] if "error" in r else pieces(r["dump"], const)
        if not isinstance(ps, str) and r["panics"]:
            rep.violation(name, "text", "displaying it panics: " + r["panics"][0]["what"], {"panics": r["panics"][:3]})
            decided.add(name)
            continue
        if isinstance(ps, str):
            und += not const
            rep.notes.append(f"undecided: {name}{' ' + str(const) if const else ''}: {ps}"[:300])
            continue
        bits += len(r["dump"])
        if not const:
            decided.add(name)
        bad = judge(kind, ps, const or ("arg0", "arg1"))
        if bad:
            rep.violation(name, "text", bad + (f" for {const}" if const else ""), {"expression": expr, "pieces": [(k, t.decode("utf8", "replace") if isinstance(t, bytes) else t) for k, t in ps]})
        if len(samples) < 4:
            samples.append({"error": expr, "text": [(k, t.decode("utf8", "replace") if isinstance(t, bytes) else t) for k, t in ps]})
    rep.cov = {"programs": len(CASES), "disagreements_checked": bits, "undecided": und, "mir_steps": steps, "samples": samples,
               "explanation": "abstract interpretation of every Display implementation of the error types into the sequence of literal pieces and displayed values: the text holds every field of the error, unchanged and in decimal, and a clause that speaks of the expected or the provided length shows that one"}
    if not samples and not rep.viol:
        rep.finish("other", ASSUME)
        raise engine.CheckError("no text decided")
    return rep.finish("other", ASSUME)


ASSUME = ["core::fmt copies literal pieces and calls the Display implementation of each argument in the order of the template (modelled, since the library ships no intermediate representation for it)",
          "core's Display of integers is decimal and that of characters is the character"]
