"""What each property's check analyses: for every property a list of jobs (feature set, witness
layouts, harness kinds).  Layouts are functions of (tier, seed) only."""
from corpus import *
from harness import *
import engine

FULL = engine.FULL
PLAIN = "derive"


class Job:
    """layouts x kinds under one feature set; keep(name) restricts the harnesses that are judged"""

    def __init__(self, layouts, kinds, features=PLAIN, keep=None, panics_only=False):
        self.layouts, self.kinds, self.features, self.keep, self.panics_only = layouts, kinds, features, keep, panics_only


SCALE = 3           # the quick tier's sample sizes below are multiplied by this


def sample(items, n, salt=0):
    """n items (times SCALE) spread over the list, always the same ones"""
    n *= SCALE
    if len(items) <= n:
        return list(items)
    r = random.Random(len(items) * 31 + salt)
    idx = sorted(r.sample(range(len(items)), n))
    return [items[i] for i in idx]


def some(q, fam, n, **kw):
    return fam(n=n * SCALE, **kw) if q else fam(**kw)


def structs(ls):
    return [(k, L) for k, L in ls if isinstance(L, Struct)]


def only_keys(ls, *words):
    return [(k, L) for k, L in ls if any(w in k for w in words)]


def enums(ls):
    return [(k, L) for k, L in ls if isinstance(L, Enum)]


def rnd(tier, seed, quick, thorough, **kw):
    return fam_random(seed, quick * SCALE if tier == "quick" else thorough, **kw)


def small(tier, seed, n=1.0, enums_=True):
    """a cross-section of every family, for properties that are not about one kind of field"""
    q = tier == "quick"
    f = lambda l, k: l if not q else sample(l, int(k * n))
    o = fam_mix(flags=FLAG4)
    o += f(fam_flags(), 60) + f(fam_fill(), 40) + f(fam_bits(), 24) + f(fam_spell(), 40)
    o += f(fam_nested(offs=(0, 3, 5, 8), flags=FLAG4), 60) + f(fam_raw(flags=FLAG4), 40)
    lg, ov = (fam_large(), fam_overlap()) if enums_ else (structs(fam_large()), structs(fam_overlap()))
    o += f(lg, 16) + f(ov, 20)
    o += f(pack_nested(spread=True), 15) + f(pack_specials(spread=True), 40) + f(pack_elarrs(spread=True), 60) + f(pack_blarrs(spread=True), 50)
    g = lambda fam, k: some(q, fam, int(k * n))
    o += g(fam_marked, 30) + g(fam_filled, 20) + g(fam_places, 20)
    if enums_:
        o += f(fam_enum(), 90) + g(fam_variants, 30)
    return o


def ints(tier):
    """integers of every type, width, offset and endianness"""
    if tier == "quick":
        return pack_prims(flags=((0, 0),)) + pack_prims(flags=FLAG4[1:], spread=True)
    return pack_prims()


def prims(tier):
    """the same, but each of them under only one of the four bit and byte orders in the quick tier"""
    return pack_prims(spread=tier == "quick")


def broad(tier, seed):
    q = tier == "quick"
    return (ints(tier) + (pack_specials(spread=True) + pack_nested(spread=True) if q else pack_specials() + pack_nested())
            + (sample(pack_elarrs(spread=True), 500) + sample(pack_blarrs(spread=True), 500) if q else pack_elarrs() + pack_blarrs())
            + (sample(fam_bytes(), 160) if q else fam_bytes()) + (sample(fam_large(), 40) if q else []) + small(tier, seed, .7) + rnd(tier, seed, 120, 4000))


def only(*names):
    return lambda n: any(n == x or (x.endswith("*") and n.startswith(x[:-1])) for x in names)


# ------------------------------------------------------------------------------------- the table
def c01(t, s):
    return [Job(broad(t, s), [k_into])]


def c02(t, s):
    return [Job(broad(t, s), [k_from]),
            Job(small(t, s) + rnd(t, s, 80, 2000) + prims(t), [k_read])]


def c03(t, s):
    q = t == "quick"
    return [Job(small(t, s, 1.3) + prims(t) + rnd(t, s, 120, 3000), [k_rt, k_brt])]


def c04(t, s):
    q = t == "quick"
    ls = small(t, s) + prims(t) + rnd(t, s, 80, 2000)
    return [Job(ls, [k_write, k_wr])]


def c05(t, s):
    q = t == "quick"
    ls = small(t, s) + prims(t) + rnd(t, s, 100, 2000)
    ov = sample(fam_overlap(), 120) if q else fam_overlap()
    return [Job(structs(ls + ov), [k_sib_read, k_sib_write]), Job(enums(ls + ov), [k_from, k_read, k_into, k_write])]


def slicey(t, s, n=.5):
    q = t == "quick"
    return small(t, s, n) + (sample(prims(t), 260) if q else prims(t)) + rnd(t, s, 50, 1500)


def c06(t, s):
    return [Job(slicey(t, s), [k_slice_ok], FULL)]


def c07(t, s):
    return [Job(slicey(t, s), [k_slice_err, k_check_err], FULL)]


def c08(t, s):
    ls = small(t, s, .5) + (sample(prims(t), 170) if t == "quick" else ints(t)) + rnd(t, s, 40, 1500)
    return [Job(ls, [k_into, k_from, k_read, k_write], PLAIN, panics_only=True),
            Job(sample(ls, 60 if t == "quick" else 2000, 7), [k_slice_err, k_check_err, k_checked, k_dyn, k_hex_slice, k_hex_dec], FULL, panics_only=True)]


def c09(t, s):
    q = t == "quick"
    ls = small(t, s, 4) + rnd(t, s + 1, 500, 8000) + (sample(ints(t), 150) if q else ints(t))
    return [Job(ls, [k_size])]


def ids_family(t, s):
    """every way of giving some of up to four variants an explicit id, with each possible catch-all"""
    o = []
    vals = [None, 0, 1, 2, 3, 5]
    for n in (2, 3, 4):
        for combo in itertools.product(vals, repeat=n):
            ex = [c for c in combo if c is not None]
            if len(set(ex)) != len(ex):
                continue
            for style in ("vid", "disc"):
                if style == "disc":
                    if not ex:
                        continue
                    cur, rust = 0, []
                    for c in combo:
                        cur = cur if c is None else c
                        rust.append(cur)
                        cur += 1
                    if len(set(rust)) != n:
                        continue
                for inv in [None] + list(range(n)):
                    vs = []
                    for i, c in enumerate(combo):
                        kw = dict(vid=c) if style == "vid" else dict(disc=c)
                        vs.append(Var("ABCD"[i], [F("p", Int("u8"), 3 + i)], invalid=inv == i, **kw))
                    o.append((f"ids {style} {['auto' if c is None else c for c in combo]} catch {inv}", Enum("S", 3, vs)))
    return o if t != "quick" else sample(o, 600, s)


def c10(t, s):
    q = t == "quick"
    ls = fam_enum() + enums(fam_large()) + some(q, fam_variants, 120) + rnd(t, s, 60, 2500, enums=1)
    return [Job(ls, [k_from, k_into]), Job(sample(ids_family(t, s), 120) if q else ids_family(t, s), [k_from])]


def c11(t, s):
    q = t == "quick"
    ls = fam_enum() + enums(fam_large()) + some(q, fam_variants, 100) + rnd(t, s, 100, 2500, enums=1)
    return [Job(ls, [k_id, k_into, k_read, k_write], keep=only("i_id", "h_into", "r_variant_id", "w_variant_id"))]


def c12(t, s):
    return [Job(ids_family(t, s), [k_id, k_from, k_into])]


def c13(t, s):
    ls = fam_enum(which=("capture", "capture last", "capture tuple"))
    wide = [(k, L) for k, L in fam_large() if "captured" in k]
    if t == "quick":
        ls = sample(ls, 150)
    ls += wide + some(t == "quick", fam_variants, 60, captured=True)
    return [Job(ls, [k_into, k_from, k_id, k_read, k_rt]), Job(sample(ls, 40), [k_slice_ok, k_checked, k_dyn], FULL)]


def marked(L, *names):
    fs = L.fields if isinstance(L, Struct) else [f for v in L.variants for f in v.fields]
    return any(getattr(f, n) for f in fs for n in names)


def c14(t, s):
    q = t == "quick"
    ls = fam_flags(which=("reserve",)) + fam_enum(which=("marked",))
    r = [(k, L) for k, L in fam_random(s, 400 if q else 6000) if marked(L, "reserve")]
    ls = (sample(ls, 200) if q else ls) + r + some(q, fam_marked, 350, which=("reserve",))
    return [Job(ls, [k_into, k_from, k_read, k_write, k_size]), Job(sample(ls, 50 if q else 600), [k_dyn], FULL)]


def c15(t, s):
    q = t == "quick"
    ls = fam_flags(which=("read_only", "redundant")) + fam_enum(which=("marked",))
    r = [(k, L) for k, L in fam_random(s, 300 if q else 6000) if marked(L, "read_only", "redundant")]
    ls = (sample(ls, 230) if q else ls) + r + (sample(fam_overlap(), 450) if q else fam_overlap()) + some(q, fam_marked, 350, which=("read_only", "redundant"))
    return [Job(ls, [k_into, k_from, k_read, k_write, k_size])]


def c16(t, s):
    q = t == "quick"
    odd = [(k, L) for k, L in fam_mix(flags=FLAG4) + fam_random(s, 60 if q else 3000) if L.bits % 8 or isinstance(L, Enum)]
    ls = fam_fill() + only_keys(fam_large(), "filled", "beyond") + odd + (sample(fam_enum(), 200) if q else fam_enum()) + some(q, fam_filled, 300) + some(q, fam_variants, 60)
    return [Job(ls, [k_into, k_from, k_size, k_write])]


def flagged(t, s, r, l):
    q = t == "quick"
    fl = [(a, b) for a, b in FLAG4 if (r and a) or (l and b)]
    ok = lambda L: (r and L.reverse) or (l and L.lsb0)
    ls = fam_mix(flags=fl)
    for f, n in ((fam_flags(flags=fl), 40), (fam_fill(flags=fl), 30), (fam_bits(flags=fl), 20), (fam_spell(flags=fl), 20),
                 (fam_nested(offs=(0, 3, 5, 8), flags=fl), 30), (fam_raw(flags=fl), 30), (fam_enum(flags=fl), 60),
                 (pack_specials(flags=fl), 70), (pack_nested(flags=fl, spread=q), 80), (pack_elarrs(flags=fl, spread=True), 150), (pack_blarrs(flags=fl, spread=True), 150),
                 (pack_prims(flags=fl, spread=q), 600)):
        ls += sample(f, n) if q else f
    return ls + [(k, L) for k, L in fam_random(s, 160 if q else 5000) if ok(L)]


def c17(t, s):
    ls = flagged(t, s, True, False)
    return [Job(ls, [k_into, k_from]), Job(sample(ls, 400 if t == "quick" else 2000), [k_read, k_write]),
            Job(sample(ls, 150 if t == "quick" else 900), [k_slice_ok], FULL)]


def c18(t, s):
    ls = flagged(t, s, False, True)
    return [Job(ls, [k_into, k_from]), Job(sample(ls, 400 if t == "quick" else 2000), [k_read, k_write]),
            Job(sample(ls, 150 if t == "quick" else 900), [k_slice_ok], FULL)]


def c19(t, s):
    q = t == "quick"
    ls = pack_elarrs(spread=q)
    ls = ls + (sample(fam_elarr(flags=FLAG4), 100) if q else fam_elarr(flags=FLAG4))
    return [Job(ls, [k_into, k_from]), Job(sample(ls, 260 if q else 1500), [k_read, k_write])]


def c20(t, s):
    q = t == "quick"
    ls = pack_blarrs(spread=q)
    ls = ls + (sample(fam_blarr(flags=FLAG4), 100) if q else fam_blarr(flags=FLAG4))
    return [Job(ls, [k_into, k_from]), Job(sample(ls, 260 if q else 1500), [k_read, k_write])]


def c21(t, s):
    q = t == "quick"
    ls = (sample(fam_nested(flags=FLAG4), 700) + fam_raw(flags=FLAG4) if q else fam_nested(flags=FLAG4) + fam_raw(flags=FLAG4))
    ls += fam_mix(flags=FLAG4, which=("nested",)) + pack_nested() + pack_elarrs(which=("struct", "struct 1", "struct 2", "struct 3"))
    return [Job(ls, [k_into, k_from]), Job(sample(ls, 400 if q else 3000), [k_read, k_write]), Job(sample(ls, 100 if q else 900), [k_slice_ok], FULL)]


def c24(t, s):
    ls = fam_cenum(4)
    return [Job(fam_cenum(3) + sample(ls, 600, s) if t == "quick" else ls, [k_prim])]


def hexy(t, s, n):
    q = t == "quick"
    ls = [(k, L) for k, L in small(t, s, .5) + rnd(t, s, 60, 600) if L.B <= (12 if q else 24)]
    return sample(ls, n if q else 1500, s)


def c25(t, s):
    ls = hexy(t, s, 200)
    return [Job(ls, [k_hex_enc, k_hex_rt], FULL), Job(sample(ls, 30), [k_hex_slice], FULL)]


def c26(t, s):
    return [Job(hexy(t, s, 120), [k_hex_dec, k_hex_slice], FULL)]


def c27(t, s):
    return [Job(slicey(t, s, .8), [k_dyn], FULL)]


def c28(t, s):
    return [Job(slicey(t, s), [k_checked, k_check_err], FULL), Job(sample(slicey(t, s, .4), 10**6 if t == "quick" else 1500, s), [k_unchecked], FULL)]


def c30(t, s):
    q = t == "quick"
    ls = [(k, L) for k, L in fam_enum(idbits=(2, 3, 5, 8, 9)) + fam_random(s, 60 if q else 900, enums=1) if L.id_bits <= 9]
    cl = [(k, EnumDef(L.name, L.variants, L.prim_attr, eq=True)) for k, L in fam_cenum(3 if q else 4)]
    return [Job(sample(ls, 250) if q else ls, [k_id_eq]), Job(cl, [k_prim_eq])]


def c31(t, s):
    q = t == "quick"
    ls = small(t, s, .35) + (sample(prims(t), 80) if q else prims(t)) + rnd(t, s, 30, 600)
    return [Job(ls, [k_into, k_from, k_read, k_write, k_size], fs) for fs in ("derive", "derive,dyn_fns", "derive,hex_fns", FULL)]


def endian_family(seed):
    """the same value stored under every way of choosing its endianness"""
    o = []
    sp = {"be": ["be", "msb", "big"], "le": ["le", "lsb", "little", "lil"]}
    alls = [(e, x) for e in sp for x in sp[e]] + [(None, None)]
    for de, ds in alls:
        for fe, fs in alls:
            o.append((f"default {ds} field {fs}", Struct("S", [F("a", Int("u8"), 3), F("m", Int("u32"), 21, endian=fe, spell=fs), F("n", Int("i16")), F("c", Char(), 21, endian=fe, spell=fs), F("f", Float("f64"), endian=fe, spell=fs),
                                                              F("g", Arr(Int("u16"), 3), 33, endian=fe, spell=fs), F("h", Arr(Int("u32"), 2, "bl"), 49, endian=fe, spell=fs)], endian=de, spell=ds)))
    for de, ds in alls:
        for ve in (None, "be", "le"):
            for fe, fs in ((None, None), ("be", "be"), ("le", "little")):
                o.append((f"enum default {ds} variant {ve} field {fs}",
                          Enum("S", 11, [Var("Alpha", [F("a", Int("u32"), 21, endian=fe, spell=fs), F("b", Int("u16"), 13)], endian=ve), Var("Beta", [F("b", Int("i64"), 41)]), Var("Gamma")], endian=de, spell=ds)))
    return o


def c32(t, s):
    ls = endian_family(s) + some(t == "quick", fam_endians, 300)
    return [Job(ls, [k_into, k_from]), Job(sample(ls, 200 if t == "quick" else 4000), [k_read, k_write])]


def c33(t, s):
    q = t == "quick"
    ls = fam_spell() + fam_bits() + fam_bytes()
    other = []
    for i, how in enumerate(("apart", "backwards", "apart backwards")):
        for fam in (fam_spell, fam_flags, fam_fill, fam_bits, fam_enum, fam_bytes, fam_elarr, fam_blarr, fam_nested):
            l = fam()
            other += [(f"{k}, attributes {how}", spelt(L, how)) for k, L in (sample(l, 8, s + i) if q else sample(l, 200, i))]
    orders = sample(fam_orders(), 130, s) if q else fam_orders()
    other += some(q, fam_places, 250)
    return [Job(other + orders, [k_into, k_from]), Job(sample(ls, 1000) if q else ls, [k_into, k_from, k_size]), Job(sample(ls, 60 if q else 9999), [k_read, k_write])]


def c34(t, s):
    q = t == "quick"
    ls = pack_specials(which=("bool", "char", "f32", "f64")) + fam_special(which=("bool", "char", "f32", "f64"), flags=FLAG4, tails=(3,))
    return [Job(ls, [k_into, k_from]), Job(sample(ls, 400 if q else 9999), [k_read, k_write])]


def c35(t, s):
    q = t == "quick"
    ls = pack_specials(which=("enum", "raw enum")) + fam_mix(flags=FLAG4, which=("enum",)) + fam_special(which=("enum", "raw enum"), flags=FLAG4, tails=(3,))
    ls += pack_elarrs(which=("enum",), flags=FLAG4)
    return [Job(ls, [k_into, k_from]), Job(sample(ls, 160 if q else 9999), [k_read, k_write])]


def c36(t, s):
    q = t == "quick"
    ls = fam_enum() + some(q, fam_variants, 150) + rnd(t, s, 60, 2000, enums=1)
    return [Job(ls, [k_read, k_write, k_wr], keep=lambda n: not n.endswith("_variant_id"))]


def c38(t, s):
    q = t == "quick"
    ls, cs = fam_names(), fam_cnames()
    core = [(k, L) for k, L in ls if "mod core" not in k]
    return [Job(sample(ls, 500, s) if q else ls, [k_into, k_from, k_read, k_write]),
            Job(sample(ls, 110, s + 1) if q else ls, [k_slice_ok, k_slice_err, k_checked, k_dyn], FULL),
            Job(sample(core, 60, s + 2) if q else core, [k_size]),
            Job(sample(fam_spelt(), 90, s + 3) if q else fam_spelt(), [k_into, k_from, k_read, k_write]),
            Job(sample(fam_spelt(), 20, s + 4) if q else fam_spelt(), [k_slice_ok, k_dyn], FULL),
            Job([(k, L) for k, L in cs if not L.eq], [k_prim]), Job([(k, L) for k, L in cs if L.eq], [k_prim_eq])]


JOBS = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
