"""C41: a rejected definition is rejected by the macro's own error, placed where the defect is, with its
numbers.  Decides from the compiler's diagnostics for the compile-fail witnesses; wordings are free."""
import re
import engine, rejects
from engine import Macro, HANG

FIELD = r"(?:#\[bondrewd\((?:[^\]\"]|\"[^\"]*\")*\)\] )?"

# only the compiler can know these: sizes and traits of other types
FOREIGN = re.compile(r"nested struct of 3 bytes given as|^u8 with (struct_size|enum_primitive)|^En with enum_primitive = \"u16\"|without the trait")


def given(key):
    """the acceptable numbers for the width a witness of the width family states"""
    m = re.match(r"\[\w+; (\d+)\] (?:elements of (\d+) bytes|elements of (\d+)|block of (\d+) bytes|block of (\d+)|of (\d+) bits|over bits of (\d+))$", key)
    if m:
        n, eb, e, bb, b, o, v = (int(x) if x else None for x in m.groups())
        if eb:
            return {eb * 8 * n, eb * 8}
        if e:
            return {e * n, e}
        return {bb * 8 if bb else b or o or v}
    m = re.search(r"bit_length = (\d+)", key) or re.search(r"of (\d+) bits in a", key) or re.match(r"enum of (\d+) bits", key) or re.search(r"bytes on (\d+) bits", key)
    if m:
        return {int(m[1])}
    m = re.search(r"byte_length = (\d+)", key)
    if m:
        return {int(m[1]) * 8}
    m = re.search(r'bits = "(\d+)\.\.(\d+)"', key)
    if m:
        return {int(m[2]) - int(m[1])}
    m = re.match(r"enum elements of (\d+) bits", key)
    return {int(m[1]), 2 * int(m[1])} if m else None


def wanted(rule, key):
    """[set of alternatives]: the message has to hold one word of each set"""
    if rule == "width":
        g = given(key)
        return [g] if g else []
    if rule == "overlap":
        if key.startswith(("variant bits", "later variant")):
            return [{1, "a"}, {2, "b"}]
        if key.startswith("variant field over bit"):
            return [{0, "variant_id", "id"}, {1, "a"}]
        m = re.match(r"last of (\d) fields over (?:part of )?field (\d)", key)
        if m:
            return [{int(m[2]), "f" + m[2]}, {int(m[1]), "x"}]
        if key.startswith("explicit"):
            return [{0, "a"}, {2, "c"}]
        if key.endswith("a field between"):
            return [{0, "a", "b"}, {2, "a", "b"}]
        if key.startswith("bits "):
            return [{0, "a", "b"}, {1, "a", "b"}]
        return [{0, "z"}, {1, "a"}]
    if rule == "attribute":
        m = re.match(r"(\S+|\[u8; 5\]) filled to (\d) bytes", key)
        if m:
            return [{8 * int(m[2])}, {{"u16": 16, "u32": 32}.get(m[1], 40)}]
    if rule == "variant id":
        m = re.match(r"payload of (\d) bits for 8", key)
        if m:
            return [{int(m[1])}, {8}]
        m = re.match(r"id (\d+), payload (\d+), total (\d+)", key)
        if m and 8 <= int(m[2]) <= int(m[3]):
            return [{int(x)} for x in m.groups()]
    if rule == "BitfieldEnum value":
        m = re.search(r"value (\d+)$", key)
        if m:
            return [{int(m[1])}]
    if rule == "enforcement":
        m = re.search(r", (\d+) bits, enforce_(bits|bytes) = (\d+)$", key)
        if m:
            return [{int(m[1])}, {int(m[3]) * (8 if m[2] == "bytes" else 1)}]
    return []


def place(rule, key, src):
    """pattern of the source the error has to point into, or None: anywhere in the definition"""
    if rule == "width" or rule == "empty" and re.search(r"\ba: (?!u32)", src) and not key.startswith(("only", "enum of")):
        return FIELD + r"(?:\ba: )?(?:\[?\w+(?:; \d+\])?)" if "in a tuple variant" in key else FIELD + r"\ba: (?:\[[^\]]*\]|\w+)"
    if rule == "attribute" and not re.search(r"^struct with|filled to|^unit|^union|^generic|in a variant", key):
        return FIELD + r"\ba: [^,}]*"
    if rule == "variant id":
        m = re.match(r"variants (\d) and (\d) of \d (share|both)", key)
        if m:
            return "|".join(rf"(?:#\[bondrewd\([^\]]*\)\] )?\b{'ABCD'[int(x)]}\b(?: \{{ a: u8 \}}| = \d)*" for x in m.groups()[:2])
        if key.startswith("captured"):
            return FIELD + r"\bi: (?:\[[^\]]*\]|\w+)"
    if rule == "BitfieldEnum value":
        m = re.search(r"(?:variants|values) (\d) and (\d) of", key)
        if m:
            return "|".join(rf"(?:#\[\w+\([^\]]*\)\] )?\bV{x}\b(?: = \d+)?" for x in m.groups())
        m = re.search(r"(last )?value \d+$", key)
        if m:
            return r"\bB = \d+" if m[1] else r"\bA = \d+"
    return None


def judge(rep, rule, key, src, ms, note):
    """the verdict over the first message of a rejected witness"""
    if not ms:
        return              # C22's and C23's business
    bad = lambda kind, what: rep.violation(f"{rule}: {key}{note}", kind, what, {"source": src, "messages": [str(m) for m in ms[:5]]})
    if ms == [HANG]:
        return bad("hang", HANG)
    p = next((m for m in ms if "panicked" in m or "internal compiler error" in m or "stack" in m and "overflow" in m), None)
    if p:
        return bad("panic", f"the definition makes the macro panic instead of being explained: {p[:200]}")
    if FOREIGN.search(key):
        return
    own = [m for m in ms if getattr(m, "code", None) is None]
    if not own:
        return bad("generated", f"the macro accepts the definition and generates code that does not build: {ms[0][:200]}")
    m = own[0]
    words = {int(w) if w.isdigit() else w for w in re.findall(r"\d+|[A-Za-z_]\w*", m)}
    for alt in wanted(rule, key):
        if not alt & words:
            return bad("numbers", f"the error does not name {' or '.join(map(str, sorted(alt, key=str)))}: {m[:200]}")
    want = place(rule, key, src)
    at = getattr(m, "at", None)
    if at is None:
        return bad("place", f"the error does not point into the definition: {m[:200]}")
    if want and not any(x.start() <= at[1] < x.end() for x in re.finditer(want, at[0])):
        return bad("place", f"the error points at `{at[0][at[1]:at[2]]}` instead of the offending part: {m[:200]}")


def c41(rep):
    import checks
    q = rep.tier == "quick"
    cases, by = [], {}
    for name, fam in rejects.FAMILIES:
        l = [(name, k, b) for k, b, _ in fam() if b]
        by[name] = len(l)
        cases += l
    ls = checks.small(rep.tier, rep.seed, .5) + checks.rnd(rep.tier, rep.seed, 60, 1000)
    ls = checks.sample(ls, 60, rep.seed) if q else ls
    enf = [("enforcement", f"{key}, {rejects.bits_defined(L)} bits, {k}", src) for key, L in ls if isinstance(L, checks.Struct) for k, ok, src in rejects.enforced(L) if not ok]
    by["enforcement"] = len(enf)
    cases += enf
    n = 0
    for chk, note in ((True, ""), (False, " (macro without overflow checks)")):
        sub = cases if chk or not q else [c for i, c in enumerate(cases) if c[0] not in ("width", "enforcement", "overlap") or i % 6 == 0]
        got = engine.accepts([(i, c[2]) for i, c in enumerate(sub)], Macro(engine.FULL, chk), tag=rep.pid + ("c" if chk else "n"))
        n += len(sub)
        for i, (rule, key, src) in enumerate(sub):
            judge(rep, rule, key, src, got[i], note)
    rep.cov = {"programs": n, "disagreements_checked": n, "rejected_witnesses": n, "witnesses_by_rule": by, "samples": [{"rule": c[0], "key": c[1]} for c in cases[:: max(1, len(cases) // 8)]],
               "explanation": "diagnostics of compile-fail witnesses: each is rejected by an error of the macro (not a panic, not an error in generated code) that points at the offending field or variant and holds the numbers of widths, overlaps, fill sizes, payloads, values and enforcement"}
    return rep.finish("other", ["an error without a code that points into the definition is the macro's own", "each witness stands for the definitions that take the same path through the macro's validation",
                                "definitions only the compiler can judge (traits and sizes of other types) are left to C22"])
