//! Abstract interpreter over monomorphic MIR.
//!
//! Abstract domain: every initialised memory bit is a canonical decision diagram over the bits of
//! the analysed function's inputs; every pointer is a finite guarded set of (allocation, offset).
//! Control flow is handled as a dataflow analysis: at a branch on an abstract value both sides are
//! transferred and the abstract states that reach a block are *joined* (gated join) before the block
//! is visited.  Blocks are visited in a weak topological order, loops round by round, so there is one
//! abstract state per program point and round, and no enumeration of paths.
use crate::bdd::*;
use rustc_abi::{FieldIdx, FieldsShape, Primitive, Size, TagEncoding, VariantIdx, Variants};
use rustc_data_structures::fx::FxHashMap;
use rustc_middle::mir::interpret::{self as mi, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, BinOp, CastKind, Operand, Rvalue, StatementKind, TerminatorKind, UnOp};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type R<X> = Result<X, String>;
pub type Val = Vec<AByte>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Loc {
    At(u32, i64),
    Int(Rc<Vec<B>>),
}
#[derive(Clone, Debug)]
pub struct PtrVal {
    pub alts: Vec<(B, Loc)>,
}
#[derive(Clone, Debug)]
pub enum AByte {
    Un,
    Bits([B; 8]),
    Ptr(Rc<PtrVal>, u8),
}
type Mem = Rc<Vec<AByte>>;

#[derive(Clone)]
pub struct State {
    pub allocs: BTreeMap<u32, Mem>,
    pub pc: B,
}

pub struct MonoBody<'tcx> {
    body: mir::Body<'tcx>,
    lays: Vec<TyAndLayout<'tcx>>,
    order: Vec<Elem>,
}
/// A block, or a loop: its head and the elements of its body.
enum Elem {
    Block(usize),
    Loop(usize, Vec<Elem>),
}
const EXIT: usize = usize::MAX;
type Pending = FxHashMap<usize, Vec<State>>;

struct Frame<'tcx> {
    mb: Rc<MonoBody<'tcx>>,
    locals: u32, // first alloc id; local i lives in allocation locals+i
}

pub struct Pl<'tcx> {
    alts: Vec<(B, Loc)>,
    meta: Option<Val>,
    lay: TyAndLayout<'tcx>,
}

#[derive(Clone)]
pub struct Event {
    pub pc: B,
    pub what: String,
    pub trace: Vec<String>,
}

pub struct Interp<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub b: Bdd,
    next: u32,
    ro: FxHashMap<u32, Mem>,
    glob: FxHashMap<mi::AllocId, u32>,
    fns: FxHashMap<u32, Instance<'tcx>>,
    vtabs: FxHashMap<u32, Ty<'tcx>>,
    pub models: FxHashMap<String, Instance<'tcx>>,
    bodies: FxHashMap<Instance<'tcx>, Rc<MonoBody<'tcx>>>,
    pub events: Vec<Event>,
    pub stack: Vec<(String, Span)>,
    pub visited: rustc_data_structures::fx::FxHashSet<Instance<'tcx>>,
    pub steps: u64,
    pub budget: u64,
    deadline: Option<u64>,
    pub care: B,
    pub joins: u64,
    pub nvars: u32,
    ro_floor: u32,
}

fn cbits(v: u128, n: usize) -> Vec<B> {
    (0..n).map(|i| if i < 128 && (v >> i) & 1 == 1 { T } else { F }).collect()
}
pub fn val_of_bits(bits: &[B]) -> Val {
    bits.chunks(8)
        .map(|c| {
            let mut a = [F; 8];
            a[..c.len()].copy_from_slice(c);
            AByte::Bits(a)
        })
        .collect()
}
fn cval(v: u128, bytes: usize) -> Val {
    val_of_bits(&cbits(v, bytes * 8))
}
fn konst(bits: &[B]) -> Option<u128> {
    let mut r = 0u128;
    for (i, b) in bits.iter().enumerate() {
        match *b {
            F => {}
            T => {
                if i >= 128 {
                    return None;
                }
                r |= 1 << i
            }
            _ => return None,
        }
    }
    Some(r)
}
fn base(id: u32) -> u128 {
    ((id as u128) + 1) << 28
}
fn sext(v: u128, bits: usize) -> i128 {
    if bits >= 128 {
        v as i128
    } else {
        ((v << (128 - bits)) as i128) >> (128 - bits)
    }
}

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Interp {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            b: Bdd::new(),
            next: 1,
            ro: Default::default(),
            glob: Default::default(),
            fns: Default::default(),
            vtabs: Default::default(),
            models: Default::default(),
            bodies: Default::default(),
            events: vec![],
            stack: vec![],
            visited: Default::default(),
            steps: 0,
            budget: 20_000_000,
            deadline: std::env::var("BITFLOW_DEADLINE").ok().and_then(|x| x.parse().ok()),
            care: T,
            joins: 0,
            nvars: 0,
            ro_floor: 0,
        }
    }
    /// is the time given to the whole run over?
    pub fn late(&self) -> bool {
        self.deadline.is_some_and(|d| std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).is_ok_and(|t| t.as_secs() >= d))
    }

    pub fn reset(&mut self) {
        self.b.reset();
        self.events.clear();
        self.stack.clear();
        self.visited.clear();
        self.steps = 0;
        self.joins = 0;
        self.nvars = 0;
    }
    pub fn lay(&self, ty: Ty<'tcx>) -> R<TyAndLayout<'tcx>> {
        self.tcx
            .layout_of(self.env.as_query_input(ty))
            .map_err(|e| format!("layout of {ty}: {e:?}"))
    }
    fn cx(&self) -> LayoutCx<'tcx> {
        LayoutCx::new(self.tcx, self.env)
    }
    pub fn fresh_alloc(&mut self, st: &mut State, bytes: Vec<AByte>) -> u32 {
        let id = self.next;
        self.next += 1;
        st.allocs.insert(id, Rc::new(bytes));
        id
    }
    pub fn ptr_to(id: u32, off: i64) -> Val {
        let p = Rc::new(PtrVal { alts: vec![(T, Loc::At(id, off))] });
        (0..8).map(|i| AByte::Ptr(p.clone(), i)).collect()
    }
    fn mk_ptr(alts: Vec<(B, Loc)>) -> Val {
        if alts.len() == 1 {
            if let Loc::Int(b) = &alts[0].1 {
                return val_of_bits(b);
            }
        }
        let p = Rc::new(PtrVal { alts });
        (0..8).map(|i| AByte::Ptr(p.clone(), i)).collect()
    }
    pub fn fresh(&mut self) -> B {
        let v = self.nvars;
        self.nvars += 1;
        self.b.var(v)
    }

    // ---------- bits ----------
    fn loc_addr(&mut self, l: &Loc) -> Vec<B> {
        match l {
            Loc::At(id, off) => cbits((base(*id) as i128 + *off as i128) as u128, 64),
            Loc::Int(b) => b.to_vec(),
        }
    }
    fn ptr_addr(&mut self, p: &PtrVal) -> Vec<B> {
        let mut acc: Option<Vec<B>> = None;
        for (g, l) in p.alts.iter().rev() {
            let a = self.loc_addr(l);
            acc = Some(match acc {
                None => a,
                Some(o) => (0..64).map(|i| self.b.ite(*g, a[i], o[i])).collect(),
            });
        }
        acc.unwrap_or_else(|| cbits(0, 64))
    }
    pub fn bits(&mut self, v: &[AByte]) -> R<Vec<B>> {
        let mut out = Vec::with_capacity(v.len() * 8);
        for a in v {
            match a {
                AByte::Un => return Err("read of uninitialised memory".into()),
                AByte::Bits(b) => out.extend_from_slice(b),
                AByte::Ptr(p, k) => {
                    let ad = self.ptr_addr(p);
                    out.extend_from_slice(&ad[*k as usize * 8..*k as usize * 8 + 8]);
                }
            }
        }
        Ok(out)
    }
    fn ptr_of(&mut self, v: &[AByte]) -> R<Vec<(B, Loc)>> {
        if let AByte::Ptr(p, 0) = &v[0] {
            if v[..8].iter().enumerate().all(|(i, x)| matches!(x, AByte::Ptr(q, k) if Rc::ptr_eq(p, q) && *k as usize == i)) {
                return Ok(p.alts.clone());
            }
        }
        let b = self.bits(&v[..8])?;
        Ok(vec![(T, Loc::Int(Rc::new(b)))])
    }
    fn add(&mut self, a: &[B], b: &[B], cin: B) -> (Vec<B>, B, B) {
        let mut c = cin;
        let mut cprev = cin;
        let mut out = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.b.xor(a[i], b[i]);
            out.push(self.b.xor(x, c));
            cprev = c;
            let ab = self.b.and(a[i], b[i]);
            let xc = self.b.and(x, c);
            c = self.b.or(ab, xc);
        }
        (out, c, cprev)
    }
    fn nots(&mut self, a: &[B]) -> Vec<B> {
        a.iter().map(|x| self.b.not(*x)).collect()
    }
    fn neg(&mut self, a: &[B]) -> Vec<B> {
        let n = self.nots(a);
        let z = cbits(0, a.len());
        self.add(&n, &z, T).0
    }
    fn mux(&mut self, c: B, a: &[B], b: &[B]) -> Vec<B> {
        (0..a.len()).map(|i| self.b.ite(c, a[i], b[i])).collect()
    }
    fn eqb(&mut self, a: &[B], b: &[B]) -> B {
        let mut r = T;
        for i in (0..a.len()).rev() {
            let e = self.b.iff(a[i], b[i]);
            r = self.b.and(r, e);
            if r == F {
                break;
            }
        }
        r
    }
    pub fn eqc(&mut self, a: &[B], v: u128) -> B {
        let c = cbits(v, a.len());
        self.eqb(a, &c)
    }
    fn ltu(&mut self, a: &[B], b: &[B]) -> B {
        let mut lt = F;
        for i in 0..a.len() {
            let na = self.b.not(a[i]);
            let l = self.b.and(na, b[i]);
            let e = self.b.iff(a[i], b[i]);
            lt = self.b.ite(e, lt, l);
        }
        lt
    }
    fn lt(&mut self, a: &[B], b: &[B], signed: bool) -> B {
        if signed && !a.is_empty() {
            let mut a = a.to_vec();
            let mut b = b.to_vec();
            let n = a.len() - 1;
            a[n] = self.b.not(a[n]);
            b[n] = self.b.not(b[n]);
            self.ltu(&a, &b)
        } else {
            self.ltu(a, b)
        }
    }
    fn mul(&mut self, a: &[B], b: &[B]) -> Vec<B> {
        let n = a.len();
        let (a, b) = if konst(a).is_some() { (b, a) } else { (a, b) };
        let mut acc = cbits(0, n);
        for i in 0..n {
            if b[i] == F {
                continue;
            }
            let mut sh = vec![F; i];
            sh.extend_from_slice(&a[..n - i]);
            let sh: Vec<B> = sh.iter().map(|x| self.b.and(*x, b[i])).collect();
            acc = self.add(&acc, &sh, F).0;
        }
        acc
    }
    fn ext(&self, a: &[B], n: usize, signed: bool) -> Vec<B> {
        let mut v = a.to_vec();
        let f = if signed && !a.is_empty() { a[a.len() - 1] } else { F };
        v.resize(n.max(a.len()), f);
        v.truncate(n);
        v
    }
    fn divrem(&mut self, a: &[B], b: &[B], signed: bool) -> (Vec<B>, Vec<B>) {
        let n = a.len();
        if let (Some(x), Some(y)) = (konst(a), konst(b)) {
            if y != 0 {
                if signed {
                    let (x, y) = (sext(x, n), sext(y, n));
                    return (cbits(x.wrapping_div(y) as u128, n), cbits(x.wrapping_rem(y) as u128, n));
                }
                return (cbits(x / y, n), cbits(x % y, n));
            }
        }
        if signed {
            let (sa, sb) = (a[n - 1], b[n - 1]);
            let (na, nb) = (self.neg(a), self.neg(b));
            let (ua, ub) = (self.mux(sa, &na, a), self.mux(sb, &nb, b));
            let (q, r) = self.divrem(&ua, &ub, false);
            let sq = self.b.xor(sa, sb);
            let (nq, nr) = (self.neg(&q), self.neg(&r));
            return (self.mux(sq, &nq, &q), self.mux(sa, &nr, &r));
        }
        let mut r = cbits(0, n + 1);
        let mut q = cbits(0, n);
        let bx = self.ext(b, n + 1, false);
        let nb = self.nots(&bx);
        for i in (0..n).rev() {
            r.pop();
            r.insert(0, a[i]);
            let lt = self.ltu(&r, &bx);
            let s = self.add(&r, &nb, T).0;
            q[i] = self.b.not(lt);
            r = self.mux(lt, &r, &s);
        }
        r.pop();
        (q, r)
    }
    fn shift(&mut self, a: &[B], amt: &[B], left: bool, signed: bool) -> Vec<B> {
        let n = a.len();
        let lg = (n as u32).trailing_zeros() as usize;
        let mut cur = a.to_vec();
        for k in 0..lg {
            let s = 1usize << k;
            let bit = *amt.get(k).unwrap_or(&F);
            if bit == F {
                continue;
            }
            let fill = if !left && signed { cur[n - 1] } else { F };
            let sh: Vec<B> = (0..n)
                .map(|i| {
                    if left {
                        if i >= s { cur[i - s] } else { F }
                    } else if i + s < n {
                        cur[i + s]
                    } else {
                        fill
                    }
                })
                .collect();
            cur = self.mux(bit, &sh, &cur);
        }
        cur
    }
    /// All values an abstract word can take under `pc`, with their guards.
    fn feas(&mut self, bits: &[B], pc: B, cap: usize) -> R<Vec<(u128, B)>> {
        if let Some(k) = konst(bits) {
            return Ok(vec![(k, T)]);
        }
        let mut cur: Vec<(u128, B)> = vec![(0, T)];
        for i in (0..bits.len()).rev() {
            let mut nx = vec![];
            for (v, g) in cur {
                for one in [false, true] {
                    let lit = if one { bits[i] } else { self.b.not(bits[i]) };
                    let g2 = self.b.and(g, lit);
                    if self.b.and(g2, pc) != F {
                        nx.push((v | ((one as u128) << i), g2));
                    }
                }
            }
            if nx.len() > cap {
                return Err(format!("more than {cap} feasible values for an index/length"));
            }
            cur = nx;
        }
        if cur.len() == 1 {
            cur[0].1 = T;
        }
        Ok(cur)
    }

    // ---------- memory ----------
    fn shift_loc(&mut self, l: &Loc, d: i64) -> Loc {
        match l {
            Loc::At(a, o) => Loc::At(*a, o + d),
            Loc::Int(b) => {
                if d == 0 {
                    return l.clone();
                }
                let c = cbits(d as i128 as u128, 64);
                Loc::Int(Rc::new(self.add(b, &c, F).0))
            }
        }
    }
    fn shift_alts(&mut self, a: &[(B, Loc)], d: i64) -> Vec<(B, Loc)> {
        a.iter().map(|(g, l)| (*g, self.shift_loc(l, d))).collect()
    }
    fn mem<'a>(&'a self, st: &'a State, id: u32) -> Option<&'a Mem> {
        st.allocs.get(&id).or_else(|| self.ro.get(&id))
    }
    fn event(&mut self, pc: B, what: String) {
        let mut trace: Vec<String> = self.stack.iter().map(|(n, _)| n.clone()).collect();
        if let Some((_, sp)) = self.stack.last() {
            trace.push(format!("at {}", self.span(*sp)));
        }
        self.events.push(Event { pc, what, trace });
    }
    pub fn span(&self, sp: Span) -> String {
        self.tcx.sess.source_map().span_to_diagnostic_string(sp)
    }
    fn feasible_alts(&mut self, st: &State, alts: &[(B, Loc)]) -> Vec<(B, Loc)> {
        if alts.len() == 1 {
            return vec![(T, alts[0].1.clone())];
        }
        let mut v: Vec<(B, Loc)> = vec![];
        for (g, l) in alts {
            if self.b.and(*g, st.pc) != F {
                v.push((*g, l.clone()));
            }
        }
        if v.len() == 1 {
            v[0].0 = T;
        }
        v
    }
    fn load(&mut self, st: &State, alts: &[(B, Loc)], size: usize) -> R<Val> {
        if size == 0 {
            return Ok(vec![]);
        }
        let al = self.feasible_alts(st, alts);
        let mut acc: Option<Val> = None;
        for (g, l) in al.iter().rev() {
            let v = match l {
                Loc::At(id, off) => match self.mem(st, *id) {
                    Some(m) if *off >= 0 && *off as usize + size <= m.len() => m[*off as usize..*off as usize + size].to_vec(),
                    Some(m) => {
                        let s = format!("memory access outside its allocation (offset {off}, {size} bytes, allocation of {} bytes)", m.len());
                        let pc = self.b.and(st.pc, *g);
                        self.event(pc, s);
                        continue;
                    }
                    None => {
                        let pc = self.b.and(st.pc, *g);
                        self.event(pc, "access to dead memory".into());
                        continue;
                    }
                },
                Loc::Int(_) => {
                    let pc = self.b.and(st.pc, *g);
                    self.event(pc, "dereference of an address without provenance".into());
                    continue;
                }
            };
            acc = Some(match acc {
                None => v,
                Some(o) => self.merge_bytes(*g, &v, &o)?,
            });
        }
        Ok(acc.unwrap_or_else(|| cval(0, size)))
    }
    fn store(&mut self, st: &mut State, alts: &[(B, Loc)], v: &[AByte]) -> R<()> {
        if v.is_empty() {
            return Ok(());
        }
        let al = self.feasible_alts(st, alts);
        for (g, l) in al.iter() {
            match l {
                Loc::At(id, off) => {
                    let (id, off) = (*id, *off);
                    let Some(m) = st.allocs.get(&id) else {
                        let pc = self.b.and(st.pc, *g);
                        let w = if self.ro.contains_key(&id) { "write to constant memory" } else { "write to dead memory" };
                        self.event(pc, w.into());
                        continue;
                    };
                    if off < 0 || off as usize + v.len() > m.len() {
                        let s = format!("memory write outside its allocation (offset {off}, {} bytes, allocation of {} bytes)", v.len(), m.len());
                        let pc = self.b.and(st.pc, *g);
                        self.event(pc, s);
                        continue;
                    }
                    let o = off as usize;
                    if *g == T {
                        let m = Rc::make_mut(st.allocs.get_mut(&id).unwrap());
                        m[o..o + v.len()].clone_from_slice(v);
                    } else {
                        let old = m[o..o + v.len()].to_vec();
                        let nv = self.merge_bytes(*g, v, &old)?;
                        let m = Rc::make_mut(st.allocs.get_mut(&id).unwrap());
                        m[o..o + v.len()].clone_from_slice(&nv);
                    }
                }
                Loc::Int(_) => {
                    let pc = self.b.and(st.pc, *g);
                    self.event(pc, "write through an address without provenance".into());
                }
            }
        }
        Ok(())
    }
    fn merge_ptr(&mut self, c: B, a: &[(B, Loc)], b: &[(B, Loc)]) -> Vec<(B, Loc)> {
        let nc = self.b.not(c);
        let mut out: Vec<(B, Loc)> = vec![];
        let mut ints: Option<(B, Vec<B>)> = None;
        for (side, s) in [(c, a), (nc, b)] {
            for (g, l) in s {
                let g = self.b.and(side, *g);
                if g == F {
                    continue;
                }
                match l {
                    Loc::At(..) => {
                        if let Some(e) = out.iter_mut().find(|e| e.1 == *l) {
                            e.0 = self.b.or(e.0, g);
                        } else {
                            out.push((g, l.clone()));
                        }
                    }
                    Loc::Int(x) => {
                        ints = Some(match ints {
                            None => (g, x.to_vec()),
                            Some((og, o)) => (self.b.or(og, g), self.mux(g, x, &o)),
                        });
                    }
                }
            }
        }
        if let Some((g, x)) = ints {
            out.push((g, Loc::Int(Rc::new(x))));
        }
        out
    }
    fn merge_bytes(&mut self, c: B, a: &[AByte], b: &[AByte]) -> R<Val> {
        if c == T {
            return Ok(a.to_vec());
        }
        if c == F {
            return Ok(b.to_vec());
        }
        let mut out = Vec::with_capacity(a.len());
        let mut i = 0;
        while i < a.len() {
            match (&a[i], &b[i]) {
                (AByte::Un, x) | (x, AByte::Un) => {
                    out.push(x.clone());
                    i += 1;
                }
                (AByte::Bits(x), AByte::Bits(y)) => {
                    if x == y {
                        out.push(a[i].clone());
                    } else {
                        let (x, y) = (*x, *y);
                        let mut r = [F; 8];
                        for k in 0..8 {
                            r[k] = self.b.ite(c, x[k], y[k]);
                        }
                        out.push(AByte::Bits(r));
                    }
                    i += 1;
                }
                (AByte::Ptr(p, k), AByte::Ptr(q, j)) if Rc::ptr_eq(p, q) && k == j => {
                    out.push(a[i].clone());
                    i += 1;
                }
                (AByte::Ptr(_, k), AByte::Ptr(_, j)) if *k == 0 && *j == 0 && i + 8 <= a.len() => {
                    let (x, y) = (self.ptr_of(&a[i..i + 8])?, self.ptr_of(&b[i..i + 8])?);
                    out.extend(Self::mk_ptr(self.merge_ptr(c, &x, &y)));
                    i += 8;
                }
                (AByte::Ptr(_, 0), AByte::Bits(_)) | (AByte::Bits(_), AByte::Ptr(_, 0)) if i + 8 <= a.len() => {
                    // pointer on one side, plain word (e.g. a null niche) or partly
                    // uninitialised payload on the other
                    let fix = |v: &[AByte]| -> Val {
                        v.iter().map(|x| if let AByte::Un = x { AByte::Bits([F; 8]) } else { x.clone() }).collect()
                    };
                    let (x, y) = (self.ptr_of(&fix(&a[i..i + 8]))?, self.ptr_of(&fix(&b[i..i + 8]))?);
                    out.extend(Self::mk_ptr(self.merge_ptr(c, &x, &y)));
                    i += 8;
                }
                _ => {
                    let x = self.bits(&a[i..i + 1])?;
                    let y = self.bits(&b[i..i + 1])?;
                    out.extend(val_of_bits(&self.mux(c, &x, &y)));
                    i += 1;
                }
            }
        }
        Ok(out)
    }
    fn merge_state(&mut self, c: B, a: State, b: State) -> R<State> {
        self.joins += 1;
        let mut out = BTreeMap::new();
        let mut bm = b.allocs;
        for (k, va) in a.allocs {
            match bm.remove(&k) {
                None => {
                    out.insert(k, va);
                }
                Some(vb) => {
                    if Rc::ptr_eq(&va, &vb) {
                        out.insert(k, va);
                    } else if va.len() != vb.len() {
                        return Err("join of differently sized allocations".into());
                    } else {
                        let m = self.merge_bytes(c, &va, &vb)?;
                        out.insert(k, Rc::new(m));
                    }
                }
            }
        }
        out.extend(bm);
        let pc = self.b.or(a.pc, b.pc);
        Ok(State { allocs: out, pc })
    }

    // ---------- constants ----------
    fn global(&mut self, id: mi::AllocId) -> R<u32> {
        if let Some(x) = self.glob.get(&id) {
            return Ok(*x);
        }
        let me = self.next;
        self.next += 1;
        self.glob.insert(id, me);
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let v = self.conv_alloc(a.inner())?;
                self.ro.insert(me, Rc::new(v));
            }
            GlobalAlloc::Static(d) => {
                let a = self.tcx.eval_static_initializer(d).map_err(|_| "static".to_string())?;
                let v = self.conv_alloc(a.inner())?;
                self.ro.insert(me, Rc::new(v));
            }
            GlobalAlloc::Function { instance } => {
                self.fns.insert(me, instance);
                self.ro.insert(me, Rc::new(vec![]));
            }
            GlobalAlloc::VTable(ty, _) => {
                self.vtabs.insert(me, ty);
                self.ro.insert(me, Rc::new(vec![]));
            }
            GlobalAlloc::TypeId { .. } => {
                self.ro.insert(me, Rc::new(vec![]));
            }
        }
        Ok(me)
    }
    fn conv_alloc(&mut self, a: &mi::Allocation) -> R<Val> {
        let n = a.len();
        let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec();
        let mut out: Val = vec![];
        for (i, x) in raw.iter().enumerate() {
            if a.init_mask().get(Size::from_bytes(i as u64)) {
                out.extend(cval(*x as u128, 1));
            } else {
                out.push(AByte::Un);
            }
        }
        let ptrs: Vec<(u64, mi::AllocId)> = a.provenance().ptrs().iter().map(|(s, p)| (s.bytes(), p.alloc_id())).collect();
        for (off, pid) in ptrs {
            let o = off as usize;
            let mut w = [0u8; 8];
            w.copy_from_slice(&raw[o..o + 8]);
            let rel = u64::from_le_bytes(w) as i64;
            let g = self.global(pid)?;
            let p = Self::ptr_to(g, rel);
            for k in 0..8 {
                out[o + k] = p[k].clone();
            }
        }
        Ok(out)
    }
    fn scalar(&mut self, s: Scalar, size: usize) -> R<Val> {
        match s {
            Scalar::Int(i) => Ok(cval(i.to_bits(i.size()), size)),
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                let g = self.global(prov.alloc_id())?;
                Ok(Self::ptr_to(g, off.bytes() as i64))
            }
        }
    }
    fn konst_op(&mut self, c: &mir::ConstOperand<'tcx>) -> R<(Val, Ty<'tcx>)> {
        let ty = c.const_.ty();
        let cv = c
            .const_
            .eval(self.tcx, self.env, c.span)
            .map_err(|e| format!("const eval {:?}: {e:?}", c.const_))?;
        let lay = self.lay(ty)?;
        let size = lay.size.bytes() as usize;
        let v = match cv {
            mir::ConstValue::Scalar(s) => self.scalar(s, size)?,
            mir::ConstValue::ZeroSized => vec![],
            mir::ConstValue::Slice { alloc_id, meta } => {
                let g = self.global(alloc_id)?;
                let mut v = Self::ptr_to(g, 0);
                v.extend(cval(meta as u128, 8));
                v
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let g = self.global(alloc_id)?;
                let o = offset.bytes() as usize;
                self.ro[&g][o..o + size].to_vec()
            }
        };
        Ok((v, ty))
    }

    // ---------- places / operands ----------
    fn place(&mut self, st: &State, fr: &Frame<'tcx>, p: &mir::Place<'tcx>) -> R<Pl<'tcx>> {
        let cx = self.cx();
        let mut pl = Pl {
            alts: vec![(T, Loc::At(fr.locals + p.local.as_u32(), 0))],
            meta: None,
            lay: fr.mb.lays[p.local.as_usize()],
        };
        for el in p.projection.iter() {
            match el {
                mir::ProjectionElem::Deref => {
                    let v = self.load(st, &pl.alts, pl.lay.size.bytes() as usize)?;
                    let Some(inner) = pl.lay.ty.builtin_deref(true) else {
                        return Err(format!("deref of {}", pl.lay.ty));
                    };
                    pl = self.deref(&v, inner)?;
                }
                mir::ProjectionElem::Field(i, fty) => {
                    let off = pl.lay.fields.offset(i.as_usize()).bytes() as i64;
                    let mut l = pl.lay.field(&cx, i.as_usize());
                    if !matches!(pl.lay.ty.kind(), ty::Adt(..)) || l.ty != fty {
                        if let Ok(l2) = self.lay(fty) {
                            l = l2;
                        }
                    }
                    pl.alts = self.shift_alts(&pl.alts, off);
                    if l.is_sized() {
                        pl.meta = None;
                    }
                    pl.lay = l;
                }
                mir::ProjectionElem::Downcast(_, v) => {
                    pl.lay = pl.lay.for_variant(&cx, v);
                }
                mir::ProjectionElem::Index(l) => {
                    let iv = self.load(st, &[(T, Loc::At(fr.locals + l.as_u32(), 0))], 8)?;
                    let ib = self.bits(&iv)?;
                    let el = pl.lay.field(&cx, 0);
                    let stride = el.size.bytes() as i64;
                    let vals = self.feas(&ib, st.pc, 4096)?;
                    let mut na = vec![];
                    for (v, g) in vals {
                        for (ag, l) in pl.alts.clone() {
                            let gg = self.b.and(g, ag);
                            if gg != F {
                                na.push((gg, self.shift_loc(&l, v as i64 * stride)));
                            }
                        }
                    }
                    pl = Pl { alts: na, meta: None, lay: el };
                }
                mir::ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    let el = pl.lay.field(&cx, 0);
                    let stride = el.size.bytes() as i64;
                    let lens = self.seq_len(st, &pl)?;
                    let mut na = vec![];
                    for (n, g) in lens {
                        let i = if from_end { n as i64 - offset as i64 } else { offset as i64 };
                        for (ag, l) in pl.alts.clone() {
                            let gg = self.b.and(g, ag);
                            if gg != F {
                                na.push((gg, self.shift_loc(&l, i * stride)));
                            }
                        }
                        if !from_end {
                            break;
                        }
                    }
                    pl = Pl { alts: na, meta: None, lay: el };
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    let el = pl.lay.field(&cx, 0);
                    let stride = el.size.bytes() as i64;
                    match pl.lay.ty.kind() {
                        ty::Array(e, _) => {
                            let FieldsShape::Array { count, .. } = pl.lay.fields else { return Err("array".into()) };
                            let n = if from_end { count - from - to } else { to - from };
                            let t = Ty::new_array(self.tcx, *e, n);
                            pl.lay = self.lay(t)?;
                        }
                        _ => {
                            let m = self.bits(pl.meta.as_ref().ok_or("subslice meta")?)?;
                            let c = cbits((-((from + to) as i128)) as u128, 64);
                            let nm = self.add(&m, &c, F).0;
                            pl.meta = Some(val_of_bits(&nm));
                        }
                    }
                    pl.alts = self.shift_alts(&pl.alts, from as i64 * stride);
                }
                mir::ProjectionElem::OpaqueCast(t) | mir::ProjectionElem::UnwrapUnsafeBinder(t) => {
                    pl.lay = self.lay(t)?;
                }
                other => return Err(format!("projection {other:?}")),
            }
        }
        Ok(pl)
    }
    fn seq_len(&mut self, st: &State, pl: &Pl<'tcx>) -> R<Vec<(u128, B)>> {
        match &pl.meta {
            Some(m) => {
                let b = self.bits(m)?;
                match self.feas(&b, st.pc, 4096) {
                    Ok(v) => Ok(v),
                    Err(_) => Ok(vec![(u64::MAX as u128, T)]),
                }
            }
            None => {
                let FieldsShape::Array { count, .. } = pl.lay.fields else { return Err("seq_len".into()) };
                Ok(vec![(count as u128, T)])
            }
        }
    }
    fn deref(&mut self, v: &[AByte], inner: Ty<'tcx>) -> R<Pl<'tcx>> {
        let alts = self.ptr_of(v)?;
        let meta = if v.len() == 16 { Some(v[8..].to_vec()) } else { None };
        Ok(Pl { alts, meta, lay: self.lay(inner)? })
    }
    fn operand(&mut self, st: &State, fr: &Frame<'tcx>, o: &Operand<'tcx>) -> R<(Val, Ty<'tcx>)> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let pl = self.place(st, fr, p)?;
                let v = self.load(st, &pl.alts, pl.lay.size.bytes() as usize)?;
                Ok((v, pl.lay.ty))
            }
            Operand::Constant(c) => self.konst_op(c),
            Operand::RuntimeChecks(k) => {
                let v = matches!(k, mir::RuntimeChecks::OverflowChecks);
                Ok((cval(v as u128, 1), self.tcx.types.bool))
            }
        }
    }
    fn is_signed(ty: Ty<'tcx>) -> bool {
        matches!(ty.kind(), ty::Int(_))
    }
    fn is_float(ty: Ty<'tcx>) -> bool {
        matches!(ty.kind(), ty::Float(_))
    }

    fn binop(&mut self, st: &State, op: BinOp, a: (Val, Ty<'tcx>), b: (Val, Ty<'tcx>), dest: TyAndLayout<'tcx>) -> R<Val> {
        use BinOp::*;
        let ty = a.1;
        if let Offset = op {
            let inner = ty.builtin_deref(true).ok_or("offset")?;
            let sz = self.lay(inner)?.size.bytes() as i64;
            let ib = self.bits(&b.0)?;
            let base_alts = self.ptr_of(&a.0)?;
            return self.ptr_add(st, &base_alts, &ib, sz, a.0.get(8..));
        }
        if Self::is_float(ty) {
            return self.float_cmp(op, &a, &b);
        }
        let signed = Self::is_signed(ty);
        let x = self.bits(&a.0)?;
        let y = self.bits(&b.0)?;
        let n = x.len();
        let one = |c: B| -> Val { val_of_bits(&[c, F, F, F, F, F, F, F]) };
        Ok(match op {
            Add | AddUnchecked => val_of_bits(&self.add(&x, &y, F).0),
            Sub | SubUnchecked => {
                let ny = self.nots(&y);
                val_of_bits(&self.add(&x, &ny, T).0)
            }
            Mul | MulUnchecked => val_of_bits(&self.mul(&x, &y)),
            AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                let (r, o) = self.ovf(op, &x, &y, signed);
                let o1 = dest.fields.offset(1).bytes() as usize;
                let mut v: Val = vec![AByte::Un; dest.size.bytes() as usize];
                v[..n / 8].clone_from_slice(&val_of_bits(&r));
                v[o1] = one(o)[0].clone();
                v
            }
            Div => val_of_bits(&self.divrem(&x, &y, signed).0),
            Rem => val_of_bits(&self.divrem(&x, &y, signed).1),
            BitXor => val_of_bits(&(0..n).map(|i| self.b.xor(x[i], y[i])).collect::<Vec<_>>()),
            BitAnd => val_of_bits(&(0..n).map(|i| self.b.and(x[i], y[i])).collect::<Vec<_>>()),
            BitOr => val_of_bits(&(0..n).map(|i| self.b.or(x[i], y[i])).collect::<Vec<_>>()),
            Shl | ShlUnchecked => val_of_bits(&self.shift(&x, &y, true, signed)),
            Shr | ShrUnchecked => val_of_bits(&self.shift(&x, &y, false, signed)),
            Eq => one(self.eqb(&x, &y)),
            Ne => {
                let e = self.eqb(&x, &y);
                one(self.b.not(e))
            }
            Lt => one(self.lt(&x, &y, signed)),
            Gt => one(self.lt(&y, &x, signed)),
            Le => {
                let g = self.lt(&y, &x, signed);
                one(self.b.not(g))
            }
            Ge => {
                let g = self.lt(&x, &y, signed);
                one(self.b.not(g))
            }
            Cmp => {
                let l = self.lt(&x, &y, signed);
                let e = self.eqb(&x, &y);
                let ne = self.b.not(e);
                let mut r = [l; 8];
                r[0] = ne;
                vec![AByte::Bits(r)]
            }
            Offset => unreachable!(),
        })
    }
    fn ovf(&mut self, op: BinOp, x: &[B], y: &[B], signed: bool) -> (Vec<B>, B) {
        use BinOp::*;
        let n = x.len();
        match op {
            AddWithOverflow => {
                let (r, c, cp) = self.add(x, y, F);
                let o = if signed { self.b.xor(c, cp) } else { c };
                (r, o)
            }
            SubWithOverflow => {
                let ny = self.nots(y);
                let (r, c, cp) = self.add(x, &ny, T);
                let o = if signed { self.b.xor(c, cp) } else { self.b.not(c) };
                (r, o)
            }
            _ => {
                let (ex, ey) = (self.ext(x, 2 * n, signed), self.ext(y, 2 * n, signed));
                let w = self.mul(&ex, &ey);
                let r = w[..n].to_vec();
                let fill = if signed { r[n - 1] } else { F };
                let mut o = F;
                for i in n..2 * n {
                    let d = self.b.xor(w[i], fill);
                    o = self.b.or(o, d);
                }
                (r, o)
            }
        }
    }
    fn float_cmp(&mut self, op: BinOp, a: &(Val, Ty<'tcx>), b: &(Val, Ty<'tcx>)) -> R<Val> {
        // IEEE (in)equality of abstract floats, from the bit pattern.
        let x = self.bits(&a.0)?;
        let y = self.bits(&b.0)?;
        let (m, n) = match x.len() {
            32 => (23, 32),
            64 => (52, 64),
            _ => return Err("float width".into()),
        };
        let nan = |s: &mut Self, v: &[B]| {
            let mut e = T;
            for i in m..n - 1 {
                e = s.b.and(e, v[i]);
            }
            let mut f = F;
            for i in 0..m {
                f = s.b.or(f, v[i]);
            }
            s.b.and(e, f)
        };
        let zero = |s: &mut Self, v: &[B]| {
            let mut f = F;
            for i in 0..n - 1 {
                f = s.b.or(f, v[i]);
            }
            s.b.not(f)
        };
        let (nx, ny) = (nan(self, &x), nan(self, &y));
        let (zx, zy) = (zero(self, &x), zero(self, &y));
        let bothz = self.b.and(zx, zy);
        let same = self.eqb(&x, &y);
        let e = self.b.or(bothz, same);
        let anynan = self.b.or(nx, ny);
        let ok = self.b.not(anynan);
        let e = self.b.and(e, ok);
        let r = match op {
            BinOp::Eq => e,
            BinOp::Ne => self.b.not(e),
            _ => return Err(format!("float operation {op:?}")),
        };
        Ok(val_of_bits(&[r, F, F, F, F, F, F, F]))
    }
    fn ptr_add(&mut self, st: &State, alts: &[(B, Loc)], ib: &[B], sz: i64, meta: Option<&[AByte]>) -> R<Val> {
        let mut out = vec![];
        if sz == 0 {
            out = alts.to_vec();
        } else {
            let vals = self.feas(ib, st.pc, 4096)?;
            for (v, g) in vals {
                let d = sext(v, ib.len()) as i64 * sz;
                for (ag, l) in alts {
                    let gg = self.b.and(g, *ag);
                    if gg != F {
                        out.push((gg, self.shift_loc(l, d)));
                    }
                }
            }
        }
        let mut v = Self::mk_ptr(out);
        if let Some(m) = meta {
            v.extend_from_slice(m);
        }
        Ok(v)
    }

    fn tag_write(&mut self, v: &mut Val, lay: TyAndLayout<'tcx>, idx: VariantIdx) -> R<()> {
        match &lay.variants {
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let sz = tag.size(&self.tcx).bytes() as usize;
                let off = lay.fields.offset(tag_field.as_usize()).bytes() as usize;
                let val = match tag_encoding {
                    TagEncoding::Direct => lay.ty.discriminant_for_variant(self.tcx, idx).ok_or("discr")?.val,
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if idx == *untagged_variant {
                            return Ok(());
                        }
                        niche_start.wrapping_add((idx.as_u32() - niche_variants.start.as_u32()) as u128)
                    }
                };
                let val = if sz == 16 { val } else { val & ((1u128 << (sz * 8)) - 1) };
                let t = cval(val, sz);
                v[off..off + sz].clone_from_slice(&t);
                Ok(())
            }
            _ => Ok(()),
        }
    }
    /// Bits of the discriminant value (as the discriminant type).
    fn discr(&mut self, v: &Val, lay: TyAndLayout<'tcx>) -> R<Vec<B>> {
        let dty = lay.ty.discriminant_ty(self.tcx);
        let dn = self.lay(dty)?.size.bits() as usize;
        let of = |s: &Self, i: VariantIdx| -> u128 { lay.ty.discriminant_for_variant(s.tcx, i).map(|d| d.val).unwrap_or(i.as_u32() as u128) };
        match &lay.variants {
            Variants::Empty => Err("discriminant of uninhabited".into()),
            Variants::Single { index } => Ok(cbits(of(self, *index), dn)),
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let sz = tag.size(&self.tcx).bytes() as usize;
                let off = lay.fields.offset(tag_field.as_usize()).bytes() as usize;
                let tb = self.bits(&v[off..off + sz])?;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let signed = matches!(tag.primitive(), Primitive::Int(_, true));
                        Ok(self.ext(&tb, dn, signed))
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let mut acc = cbits(of(self, *untagged_variant), dn);
                        let (s, e) = (niche_variants.start.as_u32(), niche_variants.last.as_u32());
                        for i in s..=e {
                            if i == untagged_variant.as_u32() {
                                continue;
                            }
                            let mut tv = niche_start.wrapping_add((i - s) as u128);
                            if sz < 16 {
                                tv &= (1u128 << (sz * 8)) - 1;
                            }
                            let c = self.eqc(&tb, tv);
                            if c != F {
                                let dv = cbits(of(self, VariantIdx::from_u32(i)), dn);
                                acc = self.mux(c, &dv, &acc);
                            }
                        }
                        Ok(acc)
                    }
                }
            }
        }
    }

    fn cast(&mut self, k: CastKind, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val> {
        let tl = self.lay(to)?;
        let tn = tl.size.bytes() as usize;
        match k {
            CastKind::IntToInt => {
                let lf = self.lay(from)?;
                let mut b = self.bits(&v)?;
                let mut signed = Self::is_signed(from);
                if let ty::Adt(..) = from.kind() {
                    b = self.discr(&v, lf)?;
                    signed = Self::is_signed(from.discriminant_ty(self.tcx));
                }
                Ok(val_of_bits(&self.ext(&b, tn * 8, signed)))
            }
            CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => Ok(v),
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => Ok(v[..tn].to_vec()),
            CastKind::PointerExposeProvenance => {
                let b = self.bits(&v)?;
                Ok(val_of_bits(&b))
            }
            CastKind::PointerWithExposedProvenance => Ok(v),
            CastKind::PointerCoercion(pc, _) => match pc {
                PointerCoercion::MutToConstPointer | PointerCoercion::ArrayToPointer | PointerCoercion::UnsafeFnPointer => {
                    Ok(v[..tn].to_vec())
                }
                PointerCoercion::ReifyFnPointer(_) => {
                    let ty::FnDef(d, a) = from.kind() else { return Err("reify".into()) };
                    let i = Instance::resolve_for_fn_ptr(self.tcx, self.env, *d, a.no_bound_vars().ok_or("bound fn args")?).ok_or("reify resolve")?;
                    let me = self.next;
                    self.next += 1;
                    self.fns.insert(me, i);
                    self.ro.insert(me, Rc::new(vec![]));
                    Ok(Self::ptr_to(me, 0))
                }
                PointerCoercion::ClosureFnPointer(_) => {
                    let ty::Closure(d, a) = from.kind() else { return Err("closure fn ptr".into()) };
                    let i = Instance::resolve_closure(self.tcx, *d, a, ty::ClosureKind::FnOnce);
                    let me = self.next;
                    self.next += 1;
                    self.fns.insert(me, i);
                    self.ro.insert(me, Rc::new(vec![]));
                    Ok(Self::ptr_to(me, 0))
                }
                PointerCoercion::Unsize => self.unsize(v, from, to),
            },
            _ => Err(format!("cast {k:?} from {from} to {to}")),
        }
    }
    fn pointee(&self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        if let Some(i) = t.builtin_deref(true) {
            return Some(i);
        }
        if let ty::Adt(d, a) = t.kind() {
            if d.is_box() {
                return Some(a.type_at(0));
            }
            if d.is_struct() {
                let l = self.lay(t).ok()?;
                let cx = self.cx();
                for i in 0..l.fields.count() {
                    let f = l.field(&cx, i);
                    if f.size.bytes() > 0 {
                        return self.pointee(f.ty);
                    }
                }
            }
        }
        None
    }
    fn unsize(&mut self, v: Val, from: Ty<'tcx>, to: Ty<'tcx>) -> R<Val> {
        let a = self.pointee(from).ok_or("unsize source")?;
        let b = self.pointee(to).ok_or("unsize target")?;
        let (a, b) = self.tcx.struct_lockstep_tails_for_codegen(a, b, self.env);
        match (a.kind(), b.kind()) {
            (ty::Array(_, n), ty::Slice(_)) => {
                let n = n.try_to_target_usize(self.tcx).ok_or("array len")?;
                let mut r = v[..8].to_vec();
                r.extend(cval(n as u128, 8));
                Ok(r)
            }
            (ty::Dynamic(..), ty::Dynamic(..)) => Ok(v),    // the vtable stands for the type
            (_, ty::Dynamic(..)) => {
                let me = self.next;
                self.next += 1;
                self.vtabs.insert(me, a);
                self.ro.insert(me, Rc::new(vec![]));
                let mut r = v[..8].to_vec();
                r.extend(Self::ptr_to(me, 0));
                Ok(r)
            }
            _ => Err(format!("unsize {from} -> {to}")),
        }
    }

    fn rvalue(&mut self, st: &State, fr: &Frame<'tcx>, rv: &Rvalue<'tcx>, dest: TyAndLayout<'tcx>) -> R<Val> {
        match rv {
            Rvalue::Use(o, _) => Ok(self.operand(st, fr, o)?.0),
            Rvalue::WrapUnsafeBinder(o, _) => Ok(self.operand(st, fr, o)?.0),
            Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => {
                let pl = self.place(st, fr, p)?;
                self.load(st, &pl.alts, pl.lay.size.bytes() as usize)
            }
            Rvalue::Repeat(o, n) => {
                let (v, _) = self.operand(st, fr, o)?;
                let FieldsShape::Array { count, .. } = dest.fields else {
                    return Err(format!("repeat {n:?}"));
                };
                let mut out = Vec::with_capacity(v.len() * count as usize);
                for _ in 0..count {
                    out.extend_from_slice(&v);
                }
                Ok(out)
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                let pl = self.place(st, fr, p)?;
                let mut v = Self::mk_ptr(pl.alts);
                if let Some(m) = pl.meta {
                    v.extend(m);
                }
                v.truncate(dest.size.bytes() as usize);
                Ok(v)
            }
            Rvalue::Cast(k, o, to) => {
                let (v, from) = self.operand(st, fr, o)?;
                self.cast(*k, v, from, *to)
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(st, fr, &ab.0)?;
                let b = self.operand(st, fr, &ab.1)?;
                self.binop(st, *op, a, b, dest)
            }
            Rvalue::UnaryOp(op, o) => {
                let (v, ty) = self.operand(st, fr, o)?;
                match op {
                    UnOp::PtrMetadata => Ok(v.get(8..).unwrap_or(&[]).to_vec()),
                    UnOp::Not => {
                        let b = self.bits(&v)?;
                        if ty.is_bool() {
                            let n = self.b.not(b[0]);
                            return Ok(val_of_bits(&[n, F, F, F, F, F, F, F]));
                        }
                        Ok(val_of_bits(&self.nots(&b)))
                    }
                    UnOp::Neg => {
                        let b = self.bits(&v)?;
                        if Self::is_float(ty) {
                            let mut b = b;
                            let n = b.len() - 1;
                            b[n] = self.b.not(b[n]);
                            return Ok(val_of_bits(&b));
                        }
                        Ok(val_of_bits(&self.neg(&b)))
                    }
                }
            }
            Rvalue::Discriminant(p) => {
                let pl = self.place(st, fr, p)?;
                let v = self.load(st, &pl.alts, pl.lay.size.bytes() as usize)?;
                let d = self.discr(&v, pl.lay)?;
                Ok(val_of_bits(&d))
            }
            Rvalue::Aggregate(k, ops) => {
                let mut vals = vec![];
                for o in ops.iter() {
                    vals.push(self.operand(st, fr, o)?.0);
                }
                let mut out: Val = vec![AByte::Un; dest.size.bytes() as usize];
                match &**k {
                    mir::AggregateKind::Array(_) => {
                        let mut o = 0;
                        for v in vals {
                            out[o..o + v.len()].clone_from_slice(&v);
                            o += v.len();
                        }
                    }
                    mir::AggregateKind::RawPtr(..) => {
                        let mut v = vals[0][..8].to_vec();
                        v.extend(vals[1].iter().cloned());
                        out = v;
                    }
                    mir::AggregateKind::Adt(d, vi, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let l = if def.is_enum() { dest.for_variant(&self.cx(), *vi) } else { dest };
                        for (i, v) in vals.into_iter().enumerate() {
                            let fi = active.map(|f: FieldIdx| f.as_usize()).unwrap_or(i);
                            let o = l.fields.offset(fi).bytes() as usize;
                            out[o..o + v.len()].clone_from_slice(&v);
                        }
                        if def.is_enum() {
                            self.tag_write(&mut out, dest, *vi)?;
                        }
                    }
                    mir::AggregateKind::Tuple | mir::AggregateKind::Closure(..) => {
                        for (i, v) in vals.into_iter().enumerate() {
                            let o = dest.fields.offset(i).bytes() as usize;
                            out[o..o + v.len()].clone_from_slice(&v);
                        }
                    }
                    _ => return Err(format!("aggregate {k:?}")),
                }
                Ok(out)
            }
            Rvalue::ThreadLocalRef(_) => Err("thread local".into()),
        }
    }

    // ---------- bodies ----------
    fn mono(&mut self, i: Instance<'tcx>) -> R<Rc<MonoBody<'tcx>>> {
        if let Some(b) = self.bodies.get(&i) {
            return Ok(b.clone());
        }
        let src = self.tcx.instance_mir(i.def);
        let body = i.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, ty::EarlyBinder::bind(self.tcx, src.clone()));
        let mut lays = vec![];
        for l in body.local_decls.iter() {
            lays.push(self.lay(l.ty)?);
        }
        let order = topological(&body);
        let mb = Rc::new(MonoBody { body, lays, order });
        self.bodies.insert(i, mb.clone());
        Ok(mb)
    }
    fn name(&self, i: Instance<'tcx>) -> String {
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str_with_args(i.def_id(), i.args));
        s
    }

    pub fn call(&mut self, st: State, i: Instance<'tcx>, args: Vec<(Val, Ty<'tcx>)>, span: Span) -> R<Option<(State, Val)>> {
        self.call_inner(st, i, args, span)
    }
    fn call_inner(&mut self, mut st: State, i: Instance<'tcx>, mut args: Vec<(Val, Ty<'tcx>)>, span: Span) -> R<Option<(State, Val)>> {
        match i.def {
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => return Err(format!("intrinsic {}", self.name(i))),
            InstanceKind::Virtual(d, _) => return Err(format!("virtual call {:?}", d)),
            InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) => return Ok(Some((st, vec![]))),
            InstanceKind::Item(d) => {
                if self.tcx.is_foreign_item(d) || !self.tcx.is_mir_available(d) {
                    let n = self.tcx.item_name(d).to_string();
                    return self.foreign(st, &n, args, i);
                }
            }
            _ => {}
        }
        let mb = self.mono(i)?;
        if self.stack.len() > 400 {
            return Err("call depth".into());
        }
        self.visited.insert(i);
        // calling convention of `extern "rust-call"`: the last argument is a tuple to be spread
        let fty = i.ty(self.tcx, self.env);
        let rust_call = match fty.kind() {
            ty::FnDef(d, _) => self.tcx.fn_sig(*d).skip_binder().abi() == rustc_abi::ExternAbi::RustCall,
            ty::Closure(..) => true,
            _ => false,
        };
        let want = mb.body.arg_count;
        if rust_call && (args.len() != want || mb.body.spread_arg.is_some()) {
            if let Some((v, t)) = args.pop() {
                let l = self.lay(t)?;
                let ty::Tuple(ts) = t.kind() else { return Err("rust-call arg".into()) };
                for (k, ft) in ts.iter().enumerate() {
                    let o = l.fields.offset(k).bytes() as usize;
                    let n = self.lay(ft)?.size.bytes() as usize;
                    args.push((v[o..o + n].to_vec(), ft));
                }
            }
        }
        let first = self.next;
        let nl = mb.lays.len() as u32;
        self.next += nl;
        for k in 0..nl {
            let sz = mb.lays[k as usize].size.bytes() as usize;
            st.allocs.insert(first + k, Rc::new(vec![AByte::Un; sz]));
        }
        let mut it = args.into_iter();
        for k in 1..=want {
            let l = mb.lays[k];
            let v = if mb.body.spread_arg.map(|s| s.as_usize()) == Some(k) {
                let mut out: Val = vec![AByte::Un; l.size.bytes() as usize];
                let mut idx = 0;
                for (v, _) in it.by_ref() {
                    let o = l.fields.offset(idx).bytes() as usize;
                    out[o..o + v.len()].clone_from_slice(&v);
                    idx += 1;
                }
                out
            } else {
                it.next().ok_or_else(|| format!("missing argument for {}", self.name(i)))?.0
            };
            if v.len() != l.size.bytes() as usize {
                return Err(format!("argument size mismatch calling {}", self.name(i)));
            }
            st.allocs.insert(first + k as u32, Rc::new(v));
        }
        let nm = self.name(i);
        self.stack.push((nm, span));
        let fr = Frame { mb: mb.clone(), locals: first };
        let r = self.exec(&fr, st);
        let out = match r? {
            None => None,
            Some(mut s) => {
                let v = s.allocs[&first].to_vec();
                for k in 0..nl {
                    s.allocs.remove(&(first + k));
                }
                Some((s, v))
            }
        };
        self.stack.pop();
        Ok(out)
    }

    fn foreign(&mut self, mut st: State, n: &str, args: Vec<(Val, Ty<'tcx>)>, i: Instance<'tcx>) -> R<Option<(State, Val)>> {
        match n {
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let sb = self.bits(&args[0].0)?;
                let sz = self.feas(&sb, st.pc, 64)?.iter().map(|x| x.0).max().unwrap();
                if sz > 1 << 20 {
                    return Err("huge allocation".into());
                }
                let fill = if n.ends_with("zeroed") { AByte::Bits([F; 8]) } else { AByte::Un };
                let id = self.fresh_alloc(&mut st, vec![fill; sz as usize]);
                Ok(Some((st, Self::ptr_to(id, 0))))
            }
            "__rust_realloc" => {
                let p = self.ptr_of(&args[0].0)?;
                let (ob, nb) = (self.bits(&args[1].0)?, self.bits(&args[3].0)?);
                let (o, n) = (konst(&ob).ok_or("realloc size")? as usize, konst(&nb).ok_or("realloc size")? as usize);
                let mut v = self.load(&st, &p, o.min(n))?;
                v.resize(n, AByte::Un);
                let id = self.fresh_alloc(&mut st, v);
                Ok(Some((st, Self::ptr_to(id, 0))))
            }
            "__rust_dealloc" | "__rust_no_alloc_shim_is_unstable_v2" | "__rust_no_alloc_shim_is_unstable" => Ok(Some((st, vec![]))),
            "memcmp" | "bcmp" => Err("memcmp".into()),
            _ => {
                // library functions without MIR may be given a model, a function of the witness crate
                let d = i.def_id();
                let k = match self.tcx.trait_impl_of_assoc(d) {
                    Some(im) => {
                        let tr = self.tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                        format!("{} {} {}", tr.self_ty(), self.tcx.item_name(tr.def_id), self.tcx.item_name(d))
                    }
                    None => self.name(i),
                };
                let k = k.split(|c: char| !c.is_alphanumeric()).filter(|x| !matches!(*x, "" | "std" | "core" | "alloc" | "a")).collect::<Vec<_>>().join("_");
                match self.models.get(&k).copied() {
                    Some(m) => self.call(st, m, args, rustc_span::DUMMY_SP),
                    None => Err(format!("no MIR for {} ({k})", self.name(i))),
                }
            }
        }
    }

    /// Runs a function body in weak topological order: a block is transferred once every state that
    /// can still reach it within the same iteration of its loop has arrived, as the join of them all.
    fn exec(&mut self, fr: &Frame<'tcx>, st: State) -> R<Option<State>> {
        let mut pend: Pending = Default::default();
        pend.insert(0, vec![st]);
        let mb = fr.mb.clone();
        self.elems(fr, &mb.order, &mut pend)?;
        match pend.remove(&EXIT) {
            None => Ok(None),
            Some(v) => Ok(Some(self.join(v)?)),
        }
    }
    fn elems(&mut self, fr: &Frame<'tcx>, es: &[Elem], pend: &mut Pending) -> R<()> {
        let sp = self.stack.last().map(|x| x.1);
        for e in es {
            match e {
                Elem::Block(b) => self.visit(fr, *b, pend)?,
                Elem::Loop(h, body) => loop {
                    self.visit(fr, *h, pend)?;
                    self.elems(fr, body, pend)?;
                    if !pend.contains_key(h) {
                        break;
                    }
                },
            }
        }
        if let (Some(l), Some(sp)) = (self.stack.last_mut(), sp) {
            l.1 = sp;
        }
        Ok(())
    }
    fn visit(&mut self, fr: &Frame<'tcx>, bb: usize, pend: &mut Pending) -> R<()> {
        let Some(v) = pend.remove(&bb) else { return Ok(()) };
        let st = self.join(v)?;
        let mut out = vec![];
        self.block(fr, st, bb, &mut out)?;
        for (s, t) in out {
            pend.entry(t).or_default().push(s);
        }
        Ok(())
    }
    /// The abstract join of states that reach the same point under disjoint conditions.
    fn join(&mut self, mut v: Vec<State>) -> R<State> {
        let mut acc = v.pop().unwrap();
        while let Some(s) = v.pop() {
            let care = self.b.or(s.pc, acc.pc);
            let c = self.b.restrict(s.pc, care);
            acc = self.merge_state(c, s, acc)?;
        }
        Ok(acc)
    }
    /// Transfers one block; each successor gets a state.
    fn block(&mut self, fr: &Frame<'tcx>, mut st: State, bb: usize, out: &mut Vec<(State, usize)>) -> R<()> {
        let mb = fr.mb.clone();
        {
            if self.b.overflow {
                return Err("abstract value too large".into());
            }
            let blk = &mb.body.basic_blocks[mir::BasicBlock::from_usize(bb)];
            for s in &blk.statements {
                self.steps += 1;
                if self.steps & 0xffff == 0 && self.late() {
                    return Err("out of time".into());
                }
                if self.steps > self.budget {
                    return Err("step budget exhausted".into());
                }
                if let Some(l) = self.stack.last_mut() {
                    l.1 = s.source_info.span;
                }
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, rv) = &**pr;
                        let d = self.place(&st, fr, p)?;
                        let v = self.rvalue(&st, fr, rv, d.lay)?;
                        if v.len() as u64 != d.lay.size.bytes() {
                            return Err(format!("size mismatch assigning {:?} : {}", rv, d.lay.ty));
                        }
                        self.store(&mut st, &d.alts, &v)?;
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let d = self.place(&st, fr, place)?;
                        let mut v = self.load(&st, &d.alts, d.lay.size.bytes() as usize)?;
                        self.tag_write(&mut v, d.lay, *variant_index)?;
                        self.store(&mut st, &d.alts, &v)?;
                    }
                    StatementKind::StorageLive(l) => {
                        let n = mb.lays[l.as_usize()].size.bytes() as usize;
                        st.allocs.insert(fr.locals + l.as_u32(), Rc::new(vec![AByte::Un; n]));
                    }
                    StatementKind::Intrinsic(ni) => match &**ni {
                        mir::NonDivergingIntrinsic::Assume(_) => {}
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let (s, t) = self.operand(&st, fr, &c.src)?;
                            let (d, _) = self.operand(&st, fr, &c.dst)?;
                            let (n, _) = self.operand(&st, fr, &c.count)?;
                            let e = t.builtin_deref(true).ok_or("copy")?;
                            let sz = self.lay(e)?.size.bytes() as usize;
                            self.copy(&mut st, &s, &d, &n, sz)?;
                        }
                    },
                    _ => {}
                }
            }
            let t = blk.terminator();
            self.steps += 1;
            if let Some(l) = self.stack.last_mut() {
                l.1 = t.source_info.span;
            }
            match &t.kind {
                TerminatorKind::Goto { target, .. } => out.push((st, target.as_usize())),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => out.push((st, real_target.as_usize())),
                TerminatorKind::Return => out.push((st, EXIT)),
                TerminatorKind::Unreachable => {
                    let pc = st.pc;
                    self.event(pc, "control reaches code the compiler assumes unreachable".into());
                    return Ok(());
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => return Ok(()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let (v, _) = self.operand(&st, fr, discr)?;
                    let b = self.bits(&v)?;
                    let mut conds: Vec<(B, usize)> = vec![];
                    let mut rest = T;
                    for (val, tg) in targets.iter() {
                        let c = self.eqc(&b, val);
                        let n = self.b.not(c);
                        rest = self.b.and(rest, n);
                        match conds.iter_mut().find(|x| x.1 == tg.as_usize()) {
                            Some(e) => e.0 = self.b.or(e.0, c),
                            None => conds.push((c, tg.as_usize())),
                        }
                    }
                    let o = targets.otherwise().as_usize();
                    match conds.iter_mut().find(|x| x.1 == o) {
                        Some(e) => e.0 = self.b.or(e.0, rest),
                        None => conds.push((rest, o)),
                    }
                    let mut fe = vec![];
                    for (c, t) in conds {
                        let pc = self.b.and(c, st.pc);
                        if pc != F {
                            fe.push((pc, t));
                        }
                    }
                    if fe.len() == 1 {
                        out.push((st, fe[0].1));
                    } else {
                        for (pc, t) in fe {
                            out.push((State { allocs: st.allocs.clone(), pc }, t));
                        }
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (v, _) = self.operand(&st, fr, cond)?;
                    let c = self.bits(&v)?[0];
                    let c = if *expected { c } else { self.b.not(c) };
                    let nc = self.b.not(c);
                    let bad = self.b.and(st.pc, nc);
                    if bad != F {
                        let d = match &**msg {
                            mir::AssertKind::BoundsCheck { .. } => "panic: index out of bounds".to_string(),
                            mir::AssertKind::Overflow(op, ..) => format!("panic: arithmetic overflow in {op:?}"),
                            mir::AssertKind::OverflowNeg(_) => "panic: negation overflow".to_string(),
                            mir::AssertKind::DivisionByZero(_) | mir::AssertKind::RemainderByZero(_) => "panic: division by zero".to_string(),
                            _ => "panic: compiler-inserted assertion".to_string(),
                        };
                        self.event(bad, d);
                    }
                    st.pc = self.b.and(st.pc, c);
                    if st.pc == F {
                        return Ok(());
                    }
                    out.push((st, target.as_usize()));
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let pl = self.place(&st, fr, place)?;
                    let ty = pl.lay.ty;
                    if ty.needs_drop(self.tcx, self.env) {
                        let inst = Instance::resolve_drop_glue(self.tcx, ty);
                        let mut p = Self::mk_ptr(pl.alts);
                        if let Some(m) = pl.meta {
                            p.extend(m);
                        }
                        let pt = Ty::new_mut_ptr(self.tcx, ty);
                        match self.call(st, inst, vec![(p, pt)], t.source_info.span)? {
                            None => return Ok(()),
                            Some((s, _)) => st = s,
                        }
                    }
                    out.push((st, target.as_usize()));
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let (fv, fty) = self.operand(&st, fr, func)?;
                    let mut av = vec![];
                    for a in args.iter() {
                        av.push(self.operand(&st, fr, &a.node)?);
                    }
                    let dest = self.place(&st, fr, destination)?;
                    let mut insts: Vec<(B, Instance<'tcx>)> = vec![];
                    match fty.kind() {
                        ty::FnDef(d, ga) => {
                            let ga = ga.no_bound_vars().ok_or("bound fn args")?;
                            let i = Instance::try_resolve(self.tcx, self.env, *d, ga)
                                .map_err(|_| "resolve".to_string())?
                                .ok_or_else(|| format!("cannot resolve {fty}"))?;
                            insts.push((T, i));
                        }
                        ty::FnPtr(..) => {
                            let al = self.ptr_of(&fv)?;
                            for (g, l) in self.feasible_alts(&st, &al) {
                                let Loc::At(id, 0) = l else { return Err("call through integer".into()) };
                                insts.push((g, *self.fns.get(&id).ok_or("call of unknown pointer")?));
                            }
                        }
                        _ => return Err(format!("call of {fty}")),
                    }
                    let Some(target) = target else {
                        let n = self.name(insts[0].1);
                        let pc = st.pc;
                        self.event(pc, format!("panic: diverging call to {n}"));
                        return Ok(());
                    };
                    let mut outs: Vec<(B, State)> = vec![];
                    let many = insts.len() > 1;
                    for (g, i) in insts {
                        let mut s = st.clone();
                        if many {
                            s.pc = self.b.and(s.pc, g);
                        }
                        let r = if let InstanceKind::Intrinsic(d) = i.def {
                            match crate::intrinsics::intrinsic(self, s, d, i, &av, dest.lay)? {
                                crate::intrinsics::Ires::Done(s, v) => Some((s, v)),
                                crate::intrinsics::Ires::Diverge => None,
                                crate::intrinsics::Ires::Fallback(s) => {
                                    let fi = Instance::new_raw(d, i.args);
                                    self.call(s, fi, av.clone(), *fn_span)?
                                }
                            }
                        } else if let InstanceKind::Virtual(_, idx) = i.def {
                            self.virt(s, i, idx, &av, *fn_span)?
                        } else {
                            self.call(s, i, av.clone(), *fn_span)?
                        };
                        if let Some((mut s, v)) = r {
                            if v.len() as u64 != dest.lay.size.bytes() {
                                return Err(format!("return size mismatch from {}", self.name(i)));
                            }
                            self.store(&mut s, &dest.alts, &v)?;
                            outs.push((g, s));
                        }
                    }
                    let Some((_, mut acc)) = outs.pop() else { return Ok(()) };
                    while let Some((g, s)) = outs.pop() {
                        acc = self.merge_state(g, s, acc)?;
                    }
                    out.push((acc, target.as_usize()));
                }
                k => return Err(format!("terminator {k:?}")),
            }
        }
        Ok(())
    }
    fn virt(&mut self, s: State, i: Instance<'tcx>, idx: usize, av: &[(Val, Ty<'tcx>)], sp: Span) -> R<Option<(State, Val)>> {
        let recv = &av[0].0;
        if recv.len() != 16 {
            return Err("virtual receiver".into());
        }
        let al = self.ptr_of(&recv[8..])?;
        let al = self.feasible_alts(&s, &al);
        if al.len() != 1 {
            return Err("virtual call on a joined vtable".into());
        }
        let Loc::At(id, _) = al[0].1 else { return Err("vtable".into()) };
        let ty = *self.vtabs.get(&id).ok_or("unknown vtable")?;
        let _ = idx;
        let d = i.def_id();
        let args = self.tcx.mk_args_from_iter(std::iter::once(ty.into()).chain(i.args.iter().skip(1)));
        let inst = Instance::try_resolve(self.tcx, self.env, d, args).map_err(|_| "virt".to_string())?.ok_or("virt resolve")?;
        let mut a: Vec<_> = av.to_vec();
        let tl = Ty::new_mut_ref(self.tcx, self.tcx.lifetimes.re_erased, ty);
        a[0] = (recv[..8].to_vec(), tl);
        self.call(s, inst, a, sp)
    }
    pub fn copy(&mut self, st: &mut State, s: &Val, d: &Val, n: &Val, sz: usize) -> R<()> {
        let nb = self.bits(n)?;
        let (sa, da) = (self.ptr_of(s)?, self.ptr_of(d)?);
        if sz == 0 {
            return Ok(());
        }
        let vals = self.feas(&nb, st.pc, 4096)?;
        let old = st.clone();
        for (k, g) in vals {
            if k == 0 {
                continue;
            }
            let tot = (k as usize).checked_mul(sz).ok_or("copy size")?;
            let mut sub = old.clone();
            sub.pc = self.b.and(old.pc, g);
            let v = self.load(&sub, &sa, tot)?;
            if g == T {
                self.store(st, &da, &v)?;
            } else {
                let ga: Vec<(B, Loc)> = da.iter().map(|(x, l)| (self.b.and(*x, g), l.clone())).collect();
                // guarded store: never treat a single alternative as unconditional
                for (gg, l) in ga {
                    if self.b.and(gg, st.pc) == F {
                        continue;
                    }
                    let cur = self.load(st, &[(T, l.clone())], tot)?;
                    let m = self.merge_bytes(gg, &v, &cur)?;
                    self.store(st, &[(T, l)], &m)?;
                }
            }
        }
        Ok(())
    }
    // helpers for intrinsics.rs
    pub fn ii_ptr(&mut self, v: &[AByte]) -> R<Vec<(B, Loc)>> {
        self.ptr_of(v)
    }
    pub fn ii_load(&mut self, st: &State, v: &[AByte], n: usize) -> R<Val> {
        let a = self.ptr_of(v)?;
        self.load(st, &a, n)
    }
    pub fn ii_store(&mut self, st: &mut State, p: &[AByte], v: &[AByte]) -> R<()> {
        let a = self.ptr_of(p)?;
        self.store(st, &a, v)
    }
    pub fn ii_binop(&mut self, st: &State, op: BinOp, a: (Val, Ty<'tcx>), b: (Val, Ty<'tcx>), d: TyAndLayout<'tcx>) -> R<Val> {
        self.binop(st, op, a, b, d)
    }
    pub fn ii_ptr_add(&mut self, st: &State, p: &[AByte], i: &[AByte], sz: i64) -> R<Val> {
        let a = self.ptr_of(p)?;
        let b = self.bits(i)?;
        self.ptr_add(st, &a, &b, sz, p.get(8..))
    }
    pub fn ii_event(&mut self, pc: B, s: &str) {
        self.event(pc, s.to_string())
    }
    pub fn ii_discr(&mut self, v: &Val, l: TyAndLayout<'tcx>) -> R<Vec<B>> {
        self.discr(v, l)
    }
    pub fn ii_feas(&mut self, b: &[B], pc: B) -> R<Vec<(u128, B)>> {
        self.feas(b, pc, 4096)
    }
    pub fn ii_eq(&mut self, a: &[B], b: &[B]) -> B {
        self.eqb(a, b)
    }
    pub fn ii_lt(&mut self, a: &[B], b: &[B], s: bool) -> B {
        self.lt(a, b, s)
    }
    pub fn ii_addc(&mut self, a: &[B], b: &[B], c: B) -> (Vec<B>, B, B) {
        self.add(a, b, c)
    }
    pub fn ii_mux(&mut self, c: B, a: &[B], b: &[B]) -> Vec<B> {
        self.mux(c, a, b)
    }
    pub fn ii_nots(&mut self, a: &[B]) -> Vec<B> {
        self.nots(a)
    }
    pub fn ii_shift(&mut self, a: &[B], amt: &[B], left: bool) -> Vec<B> {
        self.shift(a, amt, left, false)
    }
    pub fn ii_divrem(&mut self, a: &[B], b: &[B], s: bool) -> (Vec<B>, Vec<B>) {
        self.divrem(a, b, s)
    }
    pub fn ii_ovf(&mut self, op: BinOp, a: &[B], b: &[B], s: bool) -> (Vec<B>, B) {
        self.ovf(op, a, b, s)
    }
    pub fn ii_const_value(&mut self, cv: mir::ConstValue, size: usize) -> R<Val> {
        match cv {
            mir::ConstValue::Scalar(s) => self.scalar(s, size),
            mir::ConstValue::Slice { alloc_id, meta } => {
                let g = self.global(alloc_id)?;
                let mut v = Self::ptr_to(g, 0);
                v.extend(cval(meta as u128, 8));
                Ok(v)
            }
            mir::ConstValue::ZeroSized => Ok(vec![]),
            _ => Err("const value".into()),
        }
    }
}

pub fn kbits(v: u128, n: usize) -> Vec<B> {
    cbits(v, n)
}
pub fn kval(v: u128, n: usize) -> Val {
    cval(v, n)
}
pub fn kget(b: &[B]) -> Option<u128> {
    konst(b)
}

/// Weak topological order (Bourdoncle) of the non-unwinding control-flow graph.
fn topological(body: &mir::Body<'_>) -> Vec<Elem> {
    let n = body.basic_blocks.len();
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
    for (bb, d) in body.basic_blocks.iter_enumerated() {
        let i = bb.as_usize();
        match &d.terminator().kind {
            TerminatorKind::Goto { target, .. }
            | TerminatorKind::Drop { target, .. }
            | TerminatorKind::Assert { target, .. } => succ[i].push(target.as_usize()),
            TerminatorKind::Call { target: Some(t), .. } => succ[i].push(t.as_usize()),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => succ[i].push(real_target.as_usize()),
            TerminatorKind::SwitchInt { targets, .. } => {
                for t in targets.all_targets() {
                    if !succ[i].contains(&t.as_usize()) {
                        succ[i].push(t.as_usize());
                    }
                }
            }
            _ => {}
        }
    }
    let mut w = Wto { succ, dfn: vec![0; n], num: 0, stack: vec![] };
    let mut part = vec![];
    w.visit(0, &mut part);
    part.reverse();
    part
}
struct Wto {
    succ: Vec<Vec<usize>>,
    dfn: Vec<usize>,
    num: usize,
    stack: Vec<usize>,
}
impl Wto {
    /// partitions are built back to front
    fn visit(&mut self, v: usize, part: &mut Vec<Elem>) -> usize {
        self.stack.push(v);
        self.num += 1;
        self.dfn[v] = self.num;
        let mut head = self.num;
        let mut looped = false;
        for s in self.succ[v].clone() {
            let m = if self.dfn[s] == 0 { self.visit(s, part) } else { self.dfn[s] };
            if m <= head {
                head = m;
                looped = true;
            }
        }
        if head == self.dfn[v] {
            self.dfn[v] = usize::MAX;
            let mut e = self.stack.pop().unwrap();
            if looped {
                while e != v {
                    self.dfn[e] = 0;
                    e = self.stack.pop().unwrap();
                }
                let mut inner = vec![];
                for s in self.succ[v].clone() {
                    if self.dfn[s] == 0 {
                        self.visit(s, &mut inner);
                    }
                }
                inner.reverse();
                part.push(Elem::Loop(v, inner));
            } else {
                part.push(Elem::Block(v));
            }
        }
        head
    }
}
