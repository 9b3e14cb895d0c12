//! Hash-consed reduced ordered decision diagrams.  One diagram is the abstract value of one
//! machine bit: a canonical description of which input bits reach it and how.  Canonicity makes
//! "same abstract value" a pointer comparison, so no solver is involved anywhere.
use rustc_data_structures::fx::FxHashMap;

pub type B = u32;
pub const F: B = 0;
pub const T: B = 1;

pub struct Bdd {
    nodes: Vec<(u32, B, B)>,
    uniq: FxHashMap<(u32, B, B), B>,
    cache: FxHashMap<(B, B, B), B>,
    rcache: FxHashMap<(B, B), B>,
    pub limit: usize,
    pub overflow: bool,
}

impl Bdd {
    pub fn new() -> Self {
        let mut s = Bdd {
            nodes: Vec::new(),
            uniq: Default::default(),
            cache: Default::default(),
            rcache: Default::default(),
            limit: 6_000_000,
            overflow: false,
        };
        s.reset();
        s
    }
    pub fn reset(&mut self) {
        self.nodes.clear();
        self.uniq.clear();
        self.cache.clear();
        self.rcache.clear();
        self.overflow = false;
        self.nodes.push((u32::MAX, 0, 0));
        self.nodes.push((u32::MAX, 1, 1));
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    fn mk(&mut self, v: u32, lo: B, hi: B) -> B {
        if lo == hi {
            return lo;
        }
        if let Some(&n) = self.uniq.get(&(v, lo, hi)) {
            return n;
        }
        if self.nodes.len() >= self.limit {
            self.overflow = true;
            return F;
        }
        let n = self.nodes.len() as B;
        self.nodes.push((v, lo, hi));
        self.uniq.insert((v, lo, hi), n);
        n
    }
    pub fn var(&mut self, v: u32) -> B {
        self.mk(v, F, T)
    }
    #[inline]
    fn top(&self, b: B) -> u32 {
        self.nodes[b as usize].0
    }
    #[inline]
    fn co(&self, b: B, v: u32) -> (B, B) {
        let n = self.nodes[b as usize];
        if n.0 == v {
            (n.1, n.2)
        } else {
            (b, b)
        }
    }
    pub fn ite(&mut self, f: B, g: B, h: B) -> B {
        if f == T {
            return g;
        }
        if f == F {
            return h;
        }
        if g == h {
            return g;
        }
        if g == T && h == F {
            return f;
        }
        let g = if f == g { T } else { g };
        let h = if f == h { F } else { h };
        if g == T && h == F {
            return f;
        }
        if g == h {
            return g;
        }
        if let Some(&r) = self.cache.get(&(f, g, h)) {
            return r;
        }
        if self.overflow {
            return F;
        }
        let v = self.top(f).min(self.top(g)).min(self.top(h));
        let (f0, f1) = self.co(f, v);
        let (g0, g1) = self.co(g, v);
        let (h0, h1) = self.co(h, v);
        let lo = self.ite(f0, g0, h0);
        let hi = self.ite(f1, g1, h1);
        let r = self.mk(v, lo, hi);
        self.cache.insert((f, g, h), r);
        r
    }
    pub fn not(&mut self, a: B) -> B {
        self.ite(a, F, T)
    }
    pub fn and(&mut self, a: B, b: B) -> B {
        if a < b {
            self.ite(a, b, F)
        } else {
            self.ite(b, a, F)
        }
    }
    pub fn or(&mut self, a: B, b: B) -> B {
        if a < b {
            self.ite(a, T, b)
        } else {
            self.ite(b, T, a)
        }
    }
    pub fn xor(&mut self, a: B, b: B) -> B {
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let nb = self.not(b);
        self.ite(a, nb, b)
    }
    pub fn iff(&mut self, a: B, b: B) -> B {
        let x = self.xor(a, b);
        self.not(x)
    }
    /// A simpler diagram that agrees with `f` wherever `care` holds.
    pub fn restrict(&mut self, f: B, care: B) -> B {
        if care == T || care == F || f <= 1 {
            return f;
        }
        if f == care {
            return T;
        }
        if let Some(&r) = self.rcache.get(&(f, care)) {
            return r;
        }
        let (vf, vc) = (self.top(f), self.top(care));
        let r = if vc < vf {
            let (c0, c1) = self.co(care, vc);
            let c = self.or(c0, c1);
            self.restrict(f, c)
        } else {
            let (f0, f1) = self.co(f, vf);
            let (c0, c1) = self.co(care, vf);
            if c0 == F {
                self.restrict(f1, c1)
            } else if c1 == F {
                self.restrict(f0, c0)
            } else {
                let lo = self.restrict(f0, c0);
                let hi = self.restrict(f1, c1);
                self.mk(vf, lo, hi)
            }
        };
        self.rcache.insert((f, care), r);
        r
    }
    /// One assignment in the set described by `b` (list of (var, value)).
    pub fn pick(&self, b: B) -> Vec<(u32, bool)> {
        let mut out = vec![];
        let mut n = b;
        while n > 1 {
            let (v, lo, hi) = self.nodes[n as usize];
            if lo != F {
                out.push((v, false));
                n = lo;
            } else {
                out.push((v, true));
                n = hi;
            }
        }
        out
    }
    pub fn support(&self, b: B) -> Vec<u32> {
        let mut seen = rustc_data_structures::fx::FxHashSet::default();
        let mut st = vec![b];
        let mut vs = std::collections::BTreeSet::new();
        while let Some(n) = st.pop() {
            if n <= 1 || !seen.insert(n) {
                continue;
            }
            let (v, lo, hi) = self.nodes[n as usize];
            vs.insert(v);
            st.push(lo);
            st.push(hi);
        }
        vs.into_iter().collect()
    }
    /// Short description of a bit's provenance.
    pub fn show(&self, b: B, name: &dyn Fn(u32) -> String) -> String {
        match b {
            F => "0".into(),
            T => "1".into(),
            _ => {
                let (v, lo, hi) = self.nodes[b as usize];
                if lo == F && hi == T {
                    name(v)
                } else if lo == T && hi == F {
                    format!("!{}", name(v))
                } else {
                    let s = self.support(b);
                    let mut o: Vec<String> = s.iter().take(6).map(|v| name(*v)).collect();
                    if s.len() > 6 {
                        o.push(format!("..{} bits", s.len()));
                    }
                    format!("f({})", o.join(","))
                }
            }
        }
    }
}
