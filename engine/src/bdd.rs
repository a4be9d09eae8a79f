//! The Boolean-function part of the abstract domain: every abstract bit is a Boolean function of the
//! unknown input bits, kept in a canonical shared form (reduced ordered decision diagram with
//! complement edges).  Joins of the analysis are exact `if guard then a else b` combinations.
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

/// An abstract bit: an edge (node index * 2 + complement flag).
pub type Bit = u32;
pub const T: Bit = 0;
pub const F: Bit = 1;

#[derive(Clone, Copy)]
struct Node {
    var: u32,
    lo: Bit,
    hi: Bit,
}

const CACHE: usize = 1 << 18;

pub struct Bdd {
    nodes: Vec<Node>,
    uniq: FxMap<(u32, u32, u32), u32>,
    cache: Vec<(u32, u32, u32, u32)>,
    pub nvars: u32,
    pub names: Vec<String>,
    pub limit: usize,
    pub blown: bool,
}

impl Bdd {
    fn new() -> Bdd {
        Bdd {
            nodes: vec![Node { var: u32::MAX, lo: T, hi: T }],
            uniq: FxMap::default(),
            cache: vec![(u32::MAX, 0, 0, 0); CACHE],
            nvars: 0,
            names: vec![],
            limit: 6_000_000,
            blown: false,
        }
    }
    fn mk(&mut self, var: u32, lo: Bit, hi: Bit) -> Bit {
        if lo == hi {
            return lo;
        }
        let neg = hi & 1;
        let (lo, hi) = (lo ^ neg, hi ^ neg);
        if let Some(&i) = self.uniq.get(&(var, lo, hi)) {
            return (i << 1) | neg;
        }
        if self.nodes.len() >= self.limit {
            self.blown = true;
            return T;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(Node { var, lo, hi });
        self.uniq.insert((var, lo, hi), i);
        (i << 1) | neg
    }
    #[inline]
    fn var(&self, a: Bit) -> u32 {
        self.nodes[(a >> 1) as usize].var
    }
    #[inline]
    fn cof(&self, a: Bit, v: u32) -> (Bit, Bit) {
        let n = self.nodes[(a >> 1) as usize];
        if n.var == v {
            (n.lo ^ (a & 1), n.hi ^ (a & 1))
        } else {
            (a, a)
        }
    }
    fn slot(op: u32, a: u32, b: u32) -> usize {
        let h = (a as u64).wrapping_mul(0x9E3779B97F4A7C15)
            ^ (b as u64).wrapping_mul(0xC2B2AE3D27D4EB4F)
            ^ ((op as u64) << 7);
        ((h ^ (h >> 31)) as usize) & (CACHE - 1)
    }
    fn and(&mut self, a: Bit, b: Bit) -> Bit {
        if a == F || b == F || a == (b ^ 1) {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if b == T {
            return a;
        }
        if self.blown {
            return T;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let s = Self::slot(1, a, b);
        let c = self.cache[s];
        if c.0 == 1 && c.1 == a && c.2 == b {
            return c.3;
        }
        let v = self.var(a).min(self.var(b));
        let (a0, a1) = self.cof(a, v);
        let (b0, b1) = self.cof(b, v);
        let lo = self.and(a0, b0);
        let hi = self.and(a1, b1);
        let r = self.mk(v, lo, hi);
        self.cache[s] = (1, a, b, r);
        r
    }
    fn xor(&mut self, a: Bit, b: Bit) -> Bit {
        let p = (a & 1) ^ (b & 1);
        let (a, b) = (a & !1, b & !1);
        if a == b {
            return F ^ p;
        }
        if a == T {
            return b ^ 1 ^ p;
        }
        if b == T {
            return a ^ 1 ^ p;
        }
        if self.blown {
            return T;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let s = Self::slot(2, a, b);
        let c = self.cache[s];
        if c.0 == 2 && c.1 == a && c.2 == b {
            return c.3 ^ p;
        }
        let v = self.var(a).min(self.var(b));
        let (a0, a1) = self.cof(a, v);
        let (b0, b1) = self.cof(b, v);
        let lo = self.xor(a0, b0);
        let hi = self.xor(a1, b1);
        let r = self.mk(v, lo, hi);
        self.cache[s] = (2, a, b, r);
        r ^ p
    }
}

thread_local! {
    static BDD: UnsafeCell<Bdd> = UnsafeCell::new(Bdd::new());
}
#[inline]
fn with<R>(f: impl FnOnce(&mut Bdd) -> R) -> R {
    BDD.with(|b| f(unsafe { &mut *b.get() }))
}

pub fn reset() {
    with(|b| {
        let n = Bdd::new();
        *b = n;
    })
}
pub fn fresh(name: String) -> Bit {
    with(|b| {
        let v = b.nvars;
        b.nvars += 1;
        b.names.push(name);
        b.mk(v, F, T)
    })
}
#[inline]
pub fn not(a: Bit) -> Bit {
    a ^ 1
}
#[inline]
pub fn and(a: Bit, b: Bit) -> Bit {
    if a == T {
        return b;
    }
    if b == T || a == b {
        return a;
    }
    if a == F || b == F || a == (b ^ 1) {
        return F;
    }
    with(|m| m.and(a, b))
}
#[inline]
pub fn or(a: Bit, b: Bit) -> Bit {
    not(and(not(a), not(b)))
}
#[inline]
pub fn xor(a: Bit, b: Bit) -> Bit {
    if a < 2 {
        return b ^ (a ^ 1);
    }
    if b < 2 {
        return a ^ (b ^ 1);
    }
    with(|m| m.xor(a, b))
}
#[inline]
pub fn ite(c: Bit, a: Bit, b: Bit) -> Bit {
    if a == b || c == T {
        return a;
    }
    if c == F {
        return b;
    }
    or(and(c, a), and(not(c), b))
}
#[inline]
pub fn implies(a: Bit, b: Bit) -> bool {
    and(a, not(b)) == F
}
pub fn of(b: bool) -> Bit {
    if b {
        T
    } else {
        F
    }
}
pub fn blown() -> bool {
    with(|m| m.blown)
}
pub fn node_count() -> usize {
    with(|m| m.nodes.len())
}
pub fn var_count() -> usize {
    with(|m| m.nvars as usize)
}
/// One satisfying valuation, as (variable name, value) for the variables that matter.
pub fn witness(a: Bit) -> Option<Vec<(String, bool)>> {
    with(|m| {
        if a == F {
            return None;
        }
        let mut out = vec![];
        let mut cur = a;
        while cur >> 1 != 0 {
            let n = m.nodes[(cur >> 1) as usize];
            let (lo, hi) = (n.lo ^ (cur & 1), n.hi ^ (cur & 1));
            let name = m.names[n.var as usize].clone();
            if lo != F {
                out.push((name, false));
                cur = lo;
            } else {
                out.push((name, true));
                cur = hi;
            }
        }
        Some(out)
    })
}
/// A satisfying valuation of every variable: a path through `a` chosen by `seed`, the rest filled in by it.
pub fn model(a: Bit, seed: u64) -> Option<Vec<bool>> {
    with(|m| {
        if a == F {
            return None;
        }
        let mut r = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5851_F42D_4C95_7F2D;
        let mut next = || {
            if seed < 2 {
                return seed == 1;
            }
            r ^= r << 13;
            r ^= r >> 7;
            r ^= r << 17;
            r >> 33 & 1 == 1
        };
        let mut out: Vec<bool> = (0..m.nvars).map(|_| next()).collect();
        let mut cur = a;
        while cur >> 1 != 0 {
            let n = m.nodes[(cur >> 1) as usize];
            let (lo, hi) = (n.lo ^ (cur & 1), n.hi ^ (cur & 1));
            let v = if lo == F { true } else if hi == F { false } else { out[n.var as usize] };
            out[n.var as usize] = v;
            cur = if v { hi } else { lo };
        }
        Some(out)
    })
}
/// Value of `f` under a model.
pub fn eval(f: Bit, w: &[bool]) -> bool {
    with(|m| {
        let mut cur = f;
        while cur >> 1 != 0 {
            let n = m.nodes[(cur >> 1) as usize];
            cur = (if w[n.var as usize] { n.hi } else { n.lo }) ^ (cur & 1);
        }
        cur == T
    })
}
