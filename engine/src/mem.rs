//! Abstract memory: bytes, allocations, frames, states, and the exact join of states.
use crate::bdd::{self, and, ite, not, or, Bit, F, T};
use crate::bv::Bv;
use crate::bdd::FxMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum AId {
    /// A local variable of the frame at `depth` with identity `uid`.
    L { depth: u32, uid: u32, local: u32 },
    /// A heap allocation.
    H(u32),
    /// A constant, static, function or vtable.
    G(u32),
}

#[derive(Clone, Debug)]
pub struct PtrV {
    pub id: AId,
    pub off: Bv,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub kind: &'static str,
    pub v: Bv,
}

/// One abstract byte.
#[derive(Clone, Debug)]
pub enum AByte {
    /// Uninitialised.
    U,
    /// A known byte.
    K(u8),
    /// Eight abstract bits, least significant first.
    B(Rc<[Bit; 8]>),
    /// The i-th byte (in memory order) of a pointer.
    P(Rc<PtrV>, u8),
    /// Text standing for the decimal rendering of an abstract integer.
    Tok(Rc<Tok>),
    /// Different kinds of content under disjoint guards (uninitialised elsewhere).
    C(Rc<Vec<(Bit, AByte)>>),
}

pub fn byte_of_bits(b: &[Bit]) -> AByte {
    if b.iter().all(|x| *x < 2) {
        let mut v = 0u8;
        for i in 0..8 {
            if b[i] == T {
                v |= 1 << i
            }
        }
        return AByte::K(v);
    }
    let mut a = [F; 8];
    a.copy_from_slice(&b[..8]);
    AByte::B(Rc::new(a))
}

impl AByte {
    pub fn int_bits(&self) -> Option<[Bit; 8]> {
        match self {
            AByte::K(v) => {
                let mut a = [F; 8];
                for i in 0..8 {
                    if v >> i & 1 == 1 {
                        a[i] = T
                    }
                }
                Some(a)
            }
            AByte::B(b) => Some(**b),
            _ => None,
        }
    }
    pub fn same(&self, o: &AByte) -> bool {
        match (self, o) {
            (AByte::U, AByte::U) => true,
            (AByte::K(a), AByte::K(b)) => a == b,
            (AByte::B(a), AByte::B(b)) => Rc::ptr_eq(a, b) || a == b,
            (AByte::P(a, i), AByte::P(b, j)) => {
                i == j && (Rc::ptr_eq(a, b) || (a.id == b.id && a.off.same(&b.off)))
            }
            (AByte::Tok(a), AByte::Tok(b)) => Rc::ptr_eq(a, b) || (a.kind == b.kind && a.v.same(&b.v)),
            (AByte::C(a), AByte::C(b)) => {
                Rc::ptr_eq(a, b)
                    || (a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.0 == y.0 && x.1.same(&y.1)))
            }
            _ => false,
        }
    }
    /// Exact join: `a` where `g` holds, `b` elsewhere.
    pub fn ite(g: Bit, a: &AByte, b: &AByte) -> AByte {
        if g == T || a.same(b) {
            return a.clone();
        }
        if g == F {
            return b.clone();
        }
        if let (Some(x), Some(y)) = (a.int_bits(), b.int_bits()) {
            let v: Vec<Bit> = (0..8).map(|i| ite(g, x[i], y[i])).collect();
            return byte_of_bits(&v);
        }
        match (a, b) {
            (AByte::P(p, i), AByte::P(q, j)) if i == j && p.id == q.id => {
                let off = Bv::ite(g, &p.off, &q.off);
                return AByte::P(Rc::new(PtrV { id: p.id, off }), *i);
            }
            (AByte::Tok(p), AByte::Tok(q)) if p.kind == q.kind && p.v.w == q.v.w => {
                return AByte::Tok(Rc::new(Tok { kind: p.kind, v: Bv::ite(g, &p.v, &q.v) }));
            }
            _ => {}
        }
        let mut v: Vec<(Bit, AByte)> = vec![];
        let mut push = |g: Bit, x: &AByte| {
            if g == F {
                return;
            }
            if let AByte::U = x {
                return;
            }
            for e in v.iter_mut() {
                if e.1.same(x) {
                    e.0 = or(e.0, g);
                    return;
                }
                let joinable = match (&e.1, x) {
                    (AByte::P(p, i), AByte::P(q, j)) => i == j && p.id == q.id,
                    (a, b) => a.int_bits().is_some() && b.int_bits().is_some(),
                };
                if joinable {
                    e.1 = AByte::ite(g, x, &e.1);
                    e.0 = or(e.0, g);
                    return;
                }
            }
            v.push((g, x.clone()));
        };
        match a {
            AByte::C(c) => c.iter().for_each(|(h, x)| push(and(g, *h), x)),
            x => push(g, x),
        }
        match b {
            AByte::C(c) => c.iter().for_each(|(h, x)| push(and(not(g), *h), x)),
            x => push(not(g), x),
        }
        if v.is_empty() {
            return AByte::U;
        }
        if v.len() == 1 && v[0].0 == T {
            return v.pop().unwrap().1;
        }
        AByte::C(Rc::new(v))
    }
}

#[derive(Clone, Debug)]
pub struct Alloc {
    pub bytes: Vec<AByte>,
    pub align: u64,
    /// Condition under which the allocation has not been freed.
    pub live: Bit,
}

impl Alloc {
    pub fn new(n: usize, align: u64) -> Alloc {
        Alloc { bytes: vec![AByte::U; n], align, live: T }
    }
    pub fn merge(g: Bit, a: &Rc<Alloc>, b: &Rc<Alloc>) -> Rc<Alloc> {
        if Rc::ptr_eq(a, b) {
            return a.clone();
        }
        let mut r = (**b).clone();
        r.live = ite(g, a.live, b.live);
        for i in 0..r.bytes.len() {
            if i < a.bytes.len() && !a.bytes[i].same(&b.bytes[i]) {
                r.bytes[i] = AByte::ite(g, &a.bytes[i], &b.bytes[i]);
            }
        }
        Rc::new(r)
    }
}

pub type Heap = Rc<FxMap<u32, Rc<Alloc>>>;

pub fn merge_heap(g: Bit, a: &Heap, b: &Heap) -> Heap {
    if Rc::ptr_eq(a, b) {
        return a.clone();
    }
    let mut r = (**b).clone();
    for (k, x) in a.iter() {
        match r.get_mut(k) {
            Some(y) => {
                if !Rc::ptr_eq(x, y) {
                    *y = Alloc::merge(g, x, y);
                }
            }
            None => {
                let mut n = (**x).clone();
                n.live = and(n.live, g);
                if n.live != F {
                    r.insert(*k, Rc::new(n));
                }
            }
        }
    }
    for (k, y) in b.iter() {
        if !a.contains_key(k) {
            let mut n = (**y).clone();
            n.live = and(n.live, not(g));
            if n.live != F {
                r.insert(*k, Rc::new(n));
            } else {
                r.remove(k);
            }
        }
    }
    Rc::new(r)
}

pub fn implied(pc: Bit, g: Bit) -> bool {
    bdd::implies(pc, g)
}
