//! Entries of property C18.
use super::*;

pub fn c18<X: Ix>(p: usize) {
    let ks = syms::<X>("cell", dd::<X>(p));
    let x: X = from_nums(&ks);
    let e = pad::<X>(&ks);
    let w = x.walk(e.len() + 3);
    let mut i = 0;
    while i < e.len() + 3 {
        ma_note("call", i);
        match w[i] {
            Some(c) => {
                ma_check(i < e.len(), "iteration ends after the last level");
                if i < e.len() {
                    ma_check(X::num(c) == e[i], "iteration yields the cells in level order");
                }
            }
            None => ma_check(i >= e.len(), "iteration does not end before the last level"),
        }
        i += 1;
    }
    whole(&x.collect_all(), &e, X::num, "collecting the iterator gives every cell once");
}
inst!(c18_cells, c18, all_depths);

fn whole<C: Copy>(v: &[C], e: &[usize], num: fn(C) -> usize, tag: &'static str) {
    ma_check(v.len() == e.len(), tag);
    let mut i = 0;
    while i < e.len() && i < v.len() {
        ma_check(num(v[i]) == e[i], tag);
        i += 1;
    }
}
/// Every way to drive the iterator, from every position.
fn drive<I: Iterator>(it: fn(&I::Item) -> usize, mk: &dyn Fn() -> I, e: &[usize]) {
    let n = e.len();
    let ls = some_levels(n + 1);
    let mut i = 0;
    while i < ls.len() {
        let s = ls[i];
        ma_note("taken before", s);
        let start = || {
            let mut t = mk();
            let mut j = 0;
            while j < s {
                t.next();
                j += 1;
            }
            t
        };
        let (lo, hi) = start().size_hint();
        ma_check(lo <= n - s, "the size hint admits the cells that are left");
        ma_check(
            match hi {
                Some(h) => n - s <= h,
                None => true,
            },
            "the size hint admits the cells that are left",
        );
        ma_check(start().count() == n - s, "counting gives the number of cells left");
        match start().last() {
            Some(c) => ma_check(s < n && it(&c) == e[n - 1], "last gives the cell at the deepest level"),
            None => ma_check(s == n, "last gives the cell at the deepest level"),
        }
        let ks = [0, 1, 2, 5, n - s, n - s + 1, n + 3];
        let mut k = 0;
        while k < ks.len() {
            let by = ks[k];
            ma_note("nth", by);
            let mut t = start();
            let r = t.nth(by);
            match r {
                Some(c) => ma_check(s + by < n && it(&c) == e[s + by], "nth gives the cell that many levels ahead"),
                None => ma_check(s + by >= n, "nth gives the cell that many levels ahead"),
            }
            match t.next() {
                Some(c) => ma_check(s + by + 1 < n && it(&c) == e[s + by + 1], "after nth iteration goes on behind the returned cell"),
                None => ma_check(s + by + 1 >= n, "after nth iteration goes on behind the returned cell"),
            }
            k += 1;
        }
        if s < 3 || s == n / 2 || s >= n {
            // Far past the last level, and where the sum of position and distance wraps
            let far = [
                256,
                256usize.wrapping_sub(s),
                65536,
                65536usize.wrapping_sub(s),
                usize::MAX / 2 + 1,
                0usize.wrapping_sub(s + 1),
                0usize.wrapping_sub(s),
                usize::MAX,
            ];
            let mut k = 0;
            while k < far.len() {
                let by = far[k];
                if by > n {
                    ma_note("nth", by);
                    let mut t = start();
                    ma_check(t.nth(by).is_none(), "nth gives the cell that many levels ahead");
                    ma_check(t.next().is_none(), "after nth iteration goes on behind the returned cell");
                }
                k += 1;
            }
            #[cfg(target_pointer_width = "64")]
            for by in [1usize << 32, (1usize << 32) - s] {
                let mut t = start();
                ma_check(t.nth(by).is_none(), "nth gives the cell that many levels ahead");
            }
            ma_note("skip", usize::MAX);
            let mut t = start().skip(usize::MAX);
            ma_check(t.next().is_none(), "skipping past the last level leaves nothing");
            let mut t = start().step_by(usize::MAX);
            ma_check(t.next().is_some() == (s < n), "stepping starts with the next cell");
            ma_check(t.next().is_none(), "stepping past the last level leaves nothing");
            ma_check(start().take(usize::MAX).count() == n - s, "taking more than there is gives the cells left");
        }
        let f = start().fold(0, |a: usize, c| {
            ma_check(s + a < n && it(&c) == e[s + a], "folding visits the remaining cells in order");
            a + 1
        });
        ma_check(f == n - s, "folding visits the remaining cells in order");
        i += 1;
    }
    let mut c = 0;
    for k in mk() {
        ma_check(c < n && it(&k) == e[c], "a for loop visits the cells in order");
        c += 1;
    }
    ma_check(c == n, "a for loop visits the cells in order");
    let mut c = 0;
    for k in mk().skip(2).step_by(3) {
        ma_check(2 + 3 * c < n && it(&k) == e[2 + 3 * c], "skipping and stepping select the cells at those levels");
        c += 1;
    }
    ma_check(c == if n > 2 { (n - 3) / 3 + 1 } else { 0 }, "skipping and stepping select the cells at those levels");
    let m = mk().enumerate().zip(mk()).filter(|((l, a), b)| *l < n && it(a) == e[*l] && it(b) == e[*l]).count();
    ma_check(m == n, "two iterators over one index run side by side");
}
pub fn c18_drive_<X: Ix>(p: usize) {
    let ks = syms::<X>("cell", dd::<X>(p));
    let x: X = from_nums(&ks);
    x.drive_cells(&pad::<X>(&ks), drive_it());
}
pub struct D;
fn drive_it() -> D {
    D
}
impl Driver for D {
    fn go<I: Iterator>(&self, it: fn(&I::Item) -> usize, mk: &dyn Fn() -> I, e: &[usize]) {
        drive(it, mk, e)
    }
}
fn few_depths<X: Ix>(t: bool) -> (u64, u64, u64) {
    if X::KIND == DYN {
        (0, if t { 34 } else { 18 }, 1)
    } else if X::KIND == FIXED {
        (X::CAP as u64, X::CAP as u64, 1)
    } else if X::W >= 64 && !t {
        (X::CAP as u64 % 7, X::CAP as u64, 7)
    } else {
        (0, X::CAP as u64, 1)
    }
}
inst!(c18_drive, c18_drive_, few_depths);
/// Depths past the range of 16-bit numbers.
fn c18_far<X: Vx>(_p: usize) {
    let ks = syms::<X>("cell", FAR.len());
    let x: X = huge(&ks);
    whole(&x.collect_all(), &huge_cells(&ks), X::num, "collecting the iterator gives every cell once");
}
inst_list!(c18_huge, c18_far, one_task, [d2: D2, d3: D3]);
