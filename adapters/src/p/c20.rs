//! Entries of property C20.
use super::*;

pub mod c20_display {
    use super::*;
    /// An index type whose name is opaque.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Probe(u16);
    impl MortonIndex for Probe {
        type Dimension = Dim2D;
        fn get_cell_at_level(&self, _l: usize) -> Quadrant {
            Quadrant::Zero
        }
        unsafe fn get_cell_at_level_unchecked(&self, _l: usize) -> Quadrant {
            Quadrant::Zero
        }
        fn set_cell_at_level(&mut self, _l: usize, _c: Quadrant) {}
        unsafe fn set_cell_at_level_unchecked(&mut self, _l: usize, _c: Quadrant) {}
        fn depth(&self) -> usize {
            0
        }
        fn to_string(&self, n: MortonIndexNaming) -> String {
            let mut s = String::new();
            s.push(match n {
                MortonIndexNaming::CellConcatenation => 'a',
                MortonIndexNaming::CellConcatenationWithRoot => 'b',
                MortonIndexNaming::GridIndex => 'c',
            });
            s.push_str(&std::string::ToString::to_string(&self.0));
            s
        }
        fn to_grid_index(&self, _o: QuadrantOrdering) -> Vector2<usize> {
            Vector2::new(0, 0)
        }
    }
    fn naming(k: usize) -> MortonIndexNaming {
        match k {
            0 => MortonIndexNaming::CellConcatenation,
            1 => MortonIndexNaming::CellConcatenationWithRoot,
            _ => MortonIndexNaming::GridIndex,
        }
    }
    fn probes(name: &'static str, n: usize) -> Vec<Probe> {
        let mut v = Vec::new();
        let mut i = 0;
        while i < n {
            // large enough to stay one opaque number
            v.push(Probe(0x400 | sym_cell(name, i, 8) as u16));
            i += 1;
        }
        v
    }
    pub fn show(p: usize) {
        let n = if p <= 40 { p } else { [64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 258, 300][p - 41] };
        let v = probes("index", n);
        let mut k = 0;
        while k < 3 {
            ma_note("naming", k);
            let mut want = String::from("[");
            let mut i = 0;
            while i < n {
                if i > 0 {
                    want.push_str(", ");
                }
                want.push_str(&MortonIndex::to_string(&v[i], naming(k)));
                i += 1;
            }
            want.push(']');
            let d = make_displayable(&v, naming(k));
            let mut a = String::new();
            ma_check(write!(a, "{}", d).is_ok(), "formatting succeeds");
            ma_same_bytes(a.as_bytes(), want.as_bytes(), "Display prints the names in order between brackets");
            let mut b = String::new();
            ma_check(write!(b, "{:?}", d).is_ok(), "formatting succeeds");
            ma_same_bytes(b.as_bytes(), want.as_bytes(), "Debug prints the names in order between brackets");
            let mut c = String::new();
            ma_check(write!(c, "{:#?}{:#}", d, d).is_ok(), "formatting succeeds");
            want.push_str(&want.clone());
            ma_same_bytes(c.as_bytes(), want.as_bytes(), "the alternate forms print the same");
            k += 1;
        }
    }
    /// Slices that are equal but for their last elements, and may differ in length.
    pub fn compare_long(p: usize) {
        let (n, m) = [(8, 8), (9, 9), (16, 16), (17, 17), (32, 33), (33, 33), (64, 64), (65, 65), (65, 64), (128, 129), (256, 256), (257, 257), (257, 1), (300, 300)][p];
        let mut v = Vec::new();
        let mut w = Vec::new();
        let mut i = 0;
        while i < n || i < m {
            if i < n {
                v.push(Probe(if i + 1 == n { sym_cell("last of a", 0, 8) as u16 } else { i as u16 & 3 }));
            }
            if i < m {
                w.push(Probe(if i + 1 == m { sym_cell("last of b", 0, 8) as u16 } else { i as u16 & 3 }));
            }
            i += 1;
        }
        let x = make_displayable(&v, naming(p % 3));
        let y = make_displayable(&w, naming(p % 3));
        let (s, t): (&[Probe], &[Probe]) = (&v, &w);
        ma_check((x == y) == (s == t), "equality is that of the slices");
        ma_check(x.cmp(&y) == s.cmp(t), "comparison is that of the slices");
        ma_check(x.partial_cmp(&y) == s.partial_cmp(t), "comparison is that of the slices");
        ma_check(x.max(y) == make_displayable(if s > t { &v } else { &w }, naming(0)), "comparison is that of the slices");
    }
    /// Indices with long names.
    pub fn long_names(p: usize) {
        let n = [20, 40, 65, 130, 300][p % 5];
        let mut v: Vec<D2> = Vec::new();
        let mut j = 0;
        while j < 2 {
            let mut ks = Vec::new();
            let mut l = 0;
            while l < n {
                ks.push(if l % 16 == 3 { sym_cell("cell", 512 * j + l, 2) } else { l & 3 });
                l += 1;
            }
            v.push(from_nums(&ks));
            j += 1;
        }
        let k = if n > 20 { p % 2 } else { p % 3 };
        let mut want = String::from("[");
        want.push_str(&MortonIndex::to_string(&v[0], naming(k)));
        want.push_str(", ");
        want.push_str(&MortonIndex::to_string(&v[1], naming(k)));
        want.push(']');
        let mut a = String::new();
        ma_check(write!(a, "{}", make_displayable(&v, naming(k))).is_ok(), "formatting succeeds");
        ma_same_bytes(a.as_bytes(), want.as_bytes(), "Display prints the names in order between brackets");
    }
    /// Names that are fixed, for code that looks into them.
    pub fn show_fixed(p: usize) {
        let n = [0, 1, 2, 3, 9, 33][p];
        let mut v = Vec::new();
        while v.len() < n {
            v.push(Probe((v.len() * 5381 % 1000) as u16));
        }
        let mut k = 0;
        while k < 3 {
            let mut want = String::from("[");
            let mut i = 0;
            while i < n {
                if i > 0 {
                    want.push_str(", ");
                }
                want.push_str(&MortonIndex::to_string(&v[i], naming(k)));
                i += 1;
            }
            want.push(']');
            let d = make_displayable(&v, naming(k));
            ma_same_bytes(std::format!("{}", d).as_bytes(), want.as_bytes(), "Display prints the names in order between brackets");
            ma_same_bytes(std::format!("{:?}", d).as_bytes(), want.as_bytes(), "Debug prints the names in order between brackets");
            ma_same_bytes(std::format!("{:#}", d).as_bytes(), want.as_bytes(), "the alternate forms print the same");
            ma_same_bytes(std::format!("{:#?}", d).as_bytes(), want.as_bytes(), "the alternate forms print the same");
            ma_same_bytes(std::string::ToString::to_string(&d).as_bytes(), want.as_bytes(), "Display prints the names in order between brackets");
            k += 1;
        }
    }
    /// p = 4 * len + other len
    pub fn compare(p: usize) {
        let (n, m) = (p / 4, p % 4);
        let mut v = Vec::new();
        let mut w = Vec::new();
        let mut i = 0;
        while i < 3 {
            let a = sym_cell("a", i, 2) as u16;
            let b = sym_cell("b", i, 2) as u16;
            if i < n {
                v.push(Probe(a));
            }
            if i < m {
                w.push(Probe(b));
            }
            i += 1;
        }
        let mut k = 0;
        while k < 3 {
            let x = make_displayable(&v, naming(k));
            let y = make_displayable(&w, naming(0));
            let (s, t): (&[Probe], &[Probe]) = (&v, &w);
            ma_check((x == y) == (s == t), "equality is that of the slices");
            ma_check((x != y) == (s != t), "equality is that of the slices");
            ma_check(x.cmp(&y) == s.cmp(t), "comparison is that of the slices");
            ma_check(x.partial_cmp(&y) == s.partial_cmp(t), "comparison is that of the slices");
            ma_check((x < y) == (s < t), "comparison is that of the slices");
            ma_check((x <= y) == (s <= t), "comparison is that of the slices");
            ma_check((x > y) == (s > t), "comparison is that of the slices");
            ma_check((x >= y) == (s >= t), "comparison is that of the slices");
            k += 1;
        }
    }
    /// Real index types.
    pub fn real(n: usize) {
        let mut v: Vec<S2x16> = Vec::new();
        let mut i = 0;
        while i < n {
            let mut ks = Vec::new();
            let mut l = 0;
            while l < i {
                ks.push(sym_cell("cell", 4 * i + l, 2));
                l += 1;
            }
            v.push(from_nums(&ks));
            i += 1;
        }
        let mut k = 0;
        while k < 3 {
            let mut want = String::from("[");
            let mut i = 0;
            while i < n {
                if i > 0 {
                    want.push_str(", ");
                }
                want.push_str(&MortonIndex::to_string(&v[i], naming(k)));
                i += 1;
            }
            want.push(']');
            let mut a = String::new();
            ma_check(write!(a, "{}", make_displayable(&v, naming(k))).is_ok(), "formatting succeeds");
            ma_same_bytes(a.as_bytes(), want.as_bytes(), "Display prints the names in order between brackets");
            k += 1;
        }
    }
    pub mod range {
        pub fn show(t: bool) -> (u64, u64, u64) {
            (0, 52, if t { 1 } else { 4 })
        }
        pub fn show_fixed(_t: bool) -> (u64, u64, u64) {
            (0, 5, 1)
        }
        pub fn compare_long(_t: bool) -> (u64, u64, u64) {
            (0, 13, 1)
        }
        pub fn long_names(t: bool) -> (u64, u64, u64) {
            (0, if t { 14 } else { 9 }, 1)
        }
        pub fn compare(_t: bool) -> (u64, u64, u64) {
            (0, 15, 1)
        }
        pub fn real(_t: bool) -> (u64, u64, u64) {
            (0, 4, 1)
        }
    }
}
