//! Entries of property C11.
use super::*;

pub mod c11_orderings {
    use super::*;
    pub fn quadrant() {
        let k = sym_cell("quadrant", 0, 2);
        let q = quad(k);
        let mut o = 0;
        while o < 2 {
            ma_note("ordering", o);
            let v = qord(o).to_index(q);
            let a = [v.x, v.y];
            let mut j = 0;
            while j < 2 {
                ma_check(a[qaxis(o, j)] == (k >> j) & 1, "each bit of the quadrant number goes to the axis the ordering names");
                j += 1;
            }
            o += 1;
        }
        ma_check(matches!(QuadrantOrdering::default(), QuadrantOrdering::XY), "the default quadrant ordering is XY");
        ma_check(matches!(<Dim2D as Dimension>::CellOrdering::default(), QuadrantOrdering::XY), "the default quadrant ordering is XY");
        ma_check(<Dim2D as Dimension>::DIMENSIONALITY == 2, "dimensionality");
    }
    pub fn octant() {
        let k = sym_cell("octant", 0, 3);
        let q = oct(k);
        let mut o = 0;
        while o < 6 {
            ma_note("ordering", o);
            let v = oord(o).to_index(q);
            let a = [v.x, v.y, v.z];
            let s = oord(o).get_bit_shifts_for_xyz();
            let s = [s.0, s.1, s.2];
            let mut j = 0;
            while j < 3 {
                ma_check(a[oaxis(o, j)] == (k >> j) & 1, "each bit of the octant number goes to the axis the ordering names");
                ma_check(s[oaxis(o, j)] == j, "the reported shift of an axis is the bit it takes");
                j += 1;
            }
            o += 1;
        }
        ma_check(matches!(OctantOrdering::default(), OctantOrdering::XYZ), "the default octant ordering is XYZ");
        ma_check(matches!(<Dim3D as Dimension>::CellOrdering::default(), OctantOrdering::XYZ), "the default octant ordering is XYZ");
        ma_check(<Dim3D as Dimension>::DIMENSIONALITY == 3, "dimensionality");
    }
    /// Distinct cells have distinct positions.
    pub fn quadrant_bijection() {
        let (a, b) = (sym_cell("a", 0, 2), sym_cell("b", 0, 2));
        ma_assume(a != b);
        let mut o = 0;
        while o < 2 {
            let (u, v) = (qord(o).to_index(quad(a)), qord(o).to_index(quad(b)));
            ma_check((u.x != v.x) | (u.y != v.y), "distinct quadrants have distinct positions");
            ma_check((u.x < 2) & (u.y < 2), "positions are 0 or 1");
            o += 1;
        }
    }
    pub fn octant_bijection() {
        let (a, b) = (sym_cell("a", 0, 3), sym_cell("b", 0, 3));
        ma_assume(a != b);
        let mut o = 0;
        while o < 6 {
            let (u, v) = (oord(o).to_index(oct(a)), oord(o).to_index(oct(b)));
            ma_check((u.x != v.x) | (u.y != v.y) | (u.z != v.z), "distinct octants have distinct positions");
            ma_check((u.x < 2) & (u.y < 2) & (u.z < 2), "positions are 0 or 1");
            o += 1;
        }
    }
}
