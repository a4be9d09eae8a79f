//! Entries of property C25.
use super::*;

pub mod c25_fast {
    use super::*;
    pub fn grid() {
        let g: [usize; 3] = [ma_sym("x"), ma_sym("y"), ma_sym("z")];
        let mut o = 0;
        while o < 6 {
            ma_note("ordering", o);
            let a = F3x64::from_grid_index_fast(Vector3::new(g[0], g[1], g[2]), oord(o));
            let b = F3x64::from_grid_index(Vector3::new(g[0], g[1], g[2]), oord(o));
            same(&a, &b, "the fast conversion gives the same index");
            same_hash(&a, &b, "the fast conversion gives the same index");
            let ks = cells_of_grid::<F3x64>(g, 21, o);
            reads(&a, &ks, "the fast conversion gives the cells of the coordinates");
            o += 1;
        }
    }
}
