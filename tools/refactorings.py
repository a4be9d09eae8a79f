M2='src/indices/morton_index_2d.rs'; M3='src/indices/morton_index_3d.rs'; ST='src/indices/storage.rs'; NU='src/number.rs'; IM='src/indices/mod.rs'; MO='src/morton.rs'; AL='src/align.rs'; HE='src/helper.rs'; D2='src/dimensions/dim_2d.rs'; D3='src/dimensions/dim_3d.rs'
import re as _re
_2=open('/repo/'+M2).read(); _3=open('/repo/'+M3).read(); _n=open('/repo/'+NU).read(); _h=open('/repo/'+HE).read(); _d2=open('/repo/'+D2).read(); _d3=open('/repo/'+D3).read(); _s=open('/repo/'+ST).read(); _m=open('/repo/'+MO).read(); _i=open('/repo/'+IM).read()
def fn(src, head, nth=0):
    """text of the function whose signature starts with `head`"""
    i=-1
    for _ in range(nth+1): i=src.index(head,i+1)
    j=src.index('{',i); d=0; k=j
    # signature may contain no braces
    while True:
        c=src[k]
        if c=='{': d+=1
        elif c=='}':
            d-=1
            if d==0: break
        k+=1
    return src[i:k+1]
def body(src, head, new, nth=0):
    t=fn(src,head,nth); j=t.index('{')
    return t, t[:j]+'{\n'+new+'\n}'
def impl(src, head):
    return fn(src, head)
R=[]
def add(id, *edits): R.append(dict(id=id, edits=list(edits)))
def e(f, src, head, new, nth=0):
    a,b=body(src,head,new,nth); return (f,a,b)

# --- static comparison through the whole word
add('cmp-word',
  (M2, fn(_2,'fn cmp(&self, other: &Self) -> Ordering',0), 'fn cmp(&self, other: &Self) -> Ordering { self.bits.cmp(&other.bits).then_with(|| self.depth.cmp(&other.depth)) }'),
  (M3, fn(_3,'fn cmp(&self, other: &Self) -> std::cmp::Ordering',0), 'fn cmp(&self, other: &Self) -> std::cmp::Ordering { self.bits.cmp(&other.bits).then(self.depth.cmp(&other.depth)) }'))
# --- static comparison through cells
add('cmp-cells',
  (M2, fn(_2,'fn cmp(&self, other: &Self) -> Ordering',0), 'fn cmp(&self, other: &Self) -> Ordering { self.into_iter().cmp(other.into_iter()) }'),
  (M3, fn(_3,'fn cmp(&self, other: &Self) -> std::cmp::Ordering',0), 'fn cmp(&self, other: &Self) -> std::cmp::Ordering { let n = self.depth().min(other.depth()); for l in 0..n { let (a, b) = unsafe { (self.get_cell_at_level_unchecked(l), other.get_cell_at_level_unchecked(l)) }; if a != b { return a.cmp(&b); } } self.depth.cmp(&other.depth) }'))
# --- dynamic comparison
add('cmp-dyn',
  (M2, fn(_2,'fn cmp(&self, other: &Self) -> Ordering',1), 'fn cmp(&self, other: &Self) -> Ordering { (0..self.depth).map(|l| unsafe { self.get_cell_at_level_unchecked(l) }).cmp((0..other.depth).map(|l| unsafe { other.get_cell_at_level_unchecked(l) })) }'),
  (M3, fn(_3,'fn cmp(&self, other: &Self) -> Ordering',0), 'fn cmp(&self, other: &Self) -> Ordering { let n = self.depth.min(other.depth); let mut it = (0..n).map(|l| (self.get_cell_at_level_or_none(l), other.get_cell_at_level_or_none(l))); match it.find(|(a, b)| a != b) { Some((a, b)) => a.cmp(&b), None => self.depth.cmp(&other.depth) } }'))
# --- dynamic comparison bytewise (2D: from the last byte)
add('cmp-dyn-bytes',
  (M2, fn(_2,'fn cmp(&self, other: &Self) -> Ordering',1), 'fn cmp(&self, other: &Self) -> Ordering { self.bits.iter().rev().cmp(other.bits.iter().rev()).then(self.depth.cmp(&other.depth)) }'),
  (M3, fn(_3,'fn cmp(&self, other: &Self) -> Ordering',0), 'fn cmp(&self, other: &Self) -> Ordering { for (a, b) in self.bits.iter().rev().zip(other.bits.iter().rev()) { if a != b { return a.cmp(b); } } self.depth.cmp(&other.depth) }'))
# --- ancestors / descendants
add('anc-desc',
  (M2, fn(_2,'fn ancestor(&self',2), '''fn ancestor(&self, generations: std::num::NonZeroUsize) -> Option<Self> {
        let new_depth = self.depth.checked_sub(generations.get())?;
        let keep = new_depth.div_ceil(4);
        let mut new_bits = self.bits[self.bits.len() - keep..].to_vec();
        let spare = (keep * 4 - new_depth) * 2;
        if let Some(first) = new_bits.first_mut() { *first = (*first >> spare) << spare; }
        Some(Self { bits: new_bits, depth: new_depth })
    }'''),
  (M2, fn(_2,'fn descendant(&self, cells: &[<Dim2D',1), '''fn descendant(&self, cells: &[<Dim2D as Dimension>::Cell]) -> Option<Self> {
        let mut ret = Self::zeroed(self.depth + cells.len());
        let off = ret.bits.len() - self.bits.len();
        ret.bits[off..].copy_from_slice(&self.bits);
        for i in 0..cells.len() { unsafe { ret.set_cell_at_level_unchecked(self.depth + i, cells[i]) } }
        Some(ret)
    }'''),
  (M3, fn(_3,'fn ancestor(&self',2), '''fn ancestor(&self, generations: std::num::NonZeroUsize) -> Option<Self> {
        if generations.get() > self.depth { return None; }
        let n = self.depth - generations.get();
        let mut r = Self::zeroed(n);
        for l in 0..n { unsafe { let c = self.get_cell_at_level_unchecked(l); r.set_cell_at_level_unchecked(l, c) } }
        Some(r)
    }'''),
  (M3, fn(_3,'fn descendant(&self, cells: &[<Dim3D',1), '''fn descendant(&self, cells: &[<Dim3D as Dimension>::Cell]) -> Option<Self> {
        let all: Vec<Octant> = self.into_iter().chain(cells.iter().copied()).collect();
        Self::try_from(all.as_slice()).ok()
    }'''))
add('anc-desc-static',
  (M2, fn(_2,'fn ancestor(&self',1), '''fn ancestor(&self, generations: std::num::NonZeroUsize) -> Option<Self> {
        let new_depth = (self.depth as usize).checked_sub(generations.get())?;
        let cells = self.into_iter().take(new_depth).collect::<Vec<_>>();
        Self::try_from(&cells[..]).ok()
    }'''),
  (M2, fn(_2,'fn descendant(&self, cells: &[<Dim2D',0), '''fn descendant(&self, cells: &[<Dim2D as Dimension>::Cell]) -> Option<Self> {
        let mut ret = *self;
        let mut level = self.depth();
        for cell in cells {
            if level >= Self::max_depth()? { return None; }
            unsafe { ret.set_cell_at_level_unchecked(level, *cell) };
            level += 1;
        }
        ret.depth = level as u8;
        Some(ret)
    }'''),
  (M3, fn(_3,'fn ancestor(&self',1), '''fn ancestor(&self, generations: std::num::NonZeroUsize) -> Option<Self> {
        let mut ret = *self;
        for _ in 0..generations.get() {
            if ret.depth == 0 { return None; }
            ret.depth -= 1;
            unsafe { ret.set_cell_at_level_unchecked(ret.depth as usize, Octant::Zero); }
        }
        Some(ret)
    }'''))
# --- strings
add('strings',
  (M2, fn(_2,'fn to_string(&self',0), '''fn to_string(&self, naming: crate::MortonIndexNaming) -> String {
        fn digits(cells: impl Iterator<Item = Quadrant>) -> String {
            let mut s = String::new();
            for c in cells { s.push((b'0' + c.index() as u8) as char); }
            s
        }
        let cells = (0..self.depth()).map(|l| unsafe { self.get_cell_at_level_unchecked(l) });
        match naming {
            MortonIndexNaming::CellConcatenation => digits(cells),
            MortonIndexNaming::CellConcatenationWithRoot => String::from("r") + &digits(cells),
            MortonIndexNaming::GridIndex => {
                let g = self.to_grid_index(QuadrantOrdering::XY);
                [self.depth(), g.x, g.y].iter().map(|v| v.to_string()).collect::<Vec<_>>().join("-")
            }
        }
    }'''),
  (M3, fn(_3,'fn to_string(&self',0), '''fn to_string(&self, naming: crate::MortonIndexNaming) -> String {
        use std::fmt::Write;
        let mut s = match naming { MortonIndexNaming::CellConcatenationWithRoot => "r".to_string(), _ => String::with_capacity(self.depth()) };
        match naming {
            MortonIndexNaming::GridIndex => {
                let g = self.to_grid_index(OctantOrdering::XYZ);
                write!(s, "{}", self.depth()).unwrap();
                for v in g.iter() { write!(&mut s, "-{}", v).unwrap(); }
            }
            _ => for l in 0..self.depth() {
                let c = unsafe { self.get_cell_at_level_unchecked(l) };
                s += &c.index().to_string();
            }
        }
        s
    }'''))
add('strings2',
  (M2, fn(_2,'fn to_string(&self',0), '''fn to_string(&self, naming: crate::MortonIndexNaming) -> String {
        const NAMES: [&str; 4] = ["0", "1", "2", "3"];
        match naming {
            MortonIndexNaming::CellConcatenation => (0..self.depth()).map(|l| NAMES[unsafe { self.get_cell_at_level_unchecked(l) }.index()]).collect::<Vec<&str>>().concat(),
            MortonIndexNaming::CellConcatenationWithRoot => { let mut s = self.to_string(MortonIndexNaming::CellConcatenation); s.insert(0, 'r'); s }
            MortonIndexNaming::GridIndex => {
                let g = self.to_grid_index(QuadrantOrdering::default());
                let mut s = self.depth().to_string();
                s.push('-'); s.push_str(&g.x.to_string());
                s.push('-'); s.push_str(&format!("{y}", y = g.y));
                s
            }
        }
    }'''),
  (M3, fn(_3,'fn to_string(&self',0), '''fn to_string(&self, naming: crate::MortonIndexNaming) -> String {
        let digits = || -> String { (0..self.depth()).map(|l| format!("{}", unsafe { self.get_cell_at_level_unchecked(l) }.index())).collect() };
        match naming {
            MortonIndexNaming::CellConcatenation => digits(),
            MortonIndexNaming::CellConcatenationWithRoot => format!("{}{}", 'r', digits()),
            MortonIndexNaming::GridIndex => {
                let g = self.to_grid_index(OctantOrdering::default());
                let (x, y, z) = (g[0], g[1], g[2]);
                format!("{}-{x}-{y}-{z}", self.depth())
            }
        }
    }'''))
# --- grid
add('to-grid',
  (M2, fn(_2,'fn to_grid_index(&self',0), '''fn to_grid_index(&self, ordering: QuadrantOrdering) -> <Dim2D as Dimension>::GridIndex {
        let depth = self.depth();
        (0..depth).map(|l| (l, unsafe { self.get_cell_at_level_unchecked(l) }))
            .fold(Vector2::new(0, 0), |acc, (l, q)| { let i = ordering.to_index(q); acc + i.map(|c| c << (depth - 1 - l)) })
    }'''),
  (M3, fn(_3,'fn to_grid_index(&self',0), '''fn to_grid_index(&self, ordering: OctantOrdering) -> Vector3<usize> {
        let (sx, sy, sz) = ordering.get_bit_shifts_for_xyz();
        let (mut x, mut y, mut z) = (0usize, 0usize, 0usize);
        for level in (0..self.depth()).rev() {
            let o = unsafe { self.get_cell_at_level_unchecked(level) }.index();
            let bit = self.depth() - 1 - level;
            for (t, s) in [(&mut x, sx), (&mut y, sy), (&mut z, sz)] {
                if o & (1 << s) != 0 { *t |= 1usize << bit; }
            }
        }
        Vector3::new(x, y, z)
    }'''))
add('from-grid-static-cells',
  (M2, fn(_2,'pub fn from_grid_index(',1), '''pub fn from_grid_index(
        grid_index: <Dim2D as Dimension>::GridIndex,
        grid_depth: usize,
        ordering: QuadrantOrdering,
    ) -> Result<Self, crate::Error> {
        let max_depth = B::BITS / 2;
        if grid_depth > max_depth { return Err(crate::Error::DepthLimitedExceeded { max_depth }); }
        let (lo, hi) = match ordering { QuadrantOrdering::XY => (grid_index.x, grid_index.y), QuadrantOrdering::YX => (grid_index.y, grid_index.x) };
        let mut storage = StaticStorage2D::<B> { bits: B::default(), depth: grid_depth as u8 };
        for level in 0..grid_depth {
            let s = (grid_depth - 1 - level) as u32;
            let q = (lo.checked_shr(s).unwrap_or(0) & 1) | ((hi.checked_shr(s).unwrap_or(0) & 1) << 1);
            unsafe { storage.set_cell_at_level_unchecked(level, Quadrant::try_from(q).unwrap()) };
        }
        Ok(Self { storage })
    }'''),
  (M3, fn(_3,'pub fn from_grid_index(',1), '''pub fn from_grid_index(
        grid_index: <Dim3D as Dimension>::GridIndex,
        grid_depth: usize,
        ordering: OctantOrdering,
    ) -> Result<Self, crate::Error> {
        let max_depth = Self::MAX_LEVELS;
        if grid_depth > max_depth { return Err(crate::Error::DepthLimitedExceeded { max_depth }); }
        let (xs, ys, zs) = ordering.get_bit_shifts_for_xyz();
        let mut ret = Self::zeroed(grid_depth as u8).expect("checked above");
        let bit = |v: usize, p: usize| if p < usize::BITS as usize { (v >> p) & 1 } else { 0 };
        for level in 0..grid_depth {
            let p = grid_depth - 1 - level;
            let o = (bit(grid_index.x, p) << xs) + (bit(grid_index.y, p) << ys) + (bit(grid_index.z, p) << zs);
            ret.set_cell_at_level(level, Octant::try_from(o)?);
        }
        Ok(ret)
    }'''))
add('from-grid-fixed-dyn',
  (M2, fn(_2,'pub fn from_grid_index(',2), '''pub fn from_grid_index(
        grid_index: <Dim2D as Dimension>::GridIndex,
        grid_depth: usize,
        ordering: QuadrantOrdering,
    ) -> Self {
        assert!(grid_depth <= usize::BITS as usize / 2, "grid depth too large");
        let (mut lo, mut hi) = match ordering { QuadrantOrdering::XY => (grid_index.x, grid_index.y), QuadrantOrdering::YX => (grid_index.y, grid_index.x) };
        let mut ret = Self::zeroed(grid_depth);
        for level in (0..grid_depth).rev() {
            let q = match (hi & 1, lo & 1) { (0, 0) => Quadrant::Zero, (0, _) => Quadrant::One, (_, 0) => Quadrant::Two, _ => Quadrant::Three };
            ret.set_cell_at_level(level, q);
            lo >>= 1; hi >>= 1;
        }
        ret
    }'''),
  (M3, fn(_3,'pub fn from_grid_index_fast(',0), '''pub fn from_grid_index_fast(
        grid_index: <Dim3D as Dimension>::GridIndex,
        ordering: OctantOrdering,
    ) -> Self {
        let (s0, s1, s2) = ordering.get_bit_shifts_for_xyz();
        let bits = [(grid_index.x, s0), (grid_index.y, s1), (grid_index.z, s2)]
            .iter()
            .map(|&(v, s)| add_two_zeroes_before_every_bit_u32((v & 0x1f_ffff) as u32) << (s + 1))
            .fold(0u64, |a, b| a | b);
        Self { storage: FixedDepthStorage3D { bits } }
    }'''),
  (M3, fn(_3,'pub fn from_grid_index(',0), '''pub fn from_grid_index(
        grid_index: <Dim3D as Dimension>::GridIndex,
        ordering: OctantOrdering,
    ) -> Self {
        let depth = Self::MAX_LEVELS;
        assert!(depth <= usize::BITS as usize);
        let mut ret = Self::default();
        let (x_shift, y_shift, z_shift) = ordering.get_bit_shifts_for_xyz();
        (0..depth).for_each(|level| {
            let shift = depth - level - 1;
            let octant = ((grid_index.x >> shift) & 1) << x_shift | ((grid_index.y >> shift) & 1) << y_shift | ((grid_index.z >> shift) & 1) << z_shift;
            ret.set_cell_at_level(level, octant.try_into().unwrap());
        });
        ret
    }'''))
# --- bit ranges of integers
_gb=fn(_n,'unsafe fn get_bits(&self, bit_range: Range<usize>) -> Self',0)
_sb=fn(_n,'unsafe fn set_bits(&mut self, bit_range: Range<usize>, new_value: Self)',0)
add('bits-int',
  (NU,_gb,'''unsafe fn get_bits(&self, bit_range: Range<usize>) -> Self {
            const W: u32 = <BITSELF>::BITS;
            let mut r: Self = 0;
            for (to, from) in bit_range.enumerate() {
                if (from as u32) < W && (*self >> from) & 1 == 1 { r |= 1 << to; }
            }
            r
        }'''.replace('const W: u32 = <BITSELF>::BITS;','let W = (std::mem::size_of::<Self>() * 8) as u32;')),
  (NU,_sb,'''unsafe fn set_bits(&mut self, bit_range: Range<usize>, new_value: Self) {
            let len = bit_range.end - bit_range.start;
            let width = std::mem::size_of::<Self>() * 8;
            let mask: Self = if len >= width { Self::MAX } else { ((1 as Self) << len) - 1 };
            let old = *self;
            *self = old ^ ((old ^ (new_value << bit_range.start)) & (mask << bit_range.start)) ^ ((new_value & !mask) << bit_range.start);
        }'''))
# --- bit ranges of vectors
add('bits-vec',
  e(NU,_n,'unsafe fn set_vec_u8_bits(','''
    for (i, pos) in bit_range.enumerate() {
        let b = (new_value[i / 8] >> (i % 8)) & 1;
        let m = 1u8 << (pos & 7);
        if b == 1 { vec[pos >> 3] |= m } else { vec[pos >> 3] &= !m }
    }'''),
  e(NU,_n,'unsafe fn get_bits(&self, bit_range: Range<usize>) -> Self','''
        let n = bit_range.len();
        let mut out = vec![0u8; n.div_ceil(8)];
        for (i, pos) in bit_range.enumerate() {
            out[i / 8] |= ((self[pos / 8] >> (pos % 8)) & 1) << (i % 8);
        }
        out''',2),
  e(NU,_n,'unsafe fn get_bits_as_usize(&self, bit_range: Range<usize>) -> usize','''
        bit_range.rev().fold(0usize, |acc, p| (acc << 1) | ((self[p / 8] >> (p % 8)) & 1) as usize)''',2))
add('bits-vec-u128',
  e(NU,_n,'unsafe fn set_vec_u8_bits(','''
    let n = bit_range.len();
    if n == 0 { return; }
    if n <= 64 && new_value.len() <= 16 {
        let mut val = [0u8; 16];
        val[..new_value.len()].copy_from_slice(new_value);
        let v = u128::from_le_bytes(val) & ((1u128 << n) - 1);
        let first = bit_range.start / 8;
        let last = (bit_range.end - 1) / 8;
        let sh = bit_range.start % 8;
        let mask = ((1u128 << n) - 1) << sh;
        let mut w = [0u8; 16];
        w[..=last - first].copy_from_slice(&vec[first..=last]);
        let merged = (u128::from_le_bytes(w) & !mask) | (v << sh);
        vec[first..=last].copy_from_slice(&merged.to_le_bytes()[..=last - first]);
        return;
    }
    for (i, pos) in bit_range.enumerate() {
        let b = (new_value[i / 8] >> (i % 8)) & 1;
        vec[pos / 8] = (vec[pos / 8] & !(1 << (pos % 8))) | (b << (pos % 8));
    }'''),
  e(NU,_n,'unsafe fn get_bits_as_usize(&self, bit_range: Range<usize>) -> usize','''
        if bit_range.start == bit_range.end { return 0; }
        let first = bit_range.start / 8;
        let last = (bit_range.end - 1) / 8;
        let mut window: u128 = 0;
        for (i, b) in self[first..=last].iter().enumerate() { window |= (*b as u128) << (8 * i); }
        let len = bit_range.end - bit_range.start;
        ((window >> (bit_range.start & 7)) & ((1u128 << len) - 1)) as usize''',2))
# --- spreading
add('spread',
  e(NU,_n,'pub fn add_zero_behind_every_bit_u8(','    [0u8, 2, 8, 10, 32, 34, 40, 42, 128, 130, 136, 138, 160, 162, 168, 170][(val & 15) as usize]'),
  e(NU,_n,'pub fn add_zero_before_every_bit_u8(','    (0..4).fold(0, |r, i| r | (((val >> i) & 1) << (2 * i)))'),
  e(NU,_n,'pub fn add_zero_before_every_bit_u16(','    let lo = add_zero_before_every_bit_u8(val as u8) as u16; let hi = add_zero_before_every_bit_u8((val >> 4) as u8) as u16; lo | (hi << 8)'),
  e(NU,_n,'pub fn add_two_zeroes_before_every_bit_u8(','''    let mut r = 0u32; let mut v = val; let mut p = 0;
    while v != 0 { if v & 1 == 1 { r |= 1 << p; } v >>= 1; p += 3; } r'''),
  e(NU,_n,'pub fn add_two_zeroes_before_every_bit_u32(','''    let mut r: u64 = 0;
    for (i, b) in (val & 0x1f_ffff).to_le_bytes().iter().take(3).enumerate() { r |= (add_two_zeroes_before_every_bit_u8(*b) as u64) << (24 * i); } r'''))
add('spread2',
  e(NU,_n,'pub fn add_zero_behind_every_bit_u8(','    add_zero_before_every_bit_u8(val & 0x0f).rotate_left(1)'),
  e(NU,_n,'pub fn add_zero_before_every_bit_u8(','    ((((val & 15) as u64).wrapping_mul(0x0101010101010101) & 0x8040201008040201).wrapping_mul(0x0102040810204081) >> 49) as u8 & 0x55'),
  e(NU,_n,'pub fn add_zero_before_every_bit_u16(','''    const fn table() -> [u16; 256] { let mut t = [0u16; 256]; let mut i = 0; while i < 256 { let mut j = 0; while j < 8 { t[i] |= (((i >> j) & 1) as u16) << (2 * j); j += 1; } i += 1; } t }
    static TABLE: [u16; 256] = table();
    TABLE[(val & 0xff) as usize]'''),
  e(NU,_n,'pub fn add_two_zeroes_before_every_bit_u8(','''    const T: [u32; 16] = [0, 1, 8, 9, 0x40, 0x41, 0x48, 0x49, 0x200, 0x201, 0x208, 0x209, 0x240, 0x241, 0x248, 0x249];
    T[(val & 15) as usize] | (T[(val >> 4) as usize] << 12)'''))
# --- alignment
_al=open('/repo/'+AL).read()
_alf=fn(_al,'fn align_to(&self, alignment: Self) -> Self',1)
add('align1',(AL,_alf,'fn align_to(&self, alignment: Self) -> Self { if alignment == 0 { return *self; } let r = *self % alignment; if r == 0 { *self } else { *self - r + alignment } }','all'))
add('align2',(AL,_alf,'fn align_to(&self, alignment: Self) -> Self { match alignment { 0 => *self, a => self.next_multiple_of(a) } }','all'))
add('align3',(AL,_alf,'fn align_to(&self, alignment: Self) -> Self { let Some(r) = self.checked_rem(alignment) else { return *self }; *self + (alignment - r) % alignment }','all'))
add('align4',(AL,_alf,'fn align_to(&self, alignment: Self) -> Self { if alignment == 0 { *self } else { self.div_ceil(alignment) * alignment } }','all'))
# --- display
add('display',
  e(HE,_h,"fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result",'''        let names: Vec<String> = self.morton_indices.iter().map(|m| m.to_string(self.naming)).collect();
        write!(f, "[{}]", names.join(", "))''',1))
add('display2',
  e(HE,_h,"fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result",'''        f.write_str("[")?;
        let mut first = true;
        for m in self.morton_indices {
            if !first { f.write_str(", ")?; }
            first = false;
            f.write_str(&m.to_string(self.naming))?;
        }
        f.write_str("]")''',1))
add('display3',
  e(HE,_h,"fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result",'''        std::fmt::Display::fmt(self, f)''',0),
  e(HE,_h,"fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result",'''        if let Some((last, init)) = self.morton_indices.split_last() {
            write!(f, "[")?;
            init.iter().try_for_each(|m| write!(f, "{}, ", m.to_string(self.naming)))?;
            write!(f, "{}]", last.to_string(self.naming))
        } else { f.write_str("[]") }''',1))
# --- cells
add('cells',
  e(D2,_d2,'fn try_from(value: usize)','        const ALL: [Quadrant; 4] = [Quadrant::Zero, Quadrant::One, Quadrant::Two, Quadrant::Three];\n ALL.get(value).copied().ok_or(crate::Error::CellIndexOutOfRange)'),
  e(D3,_d3,'fn try_from(value: usize)','        if value > 7 { return Err(crate::Error::CellIndexOutOfRange); } Ok(unsafe { std::mem::transmute::<u8, Octant>(value as u8) })'),
  (D3, fn(_d3,'fn into(self) -> usize',0), 'fn into(self) -> usize { self as usize }'),
  e(D3,_d3,'pub fn to_index(&self','''        let k = octant.index(); let (x, y, z) = self.get_bit_shifts_for_xyz();
        Vector3::from_iterator([x, y, z].into_iter().map(|s| (k >> s) & 1))'''),
  e(D3,_d3,'pub fn get_bit_shifts_for_xyz(','''        use OctantOrdering::*;
        let order: [usize; 3] = match self { XYZ => [0, 1, 2], XZY => [0, 2, 1], YXZ => [1, 0, 2], YZX => [1, 2, 0], ZXY => [2, 0, 1], ZYX => [2, 1, 0] };
        let find = |axis| order.iter().position(|a| *a == axis).unwrap();
        (find(0), find(1), find(2))'''))
# --- iterator
add('iter',
  (IM, fn(_i,'fn next(&mut self)'), '''fn next(&mut self) -> Option<Self::Item> {
        let level = self.index;
        (level < self.storage.depth()).then(|| { self.index = level + 1; unsafe { self.storage.get_cell_at_level_unchecked(level) } })
    }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.storage.depth() - self.index; (n, Some(n)) }
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.index = self.index.saturating_add(n).min(self.storage.depth());
        self.next()
    }
    fn count(self) -> usize { self.storage.depth() - self.index }'''))
# --- storage
_get=fn(_s,'unsafe fn get_cell_at_level_unchecked<T: Bits>(',1); _set=fn(_s,'unsafe fn set_cell_at_level_unchecked<T: Bits>(',1)
add('storage',
  (ST, 'pub struct StaticStorage<D', '''fn cell_range<D: Dimension>(total: usize, level: usize) -> std::ops::Range<usize> {
    let end = total - level * D::DIMENSIONALITY;
    end - D::DIMENSIONALITY..end
}

pub struct StaticStorage<D'''),
  (ST, _get, '''unsafe fn get_cell_at_level_unchecked<T: Bits>(
        bits: &T,
        level: usize,
    ) -> <Self::Dimension as dimensions::Dimension>::Cell {
        let n = bits.get_bits_as_usize(cell_range::<D>(B::BITS, level));
        match <D as Dimension>::Cell::try_from(n) { Ok(c) => c, Err(_) => unreachable!() }
    }''','all'),
  (ST, _set, '''unsafe fn set_cell_at_level_unchecked<T: Bits>(
        bits: &mut T,
        level: usize,
        cell: <Self::Dimension as dimensions::Dimension>::Cell,
    ) {
        bits.set_bits_from_usize(cell_range::<D>(B::BITS, level), cell.into());
    }''','all'))
# --- inverted, with_depth, child
add('morton',
  e(MO,_m,'fn inverted(&self)','''        let mut ret = self.clone();
        let n = self.depth();
        let (mut i, mut j) = (0, n);
        while i + 1 < j {
            j -= 1;
            unsafe {
                let (a, b) = (ret.get_cell_at_level_unchecked(i), ret.get_cell_at_level_unchecked(j));
                ret.set_cell_at_level_unchecked(i, b);
                ret.set_cell_at_level_unchecked(j, a);
            }
            i += 1;
        }
        ret'''.replace('','')) if False else (MO, fn(_m,'fn inverted(&self)'), '''fn inverted(&self) -> Self
    where
        Self: Sized + Clone,
    {
        let mut ret = self.clone();
        let (mut i, mut j) = (0, self.depth());
        while i + 1 < j {
            j -= 1;
            unsafe {
                let (a, b) = (ret.get_cell_at_level_unchecked(i), ret.get_cell_at_level_unchecked(j));
                ret.set_cell_at_level_unchecked(i, b);
                ret.set_cell_at_level_unchecked(j, a);
            }
            i += 1;
        }
        ret
    }'''),
  (MO, fn(_m,'fn with_depth(&self'), '''fn with_depth(&self, new_depth: usize) -> Option<Self>
    where
        Self: Clone,
    {
        match self.depth().checked_sub(new_depth).map(NonZeroUsize::new) {
            None => None,
            Some(None) => Some(self.clone()),
            Some(Some(g)) => self.ancestor(g),
        }
    }'''),
  (MO, fn(_m,'fn parent(&self'), '''fn parent(&self) -> Option<Self> {
        const ONE: NonZeroUsize = match NonZeroUsize::new(1) { Some(n) => n, None => unreachable!() };
        if self.depth() == 0 { None } else { self.ancestor(ONE) }
    }'''))
# --- conversions
add('conv',
  (M2, fn(_2,'fn try_from(value: MortonIndex2D<DynamicStorage2D>)',0), '''fn try_from(value: MortonIndex2D<DynamicStorage2D>) -> Result<Self, Self::Error> {
        let cells: Vec<Quadrant> = value.cells().collect();
        Self::try_from(cells.as_slice())
    }'''),
  (M2, fn(_2,'fn try_from(value: MortonIndex2D<DynamicStorage2D>)',1), '''fn try_from(value: MortonIndex2D<DynamicStorage2D>) -> Result<Self, Self::Error> {
        let max_depth = <StaticStorage<Dim2D, B> as StorageType>::MAX_LEVELS;
        let err = crate::Error::DepthLimitedExceeded { max_depth };
        if value.depth() > max_depth { return Err(err); }
        let root = Self::zeroed(0).ok_or(err)?;
        let cells = value.cells().collect::<Vec<_>>();
        root.descendant(&cells).ok_or(crate::Error::DepthLimitedExceeded { max_depth })
    }'''),
  (M2, fn(_2,'fn from(fixed_index: MortonIndex2D<FixedDepthStorage2D<B>>)',1), '''fn from(fixed_index: MortonIndex2D<FixedDepthStorage2D<B>>) -> Self {
        let mut ret = Self::zeroed(fixed_index.depth());
        for (l, c) in fixed_index.cells().enumerate() { ret.set_cell_at_level(l, c); }
        ret
    }'''),
  (M2, fn(_2,'fn from(fixed_index: MortonIndex2D<StaticStorage2D<B>>)',0), '''fn from(fixed_index: MortonIndex2D<StaticStorage2D<B>>) -> Self {
        let depth = fixed_index.depth();
        let skip = (<StaticStorage<Dim2D, B> as StorageType>::MAX_LEVELS + 3) / 4 - (depth + 3) / 4;
        let mut bits = unsafe { fixed_index.storage.bits.as_u8_slice() }.to_vec();
        if cfg!(target_endian = "big") { bits.reverse(); }
        bits.drain(..skip);
        Self { storage: DynamicStorage2D { bits, depth } }
    }'''),
  (M3, fn(_3,'fn try_from(value: MortonIndex3D<DynamicStorage3D>)',0), '''fn try_from(value: MortonIndex3D<DynamicStorage3D>) -> Result<Self, Self::Error> {
        let mut ret = Self::default();
        if value.depth() > ret.depth() { return Err(crate::Error::DepthLimitedExceeded { max_depth: ret.depth() }); }
        for (level, cell) in value.cells().enumerate() { ret.set_cell_at_level(level, cell); }
        Ok(ret)
    }'''))
# --- constructors
add('ctor',
  (M2, fn(_2,"fn try_from(quadrants: &'a [Quadrant])",2), """fn try_from(quadrants: &'a [Quadrant]) -> Result<Self, Self::Error> {
        let mut bits = Vec::with_capacity((quadrants.len() + 3) / 4);
        for chunk in quadrants.chunks(4) {
            bits.push(chunk.iter().enumerate().fold(0u8, |b, (i, q)| b | ((q.index() as u8) << (6 - 2 * i))));
        }
        bits.reverse();
        Ok(Self { bits, depth: quadrants.len() })
    }"""),
  (M2, fn(_2,"fn try_from(quadrants: [Quadrant; N])",2), "fn try_from(quadrants: [Quadrant; N]) -> Result<Self, Self::Error> { Self::try_from(quadrants.as_slice()) }"),
  (M2, fn(_2,"fn try_from(quadrants: [Quadrant; N])",1), "fn try_from(quadrants: [Quadrant; N]) -> Result<Self, Self::Error> { Self::try_from(&quadrants[..]) }"),
  (M2, fn(_2,"fn try_from(quadrants: &'a [Quadrant])",1), """fn try_from(quadrants: &'a [Quadrant]) -> Result<Self, Self::Error> {
        Self::default().descendant(quadrants).ok_or_else(|| crate::Error::DepthLimitedExceeded { max_depth: <StaticStorage<Dim2D, B> as StorageType>::MAX_LEVELS })
    }"""),
  (M3, fn(_3,"fn try_from(octants: &'a [Octant])",2), """fn try_from(octants: &'a [Octant]) -> Result<Self, Self::Error> {
        let mut storage = Self::zeroed(octants.len());
        octants.iter().copied().zip(0..).for_each(|(o, l)| unsafe { storage.set_cell_at_level_unchecked(l, o) });
        Ok(storage)
    }"""),
  (M3, fn(_3,"fn try_from(octants: [Octant; N])",0), """fn try_from(octants: [Octant; N]) -> Result<Self, Self::Error> {
        let max_depth = <FixedDepthStorage<Dim3D, B> as StorageType>::MAX_LEVELS;
        if octants.len() <= max_depth {
            let mut ret = Self::default();
            let mut level = N;
            while level > 0 { level -= 1; unsafe { ret.set_cell_at_level_unchecked(level, octants[level]) } }
            Ok(ret)
        } else { Err(crate::Error::DepthLimitedExceeded { max_depth }) }
    }"""),
  (M2, fn(_2,'pub fn zeroed(depth: usize) -> Self',1), '''pub fn zeroed(depth: usize) -> Self {
        let n = depth.div_ceil(4);
        let mut bits = Vec::new();
        bits.resize(n, 0u8);
        Self { bits, depth }
    }'''),
  (M2, fn(_2,'pub fn zeroed(depth: u8) -> Option<Self>',0), '''pub fn zeroed(depth: u8) -> Option<Self> {
        let fits = usize::from(depth) <= <StaticStorage<Dim2D, B> as StorageType>::MAX_LEVELS;
        fits.then(|| Self { storage: StaticStorage2D { depth, ..Default::default() } })
    }'''))
# --- equality by derive, manual hash, manual clone
add('traits',
  (M2, fn(_2,'impl<B: FixedStorageType> PartialEq for StaticStorage2D<B>'), 'impl<B: FixedStorageType> PartialEq for StaticStorage2D<B> { fn eq(&self, other: &Self) -> bool { self.cmp(other) == Ordering::Equal } }'),
  (M3, '#[derive(Default, Debug, Clone, Copy, Hash)]\npub struct StaticStorage3D', '#[derive(Default, Debug, Clone, Copy)]\npub struct StaticStorage3D'),
  (M3, 'impl<B: FixedStorageType> Eq for StaticStorage3D<B> {}', 'impl<B: FixedStorageType> Eq for StaticStorage3D<B> {}\nimpl<B: FixedStorageType> std::hash::Hash for StaticStorage3D<B> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { std::hash::Hash::hash(&(self.depth, self.bits), h) } }'),
  (M2, '#[derive(Default, Debug, Clone, Hash, PartialEq, Eq)]\npub struct DynamicStorage2D', '#[derive(Default, Debug, Hash, Eq)]\npub struct DynamicStorage2D'),
  (M2, 'impl PartialOrd for DynamicStorage2D', 'impl PartialEq for DynamicStorage2D { fn eq(&self, o: &Self) -> bool { self.depth == o.depth && self.into_iter().eq(o.into_iter()) } }\nimpl Clone for DynamicStorage2D { fn clone(&self) -> Self { Self { bits: self.bits.iter().cloned().collect(), depth: self.depth } } fn clone_from(&mut self, o: &Self) { self.bits.clear(); self.bits.extend_from_slice(&o.bits); self.depth = o.depth; } }\nimpl PartialOrd for DynamicStorage2D'))
# --- write-once tables and memos (C30 forbids the last two by design, the other checks must stay quiet)
add('oncelock', e(NU,_n,'pub fn add_zero_before_every_bit_u8','''    static T: std::sync::OnceLock<[u8; 16]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| { let mut a = [0u8; 16]; for i in 0..16u8 { for b in 0..4 { a[i as usize] |= ((i >> b) & 1) << (2 * b); } } a });
    t[(val & 15) as usize]'''))
add('lazylock', e(NU,_n,'pub fn add_zero_before_every_bit_u8','''    static T: std::sync::LazyLock<Vec<u8>> = std::sync::LazyLock::new(|| (0..16u8).map(|i| (0..4).fold(0, |a, b| a | ((i >> b) & 1) << (2 * b))).collect());
    T[(val & 15) as usize]'''))
add('tls', e(NU,_n,'pub fn add_zero_before_every_bit_u8','''    thread_local!(static LAST: std::cell::Cell<(u8, u8)> = const { std::cell::Cell::new((0, 0)) });
    let val = val & 15;
    let (k, v) = LAST.with(|c| c.get());
    if k == val { return v; }
    let mut ret = val;
    ret = (ret | (ret << 2)) & 0b00110011;
    ret = (ret | (ret << 1)) & 0b01010101;
    LAST.with(|c| c.set((val, ret)));
    ret'''))
add('mutex', e(NU,_n,'pub fn add_zero_before_every_bit_u8','''    static LAST: std::sync::Mutex<(u8, u8)> = std::sync::Mutex::new((0, 0));
    let val = val & 15;
    let mut g = LAST.lock().unwrap();
    if g.0 == val { return g.1; }
    let mut ret = val;
    ret = (ret | (ret << 2)) & 0b00110011;
    ret = (ret | (ret << 1)) & 0b01010101;
    *g = (val, ret);
    ret'''))
REFACT=R
