exec(open('/verif/tools/refactorings.py').read().split("# --- static comparison through the whole word")[0])
# helpers extracted, loops rewritten, statements reordered: what a reviewer would call a tidy-up
CAP="crate::Error::DepthLimitedExceeded { max_depth }"
add('tidy-grid2',
  (M2, "impl MortonIndex2D<DynamicStorage2D> {\n    pub fn zeroed", '''/// Interleaves two nibbles
fn interleave(lower: u8, higher: u8) -> u8 {
    add_zero_behind_every_bit_u8(higher) | add_zero_before_every_bit_u8(lower)
}
fn chunk_of<B: Bits>(lower: &B, higher: &B, range: std::ops::Range<usize>) -> u8 {
    unsafe { interleave(lower.get_bits(range.clone()).as_u8(), higher.get_bits(range).as_u8()) }
}

impl MortonIndex2D<DynamicStorage2D> {
    pub fn zeroed'''),
  (M2, '''            let start_bit = chunk_index * 4;
            let end_bit = start_bit + 4;
            let lower_chunk = unsafe { lower_bits.get_bits(start_bit..end_bit) as u8 };
            let higher_chunk = unsafe { higher_bits.get_bits(start_bit..end_bit) as u8 };
            let chunk = add_zero_before_every_bit_u8(lower_chunk)
                | add_zero_behind_every_bit_u8(higher_chunk);
''','''            let start_bit = chunk_index * 4;
            let chunk = chunk_of(&lower_bits, &higher_bits, start_bit..start_bit + 4);
''','all'),
  e(M2,_2,'fn to_grid_index(&self, ordering: QuadrantOrdering)','''        (0..self.depth()).fold(Vector2::new(0, 0), |acc, level| {
            let at = ordering.to_index(unsafe { self.get_cell_at_level_unchecked(level) });
            Vector2::new((acc.x << 1) | at.x, (acc.y << 1) | at.y)
        })'''))
add('tidy-grid3',
  (M3, "// Storage types:", '''fn axis_chunk_u8<B: Bits>(bits: &B, start_bit: usize, shift: usize) -> u32 {
    let chunk = unsafe { bits.get_bits(start_bit..start_bit + 8).as_u8() };
    add_two_zeroes_before_every_bit_u8(chunk) << shift
}
fn octant_at(coords: [usize; 3], shifts: [usize; 3], bit: usize) -> Octant {
    let mut number = 0;
    for (c, s) in coords.iter().zip(shifts.iter()) {
        number |= ((c >> bit) & 1) << s;
    }
    Octant::try_from(number).unwrap()
}

// Storage types:'''),
  (M3, '''            let x_chunk = unsafe { x_bits.get_bits(start_bit..end_bit) as u8 };
            let y_chunk = unsafe { y_bits.get_bits(start_bit..end_bit) as u8 };
            let z_chunk = unsafe { z_bits.get_bits(start_bit..end_bit) as u8 };
            let chunk = (add_two_zeroes_before_every_bit_u8(x_chunk) << x_shift)
                | (add_two_zeroes_before_every_bit_u8(y_chunk) << y_shift)
                | (add_two_zeroes_before_every_bit_u8(z_chunk) << z_shift);
''','''            debug_assert!(end_bit > start_bit);
            let chunk = axis_chunk_u8(&x_bits, start_bit, x_shift)
                | axis_chunk_u8(&y_bits, start_bit, y_shift)
                | axis_chunk_u8(&z_bits, start_bit, z_shift);
'''),
  (M3, '''            let x_bit = ((x_bits >> shift) & 1) << x_shift;
            let y_bit = ((y_bits >> shift) & 1) << y_shift;
            let z_bit = ((z_bits >> shift) & 1) << z_shift;
            let octant = Octant::try_from(x_bit | y_bit | z_bit).unwrap();
''','''            let octant = octant_at([x_bits, y_bits, z_bits], [x_shift, y_shift, z_shift], shift);
'''))
add('tidy-ctor2',
  (M2, 'impl<B: FixedStorageType> MortonIndex2D<FixedDepthStorage2D<B>> {', '''fn check_capacity<T: StorageType>(len: usize) -> Result<(), crate::Error> {
    match len <= T::MAX_LEVELS { true => Ok(()), false => Err(crate::Error::DepthLimitedExceeded { max_depth: T::MAX_LEVELS }) }
}
fn fill<S: Storage<Dim2D>>(storage: &mut S, from: usize, cells: &[Quadrant]) {
    for (i, c) in cells.iter().enumerate().rev() { unsafe { storage.set_cell_at_level_unchecked(from + i, *c) } }
}
impl<B: FixedStorageType> MortonIndex2D<FixedDepthStorage2D<B>> {'''),
  e(M2,_2,"fn try_from(quadrants: &'a [Quadrant])",'''        check_capacity::<FixedDepthStorage<Dim2D, B>>(quadrants.len())?;
        let mut ret: Self = Default::default();
        fill(&mut ret, 0, quadrants);
        Ok(ret)''',0),
  e(M2,_2,"fn try_from(quadrants: &'a [Quadrant])",'''        check_capacity::<StaticStorage<Dim2D, B>>(quadrants.len())?;
        let mut ret = Self { bits: B::default(), depth: quadrants.len() as u8 };
        fill(&mut ret, 0, quadrants);
        Ok(ret)''',1),
  (M2,'''        let mut ret = *self;
        for (offset, cell) in cells.iter().enumerate() {
            unsafe {
                ret.set_cell_at_level_unchecked(self.depth as usize + offset, *cell);
            }
        }
        ret.depth = new_depth as u8;
        Some(ret)''','''        let mut ret = Self { depth: new_depth as u8, ..*self };
        fill(&mut ret, self.depth(), cells);
        Some(ret)'''),
  (M2,'''        for (level_offset, cell) in cells.iter().enumerate() {
            unsafe {
                ret.set_cell_at_level_unchecked(self.depth as usize + level_offset, *cell);
            }
        }''','''        fill(&mut ret, self.depth, cells);'''))
add('tidy-dyn3',
  (M3, 'impl DynamicStorage3D {', '''impl DynamicStorage3D {
    const fn bytes_for(depth: usize) -> usize {
        let (full, rest) = (depth / 8, depth % 8);
        full * 3 + match rest { 0 => 0, 1..=2 => 1, 3..=5 => 2, _ => 3 }
    }'''),
  (M3, 'let num_bytes = (depth / 8) * 3 + ((depth % 8) * 3 + 7) / 8;', 'let num_bytes = Self::bytes_for(depth);'),
  e(M3,_3,"fn ancestor(&self, generations: std::num::NonZeroUsize)",'''        let new_depth = self.depth.checked_sub(generations.get())?;
        let keep = Self::bytes_for(new_depth);
        let mut bits = self.bits[self.bits.len() - keep..].to_vec();
        let spare = keep * 8 - new_depth * 3;
        if let Some(first) = bits.first_mut() {
            *first = (*first >> spare) << spare;
        }
        Some(Self { bits, depth: new_depth })''',2),
  e(M3,_3,"fn descendant(&self, cells: &[<Dim3D as Dimension>::Cell])",'''        let depth = self.depth + cells.len();
        let mut bits = vec![0u8; Self::bytes_for(depth)];
        let at = bits.len() - self.bits.len();
        bits[at..].copy_from_slice(&self.bits);
        let mut ret = Self { bits, depth };
        let mut level = self.depth;
        let mut rest = cells;
        while let [first, tail @ ..] = rest {
            unsafe { ret.set_cell_at_level_unchecked(level, *first) };
            level += 1;
            rest = tail;
        }
        Some(ret)''',1))
add('dyn-vecdeque',   # growing from the front by insertion
  e(M2,_2,"fn descendant(&self, cells: &[<Dim2D as Dimension>::Cell])",'''        let mut ret = self.clone();
        for cell in cells {
            if ret.depth % 4 == 0 { ret.bits.insert(0, 0); }
            ret.depth += 1;
            let level = ret.depth - 1;
            unsafe { ret.set_cell_at_level_unchecked(level, *cell) };
        }
        Some(ret)''',1),
  e(M2,_2,"fn ancestor(&self, generations: std::num::NonZeroUsize)",'''        if self.depth < generations.get() { return None; }
        let depth = self.depth - generations.get();
        let mut ret = self.clone();
        for level in depth..self.depth { unsafe { ret.set_cell_at_level_unchecked(level, Quadrant::Zero) } }
        let surplus = ret.bits.len() - (depth + 3) / 4;
        ret.bits.drain(..surplus);
        ret.depth = depth;
        Some(ret)''',2))
add('anc-mask',  # static ancestors by masking
  e(M2,_2,"fn ancestor(&self, generations: std::num::NonZeroUsize)",'''        let depth = (self.depth as usize).checked_sub(generations.get())?;
        let bits = unsafe {
            let mut b = B::default();
            let r = B::BITS - 2 * depth..B::BITS;
            if depth > 0 { b.set_bits(r.clone(), self.bits.get_bits(r)); }
            b
        };
        Some(Self { bits, depth: depth as u8 })''',1),
  e(M3,_3,"fn ancestor(&self, generations: std::num::NonZeroUsize)",'''        let gen: u8 = std::convert::TryInto::try_into(generations.get()).ok()?;
        let depth = self.depth.checked_sub(gen)?;
        let mut ret = Self { bits: B::default(), depth };
        for l in 0..depth as usize { unsafe { ret.set_cell_at_level_unchecked(l, self.get_cell_at_level_unchecked(l)) } }
        Some(ret)''',1))
add('check-fn',
  (M2, '''        if level >= self.depth() {
            panic!("level must not be >= self.depth()");
        }
        unsafe { self.storage.get_cell_at_level_unchecked(level) }''','''        self.check_level(level);
        unsafe { self.get_cell_at_level_unchecked(level) }'''),
  (M2, '''        if level >= self.depth() {
            panic!("level must not be >= self.depth()");
        }
        unsafe { self.storage.set_cell_at_level_unchecked(level, cell) }''','''        self.check_level(level);
        unsafe { self.set_cell_at_level_unchecked(level, cell) }'''),
  (M2, 'impl<S: Storage<Dim2D> + Copy> Copy for', '''impl<S: Storage<Dim2D>> MortonIndex2D<S> {
    #[track_caller]
    fn check_level(&self, level: usize) { assert!(level < self.storage.depth(), "level {} must not be >= self.depth() ({})", level, self.storage.depth()); }
}
impl<S: Storage<Dim2D> + Copy> Copy for'''),
  (M3, '''        if level >= self.depth() {
            panic!("level must not be >= self.depth()");
        }
        unsafe { self.storage.set_cell_at_level_unchecked(level, cell) }''','''        match level {
            l if (0..self.depth()).contains(&l) => unsafe { self.storage.set_cell_at_level_unchecked(l, cell) },
            _ => panic!("level must not be >= self.depth()"),
        }'''))
add('names',
  (M2, '''(0..self.depth())
                .map(|level| {
                    // Safe because we know the depth
                    let cell = unsafe { self.get_cell_at_level_unchecked(level) };
                    std::char::from_digit(cell.index() as u32, 10).unwrap()
                })
                .collect::<String>(),''','''{
                let mut name = String::with_capacity(self.depth());
                for level in 0..self.depth() {
                    name.push((b'0' + self.get_cell_at_level(level).index() as u8) as char);
                }
                name
            }'''),
  (M3, 'format!("r{}", self.to_string(MortonIndexNaming::CellConcatenation))','''{
                let mut s = self.to_string(MortonIndexNaming::CellConcatenation);
                s.insert(0, 'r');
                s
            }'''),
  (M3, '''                format!(
                    "{}-{}-{}-{}",
                    self.depth(),
                    grid_index.x,
                    grid_index.y,
                    grid_index.z
                )''','''                [self.depth(), grid_index.x, grid_index.y, grid_index.z].iter().map(|n| n.to_string()).collect::<Vec<_>>().join("-")'''))
add('vecbits-bitwise',
  (NU, fn(_n,'unsafe fn set_vec_u8_bits('), '''unsafe fn set_vec_u8_bits(vec: &mut Vec<u8>, bit_range: Range<usize>, new_value: &[u8]) {
    for (at, bit) in bit_range.enumerate().map(|(i, b)| (b, (new_value[i / 8] >> (i % 8)) & 1)) {
        let byte = &mut vec[at / 8];
        *byte = (*byte & !(1 << (at % 8))) | (bit << (at % 8));
    }
}'''),
  )
add('iter-rev',
  e(IM,_i,'fn next(&mut self)','''        if self.index < self.storage.depth() {
            let cell = unsafe { self.storage.get_cell_at_level_unchecked(self.index) };
            self.index += 1;
            Some(cell)
        } else {
            None
        }'''),
  (MO, fn(_m,'fn inverted(&self)'), '''fn inverted(&self) -> Self
    where
        Self: Sized + Clone,
    {
        let mut ret = self.clone();
        for (to, from) in (0..self.depth()).zip((0..self.depth()).rev()) {
            ret.set_cell_at_level(to, self.get_cell_at_level(from));
        }
        ret
    }'''))
add('gain-default',  # a provided method joins a public trait
  (MO, '    /// Returns an inverted Morton index. This', '''    /// Is this the root node?
    fn is_root(&self) -> bool {
        self.depth() == 0
    }
    /// Returns an inverted Morton index. This'''),
  (ST, '    /// The current depth of the index stored within this storage type\n', '''    /// Does this storage hold no cells?
    fn is_empty(&self) -> bool {
        self.depth() == 0
    }
    /// The current depth of the index stored within this storage type
'''))
add('gain-required',
  (NU, '    /// Returns the size of', '''    /// Returns the size of''') if '    /// Returns the size of' in _n else (NU, 'const BITS: usize;', 'const BITS: usize;\n    fn is_zero(&self) -> bool;'),
  (NU, 'macro_rules! impl_bits {\n    () => {', 'macro_rules! impl_bits {\n    () => {\n        fn is_zero(&self) -> bool { *self == 0 }'),
  (NU, 'impl Bits for Vec<u8> {', 'impl Bits for Vec<u8> {\n    fn is_zero(&self) -> bool { self.iter().all(|b| *b == 0) }'))
add('private-rename',
  (M2, 'bits: B,\n    depth: u8,', 'word: B,\n    level_count: u8,'),
  )
R[:] = [r for r in R if r['id'] != 'private-rename']
add('cmp-tuple',
  e(M2,_2,'fn cmp(&self, other: &Self) -> Ordering','''        let n = self.depth().min(other.depth());
        let r = B::BITS - 2 * n..B::BITS;
        let (a, b) = if n == 0 { (B::default(), B::default()) } else { unsafe { (self.bits.get_bits(r.clone()), other.bits.get_bits(r)) } };
        (a, self.depth).cmp(&(b, other.depth))''',0),
  e(M3,_3,'fn cmp(&self, other: &Self) -> std::cmp::Ordering','''        let shared = if self.depth < other.depth { self.depth() } else { other.depth() };
        for level in 0..shared {
            let (a, b) = unsafe { (self.get_cell_at_level_unchecked(level), other.get_cell_at_level_unchecked(level)) };
            match a.cmp(&b) { Ordering::Equal => (), different => return different }
        }
        self.depth.cmp(&other.depth)''',0))
add('conv2',
  e(M3,_3,'fn from(fixed_index: MortonIndex3D<StaticStorage3D<B>>)','''        let cells = (0..fixed_index.depth()).map(|l| fixed_index.get_cell_at_level(l)).collect::<Vec<_>>();
        Self { storage: DynamicStorage3D::try_from(&cells[..]).unwrap_or_default() }''',0),
  e(M2,_2,'fn from(fixed_index: MortonIndex2D<FixedDepthStorage2D<B>>)','''        let mut bits = Vec::new();
        bits.extend_from_slice(unsafe { fixed_index.storage.bits.as_u8_slice() });
        if cfg!(target_endian = "big") { bits.reverse(); }
        let depth = fixed_index.storage.depth();
        Self { storage: DynamicStorage2D { depth, bits } }''',1),
  e(M2,_2,'fn try_from(value: MortonIndex2D<DynamicStorage2D>)','''        let max_depth = StaticStorage::<Dim2D, B>::MAX_LEVELS;
        let depth = value.depth();
        if depth > max_depth {
            return Err(crate::Error::DepthLimitedExceeded { max_depth });
        }
        let mut storage = StaticStorage2D { bits: B::default(), depth: depth as u8 };
        for (level, cell) in value.cells().enumerate() {
            unsafe { storage.set_cell_at_level_unchecked(level, cell) };
        }
        Ok(Self { storage })''',1))
add('disp-first',
  e(HE,_h,"fn fmt(&self, f: &mut std::fmt::Formatter<'_>)",'''        f.write_str("[")?;
        if let Some((first, rest)) = self.morton_indices.split_first() {
            f.write_str(&first.to_string(self.naming))?;
            for index in rest {
                f.write_str(", ")?;
                f.write_str(&index.to_string(self.naming))?;
            }
        }
        f.write_str("]")''',1))
add('disp-join',
  e(HE,_h,"fn fmt(&self, f: &mut std::fmt::Formatter<'_>)",'''        let names: Vec<String> = self.morton_indices.iter().map(|i| i.to_string(self.naming)).collect();
        write!(f, "[{}]", names.join(", "))''',1))
add('bits-u128',  # the integer helpers through the widest integer
  (NU, fn(_n,'pub fn add_two_zeroes_before_every_bit_u32'), '''pub fn add_two_zeroes_before_every_bit_u32(val: u32) -> u64 {
    let mut ret = 0u64;
    let mut bit = 0;
    while bit < 21 {
        ret |= u64::from((val >> bit) & 1) << (3 * bit);
        bit += 1;
    }
    ret
}'''),
  (NU, fn(_n,'pub fn add_two_zeroes_before_every_bit_u8'), '''pub fn add_two_zeroes_before_every_bit_u8(val: u8) -> u32 {
    (0..8).filter(|b| val & (1 << b) != 0).map(|b| 1u32 << (3 * b)).sum()
}'''))
add('fast-general',
  e(M3,_3,'pub fn from_grid_index_fast(','''        let [x, y, z] = [grid_index.x, grid_index.y, grid_index.z].map(|c| (c & ((1 << 21) - 1)) as u32);
        let (sx, sy, sz) = ordering.get_bit_shifts_for_xyz();
        let spread = [(x, sx), (y, sy), (z, sz)].into_iter().fold(0u64, |acc, (c, s)| acc | add_two_zeroes_before_every_bit_u32(c) << s);
        Self::from_raw_index(spread << 1)'''))
REFACT=R
