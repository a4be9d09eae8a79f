import json
P=[]
M2="src/indices/morton_index_2d.rs";M3="src/indices/morton_index_3d.rs";ST="src/indices/storage.rs";NU="src/number.rs";MO="src/morton.rs";IM="src/indices/mod.rs";D2="src/dimensions/dim_2d.rs";D3="src/dimensions/dim_3d.rs"
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

bitstate=[("bits","cells packed from the most significant bit downwards",M2+" / "+M3+" storage structs"),("depth","number of levels in use (static and dynamic storage)",M2+" / "+M3)]
p("C01","Cells given at construction are read back level by level",
 "An index built from a list of cells that fits its capacity has depth equal to the number of cells (for fixed-depth types: the fixed depth, with every level past the given ones holding cell zero). Reading any level below the depth, through the checked or the unchecked accessor, returns exactly the cell given for that level.",
 ["inputs"],"every index type (2D/3D; fixed-depth, static, dynamic; 8 to 128 bit), every number of cells up to capacity, every combination of cell values, every level; slice and array constructors",
 "The tests draw a few random cell lists at maximum depth (the 3D helper never draws octants 4..7); all cell values at all depths and levels is 2^128 cases.",
 [ST,M2,M3,NU,MO],[("TryFrom<&[Cell]> / TryFrom<[Cell; N]>",M2+", "+M3),("get_cell_at_level(_unchecked)",MO+", "+ST)],bitstate,["get_cell_at_level","get_cell_at_level_unchecked","depth"])
p("C02","Setting one cell changes that cell and nothing else",
 "Setting the cell at a level below the depth, through the checked or the unchecked accessor, yields exactly the index whose cell list differs from the old one at that level only: the depth and all other cells are unchanged and the result equals the index built from the updated cell list.",
 ["inputs"],"every index type, depth, level below the depth, old cell values and new cell value",
 "Tests write into a zeroed index in level order and read back; overwriting a non-zero cell and the frame condition on the other levels are hardly sampled.",
 [ST,M2,M3,NU,MO],[("set_cell_at_level(_unchecked)",MO+", "+ST),("Bits::set_bits / set_bits_from_usize",NU)],bitstate,["set_cell_at_level","set_cell_at_level_unchecked"])
p("C03","Checked cell access panics for every level at or past the depth",
 "The checked cell accessors panic for every level greater than or equal to the index's depth, up to the largest representable level, and never panic for a level below the depth. A rejected access never returns normally, and a rejected write leaves the index as it was.",
 ["inputs"],"every index type, every depth and every level value",
 "One out-of-range level per type is tested.",
 [M2,M3,MO],[("level guard in get_cell_at_level / set_cell_at_level",M2+", "+M3)],bitstate,["get_cell_at_level","set_cell_at_level"])
p("C04","Requests beyond capacity are rejected and the capacity is reported",
 "Every operation that would need more levels than a fixed-depth or static index type can hold - building from too many cells, a zeroed index or a grid index that is too deep, a too deep descendant or child, converting a too deep dynamic index - returns its error or None instead of truncating or panicking, and the error names the type's capacity. Requests at or below the capacity are accepted; the capacity is the number of storage bits divided by the dimension, is what max_depth reports, and dynamic indices have none.",
 ["inputs"],"every index type, every requested depth or cell count, including ones far beyond the capacity",
 "Tests use capacity + 1 for the constructor and one full index for child; boundaries of the other operations, and lengths that wrap a narrow depth field, are not tried.",
 [M2,M3,ST,"src/error.rs"],[("length checks against MAX_LEVELS",M2+", "+M3),("StorageType::MAX_LEVELS / max_depth",ST)],bitstate,["TryFrom","from_grid_index","zeroed","descendant","child","max_depth"])
p("C05","Ancestors are exact prefixes",
 "For a variable-depth index of depth d, the ancestor g generations up is, for every g from 1 to d, equal to the index built from its first d-g cells; for every larger g it is None. The parent is the ancestor one generation up (None for the root), and with_depth(n) is the index built from the first n cells for every n up to d and None beyond.",
 ["inputs"],"static and dynamic index types in both dimensions, every depth, generation count and cell values",
 "Tests use one or two generation counts at one or two depths; byte-boundary cases of the dynamic storage depend on both numbers.",
 [M2,M3,MO],[("VariableDepthStorage::ancestor",M2+", "+M3),("VariableDepthMortonIndex::parent / with_depth",MO)],bitstate,["ancestor","parent","with_depth"])
p("C06","Descendants append exactly the given cells",
 "For a variable-depth index, the descendant along a list of cells equals the index built from its own cells followed by the given ones, whenever that fits the capacity (always, for dynamic indices); child appends one cell. The index it is derived from is unchanged.",
 ["inputs"],"static and dynamic index types in both dimensions, every depth, number of appended cells and all cell values",
 "Tests append to a root, or two cells to one depth; growth across byte boundaries at other depths is not tried.",
 [M2,M3,MO],[("VariableDepthStorage::descendant",M2+", "+M3),("VariableDepthMortonIndex::child",MO)],bitstate,["descendant","child"])
p("C07","Equality and hash depend on exactly the depth and the cells",
 "Two indices of the same type are equal if and only if they have the same depth and the same cell at every level, no matter by which sequence of safe operations each was produced (indices built from raw bits count only with a valid depth and zero bits past their last level). Equal indices feed identical data to a hasher.",
 ["inputs","histories"],"every index type, every pair of cell lists, every history of constructors, setters, ancestor/descendant steps, grid and storage conversions",
 "Tests compare a value with itself after one round trip; leftover bits or spare storage bytes from another history are never compared.",
 [M2,M3],[("PartialEq / Eq / Hash on storage types",M2+", "+M3),("zeroing of unused bits; size of the dynamic byte vector",M2+", "+M3)],bitstate,["PartialEq::eq","Hash::hash"])
p("C08","Indices sort in tree order",
 "Comparing two indices of the same type compares their cell lists lexicographically from the root, by cell number, with an ancestor before all its descendants; sorting therefore yields a pre-order walk of the tree. Comparison is total, agrees with equality, and partial_cmp, the comparison operators, min and max agree with cmp.",
 ["inputs"],"every index type, every pair of depths and every pair of cell lists",
 "Tests sort random indices and check only a necessary condition on neighbours; prefix pairs and equal prefixes hardly occur at random.",
 [M2,M3,D2,D3],[("Ord / PartialOrd for storages",M2+", "+M3),("derived Ord of Quadrant / Octant",D2+", "+D3)],bitstate,["Ord::cmp","PartialOrd::partial_cmp"])
p("C09","Grid index of a cell path places every bit where the ordering says",
 "For an index of depth d (d at most the width of usize), to_grid_index with a cell ordering returns, per axis, the d-bit number whose bit d-1-l is the axis bit that the ordering assigns to the cell at level l; all higher bits are zero. It never panics for such depths.",
 ["inputs"],"every index type, depth, cell values and ordering",
 "Round-trip tests at a few depths cannot see an error that the inverse repeats.",
 [M2,M3,D2,D3],[("to_grid_index",M2+", "+M3),("QuadrantOrdering::to_index / OctantOrdering::to_index",D2+", "+D3)],bitstate,["to_grid_index"])
p("C10","Building from a grid index is the exact inverse of reading it",
 "from_grid_index(g, d, ordering) returns the index of depth d whose grid index is g, for every depth the type accepts (fixed-depth types: their own depth; static types: up to their capacity; dynamic types: up to half the width of usize): the cell at level l is the one the ordering maps to bit d-1-l of each coordinate, and coordinate bits at or above d are ignored. It equals the index built from those cells.",
 ["inputs"],"every index type, every accepted grid depth, every coordinate value and ordering",
 "Tests round-trip random indices at maximum depth, one less, and one; intermediate depths exercise different chunking and are not tried.",
 [M2,M3,NU],[("from_grid_index and its chunk loops",M2+", "+M3),("bit spreading helpers",NU)],bitstate,["from_grid_index"])
p("C11","Cell orderings are the documented axis permutations",
 "Each cell ordering maps cell numbers to axis positions by the bit permutation its name documents: the first named axis takes bit 0 of the cell number, the second bit 1, and so on. The per-axis bit shifts an octant ordering reports are exactly that permutation, the default orderings are XY and XYZ, and every ordering is a bijection between cells and axis positions.",
 ["inputs"],"all orderings, all cells",
 "The 3D test only compares two tables of the implementation with each other, so a consistent error in both is not seen.",
 [D2,D3],[("to_index",D2+", "+D3),("get_bit_shifts_for_xyz",D3)],None,["to_index","get_bit_shifts_for_xyz","Default::default"])
p("C12","Cell numbers and cells correspond one to one",
 "Quadrants correspond to 0..4 and octants to 0..8: converting a number to a cell and back (by value, by reference or with index()) gives the same number, every number outside the range is rejected with the out-of-range error, and cells compare and equal like their numbers and equal cells hash alike.",
 ["inputs"],"all cells, every usize",
 "Nothing tests numbers outside the range or the comparison of cells.",
 [D2,D3],[("TryFrom<usize>, Into<usize>, derived Ord",D2+", "+D3)],None,["TryFrom::try_from","Into::into","index"])
p("C13","Converting between storage types keeps the index",
 "Converting an index between fixed-depth, static and dynamic storage (same dimension, and same bit width where both have one) preserves depth and every cell, and equals the index built directly from those cells. Converting a shallower index to fixed-depth storage fills the remaining levels with cell zero.",
 ["inputs"],"all conversions of both dimensions and all widths, every source depth and all cell values",
 "Tests convert full-depth indices and ones two levels short, which never changes the number of storage bytes.",
 [M2,M3,NU],[("From / TryFrom between MortonIndex types",M2+", "+M3),("Bits::from_u8_slice, as_u8_slice",NU)],bitstate,["From::from","TryFrom::try_from"])
p("C14","Names spell out the cells or the grid position",
 "CellConcatenation gives exactly one decimal digit per level, in level order, equal to the cell number (empty for the root); CellConcatenationWithRoot is the same with a leading 'r'. GridIndex gives the depth and then each coordinate of the grid index in default ordering (x, y and in 3D z) in decimal, joined by '-'.",
 ["inputs"],"every index type, depth and cell values",
 "No test checks any name.",
 [M2,M3,MO],[("MortonIndex::to_string",M2+", "+M3)],None,["to_string"])
p("C15","Bit-range access on integers touches exactly the range",
 "For unsigned integers, reading bits a..b (a < b <= width) returns exactly those bits as a number, and writing a value that fits in b-a bits to that range makes those bits equal the value and leaves every other bit unchanged, also through the usize-typed variants.",
 ["inputs"],"u8, u16, u32, u64, u128, usize; every bit range; every value",
 "Tests check a handful of ranges of u8 and u16 on all-ones or zero values; u32, u64, u128 are only exercised indirectly.",
 [NU],[("impl_bits! get_bits / set_bits",NU)],None,["Bits::get_bits","Bits::set_bits","Bits::get_bits_as_usize","Bits::set_bits_from_usize"])
p("C16","Bit spreading helpers insert zeros exactly",
 "The bit spreading helpers move bit i of their input to bit 2i (one-zero-before variants), 2i+1 (one-zero-behind) or 3i (two-zeroes-before) and set every other result bit to zero, for every bit in their documented input width; the 32-to-64-bit variant ignores input bits above 21.",
 ["inputs"],"every input value that the helper documents (4-bit, 8-bit, 21-bit)",
 "Tests check sparse values and runs of ones from bit 0, not every bit in every context.",
 [NU],[("add_zero_* / add_two_zeroes_* mask-and-shift ladders",NU)],None,["add_zero_before_every_bit_u8","add_zero_behind_every_bit_u8","add_zero_before_every_bit_u16","add_two_zeroes_before_every_bit_u8","add_two_zeroes_before_every_bit_u32"])
p("C17","Inversion reverses the cells",
 "inverted() equals the index of the same depth whose cell list is the reverse of the original's, and leaves the original unchanged.",
 ["inputs"],"every index type, depth and cell values",
 "One random index per type at maximum depth is tested.",
 [MO],[("MortonIndex::inverted",MO)],None,["inverted"])
p("C18","Iterating cells visits every level once, in order",
 "cells() yields exactly the cells at levels 0, 1, ... up to the depth, in that order, and then None, and keeps yielding None when asked again.",
 ["inputs","histories"],"every index type, depth and cell values; any number of next() calls",
 "Tests collect the iterator of one random index per type and never call next() after the end.",
 [IM,M2,M3],[("CellIter::next",IM),("IntoIterator for storages",M2+", "+M3)],[("CellIter.index","next level to yield",IM)],["cells","Iterator::next"])
p("C19","Aligning rounds up to the next multiple",
 "align_to returns the value itself for alignment 0, and otherwise the smallest multiple of the alignment that is not below the value, whenever that multiple fits the integer type; it does not overflow in that case.",
 ["inputs"],"u8, u16, u32, u64, u128, usize; every value and alignment",
 "There is no test of align_to.",
 ["src/align.rs"],[("Alignable::align_to",  "src/align.rs")],None,["align_to"])
p("C20","Displayable slices show and compare like the slice",
 "A displayable slice prints '[', the names of its indices in order under the chosen naming separated by ', ', and ']' - '[]' for an empty slice - for both Display and Debug. Two displayable slices compare and equal exactly as the underlying slices do.",
 ["inputs"],"slices of every length, any index type, all namings",
 "There is no test of the helper.",
 ["src/helper.rs"],[("Display / Debug / Ord for DisplayableMortonIndexSlice","src/helper.rs")],None,["make_displayable","Display::fmt","Ord::cmp"])
p("C21","Safe operations never cause undefined behaviour",
 "No sequence of safe calls on in-memory indices makes the library read or write outside an allocation, read uninitialised memory, use a dangling, null or misaligned pointer, break the contract of an unsafe function it calls, or produce an invalid value (raw bits given with a depth beyond the capacity excepted).",
 ["inputs","histories"],"every safe public operation on every index type, all depths and cell values",
 "Undefined behaviour can pass a test silently; the suite is not run under a checker and uses few depths.",
 [ST,NU,IM,M2,M3,MO],[("level and length guards before unsafe blocks",M2+", "+M3),("pointer read in set_vec_u8_bits",NU)],None,["every safe public operation"])
p("C22","Results do not depend on byte order or pointer width",
 "Building, reading, setting, ancestor and descendant steps, comparing, grid conversions, names and storage conversions behave as specified on big-endian and on 32-bit targets exactly as on 64-bit little-endian ones, for all index types whose fixed depth fits the pointer width.",
 ["configurations","inputs"],"big-endian and 32-bit targets, every index type, depth and cell values",
 "The tests only ever run on one little-endian 64-bit machine; code behind cfg(target_endian = \"big\") is not even compiled.",
 [NU,M2,M3,ST],[("cfg(target_endian) branches, bytes_of, from_u8_slice, read_unaligned",NU+", "+M2+", "+M3)],None,["the operations listed"])
p("C23","Default and zeroed indices hold only zero cells",
 "The default index is the root (depth 0) for variable-depth types and the all-zero index for fixed-depth types; zeroed(d) has depth d and equals the index built from d zero cells (a depth that memory cannot hold ends in an allocation failure, never in an index); a clone equals its original, and changing the clone leaves the original unchanged.",
 ["inputs"],"every index type, every depth",
 "zeroed is only used at one depth as a starting point; it is never compared with another index.",
 [M2,M3],[("Default, zeroed, Clone",M2+", "+M3)],bitstate,["Default::default","zeroed","Clone::clone"])
p("C24","Raw bits are cells from the most significant bit down",
 "A 3D index built from raw bits has at level l the octant formed by the three bits starting 3*l below the most significant bit, and the given depth (fixed-depth types: their fixed depth). When all bits past its last level are zero it equals the index built from those octants.",
 ["inputs"],"fixed-depth and static 3D types of every width, every raw value, every depth up to capacity",
 "from_raw_index is not tested.",
 [M3],[("from_raw_index",M3)],None,["from_raw_index"])
p("C25","The fast 64-bit grid conversion equals the general one",
 "from_grid_index_fast returns, for every grid index and ordering, exactly the index that from_grid_index returns for the 64-bit fixed-depth 3D type.",
 ["inputs"],"every coordinate triple (3 x 64 bits) and every ordering",
 "from_grid_index_fast is only timed in a benchmark, never compared.",
 [M3],[("from_grid_index_fast",M3)],None,["from_grid_index_fast"])
p("C26","No operation panics or overflows on input within its contract",
 "Apart from the documented rejections (level at or past the depth in checked accessors, reading the grid index of a depth wider than usize, a dynamic grid depth above half the width of usize, a dynamic index too large for memory), no public operation on indices, cells or orderings panics or relies on integer overflow for any input, so debug and release builds behave alike.",
 ["inputs"],"every public operation, every index type, all arguments within the stated contract, including depth 0 and full depth",
 "Tests never use depth 0 or 1 at the extremes of the widths and run with one setting of overflow checks.",
 [M2,M3,NU,ST,MO],[("shift and subtraction arithmetic on depths and bit positions",M2+", "+M3+", "+NU)],None,["every public operation"])
p("C27","Bit-range access on byte vectors touches exactly the range",
 "For a byte vector, read as one little-endian bit string, reading bits a..b returns exactly those bits (as bytes or as usize), and writing a value of b-a bits makes those bits equal the value and leaves every other bit and the length unchanged.",
 ["inputs"],"byte vectors of every length, every bit range (up to the usize width for the usize-typed variants), every content",
 "Tests check about ten ranges of one 4-byte vector.",
 [NU],[("Bits for Vec<u8>, set_vec_u8_bits",NU)],None,["Bits::get_bits","Bits::set_bits","Bits::get_bits_as_usize","Bits::set_bits_from_usize"])
p("C28","Numbers and byte slices convert to storage bits value for value",
 "Converting an unsigned integer to another width through the bit-storage trait keeps its low bits and fills with zeros; the byte-slice view of an integer is its memory image, and building an integer from a byte slice in a named byte order gives the number that the slice's first bytes, as many as the number has and with missing trailing ones taken as zero, spell in that order. A byte vector made from an integer converts back to the same integer. A byte vector made from a byte slice in a named byte order holds the slice's bytes in the machine's order.",
 ["inputs"],"u8, u16, u32, u64, u128, usize and byte vectors; every value; slices shorter than, equal to and longer than the number; both byte orders",
 "No test calls these conversions; only the storage conversions use some of them, at full length.",
 [NU],[("impl_bits! as_uN / from_uN / as_u8_slice / from_u8_slice",NU),("Bits for Vec<u8>",NU)],None,["Bits::as_*","Bits::from_*","Bits::as_u8_slice","Bits::from_u8_slice"])
p("C29","Results do not depend on how an index came about",
 "Whatever sequence of constructors, writes, copies, ancestor, descendant, inversion, grid and conversion steps produced an index, every later operation on it gives exactly what it gives for the index built directly from the same cells; operations on other indices before, of the same or of another type, make no difference. Changing an index never changes the index it was copied or derived from, nor the other way round.",
 ["histories","inputs"],"every index type, depth and cell values; histories composed of every constructor, setter, copy, ancestor/descendant, inversion, grid and conversion step, followed by every operation",
 "Tests observe an index right after building it by one route; leftovers of one operation that only a later, different one exposes (spare bytes, stale bits, shared buffers, memoised results) are not observed.",
 [M2,M3,MO,ST],[("zeroing of unused bits; size of the dynamic byte vector",M2+", "+M3),("From / TryFrom between storages",M2+", "+M3)],bitstate,["every operation of the index types"])
p("C30","Operations are pure, and every type may be shared between threads",
 "The result of every operation depends on its arguments alone, and it leaves nothing behind but its result and the change to the index it is called on: the crate keeps no state between calls that can change (a table that is initialised once is none), calls no foreign code, does no input or output, consults no clock, environment, randomness, thread identity, address or unspecified iteration order, and its types hold no state that changes behind a shared reference. All index, storage, iterator, cell, ordering, naming and error types are Send, Sync, Unpin and unwind safe; indices with fixed-depth and static storage and cells are Copy.",
 ["schedules","histories","inputs"],"every function of the crate, every type; every interleaving of calls from any number of threads",
 "The tests run each operation once on one thread; state shared between calls or threads shows only in particular interleavings or histories.",
 [M2,M3,MO,NU,ST,IM,D2,D3,"src/helper.rs","src/align.rs"],[("all functions of the crate","src"),("all types of the crate","src")],None,["every public operation"])
p("C31","Storages used directly behave like the cells they hold",
 "The storage types are public and can be used without an index around them. A storage built from a cell slice or array that fits holds exactly those cells (longer ones are rejected with an error naming the capacity); depth, unchecked access, iteration, equality, hash, ordering, ancestor, descendant, copying, default and (dynamic) zeroed agree with the cell list as they do for indices; the reported maximum depth, level count and dimension are bits over dimension and the dimension. The cell accessors of the storage types, applied to a caller's own bits, write the bits of the named level only and read back what was written.",
 ["inputs"],"fixed-depth, static and dynamic storage of both dimensions and 8 to 128 bits, every cell value, depths over the whole range, every level; caller's bits of 8 to 64 bits with every content",
 "No test uses a storage without an index.",
 [ST,M2,M3,IM],[("Storage / VariableDepthStorage / StorageType implementations",ST+", "+M2+", "+M3),("IntoIterator for storages",M2+", "+M3)],bitstate,["Storage","VariableDepthStorage","StorageType","TryFrom","IntoIterator"])
p("C32","Misuse that would break an index is rejected at compile time",
 "Safe code outside the crate cannot read or write past an index or change it behind its back: a cell iterator, a displayable slice and a view of the bits borrow what they look into, so they can neither outlive it nor be used after a change to it; accessors without a level check, raw bit access and mutable byte views are unsafe to call; the storage inside an index, the depth of a storage and the position of an iterator cannot be reached from outside; cells, orderings and storages of one dimension are not accepted by the other; an ancestor zero generations up cannot be asked for; conversions that can lose levels are fallible in their type; fixed-depth indices have no ancestors; types with padding or invalid bit patterns do not claim to be plain data; and an index, iterator or displayable slice over storage that is not Send or Sync is not either.",
 ["configurations","inputs"],"every index, storage and bits type, every program of safe Rust (represented by one witness per kind of misuse and type) and every public signature",
 "A test only contains programs that compile; that a misuse is rejected is a statement about programs that must not exist.",
 [M2,M3,MO,ST,IM,NU,"src/helper.rs"],[("lifetimes of CellIter, cells, make_displayable, bits",IM+", "+M2+", "+M3+", src/helper.rs"),("unsafe fn on unchecked accessors",MO+", "+ST+", "+NU),("private fields",M2+", "+M3+", "+IM)],None,["every public signature"])
p("C33","Indices work over any storage or bit type that keeps its trait's contract",
 "The storage and bit traits are public, and implementors may keep the cells in any way they choose. An index over a storage from outside the crate reads, writes, rejects, iterates, names, inverts, compares, hashes, locates in the grid and derives exactly what that storage's cells are, whether the storage answers for its cells through its bits or itself, and however its bits are laid out; it uses the storage through the functions of its traits only. A fixed-depth or static index over an unsigned bit type from outside the crate, of up to 128 bits and of any width in whole bytes, behaves as one over an integer of that many bits: capacity, construction, access, equality, order, ancestors, descendants, grid indices, names and conversions. An index type from outside the crate gets from the provided functions of the index traits (inversion, parent, the ancestor at a depth, child) what its own cells, ancestors and descendants say.",
 ["configurations","inputs"],"storages from outside the crate of both dimensions (bits that hold the cells; cells held elsewhere); bit types from outside the crate of 24, 40, 64 and 96 bits; every depth and cell value",
 "All tests use the crate's own storages over built-in integers; code that relies on a built-in type's size, layout or identity passes them all.",
 [M2,M3,MO,ST,NU],[("generic implementations over Storage / VariableDepthStorage",M2+", "+M3),("generic implementations over FixedStorageType / Bits",ST+", "+M2+", "+M3),("default methods of MortonIndex and VariableDepthMortonIndex",MO)],bitstate,["Storage","VariableDepthStorage","Bits","MortonIndex2D","MortonIndex3D"])
p("C34","Storage types work over dimensions of any number of axes up to eight",
 "The dimension trait is public and the storage types are generic over it. For a dimension from outside the crate of one to eight axes, fixed-depth and static storage types over a bit type of any width report as capacity the number of its bits divided by the number of axes, and dynamic storage types none; all report the dimension they were given. On any bits, writing a cell at a level makes that level read as that cell and leaves every other level, and the bits that belong to no level, as they were, whichever bytes the cell lies in. A storage from outside the crate that relies on the provided methods of the storage trait holds exactly the cells written to it.",
 ["configurations","inputs"],"one to eight axes; u8 to u128 and byte vectors; every level, content and cell value",
 "All tests use the crate's two dimensions; code that assumes two or three bits per cell passes them all.",
 [ST,NU],[("StorageType for FixedDepthStorage / StaticStorage / DynamicStorage",ST),("provided methods of Storage",ST)],bitstate,["StorageType","Storage","Dimension","FixedDepthStorage","StaticStorage","DynamicStorage"])
p("C35","Fixed-depth and static indices never allocate",
 "Fixed-depth and static indices live without a heap: building them from cells (accepted or rejected), defaults and zeroed indices, reading and writing cells, cloning, comparing, ordering, hashing, walking over the cells, inversion, grid conversions including the fast one, ancestors, descendants, children and parents, raw values, and converting between the two kinds allocate no memory, for any cells, depth and width. A fixed-depth index takes exactly the memory of its bits, a static one that of its bits and its depth, and neither needs to be dropped. (Naming an index yields a string, and converting from or to a dynamic index involves one that has a heap; these are not covered.)",
 ["inputs"],"all fixed-depth and static types, every depth, all cell values and orderings",
 "No test looks at allocation; a collected intermediate vector gives the same results.",
 [M2,M3,ST,NU],[("impls for FixedDepthStorage / StaticStorage types",M2+", "+M3),("generic impls of MortonIndex2D / MortonIndex3D",M2+", "+M3),("README: dynamic number of levels without dynamic allocations","README.md")],bitstate,["FixedDepthStorage","StaticStorage"])
p("C36","Every operation gives back the memory it takes",
 "Whatever heap memory an operation of the library allocates is freed by the time its results have been dropped: no call on any index type, storage type, number type or helper leaks, whether it succeeds, returns an error or None, and in whatever order operations are combined. Tables that are built once and stay reachable from a static are not leaks.",
 ["inputs","histories"],"the entries of all other properties: every operation, type and abstract input",
 "No test measures memory; a leaked intermediate buffer changes no result.",
 [M2,M3,NU,MO],[("dynamic storage operations and conversions",M2+", "+M3),("Vec<u8> as Bits",NU),("naming and display","src/helper.rs, src/morton.rs")],bitstate,["DynamicStorage","Bits for Vec<u8>","to_string","make_displayable"])
import os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(V+'/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
