// Only here so that cargo builds the crate under analysis; the witnesses are in cases.rs.txt (see witness.py).
pub use bytemuck;
pub use morton_index;
