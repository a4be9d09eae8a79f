From 8603ff0932ffac41b47b800526392b0efe01a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:56 +0000
Subject: [PATCH 1/8] fix: StaticMortonIndex2D::from_grid_index no longer
 overflows its shift when the capacity reaches the width of usize

---
 src/indices/morton_index_2d.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 41f1c20..91c2e98 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -165,8 +165,9 @@ impl<B: FixedStorageType> MortonIndex2D<StaticStorage2D<B>> {
         // in `morton_index_3d.rs`
         let shift_to_max_bits =
             <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS - grid_depth;
-        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) << shift_to_max_bits };
-        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) << shift_to_max_bits };
+        // `MAX_LEVELS` can be as large as (or larger than) the number of bits in a `usize`, so we have to shift in a wider type
+        let x_bits = unsafe { (grid_index.x as u128).get_bits(0..grid_depth) << shift_to_max_bits };
+        let y_bits = unsafe { (grid_index.y as u128).get_bits(0..grid_depth) << shift_to_max_bits };
 
         let (lower_bits, higher_bits) = match ordering {
             QuadrantOrdering::XY => (x_bits, y_bits),
-- 
2.43.0


From 2d6823673454b4fc4310f2a8d96866490610c7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:56 +0000
Subject: [PATCH 2/8] fix: StaticMortonIndex3D::from_grid_index no longer drops
 levels of depths that straddle 8-level chunks

---
 src/indices/morton_index_3d.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 2646c84..98d43ee 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -337,9 +337,10 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
 
         let shift_to_max_bits =
             <FixedDepthStorage<Dim3D, B> as StorageType>::MAX_LEVELS - grid_depth;
-        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) << shift_to_max_bits };
-        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) << shift_to_max_bits };
-        let z_bits = unsafe { grid_index.z.get_bits(0..grid_depth) << shift_to_max_bits };
+        // `MAX_LEVELS` can be larger than the number of bits in a `usize`, so we have to shift in a wider type
+        let x_bits = unsafe { (grid_index.x as u128).get_bits(0..grid_depth) << shift_to_max_bits };
+        let y_bits = unsafe { (grid_index.y as u128).get_bits(0..grid_depth) << shift_to_max_bits };
+        let z_bits = unsafe { (grid_index.z as u128).get_bits(0..grid_depth) << shift_to_max_bits };
 
         let (x_shift, y_shift, z_shift) = ordering.get_bit_shifts_for_xyz();
 
@@ -353,9 +354,9 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
         // We also start setting the bits from the most significant chunk towards the least significant chunk!
         // This way, we make sure that we set the high bits first in cases where the grid_depth is smaller than
         // the MAX_LEVELS
-        let num_chunks = (grid_depth + 7) / 8;
+        // The shifted grid bits occupy `shift_to_max_bits..MAX_LEVELS`, so we need every chunk that contains one of those bits
         let max_chunks = (<FixedDepthStorage<Dim3D, B> as StorageType>::MAX_LEVELS + 7) / 8;
-        let chunk_start = max_chunks - num_chunks;
+        let chunk_start = shift_to_max_bits / 8;
         for chunk_index in (chunk_start..max_chunks).rev() {
             let start_bit = chunk_index * 8;
             let end_bit = start_bit + 8;
-- 
2.43.0


From a5c20a8a5540099f246e2b3df3e5882805b59e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:56 +0000
Subject: [PATCH 3/8] fix: DynamicStorage2D::zeroed allocates exactly the bytes
 its depth needs

---
 src/indices/morton_index_2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 91c2e98..7807ab9 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -624,7 +624,7 @@ pub struct DynamicStorage2D {
 impl DynamicStorage2D {
     pub fn zeroed(depth: usize) -> Self {
         Self {
-            bits: (0..=(depth / 4)).map(|_| 0_u8).collect(),
+            bits: vec![0; (depth + 3) / 4],
             depth,
         }
     }
-- 
2.43.0


From e60980d86086d2e00828bf0ed2a73c2dd64d00f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:12 +0000
Subject: [PATCH 4/8] fix: converting a shallow dynamic index to fixed-depth
 storage keeps its cells at the top levels

---
 src/indices/morton_index_2d.rs | 27 ++++++++++++++-------------
 src/indices/morton_index_3d.rs | 27 ++++++++++++++-------------
 2 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 7807ab9..0679d9a 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -5,7 +5,7 @@ use std::hash::Hash;
 use nalgebra::Vector2;
 
 use crate::dimensions::{Dim2D, Dimension, Quadrant, QuadrantOrdering};
-use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits, Endianness};
+use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits};
 use crate::{
     CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
     StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
@@ -870,18 +870,19 @@ impl<B: FixedStorageType> TryFrom<MortonIndex2D<DynamicStorage2D>>
                 max_depth: FixedDepthStorage::<Dim2D, B>::MAX_LEVELS,
             })
         } else {
-            // DynamicStorage2D stores its cells as BigEndian, FixedDepthStorage2D uses the native endianness of the current
-            // machine
-            #[cfg(target_endian = "little")]
-            let endianness = Endianness::LittleEndian;
-            #[cfg(target_endian = "big")]
-            let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
-            Ok(Self {
-                storage: FixedDepthStorage2D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
-                },
-            })
+            // The cells of a Morton index start at the most significant bits, so we can't simply copy the bytes if the dynamic
+            // index has fewer levels than the fixed-depth index
+            let mut ret: MortonIndex2D<FixedDepthStorage2D<B>> = Default::default();
+            for level in 0..value.depth() {
+                // Safe because of depth check above
+                unsafe {
+                    ret.set_cell_at_level_unchecked(
+                        level,
+                        value.get_cell_at_level_unchecked(level),
+                    );
+                }
+            }
+            Ok(ret)
         }
     }
 }
diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 98d43ee..5a3548f 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -9,7 +9,7 @@ use nalgebra::Vector3;
 use crate::{
     dimensions::{Dim3D, Dimension, Octant, OctantOrdering},
     number::{
-        add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, Bits, Endianness,
+        add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, Bits,
     },
     CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
     StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
@@ -935,18 +935,19 @@ impl<B: FixedStorageType> TryFrom<MortonIndex3D<DynamicStorage3D>>
                 max_depth: FixedDepthStorage::<Dim3D, B>::MAX_LEVELS,
             })
         } else {
-            // DynamicStorage3D stores its cells as BigEndian, FixedDepthStorage3D uses the native endianness of the current
-            // machine
-            #[cfg(target_endian = "little")]
-            let endianness = Endianness::LittleEndian;
-            #[cfg(target_endian = "big")]
-            let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
-            Ok(Self {
-                storage: FixedDepthStorage3D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
-                },
-            })
+            // The cells of a Morton index start at the most significant bits, so we can't simply copy the bytes if the dynamic
+            // index has fewer levels than the fixed-depth index
+            let mut ret: MortonIndex3D<FixedDepthStorage3D<B>> = Default::default();
+            for level in 0..value.depth() {
+                // Safe because of depth check above
+                unsafe {
+                    ret.set_cell_at_level_unchecked(
+                        level,
+                        value.get_cell_at_level_unchecked(level),
+                    );
+                }
+            }
+            Ok(ret)
         }
     }
 }
-- 
2.43.0


From 44af530f4382b9400619039b0e8d9405699ccdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:36 +0000
Subject: [PATCH 5/8] fix: align_to no longer overflows when the aligned value
 is representable

---
 src/align.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/align.rs b/src/align.rs
index 003a358..53c80d0 100644
--- a/src/align.rs
+++ b/src/align.rs
@@ -9,7 +9,10 @@ impl Alignable for u8 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -19,7 +22,10 @@ impl Alignable for u16 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -29,7 +35,10 @@ impl Alignable for u32 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -39,7 +48,10 @@ impl Alignable for u64 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -49,7 +61,10 @@ impl Alignable for u128 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
@@ -59,7 +74,10 @@ impl Alignable for usize {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match self % alignment {
+                0 => *self,
+                remainder => self + (alignment - remainder),
+            }
         }
     }
 }
-- 
2.43.0


From 2577b812ee0ec084de88d52d91b57d296e23f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:36 +0000
Subject: [PATCH 6/8] fix: Vec<u8>::get_bits no longer returns bits past the
 end of the range

---
 src/number.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 265fe5c..60e9c7a 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -320,19 +320,20 @@ impl Bits for Vec<u8> {
 
         let mut bytes = self[start_byte..end_byte].to_owned();
         for idx in 0..bytes.len() {
-            if idx > 0 && shift_within_byte > 0 {
-                // Take the part of the byte that gets shifted 'out' of the current byte, and move it over to the
-                // previous byte
-                let carry = bytes[idx].get_bits(0..shift_within_byte);
-                bytes[idx - 1].set_bits((8 - shift_within_byte)..8, carry);
-            }
             if idx == bytes.len() - 1 {
-                // Mask away the upper bits outside of the requested range on the last byte
+                // Mask away the upper bits outside of the requested range on the last byte. This has to happen before
+                // the carry, so that none of these bits end up in the previous byte
                 let excess_bits = (end_byte * 8) - bit_range.end;
                 // There can never be overflow here, because excess_bits always will be less than 8!
                 let mask = 0xFF_u8 >> excess_bits;
                 bytes[idx] &= mask;
             }
+            if idx > 0 && shift_within_byte > 0 {
+                // Take the part of the byte that gets shifted 'out' of the current byte, and move it over to the
+                // previous byte
+                let carry = bytes[idx].get_bits(0..shift_within_byte);
+                bytes[idx - 1].set_bits((8 - shift_within_byte)..8, carry);
+            }
             bytes[idx] >>= shift_within_byte;
         }
 
-- 
2.43.0


From 25de14e825c991c8ec94118469b6ae65d24e85ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:36 +0000
Subject: [PATCH 7/8] fix: setting bits of a Vec<u8> does not depend on the
 byte order of the target

---
 src/number.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 60e9c7a..7d36f2e 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -290,7 +290,7 @@ unsafe fn set_vec_u8_bits(vec: &mut Vec<u8>, bit_range: Range<usize>, new_value:
                 new_value[new_val_byte_idx].get_bits(dst_start_in_byte..dst_end_in_byte)
             } else {
                 let ptr = new_value.as_ptr().add(new_val_byte_idx) as *const u16;
-                let two_bytes = ptr.read_unaligned();
+                let two_bytes = u16::from_le(ptr.read_unaligned());
                 let start_bit_in_two_bytes = new_val_start_bit - (new_val_byte_idx * 8);
                 let end_bit_in_two_bytes = new_val_end_bit - (new_val_byte_idx * 8);
                 two_bytes.get_bits(start_bit_in_two_bytes..end_bit_in_two_bytes) as u8
@@ -445,8 +445,7 @@ impl Bits for Vec<u8> {
     }
 
     unsafe fn set_bits_from_usize(&mut self, bit_range: Range<usize>, new_value: usize) {
-        let bytes = bytemuck::bytes_of(&new_value);
-        set_vec_u8_bits(self, bit_range, bytes);
+        set_vec_u8_bits(self, bit_range, &new_value.to_le_bytes());
     }
 
     fn size(&self) -> usize {
-- 
2.43.0


From 7de83da6898f73162634f61dfdb6a457326d35ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:54 +0000
Subject: [PATCH 8/8] fix: zeroed dynamic indices no longer overflow their size
 computation for huge depths

---
 src/indices/morton_index_2d.rs | 4 +++-
 src/indices/morton_index_3d.rs | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 0679d9a..29feb66 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -623,8 +623,10 @@ pub struct DynamicStorage2D {
 
 impl DynamicStorage2D {
     pub fn zeroed(depth: usize) -> Self {
+        // Can't use `(depth + 3) / 4`, this overflows for huge depths
+        let num_bytes = depth / 4 + ((depth % 4) + 3) / 4;
         Self {
-            bits: vec![0; (depth + 3) / 4],
+            bits: vec![0; num_bytes],
             depth,
         }
     }
diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 5a3548f..c2f4af6 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -691,7 +691,8 @@ impl DynamicStorage3D {
     /// Returns a new `DynamicStorage3D` with the given `depth` and all bits set to zero, i.e. all cells equal
     /// to `Octant::Zero?`
     pub fn zeroed(depth: usize) -> Self {
-        let num_bytes = ((depth * 3) + 7) / 8;
+        // Can't use `((depth * 3) + 7) / 8`, this overflows for huge depths
+        let num_bytes = (depth / 8) * 3 + ((depth % 8) * 3 + 7) / 8;
         Self {
             bits: vec![0; num_bytes],
             depth,
-- 
2.43.0

