From 3d680f377f086cbfaff21c04e55a67a779e29a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:04 +0000
Subject: [PATCH 1/5] fix: Bitboard::shift_right(0|1) leaked a bit of file 8/9
 into the unused bit 63

---
 shogi_core/src/bitboard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shogi_core/src/bitboard.rs b/shogi_core/src/bitboard.rs
index 8dc553b..dd0219a 100644
--- a/shogi_core/src/bitboard.rs
+++ b/shogi_core/src/bitboard.rs
@@ -343,7 +343,7 @@ impl Bitboard {
         debug_assert!(delta <= 9);
         let data = if delta <= 1 {
             [
-                self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta),
+                (self.0[0] >> (9 * delta) | self.0[1] << (63 - 9 * delta)) & Self::MASK0,
                 self.0[1] >> (9 * delta),
             ]
         } else if delta <= 7 {
-- 
2.43.0


From 899d00cb081765464f5deb142405a5a9380b7f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:21 +0000
Subject: [PATCH 2/5] fix: PartialPosition::piece_set left king_position
 pointing at a removed king

---
 shogi_core/src/position.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/shogi_core/src/position.rs b/shogi_core/src/position.rs
index 56b2243..d1a72fb 100644
--- a/shogi_core/src/position.rs
+++ b/shogi_core/src/position.rs
@@ -601,11 +601,14 @@ impl PartialPosition {
         if let Some(piece) = piece {
             let piece_kind = piece.piece_kind();
             self.piece_bb[piece_kind.array_index()] |= single;
-            if let Piece::B_K = piece {
-                self.king_square[0] = OptionSquare::from(Some(square));
-            }
-            if let Piece::W_K = piece {
-                self.king_square[1] = OptionSquare::from(Some(square));
+        }
+        // A king may have been placed on, removed from or replaced on this square.
+        for color in Color::all() {
+            let king = Some(Piece::new(PieceKind::King, color));
+            if old == king || piece == king {
+                let mut kings =
+                    self.piece_kind_bitboard(PieceKind::King) & self.player_bitboard(color);
+                self.king_square[color.array_index()] = OptionSquare::from(kings.pop());
             }
         }
     }
-- 
2.43.0


From 3bf147bd62e82d5ced9acd6315dc1543eeac2fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 3/5] fix: align the arena of the no_std allocator to the
 alignment it promises

---
 shogi_core_c/src/no_std.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shogi_core_c/src/no_std.rs b/shogi_core_c/src/no_std.rs
index 522c9be..f6eb383 100644
--- a/shogi_core_c/src/no_std.rs
+++ b/shogi_core_c/src/no_std.rs
@@ -69,7 +69,12 @@ mod simple_alloc {
         remaining: AtomicUsize, // we allocate from the top, counting down
     }
 
-    static mut ARENA_BSS: UnsafeCell<[u8; ARENA_SIZE]> = UnsafeCell::new([0x00; ARENA_SIZE]);
+    // `alloc` aligns offsets from the start of the arena, so the arena itself must be aligned
+    // to MAX_SUPPORTED_ALIGN.
+    #[repr(C, align(4096))]
+    struct Arena(UnsafeCell<[u8; ARENA_SIZE]>);
+
+    static mut ARENA_BSS: Arena = Arena(UnsafeCell::new([0x00; ARENA_SIZE]));
 
     #[global_allocator]
     static ALLOCATOR: SimpleAllocator = SimpleAllocator {
@@ -107,7 +112,7 @@ mod simple_alloc {
             {
                 return null_mut();
             };
-            (ARENA_BSS.get() as *mut u8).add(allocated)
+            (ARENA_BSS.0.get() as *mut u8).add(allocated)
         }
         unsafe fn dealloc(&self, _ptr: *mut u8, _layout: Layout) {}
     }
-- 
2.43.0


From 176e32b5d823e6e0abc34e166448189de75b53b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 4/5] hook: contracts for the Kani verifier, under cfg(kani)
 and cfg(kani_contracts)

---
 shogi_core/src/bitboard.rs          |   51 ++
 shogi_core/src/color.rs             |    2 +
 shogi_core/src/contracts.rs         | 1319 +++++++++++++++++++++++++++
 shogi_core/src/game_resolution.rs   |    2 +
 shogi_core/src/hand.rs              |   15 +
 shogi_core/src/illegal_move_kind.rs |    3 +
 shogi_core/src/lib.rs               |    5 +
 shogi_core/src/mv.rs                |   11 +
 shogi_core/src/piece.rs             |   14 +
 shogi_core/src/piece_kind.rs        |   13 +
 shogi_core/src/position.rs          |   28 +
 shogi_core/src/square.rs            |   17 +
 12 files changed, 1480 insertions(+)
 create mode 100644 shogi_core/src/contracts.rs

diff --git a/shogi_core/src/bitboard.rs b/shogi_core/src/bitboard.rs
index dd0219a..2ac4587 100644
--- a/shogi_core/src/bitboard.rs
+++ b/shogi_core/src/bitboard.rs
@@ -25,12 +25,14 @@ impl Bitboard {
     /// ```
     /// `const`: since 0.1.3
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_empty(*r)))]
     pub const fn empty() -> Self {
         Self([0; 2])
     }
 
     /// C interface to [`Bitboard::empty`].
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_empty(*r)))]
     pub extern "C" fn Bitboard_empty() -> Self {
         Self::empty()
     }
@@ -45,11 +47,13 @@ impl Bitboard {
     /// ```
     /// `const`: since 0.1.3
     #[inline]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_single(square, *r)))]
     pub const fn single(square: Square) -> Self {
         Self::single_inlined(square)
     }
 
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_single(square, *r)))]
     pub(crate) const fn single_inlined(square: Square) -> Self {
         let index = square.array_index();
         let inner = if index < 63 {
@@ -62,6 +66,7 @@ impl Bitboard {
 
     /// C interface to [`Bitboard::single`].
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_single(square, *r)))]
     pub extern "C" fn Bitboard_single(square: Square) -> Self {
         Self::single(square)
     }
@@ -77,6 +82,7 @@ impl Bitboard {
     /// ```
     #[export_name = "Bitboard_count"]
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_count(self, *r)))]
     pub extern "C" fn count(self) -> u8 {
         (self.0[0].count_ones() + self.0[1].count_ones()) as u8
     }
@@ -95,6 +101,7 @@ impl Bitboard {
     /// ```
     #[export_name = "Bitboard_is_empty"]
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_is_empty(self, *r)))]
     pub extern "C" fn is_empty(self) -> bool {
         self.0 == [0; 2]
     }
@@ -109,6 +116,7 @@ impl Bitboard {
     /// assert!(!sq11.contains(Square::SQ_9I));
     /// ```
     #[export_name = "Bitboard_contains"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_contains(self, square, *r)))]
     pub extern "C" fn contains(self, square: Square) -> bool {
         let index = square.index() - 1;
         let overlap = if index < 63 {
@@ -129,6 +137,7 @@ impl Bitboard {
     /// assert_eq!(sq11.flip(), sq99);
     /// ```
     #[export_name = "Bitboard_flip"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_flip(self, *r)))]
     pub extern "C" fn flip(self) -> Self {
         let fst_rev = ((self.0[0] >> 17) | (self.0[1] << 46)) & !1;
         let snd_rev = self.0[0] << 46;
@@ -151,6 +160,8 @@ impl Bitboard {
     /// assert!(bitboard.pop().is_none()); // after `pop`ping twice `bitboard` becomes empty
     /// assert!(bitboard.is_empty());
     /// ```
+    #[cfg_attr(kani_contracts, kani::modifies(self))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_pop(old(*self), *self, *r)))]
     pub fn pop(&mut self) -> Option<Square> {
         let repr = self.to_u128();
         if repr == 0 {
@@ -172,6 +183,8 @@ impl Bitboard {
 
     /// C interface of [`Bitboard::pop`].
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::modifies(self))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_pop_c(old(*self), *self, *r)))]
     pub extern "C" fn Bitboard_pop(&mut self) -> OptionSquare {
         self.pop().into()
     }
@@ -183,6 +196,7 @@ impl Bitboard {
     ///
     /// Since: 0.1.3
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_to_u128(self, *r)))]
     pub const fn to_u128(self) -> u128 {
         // As little endian
         (self.0[1] as u128) << 64 | self.0[0] as u128
@@ -197,6 +211,8 @@ impl Bitboard {
     /// `a` must be a valid representation of a [`Bitboard`].
     ///
     /// Since: 0.1.3
+    #[cfg_attr(kani_contracts, kani::requires(crate::contracts::rep_ok(a)))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_from_u128(a, *r)))]
     pub const unsafe fn from_u128_unchecked(a: u128) -> Self {
         let v0 = a as u64;
         let v1 = (a >> 64) as u64;
@@ -209,6 +225,8 @@ impl Bitboard {
     /// 1 <= file <= 9, 0 <= pattern < 512
     ///
     /// Since: 0.1.3
+    #[cfg_attr(kani_contracts, kani::requires(1 <= file && file <= 9 && pattern < 512))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_from_file(file, pattern, *r)))]
     pub const unsafe fn from_file_unchecked(file: u8, pattern: u16) -> Self {
         let mut data = [0; 2];
         if file <= 7 {
@@ -233,6 +251,8 @@ impl Bitboard {
     /// assert_eq!(unsafe { bitboard.get_file_unchecked(8) }, 1 << 7 | 1 << 6);
     /// ```
     /// Since: 0.1.3
+    #[cfg_attr(kani_contracts, kani::requires(1 <= file && file <= 9))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_get_file(self, file, *r)))]
     pub const unsafe fn get_file_unchecked(self, file: u8) -> u16 {
         let pattern = if file <= 7 {
             self.0[0] >> ((file - 1) * 9)
@@ -245,6 +265,7 @@ impl Bitboard {
     /// Bitwise or.
     ///
     /// Since: 0.1.3
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_or(self, other, *r)))]
     pub const fn or(self, other: Self) -> Self {
         Self([self.0[0] | other.0[0], self.0[1] | other.0[1]])
     }
@@ -252,6 +273,7 @@ impl Bitboard {
     /// Bitwise and.
     ///
     /// Since: 0.1.3
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_and(self, other, *r)))]
     pub const fn and(self, other: Self) -> Self {
         Self([self.0[0] & other.0[0], self.0[1] & other.0[1]])
     }
@@ -259,6 +281,7 @@ impl Bitboard {
     /// Bitwise xor.
     ///
     /// Since: 0.1.3
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_xor(self, other, *r)))]
     pub const fn xor(self, other: Self) -> Self {
         Self([self.0[0] ^ other.0[0], self.0[1] ^ other.0[1]])
     }
@@ -266,6 +289,7 @@ impl Bitboard {
     /// Bitwise andnot (`!self & others`).
     ///
     /// Since: 0.1.3
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_andnot(self, other, *r)))]
     pub const fn andnot(self, other: Self) -> Self {
         Self([!self.0[0] & other.0[0], !self.0[1] & other.0[1]])
     }
@@ -273,6 +297,7 @@ impl Bitboard {
     /// Byte-wise reversing.
     ///
     /// Since: 0.1.3
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_swap_bytes(self, *r)))]
     pub const fn swap_bytes(self) -> ByteSwappedBitboard {
         ByteSwappedBitboard([self.0[1].swap_bytes(), self.0[0].swap_bytes()])
     }
@@ -283,6 +308,8 @@ impl Bitboard {
     /// `delta` must be in `0..=9`.
     ///
     /// Since: 0.1.3
+    #[cfg_attr(kani_contracts, kani::requires(delta <= 9))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_shift_down(self, delta, *r)))]
     pub const unsafe fn shift_down(self, delta: u8) -> Self {
         debug_assert!(delta <= 9);
         let top = 0x8040_2010_0804_0200u64;
@@ -299,6 +326,8 @@ impl Bitboard {
     /// `delta` must be in `0..=9`.
     ///
     /// Since: 0.1.3
+    #[cfg_attr(kani_contracts, kani::requires(delta <= 9))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_shift_up(self, delta, *r)))]
     pub const unsafe fn shift_up(self, delta: u8) -> Self {
         debug_assert!(delta <= 9);
         let bottom = 0x40_2010_0804_0201u64;
@@ -315,6 +344,8 @@ impl Bitboard {
     /// `delta` must be in `0..=9`.
     ///
     /// Since: 0.1.3
+    #[cfg_attr(kani_contracts, kani::requires(delta <= 9))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_shift_left(self, delta, *r)))]
     pub const unsafe fn shift_left(self, delta: u8) -> Self {
         debug_assert!(delta <= 9);
         let data = if delta <= 1 {
@@ -339,6 +370,8 @@ impl Bitboard {
     /// `delta` must be in `0..=9`.
     ///
     /// Since: 0.1.3
+    #[cfg_attr(kani_contracts, kani::requires(delta <= 9))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_shift_right(self, delta, *r)))]
     pub const unsafe fn shift_right(self, delta: u8) -> Self {
         debug_assert!(delta <= 9);
         let data = if delta <= 1 {
@@ -450,28 +483,37 @@ define_bit_trait!(
 #[doc(hidden)]
 impl Bitboard {
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_and(a, b, *r)))]
     pub extern "C" fn Bitboard_bitand(a: Bitboard, b: Bitboard) -> Bitboard {
         a & b
     }
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::modifies(a))]
+    #[cfg_attr(kani_contracts, kani::ensures(|_| crate::contracts::bb_and(old(*a), b, *a)))]
     pub extern "C" fn Bitboard_bitand_assign(a: &mut Bitboard, b: Bitboard) {
         *a &= b;
     }
 
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_or(a, b, *r)))]
     pub extern "C" fn Bitboard_bitor(a: Bitboard, b: Bitboard) -> Bitboard {
         a | b
     }
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::modifies(a))]
+    #[cfg_attr(kani_contracts, kani::ensures(|_| crate::contracts::bb_or(old(*a), b, *a)))]
     pub extern "C" fn Bitboard_bitor_assign(a: &mut Bitboard, b: Bitboard) {
         *a |= b;
     }
 
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_xor(a, b, *r)))]
     pub extern "C" fn Bitboard_bitxor(a: Bitboard, b: Bitboard) -> Bitboard {
         a ^ b
     }
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::modifies(a))]
+    #[cfg_attr(kani_contracts, kani::ensures(|_| crate::contracts::bb_xor(old(*a), b, *a)))]
     pub extern "C" fn Bitboard_bitxor_assign(a: &mut Bitboard, b: Bitboard) {
         *a ^= b;
     }
@@ -490,6 +532,7 @@ impl Not for Bitboard {
     /// assert_eq!((!Bitboard::empty()).count(), 81);
     /// ```
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_not(self, *r)))]
     fn not(self) -> Self::Output {
         Self([!self.0[0] & ((1 << 63) - 1), !self.0[1] & ((1 << 18) - 1)])
     }
@@ -515,6 +558,7 @@ impl Not for &'_ Bitboard {
 
 /// C interface of `Bitboard::not`.
 #[no_mangle]
+#[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bb_not(a, *r)))]
 pub extern "C" fn Bitboard_not(a: Bitboard) -> Bitboard {
     !a
 }
@@ -535,6 +579,7 @@ impl ByteSwappedBitboard {
     /// Inner representation of [`ByteSwappedBitboard`] is unstable;
     /// however, `ByteSwappedBitboard::from_u128_unchecked(swapped_bb.to_u128()) == bb` always holds.
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bsb_to_u128(self, *r)))]
     pub const fn to_u128(self) -> u128 {
         // As little endian
         (self.0[1] as u128) << 64 | self.0[0] as u128
@@ -550,6 +595,7 @@ impl ByteSwappedBitboard {
     ///
     /// Since: 0.1.3
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bsb_from_u128(a, *r)))]
     pub const unsafe fn from_u128_unchecked(a: u128) -> Self {
         let v0 = a as u64;
         let v1 = (a >> 64) as u64;
@@ -560,6 +606,7 @@ impl ByteSwappedBitboard {
     ///
     /// Since: 0.1.3
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bsb_or(self, other, *r)))]
     pub const fn or(self, other: Self) -> Self {
         Self([self.0[0] | other.0[0], self.0[1] | other.0[1]])
     }
@@ -568,6 +615,7 @@ impl ByteSwappedBitboard {
     ///
     /// Since: 0.1.3
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bsb_and(self, other, *r)))]
     pub const fn and(self, other: Self) -> Self {
         Self([self.0[0] & other.0[0], self.0[1] & other.0[1]])
     }
@@ -576,6 +624,7 @@ impl ByteSwappedBitboard {
     ///
     /// Since: 0.1.3
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bsb_xor(self, other, *r)))]
     pub const fn xor(self, other: Self) -> Self {
         Self([self.0[0] ^ other.0[0], self.0[1] ^ other.0[1]])
     }
@@ -584,6 +633,7 @@ impl ByteSwappedBitboard {
     ///
     /// Since: 0.1.3
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bsb_andnot(self, other, *r)))]
     pub const fn andnot(self, other: Self) -> Self {
         Self([!self.0[0] & other.0[0], !self.0[1] & other.0[1]])
     }
@@ -592,6 +642,7 @@ impl ByteSwappedBitboard {
     ///
     /// Since: 0.1.3
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::bsb_swap_bytes(self, *r)))]
     pub const fn swap_bytes(self) -> Bitboard {
         Bitboard([self.0[1].swap_bytes(), self.0[0].swap_bytes()])
     }
diff --git a/shogi_core/src/color.rs b/shogi_core/src/color.rs
index 0733807..bb52bbb 100644
--- a/shogi_core/src/color.rs
+++ b/shogi_core/src/color.rs
@@ -27,6 +27,7 @@ impl Color {
     /// assert_eq!(Color::White.flip(), Color::Black);
     /// ```
     #[export_name = "Color_flip"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::color_flip(self, *r)))]
     pub extern "C" fn flip(self) -> Self {
         // The shortest possible machine code for this function in x86_64 (System V AMD64 ABI) is:
         // 89 f8  movl %edi, %eax
@@ -38,6 +39,7 @@ impl Color {
     ///
     /// Since: 0.1.2
     #[inline]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::color_array_index(self, *r)))]
     pub const fn array_index(self) -> usize {
         let result = self as usize - 1;
         // Safety: 0 <= self as usize - 1 < 2 always holds.
diff --git a/shogi_core/src/contracts.rs b/shogi_core/src/contracts.rs
new file mode 100644
index 0000000..8160e6e
--- /dev/null
+++ b/shogi_core/src/contracts.rs
@@ -0,0 +1,1319 @@
+//! Specification functions for the contracts attached to this crate's functions.
+//!
+//! This module is compiled by the Kani verifier only (`cfg(kani)`); it is no part of the library.
+//! The functions here state what the functions of this crate promise, in terms of the documented
+//! encodings (a square is a number in 1..=81, a piece is 1..=14 or 17..=30, ...), never in terms of
+//! how those functions are written.
+#![allow(missing_docs, clippy::all)]
+
+use crate::c_compat::*;
+use crate::*;
+
+// ---------------------------------------------------------------------------------------------
+// Raw encodings.
+
+/// The byte that encodes a one-byte `repr(transparent)` or `repr(u8)` value.
+pub fn raw8<T: Copy>(x: T) -> u8 {
+    assert!(core::mem::size_of::<T>() == 1);
+    unsafe { core::mem::transmute_copy(&x) }
+}
+
+/// The two bytes that encode a two-byte `repr(transparent)` value.
+pub fn raw16<T: Copy>(x: T) -> u16 {
+    assert!(core::mem::size_of::<T>() == 2);
+    unsafe { core::mem::transmute_copy(&x) }
+}
+
+pub const fn sq_code_ok(i: u8) -> bool {
+    1 <= i && i <= 81
+}
+
+pub const fn kind_code_ok(k: u8) -> bool {
+    1 <= k && k <= 14
+}
+
+pub const fn piece_code_ok(p: u8) -> bool {
+    (1 <= p && p <= 14) || (17 <= p && p <= 30)
+}
+
+pub const fn compact_code_ok(m: u16) -> bool {
+    let to = (m & 127) as u8;
+    if m & 128 != 0 {
+        sq_code_ok(to) && piece_code_ok((m >> 8) as u8)
+    } else {
+        sq_code_ok(to) && sq_code_ok(((m >> 8) & 127) as u8)
+    }
+}
+
+pub fn sq(i: u8) -> Square {
+    assert!(sq_code_ok(i));
+    unsafe { core::mem::transmute(i) }
+}
+
+pub fn kind(k: u8) -> PieceKind {
+    assert!(kind_code_ok(k));
+    unsafe { core::mem::transmute(k) }
+}
+
+pub fn piece(p: u8) -> Piece {
+    assert!(piece_code_ok(p));
+    unsafe { core::mem::transmute(p) }
+}
+
+/// 0 for black, 1 for white
+pub fn ci(c: Color) -> usize {
+    match c {
+        Color::Black => 0,
+        Color::White => 1,
+    }
+}
+
+pub fn same8<T: Copy>(a: T, b: T) -> bool {
+    raw8(a) == raw8(b)
+}
+
+pub fn same16<T: Copy>(a: T, b: T) -> bool {
+    raw16(a) == raw16(b)
+}
+
+pub fn opt8<T: Copy>(a: Option<T>) -> u8 {
+    match a {
+        None => 0,
+        Some(x) => raw8(x),
+    }
+}
+
+// ---------------------------------------------------------------------------------------------
+// Arbitrary valid values.
+
+macro_rules! arbitrary8 {
+    ($ty:ty, |$x:ident| $ok:expr) => {
+        impl kani::Arbitrary for $ty {
+            fn any() -> Self {
+                let $x: u8 = kani::any();
+                kani::assume($ok);
+                unsafe { core::mem::transmute($x) }
+            }
+        }
+    };
+}
+
+arbitrary8!(Color, |x| 1 <= x && x <= 2);
+arbitrary8!(Square, |x| sq_code_ok(x));
+arbitrary8!(OptionSquare, |x| x <= 81);
+arbitrary8!(PieceKind, |x| kind_code_ok(x));
+arbitrary8!(OptionPieceKind, |x| x <= 14);
+arbitrary8!(Piece, |x| piece_code_ok(x));
+arbitrary8!(OptionPiece, |x| x == 0 || piece_code_ok(x));
+arbitrary8!(GameResolution, |x| 1 <= x && x <= 5);
+arbitrary8!(OptionGameResolution, |x| x <= 5);
+arbitrary8!(IllegalMoveKind, |x| 1 <= x && x <= 7);
+arbitrary8!(ResultUnitIllegalMoveKind, |x| x <= 7);
+
+impl kani::Arbitrary for PositionStatus {
+    fn any() -> Self {
+        match kani::any::<u8>() {
+            0 => PositionStatus::BlackWins,
+            1 => PositionStatus::WhiteWins,
+            2 => PositionStatus::Draw,
+            3 => PositionStatus::InProgress,
+            _ => PositionStatus::Invalid,
+        }
+    }
+}
+
+impl kani::Arbitrary for CompactMove {
+    fn any() -> Self {
+        let x: u16 = kani::any();
+        kani::assume(compact_code_ok(x));
+        unsafe { core::mem::transmute(x) }
+    }
+}
+
+impl kani::Arbitrary for OptionCompactMove {
+    fn any() -> Self {
+        let x: u16 = kani::any();
+        kani::assume(x == 0 || compact_code_ok(x));
+        unsafe { core::mem::transmute(x) }
+    }
+}
+
+impl kani::Arbitrary for Move {
+    fn any() -> Self {
+        if kani::any() {
+            Move::Normal {
+                from: kani::any(),
+                to: kani::any(),
+                promote: kani::any(),
+            }
+        } else {
+            Move::Drop {
+                piece: kani::any(),
+                to: kani::any(),
+            }
+        }
+    }
+}
+
+impl kani::Arbitrary for Hand {
+    fn any() -> Self {
+        let mut x: [u8; 8] = kani::any();
+        x[7] = 0;
+        unsafe { core::mem::transmute(x) }
+    }
+}
+
+impl kani::Arbitrary for Bitboard {
+    fn any() -> Self {
+        let x: u128 = kani::any();
+        kani::assume(rep_ok(x));
+        unsafe { core::mem::transmute([x as u64, (x >> 64) as u64]) }
+    }
+}
+
+impl kani::Arbitrary for ByteSwappedBitboard {
+    fn any() -> Self {
+        let x: u128 = kani::any();
+        kani::assume(rep_ok(x.swap_bytes()));
+        unsafe { core::mem::transmute([x as u64, (x >> 64) as u64]) }
+    }
+}
+
+// ---------------------------------------------------------------------------------------------
+// Color
+
+pub fn color_flip(c: Color, r: Color) -> bool {
+    match c {
+        Color::Black => matches!(r, Color::White),
+        Color::White => matches!(r, Color::Black),
+    }
+}
+
+pub fn color_array_index(c: Color, r: usize) -> bool {
+    r == ci(c)
+}
+
+// ---------------------------------------------------------------------------------------------
+// Square. Square `i` is on file `(i - 1) / 9 + 1` and rank `(i - 1) % 9 + 1`.
+
+pub fn file_of(i: u8) -> u8 {
+    (i - 1) / 9 + 1
+}
+
+pub fn rank_of(i: u8) -> u8 {
+    (i - 1) % 9 + 1
+}
+
+/// The code of the square on a file and a rank, or 0 if they are not both in 1..=9.
+pub fn code_of(file: i16, rank: i16) -> u8 {
+    if 1 <= file && file <= 9 && 1 <= rank && rank <= 9 {
+        ((file - 1) * 9 + rank) as u8
+    } else {
+        0
+    }
+}
+
+pub fn square_new(file: u8, rank: u8, r: Option<Square>) -> bool {
+    opt8(r) == code_of(file as i16, rank as i16)
+}
+
+pub fn square_new_c(file: u8, rank: u8, r: OptionSquare) -> bool {
+    raw8(r) == code_of(file as i16, rank as i16)
+}
+
+pub fn code_of_relative(file: u8, rank: u8, color: Color) -> u8 {
+    match color {
+        Color::Black => code_of(file as i16, rank as i16),
+        Color::White => code_of(10 - file as i16, 10 - rank as i16),
+    }
+}
+
+pub fn square_new_relative(file: u8, rank: u8, color: Color, r: Option<Square>) -> bool {
+    opt8(r) == code_of_relative(file, rank, color)
+}
+
+pub fn square_new_relative_c(file: u8, rank: u8, color: Color, r: OptionSquare) -> bool {
+    raw8(r) == code_of_relative(file, rank, color)
+}
+
+pub fn square_file(s: Square, r: u8) -> bool {
+    r == file_of(raw8(s))
+}
+
+pub fn square_rank(s: Square, r: u8) -> bool {
+    r == rank_of(raw8(s))
+}
+
+pub fn square_index(s: Square, r: u8) -> bool {
+    r == raw8(s) && sq_code_ok(r)
+}
+
+pub fn square_array_index(s: Square, r: usize) -> bool {
+    r + 1 == raw8(s) as usize && r < 81
+}
+
+pub fn square_relative_file(s: Square, color: Color, r: u8) -> bool {
+    let file = file_of(raw8(s));
+    r == match color {
+        Color::Black => file,
+        Color::White => 10 - file,
+    }
+}
+
+pub fn square_relative_rank(s: Square, color: Color, r: u8) -> bool {
+    let rank = rank_of(raw8(s));
+    r == match color {
+        Color::Black => rank,
+        Color::White => 10 - rank,
+    }
+}
+
+/// A point reflection: file and rank `n` become `10 - n`.
+pub fn square_flip(s: Square, r: Square) -> bool {
+    let (i, j) = (raw8(s), raw8(r));
+    sq_code_ok(j) && file_of(i) + file_of(j) == 10 && rank_of(i) + rank_of(j) == 10
+}
+
+pub fn square_from_u8(value: u8, r: Option<Square>) -> bool {
+    opt8(r) == if sq_code_ok(value) { value } else { 0 }
+}
+
+pub fn square_from_u8_unchecked(value: u8, r: Square) -> bool {
+    raw8(r) == value
+}
+
+pub fn square_shift(s: Square, file_delta: i8, rank_delta: i8, r: Option<Square>) -> bool {
+    let i = raw8(s);
+    opt8(r)
+        == code_of(
+            file_of(i) as i16 + file_delta as i16,
+            rank_of(i) as i16 + rank_delta as i16,
+        )
+}
+
+// ---------------------------------------------------------------------------------------------
+// PieceKind and Piece
+
+/// The code of the promoted version of a piece kind, or 0.
+pub fn promoted(k: u8) -> u8 {
+    match k {
+        1 => 9,
+        2 => 10,
+        3 => 11,
+        4 => 12,
+        6 => 13,
+        7 => 14,
+        _ => 0,
+    }
+}
+
+/// The code of the unpromoted version of a promoted piece kind, or 0.
+pub fn unpromoted(k: u8) -> u8 {
+    match k {
+        9 => 1,
+        10 => 2,
+        11 => 3,
+        12 => 4,
+        13 => 6,
+        14 => 7,
+        _ => 0,
+    }
+}
+
+pub fn kind_promote(k: PieceKind, r: Option<PieceKind>) -> bool {
+    opt8(r) == promoted(raw8(k))
+}
+
+pub fn kind_unpromote(k: PieceKind, r: Option<PieceKind>) -> bool {
+    opt8(r) == unpromoted(raw8(k))
+}
+
+pub fn kind_from_u8(repr: u8, r: Option<PieceKind>) -> bool {
+    opt8(r) == if kind_code_ok(repr) { repr } else { 0 }
+}
+
+pub fn kind_from_u8_unchecked(repr: u8, r: PieceKind) -> bool {
+    raw8(r) == repr
+}
+
+pub fn kind_array_index(k: PieceKind, r: usize) -> bool {
+    r + 1 == raw8(k) as usize && r < 14
+}
+
+pub fn kind_option_array_index(k: Option<PieceKind>, r: usize) -> bool {
+    r == opt8(k) as usize && r < 15
+}
+
+pub fn okind8(r: &OptionPieceKind) -> u8 {
+    unsafe { core::mem::transmute_copy(r) }
+}
+
+pub fn kind_promote_c(k: PieceKind, r: &OptionPieceKind) -> bool {
+    okind8(r) == promoted(raw8(k))
+}
+
+pub fn kind_unpromote_c(k: PieceKind, r: &OptionPieceKind) -> bool {
+    okind8(r) == unpromoted(raw8(k))
+}
+
+pub fn kind_from_u8_c(repr: u8, r: &OptionPieceKind) -> bool {
+    okind8(r) == if kind_code_ok(repr) { repr } else { 0 }
+}
+
+pub fn kind_all(r: [PieceKind; 14]) -> bool {
+    let mut i = 0;
+    let mut seen = 0u16;
+    while i < 14 {
+        seen |= 1 << raw8(r[i]);
+        i += 1;
+    }
+    seen == 0x7ffe
+}
+
+pub fn code_of_piece(k: u8, c: Color) -> u8 {
+    match c {
+        Color::Black => k,
+        Color::White => k + 16,
+    }
+}
+
+pub fn pkind(p: u8) -> u8 {
+    p & 15
+}
+
+pub fn pcolor(p: u8) -> Color {
+    if p < 16 {
+        Color::Black
+    } else {
+        Color::White
+    }
+}
+
+pub fn piece_new(k: PieceKind, c: Color, r: Piece) -> bool {
+    raw8(r) == code_of_piece(raw8(k), c)
+}
+
+pub fn piece_to_parts(p: Piece, r: (PieceKind, Color)) -> bool {
+    piece_kind(p, r.0) && piece_color(p, r.1)
+}
+
+pub fn piece_kind(p: Piece, r: PieceKind) -> bool {
+    raw8(r) == pkind(raw8(p)) && kind_code_ok(raw8(r))
+}
+
+pub fn piece_color(p: Piece, r: Color) -> bool {
+    ci(r) == ci(pcolor(raw8(p)))
+}
+
+pub fn piece_as_u8(p: Piece, r: u8) -> bool {
+    r == raw8(p)
+}
+
+pub fn piece_map(p: u8, k: u8) -> u8 {
+    if k == 0 {
+        0
+    } else {
+        code_of_piece(k, pcolor(p))
+    }
+}
+
+pub fn piece_promote(p: Piece, r: Option<Piece>) -> bool {
+    opt8(r) == piece_map(raw8(p), promoted(pkind(raw8(p))))
+}
+
+pub fn piece_unpromote(p: Piece, r: Option<Piece>) -> bool {
+    opt8(r) == piece_map(raw8(p), unpromoted(pkind(raw8(p))))
+}
+
+pub fn piece_promote_c(p: Piece, r: OptionPiece) -> bool {
+    raw8(r) == piece_map(raw8(p), promoted(pkind(raw8(p))))
+}
+
+pub fn piece_unpromote_c(p: Piece, r: OptionPiece) -> bool {
+    raw8(r) == piece_map(raw8(p), unpromoted(pkind(raw8(p))))
+}
+
+pub fn piece_array_index(p: Piece, r: usize) -> bool {
+    r + 1 == raw8(p) as usize && r < 31
+}
+
+pub fn piece_all(r: [Piece; 28]) -> bool {
+    let mut i = 0;
+    let mut seen = 0u32;
+    while i < 28 {
+        seen |= 1 << raw8(r[i]);
+        i += 1;
+    }
+    seen == 0x7ffe_7ffe
+}
+
+// ---------------------------------------------------------------------------------------------
+// GameResolution and IllegalMoveKind
+
+pub fn resolution_from_u8_unchecked(repr: u8, r: GameResolution) -> bool {
+    raw8(r) == repr
+}
+
+pub fn illegal_from_u8(repr: u8, r: Option<IllegalMoveKind>) -> bool {
+    opt8(r) == if 1 <= repr && repr <= 7 { repr } else { 0 }
+}
+
+pub fn illegal_from_u8_unchecked(repr: u8, r: IllegalMoveKind) -> bool {
+    raw8(r) == repr
+}
+
+// ---------------------------------------------------------------------------------------------
+// Hand: a multiset of the seven unpromoted kinds other than the king.
+
+/// How many pieces of the kind with code `k` there are in a hand.
+pub fn hand_at(h: Hand, k: u8) -> u8 {
+    let x: [u8; 8] = unsafe { core::mem::transmute_copy(&h) };
+    x[k as usize - 1]
+}
+
+pub fn hand_ok(h: Hand) -> bool {
+    hand_at(h, 8) == 0
+}
+
+/// `b` is `a` with the count of `k` replaced by `n`.
+pub fn hand_with(a: Hand, k: u8, n: u8, b: Hand) -> bool {
+    let mut i = 1;
+    let mut ok = hand_ok(b);
+    while i <= 7 {
+        ok &= hand_at(b, i) == if i == k { n } else { hand_at(a, i) };
+        i += 1;
+    }
+    ok
+}
+
+pub fn hand_same(a: Hand, b: Hand) -> bool {
+    hand_with(a, 0, 0, b)
+}
+
+pub fn hand_new(r: Hand) -> bool {
+    let mut i = 1;
+    let mut ok = hand_ok(r);
+    while i <= 7 {
+        ok &= hand_at(r, i) == 0;
+        i += 1;
+    }
+    ok
+}
+
+pub fn hand_count(h: Hand, k: PieceKind, r: Option<u8>) -> bool {
+    match r {
+        None => raw8(k) > 7,
+        Some(n) => raw8(k) <= 7 && n == hand_at(h, raw8(k)),
+    }
+}
+
+pub fn hand_added(h: Hand, k: PieceKind, r: Option<Hand>) -> bool {
+    match r {
+        None => raw8(k) > 7,
+        Some(new) => {
+            raw8(k) <= 7 && hand_with(h, raw8(k), hand_at(h, raw8(k)).wrapping_add(1), new)
+        }
+    }
+}
+
+pub fn hand_removed(h: Hand, k: PieceKind, r: Option<Hand>) -> bool {
+    match r {
+        None => raw8(k) > 7 || hand_at(h, raw8(k)) == 0,
+        Some(new) => {
+            raw8(k) <= 7
+                && hand_at(h, raw8(k)) > 0
+                && hand_with(h, raw8(k), hand_at(h, raw8(k)) - 1, new)
+        }
+    }
+}
+
+pub fn hand_add_c(old: Hand, new: Hand, k: PieceKind, r: bool) -> bool {
+    if r {
+        hand_added(old, k, Some(new))
+    } else {
+        hand_added(old, k, None) && hand_same(old, new)
+    }
+}
+
+pub fn hand_remove_c(old: Hand, new: Hand, k: PieceKind, r: bool) -> bool {
+    if r {
+        hand_removed(old, k, Some(new))
+    } else {
+        hand_removed(old, k, None) && hand_same(old, new)
+    }
+}
+
+pub fn hand_count_c(h: Hand, k: PieceKind, r: u8) -> bool {
+    r == if raw8(k) <= 7 { hand_at(h, raw8(k)) } else { 0 }
+}
+
+pub fn hand_is_hand_piece(k: PieceKind, r: bool) -> bool {
+    r == (raw8(k) <= 7)
+}
+
+// ---------------------------------------------------------------------------------------------
+// Moves
+
+pub fn same_move(a: Move, b: Move) -> bool {
+    match (a, b) {
+        (
+            Move::Normal { from, to, promote },
+            Move::Normal {
+                from: from2,
+                to: to2,
+                promote: promote2,
+            },
+        ) => same8(from, from2) && same8(to, to2) && promote == promote2,
+        (Move::Drop { piece, to }, Move::Drop { piece: p2, to: to2 }) => {
+            same8(piece, p2) && same8(to, to2)
+        }
+        _ => false,
+    }
+}
+
+pub fn same_opt_move(a: Option<Move>, b: Option<Move>) -> bool {
+    match (a, b) {
+        (None, None) => true,
+        (Some(a), Some(b)) => same_move(a, b),
+        _ => false,
+    }
+}
+
+pub fn move_from(m: Move, r: Option<Square>) -> bool {
+    opt8(r)
+        == match m {
+            Move::Normal { from, .. } => raw8(from),
+            Move::Drop { .. } => 0,
+        }
+}
+
+pub fn move_to(m: Move, r: Square) -> bool {
+    raw8(r)
+        == match m {
+            Move::Normal { to, .. } => raw8(to),
+            Move::Drop { to, .. } => raw8(to),
+        }
+}
+
+pub fn move_is_promoting(m: Move, r: bool) -> bool {
+    r == match m {
+        Move::Normal { promote, .. } => promote,
+        Move::Drop { .. } => false,
+    }
+}
+
+pub fn move_is_drop(m: Move, r: bool) -> bool {
+    r == match m {
+        Move::Normal { .. } => false,
+        Move::Drop { .. } => true,
+    }
+}
+
+/// The documented encoding of a move in 16 bits.
+pub fn move_code(m: Move) -> u16 {
+    match m {
+        Move::Normal { from, to, promote } => {
+            (promote as u16) * 32768 + (raw8(from) as u16) * 256 + raw8(to) as u16
+        }
+        Move::Drop { piece, to } => (raw8(piece) as u16) * 256 + 128 + raw8(to) as u16,
+    }
+}
+
+/// The move that a valid code stands for.
+pub fn move_of(m: CompactMove) -> Move {
+    let x = raw16(m);
+    let to = sq((x % 128) as u8);
+    if x % 256 >= 128 {
+        Move::Drop {
+            piece: piece((x / 256) as u8),
+            to,
+        }
+    } else {
+        Move::Normal {
+            from: sq(((x / 256) % 128) as u8),
+            to,
+            promote: x >= 32768,
+        }
+    }
+}
+
+pub fn compact_normal(from: Square, to: Square, promote: bool, r: CompactMove) -> bool {
+    raw16(r) == move_code(Move::Normal { from, to, promote }) && compact_code_ok(raw16(r))
+}
+
+pub fn compact_drop(piece: Piece, to: Square, r: CompactMove) -> bool {
+    raw16(r) == move_code(Move::Drop { piece, to }) && compact_code_ok(raw16(r))
+}
+
+pub fn compact_from(m: CompactMove, r: Option<Square>) -> bool {
+    move_from(move_of(m), r)
+}
+
+pub fn compact_from_c(m: CompactMove, r: OptionSquare) -> bool {
+    raw8(r)
+        == match move_of(m) {
+            Move::Normal { from, .. } => raw8(from),
+            Move::Drop { .. } => 0,
+        }
+}
+
+pub fn compact_to(m: CompactMove, r: Square) -> bool {
+    move_to(move_of(m), r)
+}
+
+pub fn compact_is_promoting(m: CompactMove, r: bool) -> bool {
+    // A drop of a white piece never has the promotion bit, either.
+    move_is_promoting(move_of(m), r)
+}
+
+pub fn compact_is_drop(m: CompactMove, r: bool) -> bool {
+    move_is_drop(move_of(m), r)
+}
+
+// ---------------------------------------------------------------------------------------------
+// Bitboard. The abstract view is a set of squares, given as 81 bits: bit `i` is square `i + 1`.
+
+pub const M81: u128 = (1 << 81) - 1;
+const M63: u128 = (1 << 63) - 1;
+const M18: u128 = (1 << 18) - 1;
+
+/// The valid representations: 63 bits in the first word, 18 bits in the second one.
+pub const fn rep_ok(x: u128) -> bool {
+    x >> 82 == 0 && (x >> 63) & 1 == 0
+}
+
+pub fn rep(b: Bitboard) -> u128 {
+    let x: [u64; 2] = unsafe { core::mem::transmute_copy(&b) };
+    x[0] as u128 | (x[1] as u128) << 64
+}
+
+pub fn brep(b: ByteSwappedBitboard) -> u128 {
+    let x: [u64; 2] = unsafe { core::mem::transmute_copy(&b) };
+    x[0] as u128 | (x[1] as u128) << 64
+}
+
+pub fn set(b: Bitboard) -> u128 {
+    let x = rep(b);
+    (x & M63) | ((x >> 64) & M18) << 63
+}
+
+/// `b` is a valid representation of the set `s`.
+pub fn is_set(b: Bitboard, s: u128) -> bool {
+    rep_ok(rep(b)) && set(b) == s
+}
+
+pub fn bit(s: Square) -> u128 {
+    1 << (raw8(s) - 1)
+}
+
+pub fn bb_empty(r: Bitboard) -> bool {
+    is_set(r, 0)
+}
+
+pub fn bb_single(s: Square, r: Bitboard) -> bool {
+    is_set(r, bit(s))
+}
+
+pub fn bb_count(b: Bitboard, r: u8) -> bool {
+    r as u32 == set(b).count_ones()
+}
+
+pub fn bb_is_empty(b: Bitboard, r: bool) -> bool {
+    r == (set(b) == 0)
+}
+
+pub fn bb_contains(b: Bitboard, s: Square, r: bool) -> bool {
+    r == (set(b) & bit(s) != 0)
+}
+
+pub fn bb_flip(b: Bitboard, r: Bitboard) -> bool {
+    is_set(r, set(b).reverse_bits() >> 47)
+}
+
+/// Removes one member, unless there is none.
+pub fn bb_pop(old: Bitboard, new: Bitboard, r: Option<Square>) -> bool {
+    match r {
+        None => set(old) == 0 && is_set(new, 0),
+        Some(s) => {
+            sq_code_ok(raw8(s)) && set(old) & bit(s) != 0 && is_set(new, set(old) & !bit(s))
+        }
+    }
+}
+
+pub fn bb_pop_c(old: Bitboard, new: Bitboard, r: OptionSquare) -> bool {
+    let code = raw8(r);
+    if code == 0 {
+        bb_pop(old, new, None)
+    } else {
+        sq_code_ok(code) && bb_pop(old, new, Some(sq(code)))
+    }
+}
+
+pub fn bb_to_u128(b: Bitboard, r: u128) -> bool {
+    r == rep(b)
+}
+
+pub fn bb_from_u128(a: u128, r: Bitboard) -> bool {
+    rep(r) == a
+}
+
+pub fn bb_from_file(file: u8, pattern: u16, r: Bitboard) -> bool {
+    is_set(r, (pattern as u128) << (9 * (file as u32 - 1)))
+}
+
+pub fn bb_get_file(b: Bitboard, file: u8, r: u16) -> bool {
+    r as u128 == (set(b) >> (9 * (file as u32 - 1))) & 511
+}
+
+pub fn bb_or(a: Bitboard, b: Bitboard, r: Bitboard) -> bool {
+    is_set(r, set(a) | set(b))
+}
+
+pub fn bb_and(a: Bitboard, b: Bitboard, r: Bitboard) -> bool {
+    is_set(r, set(a) & set(b))
+}
+
+pub fn bb_xor(a: Bitboard, b: Bitboard, r: Bitboard) -> bool {
+    is_set(r, set(a) ^ set(b))
+}
+
+pub fn bb_andnot(a: Bitboard, b: Bitboard, r: Bitboard) -> bool {
+    is_set(r, !set(a) & set(b))
+}
+
+pub fn bb_not(a: Bitboard, r: Bitboard) -> bool {
+    is_set(r, !set(a) & M81)
+}
+
+/// Applies a function to every file.
+fn by_file(s: u128, f: impl Fn(u128) -> u128) -> u128 {
+    let mut result = 0;
+    let mut i = 0;
+    while i < 9 {
+        result |= (f((s >> (9 * i)) & 511) & 511) << (9 * i);
+        i += 1;
+    }
+    result
+}
+
+pub fn bb_shift_down(b: Bitboard, delta: u8, r: Bitboard) -> bool {
+    is_set(r, by_file(set(b), |file| file << delta))
+}
+
+pub fn bb_shift_up(b: Bitboard, delta: u8, r: Bitboard) -> bool {
+    is_set(r, by_file(set(b), |file| file >> delta))
+}
+
+pub fn bb_shift_left(b: Bitboard, delta: u8, r: Bitboard) -> bool {
+    is_set(r, (set(b) << (9 * delta as u32)) & M81)
+}
+
+pub fn bb_shift_right(b: Bitboard, delta: u8, r: Bitboard) -> bool {
+    is_set(r, set(b) >> (9 * delta as u32))
+}
+
+pub fn bb_swap_bytes(b: Bitboard, r: ByteSwappedBitboard) -> bool {
+    brep(r) == rep(b).swap_bytes()
+}
+
+pub fn bsb_swap_bytes(b: ByteSwappedBitboard, r: Bitboard) -> bool {
+    rep(r) == brep(b).swap_bytes()
+}
+
+pub fn bsb_to_u128(b: ByteSwappedBitboard, r: u128) -> bool {
+    r == brep(b)
+}
+
+pub fn bsb_from_u128(a: u128, r: ByteSwappedBitboard) -> bool {
+    brep(r) == a
+}
+
+pub fn bsb_or(a: ByteSwappedBitboard, b: ByteSwappedBitboard, r: ByteSwappedBitboard) -> bool {
+    brep(r) == brep(a) | brep(b)
+}
+
+pub fn bsb_and(a: ByteSwappedBitboard, b: ByteSwappedBitboard, r: ByteSwappedBitboard) -> bool {
+    brep(r) == brep(a) & brep(b)
+}
+
+pub fn bsb_xor(a: ByteSwappedBitboard, b: ByteSwappedBitboard, r: ByteSwappedBitboard) -> bool {
+    brep(r) == brep(a) ^ brep(b)
+}
+
+pub fn bsb_andnot(a: ByteSwappedBitboard, b: ByteSwappedBitboard, r: ByteSwappedBitboard) -> bool {
+    brep(r) == !brep(a) & brep(b)
+}
+
+// ---------------------------------------------------------------------------------------------
+// PartialPosition, as seen through its observers.
+//
+// A contract that says something about every square says it about `probe()`, an arbitrary square:
+// an assertion about an arbitrary square is an assertion about all of them.
+
+pub fn probe() -> Square {
+    kani::any()
+}
+
+/// The code of what is on a square. 0 if the square is vacant.
+pub fn at(p: &PartialPosition, s: Square) -> u8 {
+    raw8(p.PartialPosition_piece_at(s))
+}
+
+pub fn has(b: Bitboard, s: Square) -> bool {
+    set(b) & bit(s) != 0
+}
+
+/// Everything that the observers of a position tell, other than what is on the squares.
+pub struct View {
+    /// The representations of the players' bitboards.
+    pub player: [u128; 2],
+    /// The representations of the piece kinds' bitboards. The kind with code `k` is at `k - 1`.
+    pub kind: [u128; 14],
+    pub hand: [u64; 2],
+    pub king: [u8; 2],
+    pub side: u8,
+    pub ply: u16,
+    pub last: u16,
+}
+
+pub fn hand_raw(h: Hand) -> u64 {
+    unsafe { core::mem::transmute_copy(&h) }
+}
+
+pub fn view(p: &PartialPosition) -> View {
+    let mut kinds = [0; 14];
+    let mut k = 0;
+    while k < 14 {
+        kinds[k] = rep(p.piece_kind_bitboard(kind(k as u8 + 1)));
+        k += 1;
+    }
+    View {
+        player: [
+            rep(p.player_bitboard(Color::Black)),
+            rep(p.player_bitboard(Color::White)),
+        ],
+        kind: kinds,
+        hand: [
+            hand_raw(p.hand_of_a_player(Color::Black)),
+            hand_raw(p.hand_of_a_player(Color::White)),
+        ],
+        king: [
+            opt8(p.king_position(Color::Black)),
+            opt8(p.king_position(Color::White)),
+        ],
+        side: raw8(p.side_to_move()),
+        ply: p.ply(),
+        last: last_code(p),
+    }
+}
+
+/// A copy of a position that does not rely on `Clone`.
+pub fn snapshot(p: &PartialPosition) -> PartialPosition {
+    unsafe { core::ptr::read(p) }
+}
+
+/// A valid representation has a square at this bit.
+pub fn rep_bit(s: Square) -> u128 {
+    let i = raw8(s) as u32 - 1;
+    1 << (if i < 63 { i } else { i + 1 })
+}
+
+/// The bitboards say that there is exactly the piece with a given code on one square.
+pub fn shows(v: &View, s: Square, code: u8) -> bool {
+    let m = rep_bit(s);
+    let mut ok = (v.player[0] & m != 0) == (0 < code && code < 16)
+        && (v.player[1] & m != 0) == (code >= 16);
+    let mut k = 1;
+    while k <= 14 {
+        ok &= (v.kind[k - 1] & m != 0) == (code != 0 && pkind(code) as usize == k);
+        k += 1;
+    }
+    ok
+}
+
+/// The bitboards of two positions agree on one square.
+pub fn same_bits(v: &View, w: &View, s: Square) -> bool {
+    let m = rep_bit(s);
+    let mut diff = (v.player[0] ^ w.player[0]) | (v.player[1] ^ w.player[1]);
+    let mut k = 0;
+    while k < 14 {
+        diff |= v.kind[k] ^ w.kind[k];
+        k += 1;
+    }
+    diff & m == 0
+}
+
+/// The bitboards agree with the board about one square.
+pub fn views_agree_at(p: &PartialPosition, s: Square) -> bool {
+    shows(&view(p), s, at(p, s))
+}
+
+/// The reported king of one color is on the first square where the bitboards have such a king.
+pub fn king_agrees_for(v: &View, c: usize) -> bool {
+    let kings = v.kind[7] & v.player[c];
+    let (low, high) = (kings as u64, (kings >> 64) as u64);
+    v.king[c]
+        == if low != 0 {
+            low.trailing_zeros() as u8 + 1
+        } else if high != 0 {
+            high.trailing_zeros() as u8 + 64
+        } else {
+            0
+        }
+}
+
+pub fn kings_agree(v: &View) -> bool {
+    king_agrees_for(v, 0) && king_agrees_for(v, 1)
+}
+
+/// All bitboards and hands have a valid representation.
+pub fn reps_ok(v: &View) -> bool {
+    let mut all = v.player[0] | v.player[1];
+    let mut k = 0;
+    while k < 14 {
+        all |= v.kind[k];
+        k += 1;
+    }
+    rep_ok(all) && (v.hand[0] | v.hand[1]).to_le_bytes()[7] == 0
+}
+
+pub fn same_hands(v: &View, w: &View) -> bool {
+    v.hand[0] == w.hand[0] && v.hand[1] == w.hand[1]
+}
+
+pub fn last_code(p: &PartialPosition) -> u16 {
+    raw16(p.PartialPosition_last_compact_move())
+}
+
+/// All bitboards of two positions are equal.
+pub fn same_bitboards(v: &View, w: &View) -> bool {
+    let mut diff = (v.player[0] ^ w.player[0]) | (v.player[1] ^ w.player[1]);
+    let mut k = 0;
+    while k < 14 {
+        diff |= v.kind[k] ^ w.kind[k];
+        k += 1;
+    }
+    diff == 0
+}
+
+pub fn same_views(v: &View, w: &View) -> bool {
+    same_bitboards(v, w)
+        && same_hands(v, w)
+        && v.king[0] == w.king[0]
+        && v.king[1] == w.king[1]
+        && v.side == w.side
+        && v.ply == w.ply
+        && v.last == w.last
+}
+
+/// No observer tells two positions apart (on an arbitrary square).
+pub fn same_position(p: &PartialPosition, q: &PartialPosition) -> bool {
+    let s = probe();
+    at(p, s) == at(q, s) && same_views(&view(p), &view(q))
+}
+
+/// What is on a square at the start of a game.
+pub fn startpos_code(s: Square) -> u8 {
+    let (file, rank) = (file_of(raw8(s)), rank_of(raw8(s)));
+    let back = [2u8, 3, 4, 5, 8, 5, 4, 3, 2];
+    match (file, rank) {
+        (_, 1) => 16 + back[file as usize - 1],
+        (2, 2) => 16 + 6,
+        (8, 2) => 16 + 7,
+        (_, 3) => 16 + 1,
+        (_, 7) => 1,
+        (8, 8) => 6,
+        (2, 8) => 7,
+        (_, 9) => back[file as usize - 1],
+        _ => 0,
+    }
+}
+
+fn fresh(v: &View) -> bool {
+    v.hand[0] == 0
+        && v.hand[1] == 0
+        && v.side == 1
+        && v.ply == 1
+        && v.last == 0
+        && reps_ok(v)
+        && kings_agree(v)
+}
+
+pub fn pos_empty(r: &PartialPosition) -> bool {
+    let (s, v) = (probe(), view(r));
+    fresh(&v) && at(r, s) == 0 && shows(&v, s, 0)
+}
+
+pub fn pos_startpos(r: &PartialPosition) -> bool {
+    let (s, v) = (probe(), view(r));
+    let code = startpos_code(s);
+    fresh(&v) && at(r, s) == code && shows(&v, s, code)
+}
+
+pub fn pos_piece_at(p: &PartialPosition, s: Square, r: Option<Piece>) -> bool {
+    opt8(r) == at(p, s)
+}
+
+pub fn pos_hand(p: &PartialPosition, piece: Piece, r: Option<u8>) -> bool {
+    let h = p.hand_of_a_player(pcolor(raw8(piece)));
+    hand_count(h, kind(pkind(raw8(piece))), r)
+}
+
+pub fn piece_set_pre(p: &PartialPosition, s: Square) -> bool {
+    let v = view(p);
+    well_formed(&v) && shows(&v, s, at(p, s))
+}
+
+pub fn piece_set_post(
+    old: &PartialPosition,
+    new: &PartialPosition,
+    s: Square,
+    piece: Option<Piece>,
+) -> bool {
+    let (q, v, w) = (probe(), view(old), view(new));
+    let code = opt8(piece);
+    at(new, s) == code
+        && (same8(q, s) || (at(new, q) == at(old, q) && same_bits(&v, &w, q)))
+        && shows(&w, s, code)
+        && kings_agree(&w)
+        && same_hands(&v, &w)
+        && v.side == w.side
+        && v.ply == w.ply
+        && v.last == w.last
+        && reps_ok(&w)
+}
+
+pub fn side_to_move_set_post(old: &PartialPosition, new: &PartialPosition, side: Color) -> bool {
+    let (s, v, w) = (probe(), view(old), view(new));
+    w.side == raw8(side) && at(old, s) == at(new, s) && same_views(&v, &View { side: v.side, ..w })
+}
+
+pub fn ply_set_post(old: &PartialPosition, new: &PartialPosition, ply: u16, r: bool) -> bool {
+    let (s, v, w) = (probe(), view(old), view(new));
+    r == (ply != 0)
+        && w.ply == if r { ply } else { v.ply }
+        && at(old, s) == at(new, s)
+        && same_views(&v, &View { ply: v.ply, ..w })
+}
+
+pub fn pos_occupied(p: &PartialPosition, r: Bitboard) -> bool {
+    bb_or(
+        p.player_bitboard(Color::Black),
+        p.player_bitboard(Color::White),
+        r,
+    )
+}
+
+pub fn pos_vacant(p: &PartialPosition, r: Bitboard) -> bool {
+    is_set(
+        r,
+        M81 & !(set(p.player_bitboard(Color::Black)) | set(p.player_bitboard(Color::White))),
+    )
+}
+
+pub fn pos_piece_bitboard(p: &PartialPosition, piece: Piece, r: Bitboard) -> bool {
+    let code = raw8(piece);
+    bb_and(
+        p.piece_kind_bitboard(kind(pkind(code))),
+        p.player_bitboard(pcolor(code)),
+        r,
+    )
+}
+
+pub fn pos_last_compact_move(p: &PartialPosition, r: Option<CompactMove>) -> bool {
+    last_code(p)
+        == match r {
+            None => 0,
+            Some(m) => raw16(m),
+        }
+}
+
+pub fn pos_last_move(p: &PartialPosition, r: Option<Move>) -> bool {
+    last_code(p)
+        == match r {
+            None => 0,
+            Some(m) => move_code(m),
+        }
+}
+
+// make_move
+
+/// What a move that makes sense does.
+pub struct Effect {
+    /// The square the piece leaves, unless the move is a drop.
+    pub from: Option<Square>,
+    pub to: Square,
+    /// What is on `to` afterwards.
+    pub code: u8,
+    /// The code of the kind that is captured, or 0.
+    pub captured: u8,
+    /// The code of the kind that is dropped, or 0.
+    pub dropped: u8,
+}
+
+/// What a move does, or `None` if it makes no sense.
+pub fn effect(p: &PartialPosition, mv: Move) -> Option<Effect> {
+    let side = p.side_to_move();
+    match mv {
+        Move::Normal { from, to, promote } => {
+            let moving = at(p, from);
+            let target = at(p, to);
+            if moving == 0 || ci(pcolor(moving)) != ci(side) {
+                return None;
+            }
+            let code = if promote {
+                piece_map(moving, promoted(pkind(moving)))
+            } else {
+                moving
+            };
+            if code == 0 {
+                return None;
+            }
+            let mut captured = 0;
+            if target != 0 {
+                if ci(pcolor(target)) == ci(side) || pkind(target) == 8 {
+                    return None;
+                }
+                captured = unpromoted(pkind(target));
+                if captured == 0 {
+                    captured = pkind(target);
+                }
+            }
+            Some(Effect {
+                from: Some(from),
+                to,
+                code,
+                captured,
+                dropped: 0,
+            })
+        }
+        Move::Drop { piece, to } => {
+            let code = raw8(piece);
+            if ci(pcolor(code)) != ci(side)
+                || pkind(code) > 7
+                || at(p, to) != 0
+                || hand_at(p.hand_of_a_player(side), pkind(code)) == 0
+            {
+                return None;
+            }
+            Some(Effect {
+                from: None,
+                to,
+                code,
+                captured: 0,
+                dropped: pkind(code),
+            })
+        }
+    }
+}
+
+/// What `make_move` may rely on: the views of the position agree about the squares of the move.
+pub fn make_move_pre(p: &PartialPosition, mv: Move) -> bool {
+    let v = view(p);
+    let (from, to) = match mv {
+        Move::Normal { from, to, .. } => (from, to),
+        Move::Drop { to, .. } => (to, to),
+    };
+    shows(&v, from, at(p, from)) && shows(&v, to, at(p, to)) && well_formed(&v)
+}
+
+/// The result of `make_move`, for an arbitrary square.
+pub fn make_move_post(old: &PartialPosition, new: &PartialPosition, mv: Move, ok: bool) -> bool {
+    match effect(old, mv) {
+        None => !ok && same_position(old, new),
+        Some(e) => {
+            ok && moved_board(old, new, &e)
+                && moved_bitboards(old, new, &e)
+                && moved_hands(&view(old), &view(new), &e)
+                && moved_state(&view(old), &view(new), mv)
+                && well_formed(&view(new))
+        }
+    }
+}
+
+/// `b` is `a` with the count of the kind with code `k` replaced by `n`.
+pub fn hand_raw_with(a: u64, k: u8, n: u8, b: u64) -> bool {
+    let mut x = a.to_ne_bytes();
+    x[k as usize - 1] = n;
+    b == u64::from_ne_bytes(x)
+}
+
+/// The board after a move.
+pub fn moved_board(old: &PartialPosition, new: &PartialPosition, e: &Effect) -> bool {
+    let q = probe();
+    at(new, q)
+        == if same8(q, e.to) {
+            e.code
+        } else if opt8(e.from) == raw8(q) {
+            0
+        } else {
+            at(old, q)
+        }
+}
+
+/// The bitboards after a move.
+pub fn moved_bitboards(old: &PartialPosition, new: &PartialPosition, e: &Effect) -> bool {
+    let (q, v, w) = (probe(), view(old), view(new));
+    if same8(q, e.to) {
+        shows(&w, q, e.code)
+    } else if opt8(e.from) == raw8(q) {
+        shows(&w, q, 0)
+    } else {
+        same_bits(&v, &w, q)
+    }
+}
+
+/// The hands after a move.
+pub fn moved_hands(v: &View, w: &View, e: &Effect) -> bool {
+    let side = (v.side - 1) as usize;
+    let (mine, mine_after) = (v.hand[side], w.hand[side]);
+    let mine_ok = if e.captured != 0 {
+        let n = mine.to_ne_bytes()[e.captured as usize - 1];
+        hand_raw_with(mine, e.captured, n.wrapping_add(1), mine_after)
+    } else if e.dropped != 0 {
+        let n = mine.to_ne_bytes()[e.dropped as usize - 1];
+        n > 0 && hand_raw_with(mine, e.dropped, n - 1, mine_after)
+    } else {
+        mine == mine_after
+    };
+    mine_ok && v.hand[1 - side] == w.hand[1 - side]
+}
+
+/// The side to move, the ply and the last move after a move.
+pub fn moved_state(v: &View, w: &View, mv: Move) -> bool {
+    v.side + w.side == 3 && w.ply == v.ply.wrapping_add(1) && w.last == move_code(mv)
+}
+
+/// All representations are valid, and the reported kings are where the bitboards have them.
+pub fn well_formed(v: &View) -> bool {
+    reps_ok(v) && kings_agree(v)
+}
+
+// ---------------------------------------------------------------------------------------------
+// PartialGame
+
+pub fn partial_game_resolve(
+    old: &PartialGame,
+    new: &PartialGame,
+    r: Option<GameResolution>,
+) -> bool {
+    opt8(new.resolution()) == opt8(r) && same_position(old.position(), new.position())
+}
+
+// ---------------------------------------------------------------------------------------------
+// Functions that are not reachable from other crates by a path.
+
+pub use crate::bitboard::Bitboard_not;
+
+/// Calls `Bitboard::single_inlined`.
+pub fn bitboard_single_inlined(square: Square) -> Bitboard {
+    Bitboard::single_inlined(square)
+}
+
+/// Calls `Piece::from_u8_unchecked`.
+///
+/// # Safety
+/// `value` must be the representation of a piece.
+pub unsafe fn piece_from_u8_unchecked(value: u8) -> Piece {
+    Piece::from_u8_unchecked(value)
+}
diff --git a/shogi_core/src/game_resolution.rs b/shogi_core/src/game_resolution.rs
index 850c280..e18c4e6 100644
--- a/shogi_core/src/game_resolution.rs
+++ b/shogi_core/src/game_resolution.rs
@@ -34,6 +34,8 @@ impl GameResolution {
     /// `repr` must be a valid representation of [`GameResolution`].
     /// This condition is equivalent to `1 <= repr && repr <= 5`.
     #[export_name = "GameResolution_from_u8_unchecked"]
+    #[cfg_attr(kani_contracts, kani::requires(1 <= repr && repr <= 5))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::resolution_from_u8_unchecked(repr, *r)))]
     pub unsafe extern "C" fn from_u8_unchecked(repr: u8) -> Self {
         core::mem::transmute(repr)
     }
diff --git a/shogi_core/src/hand.rs b/shogi_core/src/hand.rs
index 0a36e22..e9d8e0b 100644
--- a/shogi_core/src/hand.rs
+++ b/shogi_core/src/hand.rs
@@ -21,6 +21,7 @@ impl Hand {
     /// ```
     #[export_name = "Hand_new"]
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::hand_new(*r)))]
     pub extern "C" fn new() -> Self {
         Self::default()
     }
@@ -52,6 +53,8 @@ impl Hand {
     /// assert_eq!(hand.count(PieceKind::Pawn), Some(0));
     /// ```
     #[inline]
+    #[cfg_attr(kani_contracts, kani::requires(crate::contracts::hand_ok(self)))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::hand_added(old(self), piece_kind, *r)))]
     pub fn added(mut self, piece_kind: PieceKind) -> Option<Hand> {
         let index = (piece_kind as u8 - 1) as usize;
         if index < 7 {
@@ -82,6 +85,8 @@ impl Hand {
     /// assert_eq!(hand, None);
     /// ```
     #[inline]
+    #[cfg_attr(kani_contracts, kani::requires(crate::contracts::hand_ok(self)))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::hand_removed(old(self), piece_kind, *r)))]
     pub fn removed(mut self, piece_kind: PieceKind) -> Option<Hand> {
         let index = (piece_kind as u8 - 1) as usize;
         if index < 7 {
@@ -92,6 +97,7 @@ impl Hand {
     }
     /// Finds the number of pieces `piece_kind` in `self`.
     #[inline]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::hand_count(self, piece_kind, *r)))]
     pub fn count(self, piece_kind: PieceKind) -> Option<u8> {
         let index = (piece_kind as u8 - 1) as usize;
         if index < 7 {
@@ -104,6 +110,9 @@ impl Hand {
     ///
     /// This function returns true if and only if adding was successful.
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::requires(crate::contracts::hand_ok(*self)))]
+    #[cfg_attr(kani_contracts, kani::modifies(self))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::hand_add_c(old(*self), *self, piece_kind, *r)))]
     pub extern "C" fn Hand_add(&mut self, piece_kind: PieceKind) -> bool {
         if let Some(new) = self.added(piece_kind) {
             *self = new;
@@ -117,6 +126,9 @@ impl Hand {
     ///
     /// This function returns true if and only if removal was successful.
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::requires(crate::contracts::hand_ok(*self)))]
+    #[cfg_attr(kani_contracts, kani::modifies(self))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::hand_remove_c(old(*self), *self, piece_kind, *r)))]
     pub extern "C" fn Hand_remove(&mut self, piece_kind: PieceKind) -> bool {
         if let Some(new) = self.removed(piece_kind) {
             *self = new;
@@ -130,6 +142,7 @@ impl Hand {
     ///
     /// This function returns true if and only if `piece_kind` can be a piece in hand.
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::hand_count_c(self, piece_kind, *r)))]
     pub extern "C" fn Hand_count(self, piece_kind: PieceKind) -> u8 {
         self.count(piece_kind).unwrap_or(0)
     }
@@ -150,6 +163,7 @@ impl Hand {
     /// ```
     /// Since: 0.1.2
     #[inline]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::hand_is_hand_piece(piece_kind, *r)))]
     pub const fn is_hand_piece(piece_kind: PieceKind) -> bool {
         // 7 bytes, shortest possible machine code for this function in x86_64 (System V AMD64 ABI)
         // 40 80 ff 08  cmpb $8, %dil
@@ -158,6 +172,7 @@ impl Hand {
     }
     #[doc(hidden)]
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::hand_is_hand_piece(piece_kind, *r)))]
     pub extern "C" fn Hand_is_hand_piece(piece_kind: PieceKind) -> bool {
         Hand::is_hand_piece(piece_kind)
     }
diff --git a/shogi_core/src/illegal_move_kind.rs b/shogi_core/src/illegal_move_kind.rs
index 69b4aae..60a96f5 100644
--- a/shogi_core/src/illegal_move_kind.rs
+++ b/shogi_core/src/illegal_move_kind.rs
@@ -42,6 +42,7 @@ impl IllegalMoveKind {
     ///
     /// If `repr` is a valid representation of [`IllegalMoveKind`], this function returns `Some(illegal_move_kind)`.
     /// This condition is equivalent to `1 <= repr && repr <= 7`.
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::illegal_from_u8(repr, *r)))]
     pub fn from_u8(repr: u8) -> Option<Self> {
         if matches!(repr, 1..=7) {
             // Safety: `repr` is in range `1..=7`.
@@ -57,6 +58,8 @@ impl IllegalMoveKind {
     /// `repr` must be a valid representation of [`IllegalMoveKind`].
     /// This condition is equivalent to `1 <= repr && repr <= 7`.
     #[export_name = "IllegalMoveKind_from_u8_unchecked"]
+    #[cfg_attr(kani_contracts, kani::requires(1 <= repr && repr <= 7))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::illegal_from_u8_unchecked(repr, *r)))]
     pub unsafe extern "C" fn from_u8_unchecked(repr: u8) -> Self {
         core::mem::transmute(repr)
     }
diff --git a/shogi_core/src/lib.rs b/shogi_core/src/lib.rs
index ac8ccf4..30fbaaf 100644
--- a/shogi_core/src/lib.rs
+++ b/shogi_core/src/lib.rs
@@ -2,6 +2,8 @@
 #![cfg_attr(docsrs, feature(doc_cfg))]
 #![cfg_attr(bench, feature(test))]
 #![doc = include_str!("../README.md")]
+// `kani` and `kani_contracts` are set by the verifier that checks the contracts in this crate only.
+#![allow(unknown_lints, unexpected_cfgs)]
 
 #[cfg(bench)]
 extern crate test;
@@ -15,6 +17,9 @@ mod annotated_derive;
 mod bitboard;
 mod color;
 mod common;
+#[cfg(kani)]
+#[doc(hidden)]
+pub mod contracts;
 mod game_resolution;
 mod hand;
 mod illegal_move_kind;
diff --git a/shogi_core/src/mv.rs b/shogi_core/src/mv.rs
index cb205c1..09a3287 100644
--- a/shogi_core/src/mv.rs
+++ b/shogi_core/src/mv.rs
@@ -36,6 +36,7 @@ impl Move {
     /// assert_eq!(Move::Normal { from: Square::SQ_1B, to: Square::SQ_3D, promote: false}.from(), Some(Square::SQ_1B));
     /// assert_eq!(Move::Drop { piece: Piece::B_P, to: Square::SQ_3D }.from(), None);
     /// ```
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::move_from(self, *r)))]
     pub fn from(self) -> Option<Square> {
         match self {
             Move::Normal { from, .. } => Some(from),
@@ -51,6 +52,7 @@ impl Move {
     /// assert_eq!(Move::Normal { from: Square::SQ_1B, to: Square::SQ_3D, promote: false}.to(), Square::SQ_3D);
     /// assert_eq!(Move::Drop { piece: Piece::B_P, to: Square::SQ_4E }.to(), Square::SQ_4E);
     /// ```
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::move_to(self, *r)))]
     pub fn to(self) -> Square {
         match self {
             Move::Normal { to, .. } => to,
@@ -59,12 +61,14 @@ impl Move {
     }
 
     /// Finds whether `self` promotes a piece.
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::move_is_promoting(self, *r)))]
     pub fn is_promoting(self) -> bool {
         matches!(self, Move::Normal { promote: true, .. })
     }
 
     /// Finds whether `self` is a drop move.
     #[inline]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::move_is_drop(self, *r)))]
     pub fn is_drop(self) -> bool {
         matches!(self, Move::Drop { .. })
     }
@@ -221,6 +225,7 @@ impl CompactMove {
     /// assert_eq!(<CompactMove as From<Move>>::from(Move::Normal { from, to, promote }), CompactMove::normal(from, to, promote));
     /// ```
     #[export_name = "CompactMove_normal"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::compact_normal(from, to, promote, *r)))]
     pub extern "C" fn normal(from: Square, to: Square, promote: bool) -> Self {
         let value = (promote as u16) << 15 | (from.index() as u16) << 8 | to.index() as u16;
         // Safety: value != 0 is implied from to.index() != 0
@@ -237,6 +242,7 @@ impl CompactMove {
     /// assert_eq!(<CompactMove as From<Move>>::from(Move::Drop { piece, to }), CompactMove::drop(piece, to));
     /// ```
     #[export_name = "CompactMove_drop"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::compact_drop(piece, to, *r)))]
     pub extern "C" fn drop(piece: Piece, to: Square) -> Self {
         let value = (piece.as_u8() as u16) << 8 | 128 | to.index() as u16;
         // Safety: value != 0 is implied from to.index() != 0
@@ -244,6 +250,7 @@ impl CompactMove {
     }
 
     /// Finds the `from` square, if it exists.
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::compact_from(self, *r)))]
     pub fn from(self) -> Option<Square> {
         let inner = self.0.get();
         if self.is_drop() {
@@ -258,12 +265,14 @@ impl CompactMove {
 
     /// C interface of [`CompactMove::from`].
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::compact_from_c(self, *r)))]
     pub extern "C" fn CompactMove_from(self) -> OptionSquare {
         self.from().into()
     }
 
     /// Finds the `to` square.
     #[export_name = "CompactMove_to"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::compact_to(self, *r)))]
     pub extern "C" fn to(self) -> Square {
         let to = (self.0.get() & 127) as u8;
         // Safety: for all valid `CompactMove`, the least 7 bits represent a valid square.
@@ -272,6 +281,7 @@ impl CompactMove {
 
     /// Finds whether `self` promotes a piece.
     #[export_name = "CompactMove_is_promoting"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::compact_is_promoting(self, *r)))]
     pub extern "C" fn is_promoting(self) -> bool {
         (self.0.get() & 32768) != 0
     }
@@ -279,6 +289,7 @@ impl CompactMove {
     /// Finds whether `self` is a drop move.
     #[export_name = "CompactMove_is_drop"]
     #[inline]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::compact_is_drop(self, *r)))]
     pub extern "C" fn is_drop(self) -> bool {
         (self.0.get() & 128) != 0
     }
diff --git a/shogi_core/src/piece.rs b/shogi_core/src/piece.rs
index 9c5cac3..471756b 100644
--- a/shogi_core/src/piece.rs
+++ b/shogi_core/src/piece.rs
@@ -33,6 +33,7 @@ pub struct OptionPiece(u8);
 impl Piece {
     /// Creates a new [`Piece`] from a [`PieceKind`] and a [`Color`].
     #[must_use]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::piece_new(piece_kind, color, *r)))]
     pub const fn new(piece_kind: PieceKind, color: Color) -> Self {
         let disc = piece_kind as u8;
         let value = disc
@@ -45,12 +46,14 @@ impl Piece {
     }
     /// C interface to [`Piece::new`].
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::piece_new(piece_kind, color, *r)))]
     pub extern "C" fn Piece_new(piece_kind: PieceKind, color: Color) -> Self {
         Self::new(piece_kind, color)
     }
     /// An inverse of [`Piece::new`]. Finds a [`PieceKind`] and a [`Color`] from a [`Piece`].
     #[must_use]
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::piece_to_parts(self, *r)))]
     pub fn to_parts(self) -> (PieceKind, Color) {
         let data = self.0.get();
         let disc = data & 15;
@@ -68,6 +71,7 @@ impl Piece {
     #[must_use]
     #[export_name = "Piece_piece_kind"]
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::piece_kind(self, *r)))]
     pub extern "C" fn piece_kind(self) -> PieceKind {
         self.to_parts().0
     }
@@ -75,6 +79,7 @@ impl Piece {
     #[must_use]
     #[export_name = "Piece_color"]
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::piece_color(self, *r)))]
     pub extern "C" fn color(self) -> Color {
         self.to_parts().1
     }
@@ -82,12 +87,14 @@ impl Piece {
     /// Returns the internal representation.
     #[must_use]
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::piece_as_u8(self, *r)))]
     pub fn as_u8(self) -> u8 {
         self.0.get()
     }
 
     /// Promote a [`Piece`]. Same as [`PieceKind::promote`] with color.
     #[must_use]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::piece_promote(self, *r)))]
     pub fn promote(self) -> Option<Piece> {
         let (piece_kind, color) = self.to_parts();
         Some(Self::new(piece_kind.promote()?, color))
@@ -96,12 +103,14 @@ impl Piece {
     /// C interface of [`Piece::promote`].
     #[no_mangle]
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::piece_promote_c(self, *r)))]
     pub extern "C" fn Piece_promote(self) -> OptionPiece {
         OptionPiece::from(self.promote())
     }
 
     /// Un-promote a [`Piece`]. Same as [`PieceKind::unpromote`] with color.
     #[must_use]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::piece_unpromote(self, *r)))]
     pub fn unpromote(self) -> Option<Piece> {
         let (piece_kind, color) = self.to_parts();
         Some(Self::new(piece_kind.unpromote()?, color))
@@ -110,12 +119,15 @@ impl Piece {
     /// C interface of [`Piece::unpromote`].
     #[no_mangle]
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::piece_unpromote_c(self, *r)))]
     pub extern "C" fn Piece_unpromote(self) -> OptionPiece {
         OptionPiece::from(self.unpromote())
     }
 
     /// `value` must be in range 1..=14 or 17..=30.
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::requires(crate::contracts::piece_code_ok(value)))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::raw8(*r) == value))]
     pub(crate) unsafe fn from_u8_unchecked(value: u8) -> Self {
         Self(NonZeroU8::new_unchecked(value))
     }
@@ -126,6 +138,7 @@ impl Piece {
     #[cfg_attr(docsrs, doc(cfg(feature = "experimental")))]
     #[cfg(feature = "experimental")]
     #[inline]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::piece_array_index(self, *r)))]
     pub const fn array_index(self) -> usize {
         let result = self.0.get() as usize - 1;
         if result >= Self::NUM {
@@ -153,6 +166,7 @@ impl Piece {
     pub const NUM: usize = 31;
 
     /// Returns all possible [`Piece`]s.
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::piece_all(*r)))]
     pub fn all() -> [Self; 28] {
         let mut result = [Self::new(PieceKind::Pawn, Color::Black); 28];
         let piece_kinds = PieceKind::all();
diff --git a/shogi_core/src/piece_kind.rs b/shogi_core/src/piece_kind.rs
index ec5dbd0..e442228 100644
--- a/shogi_core/src/piece_kind.rs
+++ b/shogi_core/src/piece_kind.rs
@@ -113,6 +113,7 @@ impl PieceKind {
     /// If `self` cannot promote, this function returns [`None`].
     #[must_use]
     #[inline]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::kind_promote(self, *r)))]
     pub fn promote(self) -> Option<Self> {
         match self {
             PieceKind::Pawn => Some(PieceKind::ProPawn),
@@ -136,6 +137,7 @@ impl PieceKind {
     /// If `self` is not a promoted piece, this function returns `None`.
     #[must_use]
     #[inline]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::kind_unpromote(self, *r)))]
     pub fn unpromote(self) -> Option<Self> {
         match self {
             PieceKind::Pawn => None,
@@ -161,6 +163,7 @@ impl PieceKind {
     /// This condition is equivalent to `1 <= repr && repr <= 14`.
     ///
     /// `const`: since 0.1.2
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::kind_from_u8(repr, *r)))]
     pub const fn from_u8(repr: u8) -> Option<Self> {
         if matches!(repr, 1..=14) {
             // Safety: `repr` is in range `1..=14`.
@@ -172,6 +175,7 @@ impl PieceKind {
 
     /// C interface of [`PieceKind::from_u8`].
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::kind_from_u8_c(repr, r)))]
     pub extern "C" fn PieceKind_from_u8(repr: u8) -> OptionPieceKind {
         Self::from_u8(repr).into()
     }
@@ -184,6 +188,8 @@ impl PieceKind {
     ///
     /// `const`: since 0.1.2
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::requires(crate::contracts::kind_code_ok(repr)))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::kind_from_u8_unchecked(repr, *r)))]
     pub const unsafe fn from_u8_unchecked(repr: u8) -> Self {
         core::mem::transmute(repr)
     }
@@ -195,6 +201,8 @@ impl PieceKind {
     /// This condition is equivalent to `1 <= repr && repr <= 14`.
     #[no_mangle]
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::requires(crate::contracts::kind_code_ok(repr)))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::kind_from_u8_unchecked(repr, *r)))]
     pub unsafe extern "C" fn PieceKind_from_u8_unchecked(repr: u8) -> Self {
         core::mem::transmute(repr)
     }
@@ -202,6 +210,7 @@ impl PieceKind {
     /// C interface of [`PieceKind::promote`].
     #[allow(non_snake_case)]
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::kind_promote_c(self, r)))]
     pub extern "C" fn PieceKind_promote(self) -> OptionPieceKind {
         self.promote().into()
     }
@@ -209,6 +218,7 @@ impl PieceKind {
     /// C interface of [`PieceKind::unpromote`].
     #[allow(non_snake_case)]
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::kind_unpromote_c(self, r)))]
     pub extern "C" fn PieceKind_unpromote(self) -> OptionPieceKind {
         self.unpromote().into()
     }
@@ -217,6 +227,7 @@ impl PieceKind {
     ///
     /// Since: 0.1.2
     #[inline]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::kind_array_index(self, *r)))]
     pub const fn array_index(self) -> usize {
         let result = self as usize - 1;
         // Safety: 0 <= self as usize - 1 <= 13 always holds
@@ -244,6 +255,7 @@ impl PieceKind {
     #[cfg_attr(docsrs, doc(cfg(feature = "experimental")))]
     #[cfg(feature = "experimental")]
     #[inline]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::kind_option_array_index(arg, *r)))]
     pub const fn option_array_index(arg: Option<Self>) -> usize {
         match arg {
             Some(result) => result as usize,
@@ -256,6 +268,7 @@ impl PieceKind {
     pub const OPTION_NUM: usize = 15;
 
     /// Returns all possible `PieceKind`s in the ascending order of their discriminants.
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::kind_all(*r)))]
     pub fn all() -> [Self; Self::NUM] {
         [
             PieceKind::Pawn,
diff --git a/shogi_core/src/position.rs b/shogi_core/src/position.rs
index d1a72fb..f1fafb6 100644
--- a/shogi_core/src/position.rs
+++ b/shogi_core/src/position.rs
@@ -11,7 +11,9 @@ use crate::{
 #[cfg(feature = "alloc")]
 #[cfg_attr(docsrs, doc(cfg(feature = "alloc")))]
 #[derive(Eq, PartialEq, Clone, Debug, Default)]
+#[cfg_attr(kani, derive(kani::BoundedArbitrary))]
 pub struct Game {
+    #[cfg_attr(kani, bounded)]
     inner: Position,
     resolution: OptionGameResolution,
 }
@@ -55,6 +57,7 @@ impl_hash_with_fields!(Game; inner, resolution);
 
 /// A record of a game. A position and how a game is resolved.
 #[derive(Eq, PartialEq, Clone, Debug, Default)]
+#[cfg_attr(kani, derive(kani::Arbitrary))]
 pub struct PartialGame {
     inner: PartialPosition,
     resolution: OptionGameResolution,
@@ -98,9 +101,11 @@ impl_hash_with_fields!(PartialGame; inner, resolution);
 #[cfg(feature = "alloc")]
 #[cfg_attr(docsrs, doc(cfg(feature = "alloc")))]
 #[derive(Eq, PartialEq, Clone, Debug, Default)]
+#[cfg_attr(kani, derive(kani::BoundedArbitrary))]
 pub struct Position {
     initial: PartialPosition,
     inner: PartialPosition,
+    #[cfg_attr(kani, bounded)]
     moves: alloc::vec::Vec<Move>,
 }
 
@@ -372,6 +377,7 @@ impl_hash_with_fields!(Position; initial, inner, moves);
 ///
 /// TODO: describe exactly when a position is considered valid
 #[derive(Eq, PartialEq, Clone, Debug)]
+#[cfg_attr(kani, derive(kani::Arbitrary))]
 #[repr(C)]
 pub struct PartialPosition {
     side: Color,
@@ -386,6 +392,7 @@ pub struct PartialPosition {
 
 impl PartialPosition {
     /// Returns an empty position.
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::pos_empty(r)))]
     pub fn empty() -> Self {
         Self {
             side: Color::Black,
@@ -428,6 +435,7 @@ impl PartialPosition {
     };
 
     /// Returns the starting position of shogi.
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::pos_startpos(r)))]
     pub fn startpos() -> Self {
         // TODO stop panicking
         let mut board: [OptionPiece; 81] = [None.into(); 81];
@@ -502,6 +510,8 @@ impl PartialPosition {
 
     /// Sets which player is to move.
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::modifies(self))]
+    #[cfg_attr(kani_contracts, kani::ensures(|_| crate::contracts::side_to_move_set_post(&old(crate::contracts::snapshot(self)), self, side)))]
     pub fn side_to_move_set(&mut self, side: Color) {
         self.side = side;
     }
@@ -527,6 +537,7 @@ impl PartialPosition {
     /// Returns how many pieces of `piece` are in hand.
     ///
     /// If `piece` is not a valid piece in hand, this method returns [`None`].
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::pos_hand(self, piece, *r)))]
     pub fn hand(&self, piece: Piece) -> Option<u8> {
         let hand = self.hand_of_a_player(piece.color());
         hand.count(piece.piece_kind())
@@ -542,6 +553,8 @@ impl PartialPosition {
     /// Sets how many moves are made. Returns whether this operation was successful.
     /// This operation succeeds iff `ply != 0`.
     #[must_use]
+    #[cfg_attr(kani_contracts, kani::modifies(self))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::ply_set_post(&old(crate::contracts::snapshot(self)), self, ply, *r)))]
     pub fn ply_set(&mut self, ply: u16) -> bool {
         if ply == 0 {
             return false;
@@ -562,6 +575,7 @@ impl PartialPosition {
     /// assert_eq!(vacant, None);
     /// ```
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::pos_piece_at(self, square, *r)))]
     pub fn piece_at(&self, square: Square) -> Option<Piece> {
         <Option<Piece>>::from(self.PartialPosition_piece_at(square))
     }
@@ -579,6 +593,9 @@ impl PartialPosition {
     ///
     /// This function makes no guarantee about the consistency of the position.
     /// Users should have a good reason when using it. Exported for parsers.
+    #[cfg_attr(kani_contracts, kani::requires(crate::contracts::piece_set_pre(self, square)))]
+    #[cfg_attr(kani_contracts, kani::modifies(self))]
+    #[cfg_attr(kani_contracts, kani::ensures(|_| crate::contracts::piece_set_post(&old(crate::contracts::snapshot(self)), self, square, piece)))]
     pub fn piece_set(&mut self, square: Square, piece: Option<Piece>) {
         let index = square.index() - 1;
         let old = self.piece_at(square);
@@ -618,6 +635,7 @@ impl PartialPosition {
     /// Since: 0.1.4
     #[export_name = "PartialPosition_occupied_bitboard"]
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::pos_occupied(self, *r)))]
     pub extern "C" fn occupied_bitboard(&self) -> Bitboard {
         self.player_bb[0] | self.player_bb[1]
     }
@@ -625,6 +643,7 @@ impl PartialPosition {
     /// Finds the subset of squares with no pieces.
     #[export_name = "PartialPosition_vacant_bitboard"]
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::pos_vacant(self, *r)))]
     pub extern "C" fn vacant_bitboard(&self) -> Bitboard {
         !self.occupied_bitboard()
     }
@@ -649,6 +668,7 @@ impl PartialPosition {
     /// ```
     #[export_name = "PartialPosition_piece_bitboard"]
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::pos_piece_bitboard(self, piece, *r)))]
     pub extern "C" fn piece_bitboard(&self, piece: Piece) -> Bitboard {
         let (piece_kind, color) = piece.to_parts();
         self.piece_bb[piece_kind.array_index()] & self.player_bb[color.array_index()]
@@ -676,6 +696,7 @@ impl PartialPosition {
     /// use shogi_core::PartialPosition;
     /// assert_eq!(PartialPosition::startpos().last_move(), None);
     /// ```
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::pos_last_move(self, *r)))]
     pub fn last_move(&self) -> Option<Move> {
         self.last_compact_move().map(|mv| mv.into())
     }
@@ -687,6 +708,7 @@ impl PartialPosition {
     /// use shogi_core::PartialPosition;
     /// assert_eq!(PartialPosition::startpos().last_compact_move(), None);
     /// ```
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::pos_last_compact_move(self, *r)))]
     pub fn last_compact_move(&self) -> Option<CompactMove> {
         self.last_move.into()
     }
@@ -708,6 +730,9 @@ impl PartialPosition {
     /// moves a piece to another square or drops a piece on a vacant square.
     ///
     /// If it returns None, it is guaranteed that self is not modified.
+    #[cfg_attr(kani_contracts, kani::requires(crate::contracts::make_move_pre(self, mv)))]
+    #[cfg_attr(kani_contracts, kani::modifies(self))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::make_move_post(&old(crate::contracts::snapshot(self)), self, mv, r.is_some())))]
     pub fn make_move(&mut self, mv: Move) -> Option<()> {
         let color = self.side;
         match mv {
@@ -762,6 +787,9 @@ impl PartialPosition {
     ///
     /// If it returns false, it is guaranteed that self is not modified.
     #[export_name = "PartialPosition_make_compact_move"]
+    #[cfg_attr(kani_contracts, kani::requires(crate::contracts::make_move_pre(self, crate::contracts::move_of(mv))))]
+    #[cfg_attr(kani_contracts, kani::modifies(self))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::make_move_post(&old(crate::contracts::snapshot(self)), self, crate::contracts::move_of(mv), *r)))]
     pub extern "C" fn make_compact_move(&mut self, mv: CompactMove) -> bool {
         let mv = mv.into();
         self.make_move(mv).is_some()
diff --git a/shogi_core/src/square.rs b/shogi_core/src/square.rs
index 09ba7c2..56bad39 100644
--- a/shogi_core/src/square.rs
+++ b/shogi_core/src/square.rs
@@ -16,6 +16,7 @@ impl Square {
     /// `file` and `rank` must be between 1 and 9 (both inclusive).
     /// If this condition is not met, this function returns None.
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_new(file, rank, *r)))]
     pub const fn new(file: u8, rank: u8) -> Option<Self> {
         if file.wrapping_sub(1) >= 9 || rank.wrapping_sub(1) >= 9 {
             return None;
@@ -28,6 +29,7 @@ impl Square {
 
     /// C interface to [`Square::new`].
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_new_c(file, rank, *r)))]
     pub extern "C" fn Square_new(file: u8, rank: u8) -> OptionSquare {
         Square::new(file, rank).into()
     }
@@ -43,6 +45,7 @@ impl Square {
     /// assert_eq!(Square::new_relative(3, 4, Color::Black), Some(Square::SQ_3D));
     /// assert_eq!(Square::new_relative(3, 4, Color::White), Some(Square::SQ_7F));
     /// ```
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_new_relative(file, rank, color, *r)))]
     pub const fn new_relative(file: u8, rank: u8, color: Color) -> Option<Self> {
         if file.wrapping_sub(1) >= 9 || rank.wrapping_sub(1) >= 9 {
             return None;
@@ -59,6 +62,7 @@ impl Square {
 
     /// C interface to [`Square::new_relative`].
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_new_relative_c(file, rank, color, *r)))]
     pub extern "C" fn Square_new_relative(file: u8, rank: u8, color: Color) -> OptionSquare {
         Square::new_relative(file, rank, color).into()
     }
@@ -72,6 +76,7 @@ impl Square {
     /// ```
     #[inline(always)]
     #[export_name = "Square_file"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_file(self, *r)))]
     pub extern "C" fn file(self) -> u8 {
         self.sanity_check();
         (((self.0.get() + 8) as u32 * 57) >> 9) as u8
@@ -86,6 +91,7 @@ impl Square {
     /// ```
     #[inline(always)]
     #[export_name = "Square_rank"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_rank(self, *r)))]
     pub extern "C" fn rank(self) -> u8 {
         self.sanity_check();
         self.0.get() + 9 - 9 * self.file()
@@ -101,6 +107,7 @@ impl Square {
     /// ```
     #[inline(always)]
     #[export_name = "Square_index"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_index(self, *r)))]
     pub extern "C" fn index(self) -> u8 {
         self.sanity_check();
         self.0.get()
@@ -108,6 +115,7 @@ impl Square {
 
     /// Finds the rank from the perspective of `color`.
     #[export_name = "Square_relative_rank"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_relative_rank(self, color, *r)))]
     pub extern "C" fn relative_rank(self, color: Color) -> u8 {
         let rank = self.rank();
         match color {
@@ -118,6 +126,7 @@ impl Square {
 
     /// Finds the file from the perspective of `color`.
     #[export_name = "Square_relative_file"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_relative_file(self, color, *r)))]
     pub extern "C" fn relative_file(self, color: Color) -> u8 {
         let file = self.file();
         match color {
@@ -136,6 +145,7 @@ impl Square {
     /// ```
     #[inline(always)]
     #[export_name = "Square_flip"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_flip(self, *r)))]
     pub extern "C" fn flip(self) -> Self {
         // Safety: self.0.get() is in range 1..=81.
         unsafe { Self::from_u8_unchecked(82 - self.0.get()) }
@@ -152,6 +162,7 @@ impl Square {
     /// ```
     #[inline]
     #[export_name = "Square_from_u8"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_from_u8(value, *r)))]
     pub extern "C" fn from_u8(value: u8) -> Option<Self> {
         // The shortest possible machine code for this function in x86_64 (System V AMD64 ABI) is:
         // 31 c0       xorl %eax, %eax
@@ -170,6 +181,8 @@ impl Square {
     /// # Safety
     /// `value` must be in range 1..=81
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::requires(crate::contracts::sq_code_ok(value)))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_from_u8_unchecked(value, *r)))]
     pub const unsafe fn from_u8_unchecked(value: u8) -> Self {
         if !matches!(value, 1..=81) {
             core::hint::unreachable_unchecked();
@@ -183,6 +196,8 @@ impl Square {
     /// `value` must be in range 1..=81
     #[inline(always)]
     #[no_mangle]
+    #[cfg_attr(kani_contracts, kani::requires(crate::contracts::sq_code_ok(value)))]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_from_u8_unchecked(value, *r)))]
     pub unsafe extern "C" fn Square_from_u8_unchecked(value: u8) -> Self {
         if !matches!(value, 1..=81) {
             core::hint::unreachable_unchecked();
@@ -200,6 +215,7 @@ impl Square {
     /// assert_eq!(Square::SQ_3C.shift(-4, 3), None);
     /// ```
     #[export_name = "Square_shift"]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_shift(self, file_delta, rank_delta, *r)))]
     pub extern "C" fn shift(self, file_delta: i8, rank_delta: i8) -> Option<Self> {
         self.sanity_check();
         let file_m1 = (self.file() as i8).wrapping_add(file_delta).wrapping_sub(1);
@@ -215,6 +231,7 @@ impl Square {
     ///
     /// Since: 0.1.2
     #[inline(always)]
+    #[cfg_attr(kani_contracts, kani::ensures(|r| crate::contracts::square_array_index(self, *r)))]
     pub const fn array_index(self) -> usize {
         self.sanity_check();
         let result = (self.0.get() - 1) as usize;
-- 
2.43.0


From 86b1d79c301b8faef744fd71452fb1ea41632ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:00 +0000
Subject: [PATCH 5/5] hook: a Position from its parts, for the Kani verifier

---
 shogi_core/src/position.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/shogi_core/src/position.rs b/shogi_core/src/position.rs
index f1fafb6..ae675b4 100644
--- a/shogi_core/src/position.rs
+++ b/shogi_core/src/position.rs
@@ -145,6 +145,21 @@ impl Position {
         drop(alloc::boxed::Box::from_raw(ptr));
     }
 
+    /// A [`Position`] with arbitrary contents, for the verifier.
+    #[cfg(kani)]
+    #[doc(hidden)]
+    pub fn from_parts(
+        initial: PartialPosition,
+        inner: PartialPosition,
+        moves: alloc::vec::Vec<Move>,
+    ) -> Self {
+        Self {
+            initial,
+            inner,
+            moves,
+        }
+    }
+
     /// Creates a [`Position`] with its initial position `p`.
     pub fn arbitrary_position(p: PartialPosition) -> Self {
         Self {
-- 
2.43.0

