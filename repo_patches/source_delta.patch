From ef87fe7e2b333db7e1f04a94237dc338fc36c1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 01/51] fix: wrap guest addresses in the poseidon2 ecall

The input of the poseidon2 ecall may wrap around the end of the address
space, like every other memory access; the recorded addresses already do.
---
 runner/src/poseidon2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/poseidon2.rs b/runner/src/poseidon2.rs
index c87cfea..23ad7ae 100644
--- a/runner/src/poseidon2.rs
+++ b/runner/src/poseidon2.rs
@@ -89,7 +89,7 @@ impl<F: RichField> State<F> {
         let input_len = self.get_register_value(REG_A2);
         let output_ptr = self.get_register_value(REG_A3);
         let input: Vec<F> = (0..input_len)
-            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr + i)))
+            .map(|i| F::from_canonical_u8(self.load_u8(input_ptr.wrapping_add(i))))
             .collect();
         let (hash, sponge_data) =
             hash_n_to_m_no_pad::<F, Poseidon2Permutation<F>>(input.as_slice());
-- 
2.43.0


From 1a288786ee144202670517d357706e6ecf8c1b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 02/51] fix: wrap guest addresses in message ecalls and
 State::load_u32

A message or word at the very end of the address space panicked with an
arithmetic overflow (or was cut to nothing without overflow checks).
---
 runner/src/ecall.rs | 8 ++++----
 runner/src/state.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/runner/src/ecall.rs b/runner/src/ecall.rs
index afef451..23f9ab3 100644
--- a/runner/src/ecall.rs
+++ b/runner/src/ecall.rs
@@ -103,8 +103,8 @@ impl<F: RichField> State<F> {
         let msg_ptr = self.get_register_value(REG_A1);
         let msg_len = self.get_register_value(REG_A2);
         let mut msg_vec = vec![];
-        for addr in msg_ptr..(msg_ptr + msg_len) {
-            msg_vec.push(self.load_u8(addr));
+        for i in 0..msg_len {
+            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
         }
         panic!(
             "VM panicked with msg: {}",
@@ -120,8 +120,8 @@ impl<F: RichField> State<F> {
         let msg_ptr = self.get_register_value(REG_A1);
         let msg_len = self.get_register_value(REG_A2);
         let mut msg_vec = vec![];
-        for addr in msg_ptr..(msg_ptr + msg_len) {
-            msg_vec.push(self.load_u8(addr));
+        for i in 0..msg_len {
+            msg_vec.push(self.load_u8(msg_ptr.wrapping_add(i)));
         }
         log::debug!(
             "VM TRACE LOG: {}",
diff --git a/runner/src/state.rs b/runner/src/state.rs
index 06d1d93..7753755 100644
--- a/runner/src/state.rs
+++ b/runner/src/state.rs
@@ -396,7 +396,7 @@ impl<F: RichField> State<F> {
         const WORD_SIZE: usize = 4;
         let mut bytes = [0_u8; WORD_SIZE];
         for (i, byte) in (0_u32..).zip(bytes.iter_mut()) {
-            *byte = self.load_u8(addr + i);
+            *byte = self.load_u8(addr.wrapping_add(i));
         }
         u32::from_le_bytes(bytes)
     }
-- 
2.43.0


From 3f1869c6c66fbeb618d2a6c481acb50ef84615e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 03/51] fix: load code and data that end at the end of the
 address space

RangeFrom computes the successor of the last address it yields, so words
and segments ending exactly at 2^32 overflowed. Segments reaching beyond
2^32 are refused explicitly.
---
 runner/src/code.rs |  4 ++--
 runner/src/elf.rs  | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/runner/src/code.rs b/runner/src/code.rs
index 8b57b3e..a81f18c 100644
--- a/runner/src/code.rs
+++ b/runner/src/code.rs
@@ -39,8 +39,8 @@ impl From<&HashMap<u32, u8>> for Code {
         fn load_u32(m: &HashMap<u32, u8>, addr: u32) -> u32 {
             const WORD_SIZE: usize = 4;
             let mut bytes = [0_u8; WORD_SIZE];
-            for (i, byte) in (addr..).zip(bytes.iter_mut()) {
-                *byte = m.get(&i).copied().unwrap_or_default();
+            for (i, byte) in (0_u32..).zip(bytes.iter_mut()) {
+                *byte = m.get(&addr.wrapping_add(i)).copied().unwrap_or_default();
             }
             u32::from_le_bytes(bytes)
         }
diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 8818314..bc2c469 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -49,7 +49,7 @@ impl From<HashMap<u32, u32>> for Program {
         }
         let image: HashMap<u32, u8> = image
             .iter()
-            .flat_map(move |(k, v)| (*k..).zip(v.to_le_bytes()))
+            .flat_map(move |(k, v)| (*k..=u32::MAX).zip(v.to_le_bytes()))
             .collect::<HashMap<u32, u8>>();
         Self {
             entry_point: 0_u32,
@@ -81,7 +81,7 @@ impl From<HashMap<u32, u32>> for Data {
             image
                 .iter()
                 .flat_map(move |(k, v)| {
-                    (u64::from(*k)..)
+                    (u64::from(*k)..u64::from(*k) + 4)
                         .map(|k| u32::try_from(k).unwrap())
                         .zip(v.to_le_bytes())
                 })
@@ -209,7 +209,11 @@ impl Program {
 
                 let min_size = min(file_size, mem_size);
                 let max_size = max(file_size, mem_size);
-                Ok((vaddr..).zip(
+                ensure!(
+                    max_size as u64 <= u64::from(u32::MAX - vaddr) + 1,
+                    "Segment exceeds the address space"
+                );
+                Ok((vaddr..=u32::MAX).zip(
                     chain!(&input[offset..][..min_size], repeat(&0u8))
                         .take(max_size)
                         .copied(),
-- 
2.43.0


From 200e83149f5ad871b3b6b7f263e350417bf28d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 04/51] fix: load the data of RWX segments into rw_memory

As the comment on ro_code says, RWX segments belong in both ro_code and
rw_memory; the exact comparison of the flags dropped their data.
---
 runner/src/elf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index bc2c469..4cf6283 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -170,7 +170,7 @@ impl Program {
         ));
 
         let rw_memory = Data(Program::extract_elf_data(
-            |flags, _| flags == elf::abi::PF_R | elf::abi::PF_W,
+            |flags, _| flags & (elf::abi::PF_R | elf::abi::PF_W) == elf::abi::PF_R | elf::abi::PF_W,
             input,
             &segments,
         ));
-- 
2.43.0


From 2d5eca686cf32299b6acc8d1cfa3ea7351772176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 05/51] fix: load PT_LOAD segments only

Other program headers (notes, PT_RISCV_ATTRIBUTES, PT_GNU_RELRO, ...) only
describe the file or regions of other segments; loading them as well made
addresses read-only or zero that the program never mapped that way.
---
 runner/src/elf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner/src/elf.rs b/runner/src/elf.rs
index 4cf6283..5935f1a 100644
--- a/runner/src/elf.rs
+++ b/runner/src/elf.rs
@@ -200,6 +200,7 @@ impl Program {
     ) -> HashMap<u32, u8> {
         segments
             .iter()
+            .filter(|program_header| program_header.p_type == elf::abi::PT_LOAD)
             .filter(|program_header| check_program_flags(program_header.p_flags, program_header))
             .map(|program_header| -> anyhow::Result<_> {
                 let file_size: usize = program_header.p_filesz.try_into()?;
-- 
2.43.0


From 98fb611e6e8bd10fed6127af18766f74bf97310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 06/51] fix: convert program data to a tape in address order

---
 runner/src/state.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runner/src/state.rs b/runner/src/state.rs
index 7753755..8f76ae3 100644
--- a/runner/src/state.rs
+++ b/runner/src/state.rs
@@ -5,6 +5,7 @@ use std::rc::Rc;
 use anyhow::{anyhow, Result};
 use im::hashmap::HashMap;
 use im::HashSet;
+use itertools::Itertools;
 use log::trace;
 use mozak_sdk::core::constants::DIGEST_BYTES;
 use plonky2::hash::hash_types::RichField;
@@ -122,7 +123,12 @@ impl Default for StorageDeviceTape {
 impl From<Data> for StorageDeviceTape {
     fn from(data: Data) -> Self {
         Self {
-            data: data.0.values().copied().collect::<Rc<[u8]>>(),
+            data: data
+                .0
+                .into_iter()
+                .sorted()
+                .map(|(_, byte)| byte)
+                .collect::<Rc<[u8]>>(),
             read_index: 0,
         }
     }
-- 
2.43.0


From 35d3f1f3db04be8a0dfda6977b0683d3a2598e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 07/51] fix: refuse writes to read-only CSRs, so that unimp
 traps

---
 runner/src/decode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runner/src/decode.rs b/runner/src/decode.rs
index b0c64c4..e509cb5 100644
--- a/runner/src/decode.rs
+++ b/runner/src/decode.rs
@@ -237,6 +237,11 @@ pub fn decode_instruction(pc: u32, word: u32) -> Result<Instruction, DecodingErr
             // For RISC-V this would be EBREAK,
             // but so far we implemented it as a no-op.
             (0x0, 0x1) => nop,
+            // Writing to a read-only CSR (csr[11:10] == 0b11) is illegal. This includes
+            // `unimp` (csrrw x0, cycle, x0), which compilers emit for a trap: it must not
+            // fall through to whatever code comes next.
+            (0x1 | 0x5, 0xC00..=0xFFF) => return default(),
+            (0x2, 0xC00..=0xFFF) if bf.rs1() != 0 => return default(),
             // For RISC-V this would be (Op::CSRRW, itype),
             // but so far we implemented it as a no-op.
             (0x1, _) => nop,
-- 
2.43.0


From cdd3f0df01292857c6d81ced2bb115302ea40c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 08/51] fix: order events by address as merkleize expects

---
 sdk/src/native/eventtape.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdk/src/native/eventtape.rs b/sdk/src/native/eventtape.rs
index e1e4ad8..df80bb4 100644
--- a/sdk/src/native/eventtape.rs
+++ b/sdk/src/native/eventtape.rs
@@ -51,7 +51,10 @@ impl OrderedEvents {
             .zip(0usize..)
             .map(|((_, canonical_event), idx)| (*canonical_event, idx))
             .collect::<Vec<(CanonicalEvent, usize)>>();
-        canonically_sorted.sort();
+        // `merkleize` relies on addresses in ascending order as little-endian numbers.
+        canonically_sorted.sort_by_key(|(event, idx)| {
+            (u64::from_le_bytes(event.address.inner()), *event, *idx)
+        });
         canonically_sorted
     }
 
-- 
2.43.0


From 6c49ac10d74d43a6130c61a710b05f18877bd0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 09/51] fix: serve short and seeked reads of input tapes

---
 sdk/src/mozakvm/inputtape.rs | 59 ++++++++++++++----------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/sdk/src/mozakvm/inputtape.rs b/sdk/src/mozakvm/inputtape.rs
index 17b979f..96a3488 100644
--- a/sdk/src/mozakvm/inputtape.rs
+++ b/sdk/src/mozakvm/inputtape.rs
@@ -25,48 +25,35 @@ impl std::io::Read for RandomAccessEcallTape {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         // While we want the whole buffer to be filled, it may
         // not be possible due to us reaching the end of tape
-        // at times. Hence `required_bytes` encodes the desired
-        // request, while `serviced_bytes` encode the actual
+        // at times. Hence `serviced_bytes` encodes the actual
         // serviced len.
-        let required_bytes = buf.len();
-        let mut serviced_bytes = required_bytes;
-        if (self.read_offset + required_bytes) > self.size_hint {
-            serviced_bytes = self.size_hint - self.read_offset;
-        }
+        let serviced_bytes = buf
+            .len()
+            .min(self.size_hint.saturating_sub(self.read_offset));
+        let read_end = self.read_offset + serviced_bytes;
 
         // In cases where `Seek` was used, we may be reading from
         // `internal_buf` as we may have previously "consumed" those
-        // bytes already from the `ECALL` mechanism.
-        let mut populatable_from_internal_buf = self.internal_buf.len() - self.read_offset;
-        if serviced_bytes < populatable_from_internal_buf {
-            populatable_from_internal_buf = serviced_bytes;
+        // bytes already from the `ECALL` mechanism. Everything else up
+        // to `read_end`, including bytes skipped by `Seek`, we get from
+        // doing an `ECALL`.
+        let old_len = self.internal_buf.len();
+        if read_end > old_len {
+            self.internal_buf.resize(read_end, 0);
+
+            // TODO: maybe move out this function into `ecall.rs` somehow?
+            unsafe {
+                core::arch::asm!(
+                    "ecall",
+                    in ("a0") self.ecall_id,
+                    in ("a1") self.internal_buf.as_mut_ptr().add(old_len),
+                    in ("a2") read_end - old_len,
+                );
+            };
         }
 
-        // These are the actual bytes we get from doing an `ECALL`
-        let remaining_from_ecall = serviced_bytes - populatable_from_internal_buf;
-
-        // Populate partial buf from `internal_buf`
-        buf[..populatable_from_internal_buf].clone_from_slice(
-            &self.internal_buf
-                [self.read_offset..(self.read_offset + populatable_from_internal_buf)],
-        );
-
-        let old_len = self.internal_buf.len();
-        self.internal_buf.resize(old_len + remaining_from_ecall, 0);
-
-        // TODO: maybe move out this function into `ecall.rs` somehow?
-        unsafe {
-            core::arch::asm!(
-                "ecall",
-                in ("a0") self.ecall_id,
-                in ("a1") self.internal_buf.as_mut_ptr().add(old_len),
-                in ("a2") remaining_from_ecall,
-            );
-        };
-
-        // Populate partial buf from newly fetched bytes via `ECALL`
-        buf[populatable_from_internal_buf..].clone_from_slice(&self.internal_buf[old_len..]);
-        self.read_offset += serviced_bytes;
+        buf[..serviced_bytes].copy_from_slice(&self.internal_buf[self.read_offset..read_end]);
+        self.read_offset = read_end;
 
         Ok(serviced_bytes)
     }
-- 
2.43.0


From 60b802296f876b59a5870bde471f065b0a48f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 10/51] fix: seek input tapes to the requested position

---
 sdk/src/mozakvm/inputtape.rs | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/sdk/src/mozakvm/inputtape.rs b/sdk/src/mozakvm/inputtape.rs
index 96a3488..416a6e9 100644
--- a/sdk/src/mozakvm/inputtape.rs
+++ b/sdk/src/mozakvm/inputtape.rs
@@ -62,29 +62,15 @@ impl std::io::Read for RandomAccessEcallTape {
 #[cfg(feature = "stdread")]
 impl std::io::Seek for RandomAccessEcallTape {
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
-        match pos {
-            std::io::SeekFrom::Start(x) =>
-                if x >= self.size_hint.try_into().unwrap() {
-                    self.read_offset = self.size_hint - 1;
-                } else {
-                    self.read_offset = usize::try_from(x).unwrap();
-                },
-            std::io::SeekFrom::End(x) =>
-                if x >= self.size_hint.try_into().unwrap() {
-                    self.read_offset = 0;
-                } else {
-                    self.read_offset = self.size_hint - usize::try_from(x).unwrap() - 1;
-                },
-            std::io::SeekFrom::Current(x) => {
-                if x + i64::try_from(self.read_offset).unwrap()
-                    >= self.size_hint.try_into().unwrap()
-                {
-                    self.read_offset = self.size_hint - 1;
-                } else {
-                    self.read_offset += usize::try_from(x).unwrap();
-                }
-            }
+        let size = self.size_hint as u64;
+        let position = match pos {
+            std::io::SeekFrom::Start(x) => Some(x),
+            std::io::SeekFrom::End(x) => size.checked_add_signed(x),
+            std::io::SeekFrom::Current(x) => (self.read_offset as u64).checked_add_signed(x),
         }
+        .ok_or(std::io::ErrorKind::InvalidInput)?;
+        // There is nothing to read beyond the end, so we stop there.
+        self.read_offset = usize::try_from(position.min(size)).unwrap();
         Ok(self.read_offset as u64)
     }
 }
-- 
2.43.0


From 1e920042d74b2f03537376d4de99f0d2344dd452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 11/51] Hook: access to the native system tape under
 cfg(mozak_verif)

---
 sdk/src/common/system.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/src/common/system.rs b/sdk/src/common/system.rs
index c771a39..e03450a 100644
--- a/sdk/src/common/system.rs
+++ b/sdk/src/common/system.rs
@@ -88,6 +88,10 @@ pub(crate) static mut SYSTEM_TAPE: Lazy<SystemTape> = Lazy::new(|| {
     }
 });
 
+/// Gives verification harnesses access to `SYSTEM_TAPE`.
+#[cfg(all(mozak_verif, not(target_os = "mozakvm")))]
+pub fn verif_system_tape() -> &'static mut SystemTape { unsafe { &mut SYSTEM_TAPE } }
+
 #[cfg(target_os = "mozakvm")]
 /// Populates a `MozakVM` [`CallTapeType`] via ECALLs.
 ///
-- 
2.43.0


From 27c0c3fd64bbb27ba2b719f5d0a3a2abfd71d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 12/51] fix: merkleize addresses that differ in the top bit

---
 sdk/src/common/merkle.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdk/src/common/merkle.rs b/sdk/src/common/merkle.rs
index 7c80e3e..84560fb 100644
--- a/sdk/src/common/merkle.rs
+++ b/sdk/src/common/merkle.rs
@@ -17,16 +17,22 @@ pub fn merkleize(mut hashes_with_addr: Vec<(u64, Poseidon2Hash)>) -> Poseidon2Ha
     hashes_with_addr.first().map(|x| x.1).unwrap_or_default()
 }
 
+// Unlike `>>`, this allows shifting all bits out: addresses that differ in
+// their most significant bit only meet at the root.
+fn shift_right(addr: u64, height_incr: u32) -> u64 {
+    addr.checked_shr(height_incr).unwrap_or_default()
+}
+
 // Merkles all the closest relatives once, returns the next merge increment
 fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u32 {
     let mut next_height_incr = u32::MAX;
 
     hashes.entries(.., |e| {
         let Some(mut left) = e.remove() else { return };
-        left.0 >>= height_incr;
+        left.0 = shift_right(left.0, height_incr);
 
         while let Some(mut right) = e.remove() {
-            right.0 >>= height_incr;
+            right.0 = shift_right(right.0, height_incr);
 
             // Combine the two items and insert the result
             if left.0 == right.0 {
@@ -38,7 +44,7 @@ fn merkleize_step(hashes: &mut Vec<(u64, Poseidon2Hash)>, height_incr: u32) -> u
                 // Make sure to get a new left item
                 let Some(next) = e.remove() else { return };
                 right = next;
-                right.0 >>= height_incr;
+                right.0 = shift_right(right.0, height_incr);
             } else {
                 let Ok(_) = e.try_insert_outside(left) else {
                     unreachable!()
-- 
2.43.0


From 917b56395d073256b0a78491b2d08a896f410f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 13/51] Hook: allow the static reference

---
 sdk/src/common/system.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/src/common/system.rs b/sdk/src/common/system.rs
index e03450a..d6687cf 100644
--- a/sdk/src/common/system.rs
+++ b/sdk/src/common/system.rs
@@ -90,6 +90,7 @@ pub(crate) static mut SYSTEM_TAPE: Lazy<SystemTape> = Lazy::new(|| {
 
 /// Gives verification harnesses access to `SYSTEM_TAPE`.
 #[cfg(all(mozak_verif, not(target_os = "mozakvm")))]
+#[allow(static_mut_refs)]
 pub fn verif_system_tape() -> &'static mut SystemTape { unsafe { &mut SYSTEM_TAPE } }
 
 #[cfg(target_os = "mozakvm")]
-- 
2.43.0


From 37b285087b6822ce2845074e7f2efc8007e7f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 14/51] fix: let guests make further calls after nested ones

---
 sdk/src/common/system.rs    |  1 +
 sdk/src/mozakvm/calltape.rs | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/sdk/src/common/system.rs b/sdk/src/common/system.rs
index d6687cf..12e9dd6 100644
--- a/sdk/src/common/system.rs
+++ b/sdk/src/common/system.rs
@@ -205,6 +205,7 @@ pub fn ensure_clean_shutdown() {
 
     unsafe {
         // Should have read the full call tape
+        SYSTEM_TAPE.call_tape.skip_unrelated();
         assert!(
             SYSTEM_TAPE.call_tape.index == SYSTEM_TAPE.call_tape.reader.as_ref().unwrap().len()
         );
diff --git a/sdk/src/mozakvm/calltape.rs b/sdk/src/mozakvm/calltape.rs
index e1d175a..594d873 100644
--- a/sdk/src/mozakvm/calltape.rs
+++ b/sdk/src/mozakvm/calltape.rs
@@ -18,6 +18,25 @@ impl CallTape {
     fn is_casted_actor(&self, actor: &ProgramIdentifier) -> bool {
         &ProgramIdentifier::default() == actor || self.cast_list.contains(actor)
     }
+
+    /// Skips calls between other programs, such as those that a program we
+    /// called has made in turn.
+    pub(crate) fn skip_unrelated(&mut self) {
+        while let Some(zcd_cpcmsg) = self.reader.as_ref().unwrap().get(self.index) {
+            let caller: ProgramIdentifier = zcd_cpcmsg
+                .caller
+                .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
+                .unwrap();
+            let callee: ProgramIdentifier = zcd_cpcmsg
+                .callee
+                .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
+                .unwrap();
+            if caller == self.self_prog_id || callee == self.self_prog_id {
+                break;
+            }
+            self.index += 1;
+        }
+    }
 }
 
 impl SelfIdentify for CallTape {
@@ -38,6 +57,8 @@ impl Call for CallTape {
         R: CallReturn,
         <A as rkyv::Archive>::Archived: Deserialize<A, Strategy<(), Panic>>,
         <R as rkyv::Archive>::Archived: Deserialize<R, Strategy<(), Panic>>, {
+        self.skip_unrelated();
+
         // Ensure we aren't validating past the length of the event tape
         assert!(self.index < self.reader.as_ref().unwrap().len());
 
-- 
2.43.0


From cea9bff7bc83c14c131f696a74349ab25d4bf54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 15/51] fix: fail allocations that exceed the address space

---
 sdk/src/core/alloc.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/sdk/src/core/alloc.rs b/sdk/src/core/alloc.rs
index 6398a98..c224a6d 100644
--- a/sdk/src/core/alloc.rs
+++ b/sdk/src/core/alloc.rs
@@ -23,16 +23,18 @@ pub extern "C" fn alloc_aligned(bytes: usize, align: usize) -> *mut u8 {
         heap_pos = unsafe { core::ptr::from_ref::<u8>(&_end).cast::<u8>() as usize };
     }
 
-    let offset = heap_pos & (align - 1);
-    if offset != 0 {
-        heap_pos += align - offset;
-    }
-
-    let ptr = heap_pos as *mut u8;
-    heap_pos += bytes;
-
-    unsafe { HEAP_POS = heap_pos };
-    ptr
+    let padding = heap_pos.wrapping_neg() & (align - 1);
+    // Running out of address space must not wrap around into memory that is in
+    // use already.
+    let Some((start, end)) = heap_pos
+        .checked_add(padding)
+        .and_then(|start| Some((start, start.checked_add(bytes)?)))
+    else {
+        return core::ptr::null_mut();
+    };
+
+    unsafe { HEAP_POS = end };
+    start as *mut u8
 }
 
 use core::alloc::{GlobalAlloc, Layout};
-- 
2.43.0


From d1f070c4ca7d7afa398bd52312bb9eb7ac6343a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 16/51] fix: let rkyv spill when it needs more scratch space

---
 cli/src/runner.rs        | 4 ++--
 sdk/src/common/traits.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/src/runner.rs b/cli/src/runner.rs
index 25df3cb..e489500 100644
--- a/cli/src/runner.rs
+++ b/cli/src/runner.rs
@@ -17,7 +17,7 @@ use mozak_sdk::common::types::{
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::RichField;
 use plonky2::plonk::config::{AlgebraicHasher, GenericConfig};
-use rkyv::rancor::{Panic, Strategy};
+use rkyv::rancor::{Failure, Strategy};
 use rkyv::ser::AllocSerializer;
 use starky::config::StarkConfig;
 
@@ -114,7 +114,7 @@ pub fn raw_tapes_from_system_tape<F: std::io::Read>(
     {
         fn serialise<T>(tape: &T, dgb_string: &str) -> Vec<u8>
         where
-            T: rkyv::Archive + rkyv::Serialize<Strategy<AllocSerializer<256>, Panic>>, {
+            T: rkyv::Archive + rkyv::Serialize<Strategy<AllocSerializer<256>, Failure>>, {
             let tape_bytes = rkyv::to_bytes::<_, 256, _>(tape).unwrap().into();
             length_prefixed_bytes(tape_bytes, dgb_string)
         }
diff --git a/sdk/src/common/traits.rs b/sdk/src/common/traits.rs
index 3bc0c67..0448e03 100644
--- a/sdk/src/common/traits.rs
+++ b/sdk/src/common/traits.rs
@@ -1,4 +1,4 @@
-use rkyv::rancor::{Panic, Strategy};
+use rkyv::rancor::{Failure, Panic, Strategy};
 use rkyv::ser::allocator::{AllocationTracker, GlobalAllocator};
 use rkyv::ser::{AllocSerializer, Composite};
 use rkyv::util::AlignedVec;
@@ -8,7 +8,7 @@ use crate::common::types::{Event, ProgramIdentifier};
 
 pub trait RkyvSerializable = rkyv::Serialize<
         Strategy<Composite<AlignedVec, AllocationTracker<GlobalAllocator>, Panic>, Panic>,
-    > + Serialize<Strategy<AllocSerializer<256>, Panic>>;
+    > + Serialize<Strategy<AllocSerializer<256>, Failure>>;
 pub trait CallArgument = Sized + RkyvSerializable;
 pub trait CallReturn = ?Sized + Clone + Default + RkyvSerializable + Archive;
 
-- 
2.43.0


From 60b40ed0472fbfad61f75cc10e0888c01b5345de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 17/51] fix: allow a zero-length tape read before another read

A StorageDevice row for an empty read forced the next row to be a memory
row as soon as its size was nonzero, so an empty read directly followed by
a read of the same tape could not be proved.
---
 circuits/src/storage_device/stark.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/circuits/src/storage_device/stark.rs b/circuits/src/storage_device/stark.rs
index 6ed9de2..083b84f 100644
--- a/circuits/src/storage_device/stark.rs
+++ b/circuits/src/storage_device/stark.rs
@@ -72,7 +72,12 @@ fn generate_constraints<'a, T: Copy>(
 
     // If lv.is_storage_device() == 1 && nv.size != 0:
     //      nv.is_lv_and_nv_are_memory_rows == 1
-    constraints.always(lv.ops.is_storage_device * nv.size * (nv.is_lv_and_nv_are_memory_rows - 1));
+    // unless nv starts the next operation, after an empty one.
+    constraints.always(
+        lv.ops.is_storage_device
+            * nv.size
+            * (nv.is_lv_and_nv_are_memory_rows + nv.ops.is_storage_device - 1),
+    );
 
     constraints
 }
-- 
2.43.0


From 889279165b6a26fe8b2984b387fee357d18770e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 18/51] fix: hash inputs that end at the end of the address
 space

Trace generation overflowed while computing the address after the last
block.
---
 circuits/src/poseidon2_sponge/generation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/poseidon2_sponge/generation.rs b/circuits/src/poseidon2_sponge/generation.rs
index 2f97532..3cebd59 100644
--- a/circuits/src/poseidon2_sponge/generation.rs
+++ b/circuits/src/poseidon2_sponge/generation.rs
@@ -40,7 +40,7 @@ fn unroll_sponge_data<F: RichField>(row: &Row<F>) -> Vec<Poseidon2Sponge<F>> {
             output: sponge_datum.output,
             gen_output: sponge_datum.gen_output,
         });
-        input_addr += rate_size;
+        input_addr = input_addr.wrapping_add(rate_size);
         input_len -= rate_size;
     }
 
-- 
2.43.0


From 3956aa1f17e321ca809cc704450423069d6669ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 19/51] fix: prove JALR to odd sums

The VM clears the lowest bit of the jump target, but the constraints asked
for the whole sum, so such jumps could not be proved.
---
 circuits/src/cpu/columns.rs    | 2 ++
 circuits/src/cpu/generation.rs | 4 ++++
 circuits/src/cpu/jalr.rs       | 8 ++++++--
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index a41ff47..86b50d7 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -238,6 +238,8 @@ pub struct CpuState<T> {
     /// when `product_sign` is 0 and `product_high_limb != 0` when
     /// `product_sign` is 1
     pub product_high_limb_inv_helper: T,
+    /// The lowest bit of `op1 + op2`, which JALR clears.
+    pub jump_target_low_bit: T,
     pub mem_addr: T,
     pub io_addr: T,
     pub io_size: T,
diff --git a/circuits/src/cpu/generation.rs b/circuits/src/cpu/generation.rs
index 7f4f2a8..2a871cb 100644
--- a/circuits/src/cpu/generation.rs
+++ b/circuits/src/cpu/generation.rs
@@ -101,6 +101,10 @@ pub fn generate_cpu_trace<F: RichField>(record: &ExecutionRecord<F>) -> Vec<CpuS
             // if we have two (conflicting) users in the same row.
             bitshift: Bitshift::from(0).map(F::from_canonical_u32),
             xor: generate_xor_row(inst, state),
+            jump_target_low_bit: match inst.op {
+                Op::JALR => from_u32(aux.op1.wrapping_add(aux.op2) & 1),
+                _ => F::ZERO,
+            },
             mem_addr: F::from_canonical_u32(aux.mem.unwrap_or_default().addr),
             mem_value_raw: from_u32(aux.mem.unwrap_or_default().raw_value),
             io_addr: F::from_canonical_u32(io.addr),
diff --git a/circuits/src/cpu/jalr.rs b/circuits/src/cpu/jalr.rs
index 2b31e23..0d606a4 100644
--- a/circuits/src/cpu/jalr.rs
+++ b/circuits/src/cpu/jalr.rs
@@ -22,11 +22,15 @@ pub(crate) fn constraints<'a, P: Copy>(
         lv.inst.ops.jalr * (destination - return_address) * (destination - wrapped_return_address),
     );
 
-    let jump_target = lv.op1_value + lv.op2_value;
+    // JALR clears the lowest bit of the sum.  Instructions only ever sit at even
+    // addresses, so the program lookup of the next row makes the choice of
+    // `jump_target_low_bit` deterministic.
+    cb.always(lv.jump_target_low_bit.is_binary());
+    let jump_target = lv.op1_value + lv.op2_value - lv.jump_target_low_bit;
     let wrapped_jump_target = jump_target - (1 << 32);
     let new_pc = lv.new_pc;
 
-    // Check: the wrapped op1, op2 sum is set as new `pc`.
+    // Check: the wrapped op1, op2 sum, without its lowest bit, is set as new `pc`.
     // As values are u32 range checked, this makes the value choice deterministic.
     cb.transition(lv.inst.ops.jalr * (new_pc - jump_target) * (new_pc - wrapped_jump_target));
 }
-- 
2.43.0


From c71160155a2b2a0780b612b817ab980f9fcea6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 20/51] fix: constrain the signedness flags of the instruction
 to be binary

---
 circuits/src/cpu/memory.rs            | 1 +
 circuits/src/cpu/signed_comparison.rs | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/circuits/src/cpu/memory.rs b/circuits/src/cpu/memory.rs
index a47622d..7b692c7 100644
--- a/circuits/src/cpu/memory.rs
+++ b/circuits/src/cpu/memory.rs
@@ -15,6 +15,7 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     lv: &CpuState<Expr<'a, P>>,
     cb: &mut ConstraintBuilder<Expr<'a, P>>,
 ) {
+    cb.always(lv.inst.is_dst_signed.is_binary());
     cb.always(lv.dst_sign_bit.is_binary());
     // When dst is not signed as per instruction semantics, dst_sign_bit must be 0.
     cb.always((1 - lv.inst.is_dst_signed) * lv.dst_sign_bit);
diff --git a/circuits/src/cpu/signed_comparison.rs b/circuits/src/cpu/signed_comparison.rs
index 6c4130b..608a95a 100644
--- a/circuits/src/cpu/signed_comparison.rs
+++ b/circuits/src/cpu/signed_comparison.rs
@@ -27,6 +27,11 @@ pub(crate) fn signed_constraints<'a, P: Copy>(
     lv: &CpuState<Expr<'a, P>>,
     cb: &mut ConstraintBuilder<Expr<'a, P>>,
 ) {
+    // The program lookup combines these with the other fields of the instruction,
+    // so only binary values are unambiguous.
+    cb.always(lv.inst.is_op1_signed.is_binary());
+    cb.always(lv.inst.is_op2_signed.is_binary());
+
     cb.always(lv.op1_sign_bit.is_binary());
     cb.always(lv.op2_sign_bit.is_binary());
 
-- 
2.43.0


From a8c693bb1c708a94aac61258358810705dacbd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 21/51] fix: bind the signedness of loads to the program

---
 circuits/src/cpu/columns.rs       | 7 +++----
 circuits/src/ops/add/mod.rs       | 5 ++---
 circuits/src/ops/blt_taken/mod.rs | 5 ++---
 circuits/src/program/columns.rs   | 7 ++++---
 4 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 86b50d7..075a15a 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -441,18 +441,17 @@ pub fn lookup_for_program_rom() -> TableWithTypedOutput<ProgramRom<Column>> {
             // Combine columns into a single column.
             // - ops: This is an internal opcode, not the opcode from RISC-V, and can fit within 5
             //   bits.
-            // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
+            // - is_op1_signed, is_op2_signed and is_dst_signed: These fields occupy 1 bit each.
             // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
             // - imm_value: This field requires 32 bits.
-            // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than the
+            // Therefore, the total bit requirement is 5 * 5 + 32 = 57 bits, which is less than the
             // size of the Goldilocks field.
             // Note: The imm_value field, having more than 5 bits, must be positioned as the last
             // column in the list to ensure the correct functioning of 'reduce_with_powers'.
             inst_data: ColumnWithTypedInput::reduce_with_powers(
                 [
                     ColumnWithTypedInput::ascending_sum(inst.ops),
-                    inst.is_op1_signed,
-                    inst.is_op2_signed,
+                    inst.is_op1_signed + inst.is_op2_signed * 2 + inst.is_dst_signed * 4,
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
diff --git a/circuits/src/ops/add/mod.rs b/circuits/src/ops/add/mod.rs
index 2d9a71c..2526fd1 100644
--- a/circuits/src/ops/add/mod.rs
+++ b/circuits/src/ops/add/mod.rs
@@ -110,10 +110,10 @@ pub mod columns {
                 // Combine columns into a single column.
                 // - ops: This is an internal opcode, not the opcode from RISC-V, and can fit within
                 //   5 bits.
-                // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
+                // - is_op1_signed, is_op2_signed and is_dst_signed: These fields occupy 1 bit each.
                 // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
                 // - imm_value: This field requires 32 bits.
-                // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than
+                // Therefore, the total bit requirement is 5 * 5 + 32 = 57 bits, which is less than
                 // the size of the Goldilocks field.
                 // Note: The imm_value field, having more than 5 bits, must be positioned as the
                 // last column in the list to ensure the correct functioning of
@@ -125,7 +125,6 @@ pub mod columns {
                         // TODO: use a struct here to name the components, and make IntoIterator,
                         // like we do with our stark tables.
                         ColumnWithTypedInput::constant(0),
-                        ColumnWithTypedInput::constant(0),
                         inst.rs1_selected,
                         inst.rs2_selected,
                         inst.rd_selected,
diff --git a/circuits/src/ops/blt_taken/mod.rs b/circuits/src/ops/blt_taken/mod.rs
index 1b931a0..761dd78 100644
--- a/circuits/src/ops/blt_taken/mod.rs
+++ b/circuits/src/ops/blt_taken/mod.rs
@@ -102,10 +102,10 @@ pub mod columns {
                 // Combine columns into a single column.
                 // - ops: This is an internal opcode, not the opcode from RISC-V, and can fit within
                 //   5 bits.
-                // - is_op1_signed and is_op2_signed: These fields occupy 1 bit each.
+                // - is_op1_signed, is_op2_signed and is_dst_signed: These fields occupy 1 bit each.
                 // - rs1_select, rs2_select, and rd_select: These fields require 5 bits each.
                 // - imm_value: This field requires 32 bits.
-                // Therefore, the total bit requirement is 5 * 6 + 32 = 62 bits, which is less than
+                // Therefore, the total bit requirement is 5 * 5 + 32 = 57 bits, which is less than
                 // the size of the Goldilocks field.
                 // Note: The imm_value field, having more than 5 bits, must be positioned as the
                 // last column in the list to ensure the correct functioning of
@@ -117,7 +117,6 @@ pub mod columns {
                         // TODO: use a struct here to name the components, and make IntoIterator,
                         // like we do with our stark tables.
                         ColumnWithTypedInput::constant(0),
-                        ColumnWithTypedInput::constant(0),
                         inst.rs1_selected,
                         inst.rs2_selected,
                         ColumnWithTypedInput::constant(0),
diff --git a/circuits/src/program/columns.rs b/circuits/src/program/columns.rs
index 52ddd76..6ffdd3e 100644
--- a/circuits/src/program/columns.rs
+++ b/circuits/src/program/columns.rs
@@ -19,7 +19,7 @@ pub struct ProgramRom<T> {
     pub pc: T,
     /// `inst_data` include:
     /// - ops: This is an internal opcode, not the opcode from RISC-V
-    /// - `is_op1_signed` and `is_op2_signed`
+    /// - `is_op1_signed`, `is_op2_signed` and `is_dst_signed`
     /// - `rs1_select`, `rs2_select`, and `rd_select`
     /// - `imm_value`
     pub inst_data: T,
@@ -41,8 +41,9 @@ impl<F: RichField> From<Instruction<F>> for ProgramRom<F> {
             inst_data: reduce_with_powers(
                 [
                     ascending_sum(inst.ops),
-                    inst.is_op1_signed,
-                    inst.is_op2_signed,
+                    inst.is_op1_signed
+                        + inst.is_op2_signed * F::from_canonical_u64(2)
+                        + inst.is_dst_signed * F::from_canonical_u64(4),
                     inst.rs1_selected,
                     inst.rs2_selected,
                     inst.rd_selected,
-- 
2.43.0


From ddfa2d5998d2f2edba8a5f681e79855c627ff71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 22/51] fix: constrain the next pc in the last row of the CPU
 table

---
 circuits/src/cpu/jalr.rs  | 2 +-
 circuits/src/cpu/stark.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/src/cpu/jalr.rs b/circuits/src/cpu/jalr.rs
index 0d606a4..a32371e 100644
--- a/circuits/src/cpu/jalr.rs
+++ b/circuits/src/cpu/jalr.rs
@@ -32,7 +32,7 @@ pub(crate) fn constraints<'a, P: Copy>(
 
     // Check: the wrapped op1, op2 sum, without its lowest bit, is set as new `pc`.
     // As values are u32 range checked, this makes the value choice deterministic.
-    cb.transition(lv.inst.ops.jalr * (new_pc - jump_target) * (new_pc - wrapped_jump_target));
+    cb.always(lv.inst.ops.jalr * (new_pc - jump_target) * (new_pc - wrapped_jump_target));
 }
 
 #[cfg(test)]
diff --git a/circuits/src/cpu/stark.rs b/circuits/src/cpu/stark.rs
index d34744c..229bb64 100644
--- a/circuits/src/cpu/stark.rs
+++ b/circuits/src/cpu/stark.rs
@@ -34,7 +34,7 @@ impl<F, const D: usize> HasNamedColumns for CpuStark<F, D> {
 /// Ensure that if opcode is straight line, then program counter is incremented
 /// by 4.
 fn pc_ticks_up<'a, P: Copy>(lv: &CpuState<Expr<'a, P>>, cb: &mut ConstraintBuilder<Expr<'a, P>>) {
-    cb.transition(lv.inst.ops.is_straightline() * (lv.new_pc - (lv.inst.pc + 4)));
+    cb.always(lv.inst.ops.is_straightline() * (lv.new_pc - (lv.inst.pc + 4)));
 }
 
 /// Enforce that selectors of opcode are one-hot encoded.
-- 
2.43.0


From 3fe81763f9ad6e67598f148d9dc1ae9955eb9c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 23/51] fix: constrain the pc after an ecall

---
 circuits/src/cpu/ecall.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/src/cpu/ecall.rs b/circuits/src/cpu/ecall.rs
index 2bb38b3..0417f65 100644
--- a/circuits/src/cpu/ecall.rs
+++ b/circuits/src/cpu/ecall.rs
@@ -19,6 +19,9 @@ pub(crate) fn constraints<'a, P: Copy>(
     }
     cb.always(lv.inst.ops.ecall - ecalls.iter().sum::<Expr<'a, P>>());
     cb.always(lv.ecall_selectors.is_halt * (lv.op1_value - i64::from(ecall::HALT)));
+    // HALT stays where it is, all other ecalls go on with the next instruction.
+    cb.always(ecalls.is_halt * (lv.new_pc - lv.inst.pc));
+    cb.always((lv.inst.ops.ecall - ecalls.is_halt) * (lv.new_pc - (lv.inst.pc + 4)));
     storage_device_constraints(lv, cb);
     poseidon2_constraints(lv, cb);
 }
-- 
2.43.0


From 48fb96434b9596871ae7d47507a7f2b238561a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 24/51] fix: constrain the sign of the quotient to be binary

---
 circuits/src/cpu/div.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/src/cpu/div.rs b/circuits/src/cpu/div.rs
index 65a5468..b568f1d 100644
--- a/circuits/src/cpu/div.rs
+++ b/circuits/src/cpu/div.rs
@@ -50,6 +50,7 @@ pub(crate) fn constraints<'a, P: Copy>(
     );
 
     // We also need to make sure quotient_sign and remainder_sign are set correctly.
+    cb.always(quotient_sign.is_binary());
     cb.always(remainder_sign.is_binary());
     cb.always(dividend_sign.is_binary());
 
-- 
2.43.0


From e83f1c2a37ae95b1db3def9705c52196a07d6447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 25/51] fix: tie full words in memory to the registers they are
 loaded to and stored from

---
 circuits/src/cpu/memory.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/src/cpu/memory.rs b/circuits/src/cpu/memory.rs
index 7b692c7..467efc6 100644
--- a/circuits/src/cpu/memory.rs
+++ b/circuits/src/cpu/memory.rs
@@ -44,6 +44,9 @@ pub(crate) fn constraints<'a, P: Copy>(
 ) {
     // memory address is equal to rs2-value + imm (wrapping)
     cb.always(lv.inst.ops.is_mem_op() * (lv.mem_addr - lv.op2_value));
+    // Full words are neither extended nor truncated.
+    cb.always(lv.inst.ops.lw * (lv.dst_value - lv.mem_value_raw));
+    cb.always(lv.inst.ops.sw * (lv.op1_value - lv.mem_value_raw));
     // signed memory constraints
     signed_constraints(lv, cb);
 }
-- 
2.43.0


From aefe7871eea1a32fec5932b2a4e144431d96fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 26/51] fix: look up the truncation of stored bytes and half
 words

---
 circuits/src/cpu/columns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 075a15a..4d53311 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -413,7 +413,7 @@ pub fn lookup_for_storage_tables() -> TableWithTypedOutput<StorageDeviceCtl<Colu
 impl<T: core::ops::Add<Output = T>> OpSelectors<T> {
     #[must_use]
     pub fn ops_that_use_xor(self) -> T {
-        self.xor + self.or + self.and + self.srl + self.sll + self.sra
+        self.xor + self.or + self.and + self.srl + self.sll + self.sra + self.sb + self.sh
     }
 
     pub fn ops_that_shift(self) -> T { self.sll + self.srl + self.sra }
-- 
2.43.0


From 5ca90ef13c37d837ffb96dd44523b4c327cadcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 27/51] fix: range check the comparison of taken BLTU branches

---
 circuits/src/stark/mozak_stark.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/src/stark/mozak_stark.rs b/circuits/src/stark/mozak_stark.rs
index 847534a..b32cd8b 100644
--- a/circuits/src/stark/mozak_stark.rs
+++ b/circuits/src/stark/mozak_stark.rs
@@ -708,6 +708,7 @@ impl Lookups for RangecheckTable {
             memory::columns::rangecheck_looking(),
             cpu::columns::rangecheck_looking(),
             ops::add::columns::rangecheck_looking(),
+            ops::blt_taken::columns::rangecheck_looking(),
             register,
         ]
         .collect();
-- 
2.43.0


From d54097adb272c9640c373e40fb665071465be792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 28/51] fix: range check the immediate values that the program
 lookup packs

---
 circuits/src/cpu/columns.rs       |  3 +++
 circuits/src/ops/add/mod.rs       |  7 ++++++-
 circuits/src/ops/blt_taken/mod.rs | 15 ++++++++++-----
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 4d53311..b6df69f 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -309,6 +309,9 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
         (CPU.remainder_slack, divs),
         (CPU.dst_value, ops.add + ops.sub + ops.jalr),
         (CPU.inst.pc, ops.jalr),
+        // The program lookup packs the immediate value with the other fields of the
+        // instruction.  That's only unambiguous when it fits into 32 bits.
+        (CPU.inst.imm_value, CPU.is_running()),
         (CPU.abs_diff, ops.bge + ops.blt),
         (CPU.product_high_limb, muls),
         (CPU.product_low_limb, muls),
diff --git a/circuits/src/ops/add/mod.rs b/circuits/src/ops/add/mod.rs
index 2526fd1..80f3e9f 100644
--- a/circuits/src/ops/add/mod.rs
+++ b/circuits/src/ops/add/mod.rs
@@ -85,7 +85,12 @@ pub mod columns {
     // it for other operations that don't need it.
     #[must_use]
     pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>> {
-        vec![AddTable::new(RangeCheckCtl(ADD.dst_value), ADD.is_running)]
+        vec![
+            AddTable::new(RangeCheckCtl(ADD.dst_value), ADD.is_running),
+            // The program lookup packs the immediate value with the other fields of the
+            // instruction.  That's only unambiguous when it fits into 32 bits.
+            AddTable::new(RangeCheckCtl(ADD.inst.imm_value), ADD.is_running),
+        ]
     }
 
     #[must_use]
diff --git a/circuits/src/ops/blt_taken/mod.rs b/circuits/src/ops/blt_taken/mod.rs
index 761dd78..2d3bb3c 100644
--- a/circuits/src/ops/blt_taken/mod.rs
+++ b/circuits/src/ops/blt_taken/mod.rs
@@ -71,12 +71,17 @@ pub mod columns {
     #[must_use]
     pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>> {
         // TODO: add an impl to be able to subtract (and add etc) i64 from columns.
-        vec![BltTakenTable::new(
-            RangeCheckCtl(
-                COL_MAP.op2_value - COL_MAP.op1_value - ColumnWithTypedInput::constant(1),
+        vec![
+            BltTakenTable::new(
+                RangeCheckCtl(
+                    COL_MAP.op2_value - COL_MAP.op1_value - ColumnWithTypedInput::constant(1),
+                ),
+                COL_MAP.is_running,
             ),
-            COL_MAP.is_running,
-        )]
+            // The program lookup packs the immediate value with the other fields of the
+            // instruction.  That's only unambiguous when it fits into 32 bits.
+            BltTakenTable::new(RangeCheckCtl(COL_MAP.inst.imm_value), COL_MAP.is_running),
+        ]
     }
 
     #[must_use]
-- 
2.43.0


From 4060b1d1139616c80ec340b9b9651cdb13e10832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:32 +0000
Subject: [PATCH 29/51] fix: range check the sign of loaded bytes and half
 words

---
 circuits/src/cpu/columns.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index b6df69f..94fa17a 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -326,8 +326,17 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
             CPU.op2_value - CPU.op2_sign_bit * (1 << 32) + CPU.inst.is_op2_signed * (1 << 31),
             CPU.inst.is_op2_signed,
         ),
-        (CPU.dst_value - CPU.dst_sign_bit * 0xFFFF_FF00, ops.lb),
-        (CPU.dst_value - CPU.dst_sign_bit * 0xFFFF_0000, ops.lh),
+        // Same for the sign bit of the loaded byte or half word, moved up to fill 32 bits.
+        (
+            CPU.mem_value_raw * (1 << 24) - CPU.dst_sign_bit * (1 << 32)
+                + CPU.inst.is_dst_signed * (1 << 31),
+            ops.lb,
+        ),
+        (
+            CPU.mem_value_raw * (1 << 16) - CPU.dst_sign_bit * (1 << 32)
+                + CPU.inst.is_dst_signed * (1 << 31),
+            ops.lh,
+        ),
     ]
     .into_iter()
     .map(|(columns, filter)| CpuTable::new(RangeCheckCtl(columns), filter))
-- 
2.43.0


From 8640aad9b65ba734c143ee4f82b2ed2c298205c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:03 +0000
Subject: [PATCH 30/51] fix: range check the comparison of SLT and SLTU

---
 circuits/src/cpu/columns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/src/cpu/columns.rs b/circuits/src/cpu/columns.rs
index 94fa17a..981d8c4 100644
--- a/circuits/src/cpu/columns.rs
+++ b/circuits/src/cpu/columns.rs
@@ -312,7 +312,7 @@ pub fn rangecheck_looking() -> Vec<TableWithTypedOutput<RangeCheckCtl<Column>>>
         // The program lookup packs the immediate value with the other fields of the
         // instruction.  That's only unambiguous when it fits into 32 bits.
         (CPU.inst.imm_value, CPU.is_running()),
-        (CPU.abs_diff, ops.bge + ops.blt),
+        (CPU.abs_diff, ops.bge + ops.blt + ops.slt),
         (CPU.product_high_limb, muls),
         (CPU.product_low_limb, muls),
         // apply range constraints for the sign bits of each operand
-- 
2.43.0


From bf85682cfd93840e1e085077d55fec878c17cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:24 +0000
Subject: [PATCH 31/51] fix: look up the address register for event tape reads

---
 circuits/src/storage_device/columns.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/src/storage_device/columns.rs b/circuits/src/storage_device/columns.rs
index 281531b..1bfa94c 100644
--- a/circuits/src/storage_device/columns.rs
+++ b/circuits/src/storage_device/columns.rs
@@ -8,8 +8,9 @@ use crate::cross_table_lookup::{Column, ColumnWithTypedInput};
 use crate::memory::columns::MemoryCtl;
 use crate::register::RegisterCtl;
 use crate::stark::mozak_stark::{
-    CallTapeTable, CastListCommitmentTapeTable, EventsCommitmentTapeTable, SelfProgIdTapeTable,
-    StorageDevicePrivateTable, StorageDevicePublicTable, TableKind, TableWithTypedOutput,
+    CallTapeTable, CastListCommitmentTapeTable, EventTapeTable, EventsCommitmentTapeTable,
+    SelfProgIdTapeTable, StorageDevicePrivateTable, StorageDevicePublicTable, TableKind,
+    TableWithTypedOutput,
 };
 use crate::tape_commitments::columns::TapeCommitmentCTL;
 
@@ -109,6 +110,7 @@ pub fn register_looking() -> Vec<TableWithTypedOutput<RegisterCtl<Column>>> {
         StorageDevicePrivateTable::new(data, COL_MAP.ops.is_storage_device),
         StorageDevicePublicTable::new(data, COL_MAP.ops.is_storage_device),
         CallTapeTable::new(data, COL_MAP.ops.is_storage_device),
+        EventTapeTable::new(data, COL_MAP.ops.is_storage_device),
         EventsCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         CastListCommitmentTapeTable::new(data, COL_MAP.ops.is_storage_device),
         SelfProgIdTapeTable::new(data, COL_MAP.ops.is_storage_device),
-- 
2.43.0


From b40964558e95c09a5e7216af859f21abfb39f1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:24 +0000
Subject: [PATCH 32/51] fix: storage device memory rows must belong to a
 storage device row

A memory row on its own, or one of another clock cycle, was accepted: it could
store anything anywhere.
---
 circuits/src/storage_device/stark.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/circuits/src/storage_device/stark.rs b/circuits/src/storage_device/stark.rs
index 083b84f..aa4a5b1 100644
--- a/circuits/src/storage_device/stark.rs
+++ b/circuits/src/storage_device/stark.rs
@@ -79,6 +79,18 @@ fn generate_constraints<'a, T: Copy>(
             * (nv.is_lv_and_nv_are_memory_rows + nv.ops.is_storage_device - 1),
     );
 
+    // Memory rows only come from a storage device row: each memory row continues
+    // the row before it, in the same clock cycle and with one byte less to go.
+    constraints.first_row(lv.ops.is_memory_store);
+    constraints.always(nv.ops.is_memory_store * (1 - lv.is_executed()));
+    constraints.transition(nv.ops.is_memory_store * (nv.clk - lv.clk));
+    constraints.transition(nv.ops.is_memory_store * (nv.size - (lv.size - 1)));
+    // ... and they go on until nothing is left.
+    constraints.always(lv.is_executed() * (1 - nv.ops.is_memory_store) * lv.size);
+    // The helper column means what it says.
+    constraints
+        .always(lv.is_lv_and_nv_are_memory_rows - lv.ops.is_memory_store * nv.ops.is_memory_store);
+
     constraints
 }
 
-- 
2.43.0


From 873ffe13f4066976f855e780fff17aba0fde918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:24 +0000
Subject: [PATCH 33/51] fix: registers are initialised once, before they are
 used

An initialisation in the middle of a register's history was accepted, and
replaced its value.
---
 circuits/src/register/general/stark.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/circuits/src/register/general/stark.rs b/circuits/src/register/general/stark.rs
index bb36756..f5338b5 100644
--- a/circuits/src/register/general/stark.rs
+++ b/circuits/src/register/general/stark.rs
@@ -75,6 +75,13 @@ fn generate_constraints<'a, T: Copy>(
     // change.
     constraints.transition((nv.ops.is_read + nv.ops.is_write) * (nv.addr - lv.addr));
 
+    // A register is only initialised before anything else happens to it. (Padding
+    // of the init table may repeat an initialisation.)
+    let same_addr = 1 - (nv.addr - lv.addr);
+    constraints.first_row(1 - lv.ops.is_init);
+    constraints.transition(nv.ops.is_init * same_addr * (1 - lv.ops.is_init));
+    constraints.transition(nv.ops.is_init * same_addr * (nv.value - lv.value));
+
     // Constraint 5: Address either stays the same or increments by 1.
     constraints.transition((nv.addr - lv.addr) * (nv.addr - lv.addr - 1));
 
-- 
2.43.0


From 6374436eb972c529577418e19cf0ec11d0fe02ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:24 +0000
Subject: [PATCH 34/51] fix: a Poseidon2 sponge goes on until it generates
 output

A permute row was accepted after a row that is no part of a sponge, and could
change the output address; a sponge could stop without output.
---
 circuits/src/poseidon2_sponge/stark.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/circuits/src/poseidon2_sponge/stark.rs b/circuits/src/poseidon2_sponge/stark.rs
index e16fdc4..833c394 100644
--- a/circuits/src/poseidon2_sponge/stark.rs
+++ b/circuits/src/poseidon2_sponge/stark.rs
@@ -85,6 +85,12 @@ fn generate_constraints<'a, T: Copy>(
     // and input_addr increases by RATE
     constraints.transition(not_last_sponge * (lv.input_addr - (nv.input_addr - rate_scalar)));
 
+    // A sponge goes on exactly until it generates output.
+    constraints.always(nv.ops.is_permute * (1 - not_last_sponge));
+    constraints.always((1 - nv.ops.is_permute) * not_last_sponge);
+    // The output address does not change within a sponge.
+    constraints.transition(nv.ops.is_permute * (lv.output_addr - nv.output_addr));
+
     // For each init_permute capacity bits are zero.
     for i in rate..state_size {
         constraints.always(lv.ops.is_init_permute * (lv.preimage[i as usize] - 0));
-- 
2.43.0


From 70ad2369fde40b287c2ff9e125ce9035942a86d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:24 +0000
Subject: [PATCH 35/51] fix: hash output bytes must be canonical

Fields below 2^32-1 had a second accepted byte representation.
---
 circuits/src/poseidon2_output_bytes/columns.rs | 10 ++++++++++
 circuits/src/poseidon2_output_bytes/stark.rs   | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/circuits/src/poseidon2_output_bytes/columns.rs b/circuits/src/poseidon2_output_bytes/columns.rs
index e9c4e9a..f54a47c 100644
--- a/circuits/src/poseidon2_output_bytes/columns.rs
+++ b/circuits/src/poseidon2_output_bytes/columns.rs
@@ -22,6 +22,9 @@ pub struct Poseidon2OutputBytes<F> {
     pub output_addr: F,
     pub output_fields: [F; FIELDS_COUNT],
     pub output_bytes: [F; BYTES_COUNT],
+    /// Inverses of the differences between the upper half of each field and
+    /// `u32::MAX`, or zero.
+    pub upper_half_inverses: [F; FIELDS_COUNT],
 }
 
 pub const NUM_POSEIDON2_OUTPUT_BYTES_COLS: usize = Poseidon2OutputBytes::<()>::NUMBER_OF_COLUMNS;
@@ -39,12 +42,19 @@ impl<F: RichField> From<&Poseidon2Sponge<F>> for Vec<Poseidon2OutputBytes<F>> {
                 .collect::<Vec<F>>()
                 .try_into()
                 .expect("must have 32 bytes");
+            let upper_half_inverses = output_fields.map(|field| {
+                let upper_half = field.to_canonical_u64() >> 32;
+                (F::from_canonical_u64(upper_half) - F::from_canonical_u32(u32::MAX))
+                    .try_inverse()
+                    .unwrap_or_default()
+            });
             return vec![Poseidon2OutputBytes {
                 is_executed: F::ONE,
                 clk: value.clk,
                 output_addr: value.output_addr,
                 output_fields,
                 output_bytes,
+                upper_half_inverses,
             }];
         }
         vec![]
diff --git a/circuits/src/poseidon2_output_bytes/stark.rs b/circuits/src/poseidon2_output_bytes/stark.rs
index b3ba8d4..52c851b 100644
--- a/circuits/src/poseidon2_output_bytes/stark.rs
+++ b/circuits/src/poseidon2_output_bytes/stark.rs
@@ -46,6 +46,16 @@ fn generate_constraints<'a, T: Copy>(
                 256,
             ) - lv.output_fields[i],
         );
+        // Only the canonical bytes will do: values from the order of the field on have
+        // an upper half of `u32::MAX`, and a lower half other than zero.
+        let [lower_half, upper_half] = [start_index, start_index + 4].map(|start| {
+            Expr::reduce_with_powers::<Vec<Expr<'a, T>>>(
+                lv.output_bytes[start..start + 4].into(),
+                256,
+            )
+        });
+        let gap = upper_half - i64::from(u32::MAX);
+        constraints.always(lower_half * (1 - gap * lv.upper_half_inverses[i]));
     }
 
     constraints
-- 
2.43.0


From 3437401befadbf3852c2261aa667652ff56ef185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:54 +0000
Subject: [PATCH 36/51] fix: constrain the cubes of the Poseidon2 s-box

---
 circuits/src/poseidon2/stark.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/circuits/src/poseidon2/stark.rs b/circuits/src/poseidon2/stark.rs
index 9d3f240..0087d0e 100644
--- a/circuits/src/poseidon2/stark.rs
+++ b/circuits/src/poseidon2/stark.rs
@@ -33,9 +33,13 @@ where
 }
 
 // degree: 3
-fn sbox_p<'a, V>(x: &mut Expr<'a, V>, x_qube: &Expr<'a, V>)
-where
+fn sbox_p<'a, V>(
+    constraints: &mut ConstraintBuilder<Expr<'a, V>>,
+    x: &mut Expr<'a, V>,
+    x_qube: &Expr<'a, V>,
+) where
     V: Copy, {
+    constraints.always(*x * *x * *x - *x_qube);
     *x *= *x_qube * *x_qube;
 }
 
@@ -150,6 +154,7 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
         add_rc::<V, U, STATE_SIZE>(&mut state, r);
         for (i, item) in state.iter_mut().enumerate() {
             sbox_p(
+                &mut constraints,
                 item,
                 &lv.s_box_input_qube_first_full_rounds[r * STATE_SIZE + i],
             );
@@ -164,7 +169,11 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
     // partial rounds
     for i in 0..ROUNDS_P {
         state[0] += from_u64(<U as Poseidon2>::RC12_MID[i]);
-        sbox_p(&mut state[0], &lv.s_box_input_qube_partial_rounds[i]);
+        sbox_p(
+            &mut constraints,
+            &mut state[0],
+            &lv.s_box_input_qube_partial_rounds[i],
+        );
         matmul_internal12::<V, U, STATE_SIZE>(&mut state);
         constraints.always(state[0] - lv.state0_after_partial_rounds[i]);
         state[0] = lv.state0_after_partial_rounds[i];
@@ -182,6 +191,7 @@ fn generate_constraints<'a, V: Copy, U: Poseidon2>(
         add_rc::<V, U, STATE_SIZE>(&mut state, r);
         for (j, item) in state.iter_mut().enumerate() {
             sbox_p(
+                &mut constraints,
                 item,
                 &lv.s_box_input_qube_second_full_rounds[i * STATE_SIZE + j],
             );
-- 
2.43.0


From 7f1f8e83ad6655a9b91f15a1d5f8ac8b0e85acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:23 +0000
Subject: [PATCH 37/51] fix: check the shape of batched openings

The batch verifier recombined whatever quotient openings it was given: with
all of them moved to the end of the lookup openings, no constraint was
checked at all.
---
 circuits/src/stark/batch_verifier.rs | 10 +++++++++-
 circuits/src/stark/verifier.rs       | 28 ++++++++++++++++++++--------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/circuits/src/stark/batch_verifier.rs b/circuits/src/stark/batch_verifier.rs
index 182d048..2b75fa6 100644
--- a/circuits/src/stark/batch_verifier.rs
+++ b/circuits/src/stark/batch_verifier.rs
@@ -22,7 +22,9 @@ use crate::stark::batch_prover::{
 use crate::stark::permutation::challenge::GrandProductChallengeTrait;
 use crate::stark::proof::{BatchProof, StarkProof, StarkProofChallenges};
 use crate::stark::prover::get_program_id;
-use crate::stark::verifier::{verify_quotient_polynomials, verify_stark_proof_with_challenges};
+use crate::stark::verifier::{
+    validate_openings_shape, verify_quotient_polynomials, verify_stark_proof_with_challenges,
+};
 
 #[allow(clippy::too_many_lines)]
 pub fn batch_verify_proof<F, C, const D: usize>(
@@ -143,6 +145,12 @@ where
         } else {
             // Verifying quotient polynomials of the batched stark proof (for all starks but
             // public starks). Batched FRI proof for the openings to be done later.
+            validate_openings_shape(
+                stark,
+                &all_proof.proofs[kind].openings,
+                config,
+                ctl_vars_per_table[kind].len(),
+            )?;
             verify_quotient_polynomials(
                 stark,
                 degree_bits[kind],
diff --git a/circuits/src/stark/verifier.rs b/circuits/src/stark/verifier.rs
index 6aade2c..171239e 100644
--- a/circuits/src/stark/verifier.rs
+++ b/circuits/src/stark/verifier.rs
@@ -242,6 +242,26 @@ where
         opening_proof: _,
     } = proof;
 
+    let degree_bits = proof.recover_degree_bits(config);
+    let fri_params = config.fri_params(degree_bits);
+    let cap_height = fri_params.config.cap_height;
+
+    ensure!(trace_cap.height() == cap_height);
+    ensure!(ctl_zs_cap.height() == cap_height);
+    ensure!(quotient_polys_cap.height() == cap_height);
+
+    validate_openings_shape(stark, openings, config, num_ctl_zs)
+}
+
+pub(crate) fn validate_openings_shape<F, S, const D: usize>(
+    stark: &S,
+    openings: &StarkOpeningSet<F, D>,
+    config: &StarkConfig,
+    num_ctl_zs: usize,
+) -> anyhow::Result<()>
+where
+    F: RichField + Extendable<D>,
+    S: Stark<F, D>, {
     let StarkOpeningSet {
         local_values,
         next_values,
@@ -251,14 +271,6 @@ where
         quotient_polys,
     } = openings;
 
-    let degree_bits = proof.recover_degree_bits(config);
-    let fri_params = config.fri_params(degree_bits);
-    let cap_height = fri_params.config.cap_height;
-
-    ensure!(trace_cap.height() == cap_height);
-    ensure!(ctl_zs_cap.height() == cap_height);
-    ensure!(quotient_polys_cap.height() == cap_height);
-
     ensure!(local_values.len() == S::COLUMNS);
     ensure!(next_values.len() == S::COLUMNS);
     ensure!(ctl_zs.len() == num_ctl_zs);
-- 
2.43.0


From ac5d417300a6109f98da322a8240e2a962e81e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:23 +0000
Subject: [PATCH 38/51] fix: check the shape of public values

A proof with more public sub tables than there are, or with rows that are
padded with zeros, was accepted.
---
 circuits/src/public_sub_table.rs     | 26 +++++++++++++++++++++++++-
 circuits/src/stark/batch_verifier.rs |  9 ++++++++-
 circuits/src/stark/verifier.rs       |  9 ++++++++-
 3 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/circuits/src/public_sub_table.rs b/circuits/src/public_sub_table.rs
index 9d901a1..dd51ba0 100644
--- a/circuits/src/public_sub_table.rs
+++ b/circuits/src/public_sub_table.rs
@@ -11,7 +11,8 @@
 //! CTL to `combine`, since the procedure is preceded by commitment to trace
 //! polynomials already
 #![allow(clippy::module_name_repetitions)]
-use itertools::{iproduct, Itertools};
+use anyhow::{ensure, Result};
+use itertools::{iproduct, zip_eq, Itertools};
 use plonky2::field::extension::Extendable;
 use plonky2::field::polynomial::PolynomialValues;
 use plonky2::field::types::Field;
@@ -142,6 +143,29 @@ pub fn public_sub_table_data_and_values<F: RichField, const D: usize>(
     )
 }
 
+/// Checks that there are values for exactly the given public sub tables.
+pub fn validate_public_sub_table_values_shape<F>(
+    public_sub_tables: &[PublicSubTable],
+    public_sub_table_values: &TableKindArray<Vec<PublicSubTableValues<F>>>,
+) -> Result<()> {
+    let mut public_sub_tables_per_kind = all_kind!(|_kind| vec![]);
+    for public_sub_table in public_sub_tables {
+        public_sub_tables_per_kind[public_sub_table.table.kind].push(public_sub_table);
+    }
+    all_kind!(|kind| {
+        let public_sub_tables = &public_sub_tables_per_kind[kind];
+        let values = &public_sub_table_values[kind];
+        ensure!(values.len() == public_sub_tables.len());
+        for (public_sub_table, rows) in zip_eq(public_sub_tables, values) {
+            ensure!(rows.len() == public_sub_table.num_rows);
+            ensure!(rows
+                .iter()
+                .all(|row| row.len() == public_sub_table.table.columns.len()));
+        }
+    });
+    Ok(())
+}
+
 /// For each `PublicSubTableValues`, returns the compressed value
 /// created according to each `challenge`
 #[must_use]
diff --git a/circuits/src/stark/batch_verifier.rs b/circuits/src/stark/batch_verifier.rs
index 2b75fa6..97442db 100644
--- a/circuits/src/stark/batch_verifier.rs
+++ b/circuits/src/stark/batch_verifier.rs
@@ -15,7 +15,9 @@ use super::mozak_stark::{
     all_kind, all_starks, MozakStark, TableKind, TableKindArray, TableKindSetBuilder,
 };
 use crate::cross_table_lookup::{verify_cross_table_lookups_and_public_sub_tables, CtlCheckVars};
-use crate::public_sub_table::reduce_public_sub_tables_values;
+use crate::public_sub_table::{
+    reduce_public_sub_tables_values, validate_public_sub_table_values_shape,
+};
 use crate::stark::batch_prover::{
     batch_fri_instances, batch_reduction_arity_bits, sort_degree_bits,
 };
@@ -40,6 +42,11 @@ where
     <C as GenericConfig<D>>::Hasher: AlgebraicHasher<F>, {
     debug!("Starting Batch Verify");
 
+    validate_public_sub_table_values_shape(
+        &mozak_stark.public_sub_tables,
+        &all_proof.public_sub_table_values,
+    )?;
+
     let sorted_degree_bits = sort_degree_bits(public_table_kinds, degree_bits);
 
     let mut challenger = Challenger::<F, C::Hasher>::new();
diff --git a/circuits/src/stark/verifier.rs b/circuits/src/stark/verifier.rs
index 171239e..d26480b 100644
--- a/circuits/src/stark/verifier.rs
+++ b/circuits/src/stark/verifier.rs
@@ -17,7 +17,9 @@ use starky::stark::{LookupConfig, Stark};
 use super::mozak_stark::{all_starks, MozakStark, TableKind, TableKindSetBuilder};
 use super::proof::AllProof;
 use crate::cross_table_lookup::{verify_cross_table_lookups_and_public_sub_tables, CtlCheckVars};
-use crate::public_sub_table::reduce_public_sub_tables_values;
+use crate::public_sub_table::{
+    reduce_public_sub_tables_values, validate_public_sub_table_values_shape,
+};
 use crate::stark::poly::eval_vanishing_poly;
 use crate::stark::proof::{AllProofChallenges, StarkOpeningSet, StarkProof, StarkProofChallenges};
 use crate::stark::prover::get_program_id;
@@ -34,6 +36,11 @@ where
     <C as GenericConfig<D>>::Hasher: AlgebraicHasher<F>, {
     debug!("Starting Verify");
 
+    validate_public_sub_table_values_shape(
+        &mozak_stark.public_sub_tables,
+        &all_proof.public_sub_table_values,
+    )?;
+
     let AllProofChallenges {
         stark_challenges,
         ctl_challenges,
-- 
2.43.0


From 2a0c18f8fa3f41fc681ca457f0e5ec40ac6075c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:50 +0000
Subject: [PATCH 39/51] fix: fix the order of public values

The commitments are public as a multiset of bytes only: the bytes of a proof
could be reordered. Their position is now part of what is compared.
---
 circuits/src/public_sub_table.rs         | 28 +++++++++++++++++++-----
 circuits/src/tape_commitments/columns.rs | 10 +++++++--
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/circuits/src/public_sub_table.rs b/circuits/src/public_sub_table.rs
index dd51ba0..68aafda 100644
--- a/circuits/src/public_sub_table.rs
+++ b/circuits/src/public_sub_table.rs
@@ -28,6 +28,8 @@ use crate::stark::permutation::challenge::{GrandProductChallenge, GrandProductCh
 /// Specifies a Subtable with `table.columns` and `table.filter_column`
 /// which the prover wants to make public. We include `num_rows` since
 /// it cannot be computed from `table` alone.
+/// The last column of `table` is the index of the row in the Subtable. It is
+/// not part of the public values, but fixes their order.
 #[derive(Clone, Debug)]
 pub struct PublicSubTable {
     pub table: Table,
@@ -77,6 +79,10 @@ impl PublicSubTable {
         };
         (0..trace_table[0].len())
             .filter_map(columns_if_filter_at_i)
+            .map(|mut row| {
+                row.pop();
+                row
+            })
             .collect_vec()
     }
 
@@ -101,6 +107,10 @@ impl PublicSubTable {
         }
     }
 
+    /// Number of values in each row of `PublicSubTableValues`
+    #[must_use]
+    pub fn num_values(&self) -> usize { self.table.columns.len() - 1 }
+
     /// Returns virtual targets corresponding to `PublicSubTableValues`
     pub fn to_targets<F: RichField + Extendable<D>, const D: usize>(
         &self,
@@ -108,7 +118,7 @@ impl PublicSubTable {
     ) -> PublicSubTableValuesTarget {
         (0..self.num_rows)
             .map(|_| {
-                (0..self.table.columns.len())
+                (0..self.num_values())
                     .map(|_| builder.add_virtual_target())
                     .collect_vec()
             })
@@ -160,7 +170,7 @@ pub fn validate_public_sub_table_values_shape<F>(
             ensure!(rows.len() == public_sub_table.num_rows);
             ensure!(rows
                 .iter()
-                .all(|row| row.len() == public_sub_table.table.columns.len()));
+                .all(|row| row.len() == public_sub_table.num_values()));
         }
     });
     Ok(())
@@ -184,7 +194,12 @@ pub fn reduce_public_sub_tables_values<F: Field>(
                     .map(|sub_table| {
                         sub_table
                             .iter()
-                            .map(|row| challenge.combine(row).inverse())
+                            .enumerate()
+                            .map(|(i, row)| {
+                                let index = F::from_canonical_usize(i);
+                                let row = row.iter().copied().chain([index]).collect_vec();
+                                challenge.combine(&row).inverse()
+                            })
                             .sum()
                     })
                     .collect_vec()
@@ -200,8 +215,11 @@ pub fn reduce_public_sub_table_targets<F: RichField + Extendable<D>, const D: us
 ) -> Target {
     let all_targets = targets
         .iter()
-        .map(|row| {
-            let mut combined = reduce_with_powers_circuit(builder, row, challenge.beta);
+        .enumerate()
+        .map(|(i, row)| {
+            let index = builder.constant(F::from_canonical_usize(i));
+            let row = row.iter().copied().chain([index]).collect_vec();
+            let mut combined = reduce_with_powers_circuit(builder, &row, challenge.beta);
             combined = builder.add(combined, challenge.gamma);
             builder.inverse(combined)
         })
diff --git a/circuits/src/tape_commitments/columns.rs b/circuits/src/tape_commitments/columns.rs
index 0b63820..6288e58 100644
--- a/circuits/src/tape_commitments/columns.rs
+++ b/circuits/src/tape_commitments/columns.rs
@@ -66,7 +66,10 @@ pub fn lookup_for_event_tape_commitment() -> TableWithTypedOutput<TapeCommitment
 pub fn make_event_commitment_tape_public() -> PublicSubTable {
     PublicSubTable {
         table: TapeCommitmentsTable::new(
-            vec![TAPE_COMMITMENTS.commitment_byte_row.byte],
+            vec![
+                TAPE_COMMITMENTS.commitment_byte_row.byte,
+                TAPE_COMMITMENTS.commitment_byte_row.index,
+            ],
             TAPE_COMMITMENTS.is_event_commitment_tape_row,
         ),
         num_rows: DIGEST_BYTES,
@@ -77,7 +80,10 @@ pub fn make_event_commitment_tape_public() -> PublicSubTable {
 pub fn make_castlist_commitment_tape_public() -> PublicSubTable {
     PublicSubTable {
         table: TapeCommitmentsTable::new(
-            vec![TAPE_COMMITMENTS.commitment_byte_row.byte],
+            vec![
+                TAPE_COMMITMENTS.commitment_byte_row.byte,
+                TAPE_COMMITMENTS.commitment_byte_row.index,
+            ],
             TAPE_COMMITMENTS.is_castlist_commitment_tape_row,
         ),
         num_rows: DIGEST_BYTES,
-- 
2.43.0


From 01c4825cffdf43c1d3ad83181b8e652ae8e52c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:12 +0000
Subject: [PATCH 40/51] fix: let the challenges depend on the public values

The public inputs and the values of the public sub tables could be chosen
after the challenges they are compressed with.
---
 circuits/src/public_sub_table.rs         | 90 +++++++++++++++++-------
 circuits/src/stark/batch_prover.rs       | 19 +++--
 circuits/src/stark/batch_verifier.rs     |  8 ++-
 circuits/src/stark/proof.rs              |  8 ++-
 circuits/src/stark/prover.rs             | 19 +++--
 circuits/src/stark/recursive_verifier.rs | 43 +++++++----
 6 files changed, 131 insertions(+), 56 deletions(-)

diff --git a/circuits/src/public_sub_table.rs b/circuits/src/public_sub_table.rs
index 68aafda..76b1e57 100644
--- a/circuits/src/public_sub_table.rs
+++ b/circuits/src/public_sub_table.rs
@@ -11,18 +11,22 @@
 //! CTL to `combine`, since the procedure is preceded by commitment to trace
 //! polynomials already
 #![allow(clippy::module_name_repetitions)]
+use std::borrow::Borrow;
+
 use anyhow::{ensure, Result};
 use itertools::{iproduct, zip_eq, Itertools};
 use plonky2::field::extension::Extendable;
 use plonky2::field::polynomial::PolynomialValues;
 use plonky2::field::types::Field;
 use plonky2::hash::hash_types::RichField;
+use plonky2::iop::challenger::{Challenger, RecursiveChallenger};
 use plonky2::iop::target::Target;
 use plonky2::plonk::circuit_builder::CircuitBuilder;
+use plonky2::plonk::config::{AlgebraicHasher, Hasher};
 use plonky2::plonk::plonk_common::reduce_with_powers_circuit;
 
 use crate::cross_table_lookup::{partial_sums, CtlData, CtlZData};
-use crate::stark::mozak_stark::{all_kind, Table, TableKind, TableKindArray};
+use crate::stark::mozak_stark::{all_kind, PublicInputs, Table, TableKind, TableKindArray};
 use crate::stark::permutation::challenge::{GrandProductChallenge, GrandProductChallengeSet};
 
 /// Specifies a Subtable with `table.columns` and `table.filter_column`
@@ -126,31 +130,66 @@ impl PublicSubTable {
     }
 }
 
+/// Values of all public sub tables
+#[must_use]
+pub fn get_public_sub_table_values<F: Field>(
+    trace_poly_values: &TableKindArray<Vec<PolynomialValues<F>>>,
+    public_sub_tables: &[PublicSubTable],
+) -> TableKindArray<Vec<PublicSubTableValues<F>>> {
+    let mut public_sub_table_values_per_table = all_kind!(|_kind| Vec::default());
+    for public_sub_table in public_sub_tables {
+        public_sub_table_values_per_table[public_sub_table.table.kind]
+            .push(public_sub_table.get_values(trace_poly_values));
+    }
+    public_sub_table_values_per_table
+}
+
 #[must_use]
-#[allow(clippy::module_name_repetitions)]
-pub fn public_sub_table_data_and_values<F: RichField, const D: usize>(
+pub fn public_sub_table_data<F: RichField>(
     trace_poly_values: &TableKindArray<Vec<PolynomialValues<F>>>,
     public_sub_tables: &[PublicSubTable],
     ctl_challenges: &GrandProductChallengeSet<F>,
-) -> (
-    TableKindArray<CtlData<F>>,
-    TableKindArray<Vec<PublicSubTableValues<F>>>,
-) {
+) -> TableKindArray<CtlData<F>> {
     let mut public_sub_table_data_per_table = all_kind!(|_kind| CtlData::default());
-    let mut public_sub_table_values_per_table = all_kind!(|_kind| Vec::default());
     for (&challenge, public_sub_table) in iproduct!(&ctl_challenges.challenges, public_sub_tables) {
         public_sub_table_data_per_table[public_sub_table.table.kind]
             .zs_columns
             .push(public_sub_table.get_ctlz_data(trace_poly_values, challenge));
     }
-    for public_sub_table in public_sub_tables {
-        public_sub_table_values_per_table[public_sub_table.table.kind]
-            .push(public_sub_table.get_values(trace_poly_values));
+    public_sub_table_data_per_table
+}
+
+/// Makes the challenges depend on everything that a proof claims. This has to
+/// happen before the challenges that compress the public sub tables are drawn.
+pub fn observe_public_values<F: RichField, H: Hasher<F>>(
+    challenger: &mut Challenger<F, H>,
+    public_inputs: &PublicInputs<F>,
+    public_sub_table_values: &TableKindArray<Vec<PublicSubTableValues<F>>>,
+) {
+    challenger.observe_elements(public_inputs.borrow());
+    for values in public_sub_table_values {
+        for row in values.iter().flatten() {
+            challenger.observe_elements(row);
+        }
+    }
+}
+
+/// Circuit version of `observe_public_values`
+pub fn observe_public_values_circuit<
+    F: RichField + Extendable<D>,
+    H: AlgebraicHasher<F>,
+    const D: usize,
+>(
+    challenger: &mut RecursiveChallenger<F, H, D>,
+    public_inputs: &[Target],
+    public_sub_table_values: &TableKindArray<Vec<PublicSubTableValuesTarget>>,
+) {
+    challenger.observe_elements(public_inputs);
+    for values in public_sub_table_values {
+        for row in values.iter().flatten() {
+            challenger.observe_elements(row);
+        }
     }
-    (
-        public_sub_table_data_per_table,
-        public_sub_table_values_per_table,
-    )
 }
 
 /// Checks that there are values for exactly the given public sub tables.
@@ -227,20 +266,24 @@ pub fn reduce_public_sub_table_targets<F: RichField + Extendable<D>, const D: us
     builder.add_many(all_targets)
 }
 
-pub fn public_sub_table_values_and_reduced_targets<F: RichField + Extendable<D>, const D: usize>(
+pub fn public_sub_table_values_targets<F: RichField + Extendable<D>, const D: usize>(
     builder: &mut CircuitBuilder<F, D>,
     public_sub_tables: &[PublicSubTable],
-    ctl_challenges: &GrandProductChallengeSet<Target>,
-) -> (
-    TableKindArray<Vec<PublicSubTableValuesTarget>>,
-    TableKindArray<Vec<Target>>,
-) {
+) -> TableKindArray<Vec<PublicSubTableValuesTarget>> {
     let mut public_sub_table_values_targets = TableKindArray::<Vec<_>>::default();
     for public_sub_table in public_sub_tables {
         let targets = public_sub_table.to_targets(builder);
         public_sub_table_values_targets[public_sub_table.table.kind].push(targets);
     }
+    public_sub_table_values_targets
+}
 
+pub fn reduced_public_sub_table_targets<F: RichField + Extendable<D>, const D: usize>(
+    builder: &mut CircuitBuilder<F, D>,
+    public_sub_tables: &[PublicSubTable],
+    public_sub_table_values_targets: &TableKindArray<Vec<PublicSubTableValuesTarget>>,
+    ctl_challenges: &GrandProductChallengeSet<Target>,
+) -> TableKindArray<Vec<Target>> {
     let mut reduced_public_sub_table_targets = TableKindArray::<Vec<_>>::default();
 
     for challenge in &ctl_challenges.challenges {
@@ -255,8 +298,5 @@ pub fn public_sub_table_values_and_reduced_targets<F: RichField + Extendable<D>,
                 .push(reduce_public_sub_table_targets(builder, challenge, targets));
         }
     }
-    (
-        public_sub_table_values_targets,
-        reduced_public_sub_table_targets,
-    )
+    reduced_public_sub_table_targets
 }
diff --git a/circuits/src/stark/batch_prover.rs b/circuits/src/stark/batch_prover.rs
index 7902312..bcf66d1 100644
--- a/circuits/src/stark/batch_prover.rs
+++ b/circuits/src/stark/batch_prover.rs
@@ -37,7 +37,9 @@ use super::proof::{BatchProof, StarkOpeningSet, StarkProof};
 use crate::cross_table_lookup::ctl_utils::debug_ctl;
 use crate::cross_table_lookup::{cross_table_lookup_data, CtlData};
 use crate::generation::{debug_traces, generate_traces};
-use crate::public_sub_table::public_sub_table_data_and_values;
+use crate::public_sub_table::{
+    get_public_sub_table_values, observe_public_values, public_sub_table_data,
+};
 use crate::stark::mozak_stark::{all_kind, all_starks, PublicInputs};
 use crate::stark::permutation::challenge::GrandProductChallengeTrait;
 use crate::stark::poly::compute_quotient_polys;
@@ -445,6 +447,10 @@ where
     let bmt_trace_cap = batch_trace_commitments.batch_merkle_tree.cap.clone();
     challenger.observe_cap(&bmt_trace_cap);
 
+    let public_sub_table_values =
+        get_public_sub_table_values(&traces_poly_values, &mozak_stark.public_sub_tables);
+    observe_public_values(&mut challenger, &public_inputs, &public_sub_table_values);
+
     let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
     let ctl_data_per_table = timed!(
         timing,
@@ -456,12 +462,11 @@ where
         )
     );
 
-    let (public_sub_table_data_per_table, public_sub_table_values) =
-        public_sub_table_data_and_values::<F, D>(
-            &traces_poly_values,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let public_sub_table_data_per_table = public_sub_table_data::<F>(
+        &traces_poly_values,
+        &mozak_stark.public_sub_tables,
+        &ctl_challenges,
+    );
 
     let (proofs, batch_stark_proof) = batch_prove_with_commitments(
         mozak_stark,
diff --git a/circuits/src/stark/batch_verifier.rs b/circuits/src/stark/batch_verifier.rs
index 97442db..258548d 100644
--- a/circuits/src/stark/batch_verifier.rs
+++ b/circuits/src/stark/batch_verifier.rs
@@ -16,7 +16,7 @@ use super::mozak_stark::{
 };
 use crate::cross_table_lookup::{verify_cross_table_lookups_and_public_sub_tables, CtlCheckVars};
 use crate::public_sub_table::{
-    reduce_public_sub_tables_values, validate_public_sub_table_values_shape,
+    observe_public_values, reduce_public_sub_tables_values, validate_public_sub_table_values_shape,
 };
 use crate::stark::batch_prover::{
     batch_fri_instances, batch_reduction_arity_bits, sort_degree_bits,
@@ -56,7 +56,11 @@ where
     }
     challenger.observe_cap(&all_proof.batch_stark_proof.trace_cap);
 
-    // TODO: Observe public values.
+    observe_public_values(
+        &mut challenger,
+        &all_proof.public_inputs,
+        &all_proof.public_sub_table_values,
+    );
 
     let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
 
diff --git a/circuits/src/stark/proof.rs b/circuits/src/stark/proof.rs
index bcbca47..d6915e8 100644
--- a/circuits/src/stark/proof.rs
+++ b/circuits/src/stark/proof.rs
@@ -21,7 +21,7 @@ use serde::{Deserialize, Serialize};
 use starky::config::StarkConfig;
 
 use super::mozak_stark::{all_kind, PublicInputs, TableKind, TableKindArray};
-use crate::public_sub_table::PublicSubTableValues;
+use crate::public_sub_table::{observe_public_values, PublicSubTableValues};
 use crate::stark::permutation::challenge::{GrandProductChallengeSet, GrandProductChallengeTrait};
 
 #[allow(clippy::module_name_repetitions)]
@@ -397,7 +397,11 @@ impl<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize> A
             challenger.observe_cap(&proof.trace_cap);
         }
 
-        // TODO: Observe public values.
+        observe_public_values(
+            &mut challenger,
+            &self.public_inputs,
+            &self.public_sub_table_values,
+        );
 
         let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
         challenger.compact();
diff --git a/circuits/src/stark/prover.rs b/circuits/src/stark/prover.rs
index e1a7362..d5246dc 100644
--- a/circuits/src/stark/prover.rs
+++ b/circuits/src/stark/prover.rs
@@ -33,7 +33,9 @@ use super::proof::{AllProof, StarkOpeningSet, StarkProof};
 use crate::cross_table_lookup::ctl_utils::debug_ctl;
 use crate::cross_table_lookup::{cross_table_lookup_data, CtlData};
 use crate::generation::{debug_traces, generate_traces};
-use crate::public_sub_table::public_sub_table_data_and_values;
+use crate::public_sub_table::{
+    get_public_sub_table_values, observe_public_values, public_sub_table_data,
+};
 use crate::stark::mozak_stark::PublicInputs;
 use crate::stark::permutation::challenge::GrandProductChallengeTrait;
 use crate::stark::poly::compute_quotient_polys;
@@ -141,6 +143,10 @@ where
         challenger.observe_cap(cap);
     }
 
+    let public_sub_table_values =
+        get_public_sub_table_values(traces_poly_values, &mozak_stark.public_sub_tables);
+    observe_public_values(&mut challenger, &public_inputs, &public_sub_table_values);
+
     let ctl_challenges = challenger.get_grand_product_challenge_set(config.num_challenges);
     let ctl_data_per_table = timed!(
         timing,
@@ -152,12 +158,11 @@ where
         )
     );
 
-    let (public_sub_table_data_per_table, public_sub_table_values) =
-        public_sub_table_data_and_values::<F, D>(
-            traces_poly_values,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let public_sub_table_data_per_table = public_sub_table_data::<F>(
+        traces_poly_values,
+        &mozak_stark.public_sub_tables,
+        &ctl_challenges,
+    );
 
     let proofs = timed!(
         timing,
diff --git a/circuits/src/stark/recursive_verifier.rs b/circuits/src/stark/recursive_verifier.rs
index a127163..f20f836 100644
--- a/circuits/src/stark/recursive_verifier.rs
+++ b/circuits/src/stark/recursive_verifier.rs
@@ -37,7 +37,8 @@ use crate::cross_table_lookup::{
     verify_cross_table_lookups_and_public_sub_table_circuit, CrossTableLookup, CtlCheckVarsTarget,
 };
 use crate::public_sub_table::{
-    public_sub_table_values_and_reduced_targets, PublicSubTable, PublicSubTableValuesTarget,
+    observe_public_values_circuit, public_sub_table_values_targets,
+    reduced_public_sub_table_targets, PublicSubTable, PublicSubTableValuesTarget,
 };
 use crate::stark::batch_prover::{
     batch_fri_instances_target, batch_reduction_arity_bits, sort_degree_bits,
@@ -338,18 +339,26 @@ where
     }
     challenger.observe_cap(&batch_stark_proof_target.trace_cap);
 
+    let public_sub_table_values_targets =
+        public_sub_table_values_targets(&mut builder, &mozak_stark.public_sub_tables);
+    observe_public_values_circuit(
+        &mut challenger,
+        &stark_proof_with_pis_target[TableKind::CpuSkeleton].public_inputs,
+        &public_sub_table_values_targets,
+    );
+
     let ctl_challenges = get_grand_product_challenge_set_target(
         &mut builder,
         &mut challenger,
         inner_config.num_challenges,
     );
 
-    let (public_sub_table_values_targets, reduced_public_sub_table_targets) =
-        public_sub_table_values_and_reduced_targets(
-            &mut builder,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let reduced_public_sub_table_targets = reduced_public_sub_table_targets(
+        &mut builder,
+        &mozak_stark.public_sub_tables,
+        &public_sub_table_values_targets,
+        &ctl_challenges,
+    );
 
     verify_cross_table_lookups_and_public_sub_table_circuit(
         &mut builder,
@@ -599,18 +608,26 @@ where
         challenger.observe_cap(&pi.proof.trace_cap);
     }
 
+    let public_sub_table_values_targets =
+        public_sub_table_values_targets(&mut builder, &mozak_stark.public_sub_tables);
+    observe_public_values_circuit(
+        &mut challenger,
+        &stark_proof_with_pis_target[TableKind::CpuSkeleton].public_inputs,
+        &public_sub_table_values_targets,
+    );
+
     let ctl_challenges = get_grand_product_challenge_set_target(
         &mut builder,
         &mut challenger,
         inner_config.num_challenges,
     );
 
-    let (public_sub_table_values_targets, reduced_public_sub_table_targets) =
-        public_sub_table_values_and_reduced_targets(
-            &mut builder,
-            &mozak_stark.public_sub_tables,
-            &ctl_challenges,
-        );
+    let reduced_public_sub_table_targets = reduced_public_sub_table_targets(
+        &mut builder,
+        &mozak_stark.public_sub_tables,
+        &public_sub_table_values_targets,
+        &ctl_challenges,
+    );
 
     verify_cross_table_lookups_and_public_sub_table_circuit(
         &mut builder,
-- 
2.43.0


From 804b5d909d6252a7082415fd2acc47df5fbea616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:10 +0000
Subject: [PATCH 41/51] fix: accept only proofs bound to the tree's own
 verifier

The circuits that embed a branch proof, and the branch circuits' verify, did
not compare the proof's public verifier with the branch circuit's own, so a
proof over children made by any foreign circuit was accepted.
---
 recproofs/src/circuits/accumulate_delta.rs    |  6 +++++-
 recproofs/src/circuits/build_event_root.rs    |  6 +++++-
 recproofs/src/circuits/match_delta.rs         | 13 ++++++++++++-
 recproofs/src/circuits/merge.rs               |  6 +++++-
 recproofs/src/circuits/merge/embed.rs         |  8 ++++++++
 recproofs/src/circuits/verify_block.rs        |  6 +++++-
 recproofs/src/circuits/verify_block/core.rs   | 16 ++++++++++++++++
 recproofs/src/circuits/verify_program.rs      |  6 +++++-
 recproofs/src/circuits/verify_program/core.rs | 10 ++++++++++
 recproofs/src/circuits/verify_tx.rs           |  6 +++++-
 recproofs/src/circuits/verify_tx/core.rs      |  8 ++++++++
 11 files changed, 84 insertions(+), 7 deletions(-)

diff --git a/recproofs/src/circuits/accumulate_delta.rs b/recproofs/src/circuits/accumulate_delta.rs
index f9d4b5e..2771f13 100644
--- a/recproofs/src/circuits/accumulate_delta.rs
+++ b/recproofs/src/circuits/accumulate_delta.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use enumflags2::BitFlags;
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
@@ -331,6 +331,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "proof is bound to another verifier"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/build_event_root.rs b/recproofs/src/circuits/build_event_root.rs
index b362638..3ca9431 100644
--- a/recproofs/src/circuits/build_event_root.rs
+++ b/recproofs/src/circuits/build_event_root.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
 use plonky2::iop::target::Target;
@@ -396,6 +396,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "proof is bound to another verifier"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index 4b29dee..06299b9 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -3,7 +3,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
 use plonky2::iop::witness::{PartialWitness, WitnessWrite};
@@ -153,6 +153,13 @@ where
             &verifier,
             &accumulate_event_circuit.circuit.common,
         );
+        // The proof must be bound to the verifier of this very circuit
+        let proof_verifier = accumulate_event_circuit
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&targets.accumulate_event.public_inputs);
+        builder.connect_verifier_data(&verifier, &proof_verifier);
         // event hash
         {
             let acc_event_hash = accumulate_event_circuit
@@ -483,6 +490,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "proof is bound to another verifier"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/merge.rs b/recproofs/src/circuits/merge.rs
index ce7490b..49cc7b7 100644
--- a/recproofs/src/circuits/merge.rs
+++ b/recproofs/src/circuits/merge.rs
@@ -8,7 +8,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
 use plonky2::iop::witness::PartialWitness;
@@ -270,6 +270,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "proof is bound to another verifier"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/merge/embed.rs b/recproofs/src/circuits/merge/embed.rs
index 2371701..a436616 100644
--- a/recproofs/src/circuits/merge/embed.rs
+++ b/recproofs/src/circuits/merge/embed.rs
@@ -148,6 +148,14 @@ impl SubCircuitInputs {
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
 
+        // The proof must be bound to the verifier of this very circuit
+        let proof_verifier = mc
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&proof.public_inputs);
+        builder.connect_verifier_data(&verifier, &proof_verifier);
+
         let a_present = mc.merge.indices.a_present.get_target(&proof.public_inputs);
         let b_present = mc.merge.indices.b_present.get_target(&proof.public_inputs);
         let merged_present = mc
diff --git a/recproofs/src/circuits/verify_block.rs b/recproofs/src/circuits/verify_block.rs
index 8a67225..959b679 100644
--- a/recproofs/src/circuits/verify_block.rs
+++ b/recproofs/src/circuits/verify_block.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use itertools::Either;
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
@@ -356,6 +356,10 @@ where
     }
 
     pub fn verify(&self, proof: BlockProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "proof is bound to another verifier"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/verify_block/core.rs b/recproofs/src/circuits/verify_block/core.rs
index de46523..531ce31 100644
--- a/recproofs/src/circuits/verify_block/core.rs
+++ b/recproofs/src/circuits/verify_block/core.rs
@@ -278,6 +278,14 @@ impl<const D: usize> TxVerifierTargets<D> {
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
 
+        // The proof must be bound to the verifier of this very circuit
+        let proof_verifier = tx
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&proof.public_inputs);
+        builder.connect_verifier_data(&verifier, &proof_verifier);
+
         let events_present = tx
             .events
             .indices
@@ -346,6 +354,14 @@ impl<const D: usize> MatchDeltaVerifierTargets<D> {
         let verifier = builder.constant_verifier_data(&circuit.verifier_only);
         builder.verify_proof::<C>(&proof, &verifier, &circuit.common);
 
+        // The proof must be bound to the verifier of this very circuit
+        let proof_verifier = md
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&proof.public_inputs);
+        builder.connect_verifier_data(&verifier, &proof_verifier);
+
         let event_root = md
             .event_hash
             .indices
diff --git a/recproofs/src/circuits/verify_program.rs b/recproofs/src/circuits/verify_program.rs
index 601e711..d076873 100644
--- a/recproofs/src/circuits/verify_program.rs
+++ b/recproofs/src/circuits/verify_program.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField, NUM_HASH_OUT_ELTS};
 use plonky2::iop::witness::PartialWitness;
@@ -426,6 +426,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "proof is bound to another verifier"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/verify_program/core.rs b/recproofs/src/circuits/verify_program/core.rs
index 8fceda9..eacf3f0 100644
--- a/recproofs/src/circuits/verify_program/core.rs
+++ b/recproofs/src/circuits/verify_program/core.rs
@@ -208,6 +208,16 @@ impl<C: GenericConfig<D>, const D: usize> EventRootVerifierTargets<C, D> {
         let verifier = select_verifier(builder, events_present, &real_verifier, &zero_verifier);
         builder.verify_proof::<C>(&event_root_proof, &verifier, &circuit.common);
 
+        // If present, the proof must be bound to the verifier of this very circuit
+        let proof_verifier = event_root_circuit
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&event_root_proof.public_inputs);
+        let verifier_calc =
+            select_verifier(builder, events_present, &real_verifier, &proof_verifier);
+        builder.connect_verifier_data(&proof_verifier, &verifier_calc);
+
         let event_owner = event_root_circuit
             .event_owner
             .indices
diff --git a/recproofs/src/circuits/verify_tx.rs b/recproofs/src/circuits/verify_tx.rs
index 5330e82..8ae6946 100644
--- a/recproofs/src/circuits/verify_tx.rs
+++ b/recproofs/src/circuits/verify_tx.rs
@@ -2,7 +2,7 @@
 
 use std::marker::PhantomData;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use plonky2::field::extension::Extendable;
 use plonky2::hash::hash_types::{HashOut, RichField};
 use plonky2::iop::witness::PartialWitness;
@@ -256,6 +256,10 @@ where
     }
 
     pub fn verify(&self, proof: BranchProof<F, C, D>) -> Result<()> {
+        ensure!(
+            proof.verifier() == self.circuit.verifier_only,
+            "proof is bound to another verifier"
+        );
         self.circuit.verify(proof.proof)
     }
 }
diff --git a/recproofs/src/circuits/verify_tx/core.rs b/recproofs/src/circuits/verify_tx/core.rs
index e32114b..79a2d52 100644
--- a/recproofs/src/circuits/verify_tx/core.rs
+++ b/recproofs/src/circuits/verify_tx/core.rs
@@ -40,6 +40,14 @@ impl<const D: usize> ProgramSetVerifierTargets<D> {
 
         builder.verify_proof::<C>(&program_set_proof, &verifier, &circuit.common);
 
+        // The proof must be bound to the verifier of this very circuit
+        let proof_verifier = program
+            .unbounded
+            .indices
+            .verifier
+            .get_target(&program_set_proof.public_inputs);
+        builder.connect_verifier_data(&verifier, &proof_verifier);
+
         let events_present = program
             .events
             .indices
-- 
2.43.0


From 0173c6ba9ed32fbab847d61396681cc21e6260e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:52 +0000
Subject: [PATCH 42/51] fix: hold writes to the owner and ensures to the new
 data

---
 recproofs/src/circuits/match_delta.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/recproofs/src/circuits/match_delta.rs b/recproofs/src/circuits/match_delta.rs
index 06299b9..dfac2c8 100644
--- a/recproofs/src/circuits/match_delta.rs
+++ b/recproofs/src/circuits/match_delta.rs
@@ -194,10 +194,12 @@ where
                 .indices
                 .old_owner
                 .get_target(&targets.accumulate_event.public_inputs);
+            // A write names the old owner too
+            let has_old_owner = builder.or(acc_flags.write, has_owner);
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.old_owner,
-                has_owner,
+                has_old_owner,
                 acc_old_owner,
             );
         }
@@ -236,10 +238,12 @@ where
                 .indices
                 .new_data
                 .get_target(&targets.accumulate_event.public_inputs);
+            // An ensure names the new data too
+            let has_new_data = builder.is_nonzero(acc_flags.new_data);
             maybe_connect(
                 &mut builder,
                 compare_delta_targets.new_data,
-                acc_flags.write,
+                has_new_data,
                 acc_new_data,
             );
         }
-- 
2.43.0


From 6a841d32cbc68b368e2cbe57ff305c0ce1f50ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:44 +0000
Subject: [PATCH 43/51] Hook: show the state's proof

---
 node/src/block_proposer/state.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/node/src/block_proposer/state.rs b/node/src/block_proposer/state.rs
index 5406091..41905d6 100644
--- a/node/src/block_proposer/state.rs
+++ b/node/src/block_proposer/state.rs
@@ -560,6 +560,11 @@ impl<'a> State<'a> {
 
     pub fn finalize(&mut self) { self.aux.finalize(&mut self.root); }
 
+    /// The proof of the changes since the last `finalize`
+    #[cfg(mozak_verif)]
+    #[must_use]
+    pub fn proof(&self) -> &BranchProof { &self.root.proof }
+
     #[must_use]
     pub fn get_state(&self, addr: Address) -> (Option<&Object>, Option<&Object>) {
         let (path, dir) = addr.next(self.root.height);
-- 
2.43.0


From 5fe996a2576d152088ef1d2069fd0a8a7bc246c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:00 +0000
Subject: [PATCH 44/51] fix: allow addresses that differ in the most
 significant bit

---
 node/src/block_proposer.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/node/src/block_proposer.rs b/node/src/block_proposer.rs
index 74f3bf8..146934b 100644
--- a/node/src/block_proposer.rs
+++ b/node/src/block_proposer.rs
@@ -127,6 +127,14 @@ impl PartialOrd<BranchAddress> for BranchAddress {
     }
 }
 
+/// Unlike `>>`, this allows shifting all bits out: the root's address is empty
+fn shift_right(addr: u64, n: usize) -> u64 {
+    u32::try_from(n)
+        .ok()
+        .and_then(|n| addr.checked_shr(n))
+        .unwrap_or_default()
+}
+
 impl BranchAddress {
     /// Initialize the `BranchAddress` to the root node
     #[must_use]
@@ -182,7 +190,7 @@ impl BranchAddress {
     /// If we've reached the bottom, return an `Address` instead
     #[must_use]
     pub fn parent(mut self, n: usize) -> Self {
-        self.addr.0 >>= n;
+        self.addr.0 = shift_right(self.addr.0, n);
         self.height += n;
         self
     }
@@ -220,7 +228,7 @@ impl BranchAddress {
 
         // Check if child actually descends from parent
         let delta = parent.height - child.height;
-        let child_addr = child.addr.0 >> delta;
+        let child_addr = shift_right(child.addr.0, delta);
         match (child_addr.cmp(&parent.addr.0), lhs_is_parent) {
             (Ordering::Less, false) | (Ordering::Greater, true) =>
                 return BranchAddressComparison::RightCousin,
@@ -229,8 +237,11 @@ impl BranchAddress {
             (Ordering::Equal, _) => {}
         }
 
-        let addr = Address(child.addr.0 & ((1 << delta) - 1));
-        match (addr.next(delta - 1).1, lhs_is_parent) {
+        let dir = match shift_right(child.addr.0, delta - 1) & 1 {
+            0 => Dir::Left,
+            _ => Dir::Right,
+        };
+        match (dir, lhs_is_parent) {
             (Dir::Left, true) => BranchAddressComparison::LeftChild,
             (Dir::Right, true) => BranchAddressComparison::RightChild,
             (Dir::Left, false) => BranchAddressComparison::LeftParent,
-- 
2.43.0


From 3f00b03aec49273d21331a1f6ce8cded2f40e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:00 +0000
Subject: [PATCH 45/51] fix: prove the state again after pruning deleted leaves

---
 node/src/block_proposer/state.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/node/src/block_proposer/state.rs b/node/src/block_proposer/state.rs
index 41905d6..3b0206e 100644
--- a/node/src/block_proposer/state.rs
+++ b/node/src/block_proposer/state.rs
@@ -465,7 +465,11 @@ impl AuxStateData {
     }
 
     fn finalize(&self, root: &mut SparseMerkleBranch) {
-        self.finalize_branch(root, BranchAddress::root(root.height));
+        let outcome = self.finalize_branch(root, BranchAddress::root(root.height));
+        // The root stays even if there is nothing left below it
+        if let FinalizeOutcome::Prune = outcome {
+            self.recalc_branch_helper(root);
+        }
     }
 
     fn finalize_branch(
@@ -473,6 +477,9 @@ impl AuxStateData {
         branch: &mut SparseMerkleBranch,
         addr: BranchAddress,
     ) -> FinalizeOutcome {
+        let children = |branch: &SparseMerkleBranch| (branch.left.is_some(), branch.right.is_some());
+        let before = children(branch);
+
         let left_outcome = if let Some(mut left) = branch.left.take() {
             let outcome = match (&mut *left, addr.child(Dir::Left)) {
                 (SparseMerkleNode::Branch(branch), Ok(addr)) => self.finalize_branch(branch, addr),
@@ -501,7 +508,11 @@ impl AuxStateData {
             FinalizeOutcome::Prune
         };
 
-        let outcome = left_outcome + right_outcome;
+        let outcome = match left_outcome + right_outcome {
+            // The proof still covers a pruned child
+            FinalizeOutcome::NoOp if children(branch) != before => FinalizeOutcome::Recalc,
+            outcome => outcome,
+        };
 
         if let FinalizeOutcome::Recalc = outcome {
             self.recalc_branch_helper(branch);
-- 
2.43.0


From e786892b0fd29e1421c20318d2025549e3ff6cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:16 +0000
Subject: [PATCH 46/51] fix: find cast members in casts of any length

---
 node/src/block_proposer/transactions.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 377001d..7d599c5 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -539,6 +539,26 @@ enum ProcessedTx {
     },
 }
 
+/// The way to a cast member in the tree that `reduce_tree` makes of the cast
+/// list, where leaves can be at different depths
+fn cast_path(mut index: usize, mut len: usize) -> Option<AddressPath<usize>> {
+    let (mut addr, mut bits) = (0, 0);
+    while len > 1 {
+        // The left side is always full
+        let left = len.next_power_of_two() / 2;
+        addr <<= 1;
+        bits += 1;
+        if index < left {
+            len = left;
+        } else {
+            addr |= 1;
+            index -= left;
+            len -= left;
+        }
+    }
+    AddressPath::path(addr, bits)
+}
+
 impl<'a> TransactionAccumulator<'a> {
     /// Create an empty accumulator
     #[must_use]
@@ -691,10 +711,9 @@ impl<'a> TransactionAccumulator<'a> {
                 v.insert(OngoingTx { nodes })
             }
             Entry::Occupied(mut o) => {
-                let bits = usize::BITS - cast_list.len().leading_zeros();
                 self.aux.insert_program(
                     &mut o.get_mut().nodes,
-                    AddressPath::path(cast_index, bits as usize),
+                    cast_path(cast_index, cast_list.len()),
                     event_tree,
                     proof,
                 )?;
-- 
2.43.0


From e8be797f8c2bcd782601fc990830db8d58a63dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:16 +0000
Subject: [PATCH 47/51] fix: match objects with the height of their last update

---
 node/src/block_proposer/matches.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/src/block_proposer/matches.rs b/node/src/block_proposer/matches.rs
index 9dca78b..ee3eb95 100644
--- a/node/src/block_proposer/matches.rs
+++ b/node/src/block_proposer/matches.rs
@@ -182,7 +182,7 @@ impl<'a> Matches<'a> {
                 let (old, new) = objs(addr);
                 let val = LeafWitnessValue {
                     block_height,
-                    last_updated: new.last_updated.to_canonical_u64(),
+                    last_updated: old.last_updated.to_canonical_u64(),
                     old_owner: old.constraint_owner,
                     new_owner: new.constraint_owner,
                     old_data: old.data,
-- 
2.43.0


From bd77bfa978633edececbdce0e469068a507d0637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:34 +0000
Subject: [PATCH 48/51] fix: merge all the events of one address

---
 node/src/block_proposer.rs              |  4 ++++
 node/src/block_proposer/transactions.rs | 19 ++++++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/node/src/block_proposer.rs b/node/src/block_proposer.rs
index 146934b..2152093 100644
--- a/node/src/block_proposer.rs
+++ b/node/src/block_proposer.rs
@@ -154,6 +154,10 @@ impl BranchAddress {
         }
     }
 
+    /// Whether this is the `BranchAddress` of a leaf node
+    #[must_use]
+    pub fn is_base(self) -> bool { self.height == 0 }
+
     /// Find the common ancestor between `self` and `rhs`
     #[must_use]
     pub fn common_ancestor(mut self, mut rhs: Self) -> Self {
diff --git a/node/src/block_proposer/transactions.rs b/node/src/block_proposer/transactions.rs
index 7d599c5..d2b3275 100644
--- a/node/src/block_proposer/transactions.rs
+++ b/node/src/block_proposer/transactions.rs
@@ -295,28 +295,33 @@ impl AuxTransactionData {
         let leaf_circuit = &self.merge_leaf_circuit;
         let branch_circuit = &self.merge_branch_circuit;
         let comparison = left.address().compare(right.address());
+
+        // All the events of a single address, in order
+        if comparison == Equal && left.address().is_base() {
+            let (proof, event) = self.simple_merge(left, right);
+            return (Either::Left(Cow::Owned(proof)), event);
+        }
+
         match (left, right, comparison) {
             // Unreachable states
-            // LHS-Leaf and RHS-Leaf at different heights
-            (EventNode::Leaf { .. }, EventNode::Leaf { .. }, LeftParent | RightParent | LeftChild | RightChild)
+            // LHS-Leaf and RHS-Leaf at different heights, or equal (handled above)
+            (EventNode::Leaf { .. }, EventNode::Leaf { .. }, Equal | LeftParent | RightParent | LeftChild | RightChild)
             // LHS-Leaf above RHS-Branch
             | (
                 EventNode::Leaf { .. },
                 EventNode::Branch { .. },
-                Equal | LeftSibling | RightSibling | LeftChild | RightChild,
+                Equal | LeftChild | RightChild,
             )
             // LHS-Branch below RHS-Leaf
             | (
                 EventNode::Branch { .. },
                 EventNode::Leaf { .. },
-                Equal | LeftSibling | RightSibling | LeftParent | RightParent,
+                Equal | LeftParent | RightParent,
             ) => unreachable!(),
 
             // Simple merges
-            // LHS-Leaf equal to RHS-Leaf
-            (left @ EventNode::Leaf { .. }, right @ EventNode::Leaf { .. }, Equal)
             // LHS to the left of RHS
-            | (left, right, RightSibling | RightCousin) => {
+            (left, right, RightSibling | RightCousin) => {
                 let (proof, event) = self.simple_merge(left, right);
                 (Either::Left(Cow::Owned(proof)), event)
             }
-- 
2.43.0


From b03ef35669bcbea7834b8fce7a659d8f3231674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:47 +0000
Subject: [PATCH 49/51] fix: match the events of a program as the tree of its
 events

---
 node/src/block_proposer/matches.rs | 49 +++++++++++++++++-------------
 node/src/block_proposer/state.rs   |  3 +-
 2 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/node/src/block_proposer/matches.rs b/node/src/block_proposer/matches.rs
index ee3eb95..c221a4b 100644
--- a/node/src/block_proposer/matches.rs
+++ b/node/src/block_proposer/matches.rs
@@ -10,7 +10,9 @@ use mozak_sdk::common::types::{CanonicalEvent, ProgramIdentifier};
 use plonky2::field::types::PrimeField64;
 use plonky2::plonk::circuit_data::CircuitConfig;
 
-use super::{convert_event, reduce_tree_by_address, Address, BranchAddress, OngoingTxKey};
+use super::{
+    convert_event, reduce_tree, reduce_tree_by_address, Address, BranchAddress, OngoingTxKey,
+};
 use crate::{C, D, F};
 
 type AccumulateLeafCircuit = accumulate_delta::LeafCircuit<F, C, D>;
@@ -88,32 +90,37 @@ impl<'a> Matches<'a> {
         id: &ProgramIdentifier,
         events: &[CanonicalEvent],
     ) {
-        let accum = self.ongoing_accum.entry(key).or_default();
-        for event in events {
-            use std::collections::hash_map::Entry;
+        use std::collections::hash_map::Entry;
 
+        let leaf = &self.aux.accumulate_leaf_circuit;
+        let branch = &self.aux.accumulate_branch_circuit;
+
+        // Events of the same address, in order
+        let mut proofs = BTreeMap::<_, Vec<AccumulateProof>>::new();
+        for event in events {
             let event = convert_event(id, event);
-            let proof = self
-                .aux
-                .accumulate_leaf_circuit
-                .prove(
-                    &self.aux.accumulate_branch_circuit,
-                    event.address,
-                    event.owner,
-                    event.ty,
-                    event.value,
-                )
+            let proof = leaf
+                .prove(branch, event.address, event.owner, event.ty, event.value)
                 .unwrap();
-            match accum.events.entry(Address(event.address)) {
+            proofs
+                .entry(Address(event.address))
+                .or_default()
+                .push(Either::Left(proof));
+        }
+
+        let accum = self.ongoing_accum.entry(key).or_default();
+        for (addr, proofs) in proofs {
+            // The same tree as that of the program's events
+            let merge = |l, r| Either::Right(branch.prove(&l, &r).unwrap());
+            let Some(proof) = reduce_tree(proofs, |x| x, |x| x, merge) else {
+                continue;
+            };
+            match accum.events.entry(addr) {
                 Entry::Vacant(v) => {
-                    v.insert(Either::Left(proof));
+                    v.insert(proof);
                 }
                 Entry::Occupied(mut o) => {
-                    let proof = self
-                        .aux
-                        .accumulate_branch_circuit
-                        .prove(o.get(), &proof)
-                        .unwrap();
+                    let proof = branch.prove(o.get(), &proof).unwrap();
                     *o.get_mut() = Either::Right(proof);
                 }
             }
diff --git a/node/src/block_proposer/state.rs b/node/src/block_proposer/state.rs
index 3b0206e..4e79d15 100644
--- a/node/src/block_proposer/state.rs
+++ b/node/src/block_proposer/state.rs
@@ -477,7 +477,8 @@ impl AuxStateData {
         branch: &mut SparseMerkleBranch,
         addr: BranchAddress,
     ) -> FinalizeOutcome {
-        let children = |branch: &SparseMerkleBranch| (branch.left.is_some(), branch.right.is_some());
+        let children =
+            |branch: &SparseMerkleBranch| (branch.left.is_some(), branch.right.is_some());
         let before = children(branch);
 
         let left_outcome = if let Some(mut left) = branch.left.take() {
-- 
2.43.0


From 3dadb1414ed64681ebff58f917380ba95f4dfa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:57 +0000
Subject: [PATCH 50/51] fix: refuse constants of expressions that overflow
 instead of wrapping them

---
 expr/src/lib.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/expr/src/lib.rs b/expr/src/lib.rs
index 49d52e2..c3d15d5 100644
--- a/expr/src/lib.rs
+++ b/expr/src/lib.rs
@@ -92,7 +92,7 @@ impl<'a, V> Expr<'a, V> {
     fn bin_op(op: BinOp, lhs: Expr<'a, V>, rhs: Expr<'a, V>) -> Expr<'a, V> {
         match (lhs, rhs) {
             (Expr::Basic { value: left }, Expr::Basic { value: right }) =>
-                Expr::from(PureEvaluator::default().bin_op(op, left, right)),
+                Expr::from(op.fold_constants(left, right)),
             (left @ Expr::Compound { builder, .. }, right)
             | (left, right @ Expr::Compound { builder, .. }) => builder.wrap(builder.bin_op(
                 op,
@@ -104,7 +104,7 @@ impl<'a, V> Expr<'a, V> {
 
     fn una_op(op: UnaOp, expr: Expr<'a, V>) -> Expr<'a, V> {
         match expr {
-            Expr::Basic { value } => Expr::from(PureEvaluator::default().una_op(op, value)),
+            Expr::Basic { value } => Expr::from(op.fold_constant(value)),
             Expr::Compound { expr, builder } => builder.wrap(builder.una_op(op, expr)),
         }
     }
@@ -243,12 +243,32 @@ pub enum BinOp {
     Mul,
 }
 
+impl BinOp {
+    /// Constants stand for field elements, so they must not wrap around.
+    fn fold_constants(self, left: i64, right: i64) -> i64 {
+        match self {
+            BinOp::Add => left.checked_add(right).expect("addition overflow"),
+            BinOp::Sub => left.checked_sub(right).expect("subtraction overflow"),
+            BinOp::Mul => left.checked_mul(right).expect("multiplication overflow"),
+        }
+    }
+}
+
 /// Unary operations
 #[derive(Debug, Eq, PartialEq, Clone, Copy, Hash)]
 pub enum UnaOp {
     Neg,
 }
 
+impl UnaOp {
+    /// Constants stand for field elements, so they must not wrap around.
+    fn fold_constant(self, value: i64) -> i64 {
+        match self {
+            UnaOp::Neg => value.checked_neg().expect("negation overflow"),
+        }
+    }
+}
+
 #[derive(Debug, Clone, Copy)]
 pub struct CompoundExpr<'a, V>(&'a ExprTree<'a, V>);
 
-- 
2.43.0


From 483b484ed6bef0de40636a75669b716cdd22366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:42 +0000
Subject: [PATCH 51/51] fix: guests must claim the calls they made before they
 receive others

A receive passed over calls of the program itself. A program that ends
with the usual receive loop accepted any tape that claims further calls
by it.
---
 sdk/src/mozakvm/calltape.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sdk/src/mozakvm/calltape.rs b/sdk/src/mozakvm/calltape.rs
index 594d873..f36f1dd 100644
--- a/sdk/src/mozakvm/calltape.rs
+++ b/sdk/src/mozakvm/calltape.rs
@@ -114,6 +114,16 @@ impl Call for CallTape {
             // Mark this as "processed" regardless of what happens next.
             self.index += 1;
 
+            // First, ensure that we are not the caller: each of our calls has to
+            // be claimed by `send`, and no-one can call themselves. (Even if they
+            // can w.r.t. self-calling extension, the `caller` field would remain
+            // distinct)
+            let caller: ProgramIdentifier = zcd_cpcmsg
+                .caller
+                .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
+                .unwrap();
+            assert!(caller != self.self_prog_id);
+
             // Well, once we are sure that we were not the caller, we can
             // either be a callee in which case we process and send information
             // back or we continue searching.
@@ -123,15 +133,6 @@ impl Call for CallTape {
                 .unwrap();
 
             if self.self_prog_id == callee {
-                // First, ensure that we are not the caller, no-one can call
-                // themselves. (Even if they can w.r.t. self-calling extension,
-                // the `caller` field would remain distinct)
-                let caller: ProgramIdentifier = zcd_cpcmsg
-                    .caller
-                    .deserialize(Strategy::<_, Panic>::wrap(&mut ()))
-                    .unwrap();
-                assert!(caller != self.self_prog_id);
-
                 // Before accepting, make sure that caller was a part of castlist
                 assert!(self.is_casted_actor(&caller));
 
-- 
2.43.0

