From 8b92fa10ef4ab99238d1396e9a2570f685d90a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:53 +0000
Subject: [PATCH 1/9] fix: RV32M results for a zero divisor (DIV, DIVU return
 all ones, REM returns the dividend)

---
 fhevm/src/instructions/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fhevm/src/instructions/mod.rs b/fhevm/src/instructions/mod.rs
index 8243517..a325c57 100644
--- a/fhevm/src/instructions/mod.rs
+++ b/fhevm/src/instructions/mod.rs
@@ -387,7 +387,7 @@ impl RD_UPDATE {
             RD_UPDATE::MULHU => ((rs1 as i64).wrapping_mul(rs2 as i64) >> 32) as u32,
             RD_UPDATE::DIV => {
                 if rs2 == 0 {
-                    return i32::MAX as u32;
+                    return u32::MAX;
                 } else if (rs1 as i32 == i32::MIN) && (rs2 as i32 == -1) {
                     return i32::MIN as u32;
                 }
@@ -395,12 +395,12 @@ impl RD_UPDATE {
             }
             RD_UPDATE::DIVU => {
                 if rs2 == 0 {
-                    return rs1;
+                    return u32::MAX;
                 }
                 rs1 / rs2
             }
             RD_UPDATE::REM => {
-                if rs1 == 0 {
+                if rs2 == 0 {
                     rs1
                 } else if rs1 as i32 == i32::MIN && rs2 as i32 == -1 {
                     0
-- 
2.43.0


From 5d0b29628bee62b4d97fe3c7a5be14915cf13566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:53 +0000
Subject: [PATCH 2/9] fix: reject SLLI words with a non-zero funct7 and JALR
 words with a non-zero funct3

---
 fhevm/src/instructions/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fhevm/src/instructions/mod.rs b/fhevm/src/instructions/mod.rs
index a325c57..dad9a9f 100644
--- a/fhevm/src/instructions/mod.rs
+++ b/fhevm/src/instructions/mod.rs
@@ -954,7 +954,10 @@ impl Instruction {
                         0b100 => (RD_UPDATE::XORI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
                         0b110 => (RD_UPDATE::ORI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
                         0b111 => (RD_UPDATE::ANDI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
-                        0b001 => (RD_UPDATE::SLLI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
+                        0b001 => match self.get_funct7() {
+                            0b0000000 => (RD_UPDATE::SLLI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
+                            _ => panic!("invalid funct7: {:032b}", self.0),
+                        },
                         0b101 => match self.get_funct7() {
                             0b0000000 => (RD_UPDATE::SRLI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
                             0b0100000 => (RD_UPDATE::SRAI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
@@ -970,7 +973,10 @@ impl Instruction {
                         0b101 => (RD_UPDATE::LHU, RAM_UPDATE::NONE, PC_UPDATE::NONE),
                         _ => panic!("invalid funct3: {:032b}", self.0),
                     },
-                    0b1100111 => (RD_UPDATE::JALR, RAM_UPDATE::NONE, PC_UPDATE::JALR),
+                    0b1100111 => match funct3 {
+                        0b000 => (RD_UPDATE::JALR, RAM_UPDATE::NONE, PC_UPDATE::JALR),
+                        _ => panic!("invalid funct3: {:032b}", self.0),
+                    },
                     _ => panic!("invalid instruction: {:032b}", self.0),
                 }
             }
-- 
2.43.0


From b575aaa054c1d226ad1b739576996138e9291561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:20 +0000
Subject: [PATCH 3/9] fix: cleartext VM no longer panics on division by zero or
 signed overflow (RV32M results)

---
 compiler/src/interpreter/testvm.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/compiler/src/interpreter/testvm.rs b/compiler/src/interpreter/testvm.rs
index dcd042c..d23a8c9 100644
--- a/compiler/src/interpreter/testvm.rs
+++ b/compiler/src/interpreter/testvm.rs
@@ -1075,8 +1075,13 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) =
-                    ((self.register(rs1) as i32) / (self.register(rs2) as i32)) as u32;
+                let rs1v = self.register(rs1) as i32;
+                let rs2v = self.register(rs2) as i32;
+                *self.register_mut(rd) = if rs2v == 0 {
+                    u32::MAX
+                } else {
+                    rs1v.wrapping_div(rs2v) as u32
+                };
 
                 self.pc += 4;
             }
@@ -1091,7 +1096,10 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) = self.register(rs1) / self.register(rs2);
+                *self.register_mut(rd) = self
+                    .register(rs1)
+                    .checked_div(self.register(rs2))
+                    .unwrap_or(u32::MAX);
 
                 self.pc += 4;
             }
@@ -1106,8 +1114,13 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) =
-                    (self.register(rs1) as i32 % self.register(rs2) as i32) as u32;
+                let rs1v = self.register(rs1) as i32;
+                let rs2v = self.register(rs2) as i32;
+                *self.register_mut(rd) = if rs2v == 0 {
+                    rs1v as u32
+                } else {
+                    rs1v.wrapping_rem(rs2v) as u32
+                };
 
                 self.pc += 4;
             }
@@ -1122,7 +1135,8 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) = self.register(rs1) % self.register(rs2);
+                let rs1v = self.register(rs1);
+                *self.register_mut(rd) = rs1v.checked_rem(self.register(rs2)).unwrap_or(rs1v);
 
                 self.pc += 4;
             } // Inst::ECALL => {
-- 
2.43.0


From 9de7ca5c6989d16027bff864d7f33db330f67ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:33 +0000
Subject: [PATCH 4/9] fix: sign-extend the byte loaded by the encrypted LB

---
 fhevm/src/rd_update.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fhevm/src/rd_update.rs b/fhevm/src/rd_update.rs
index 4375ad6..1f29d49 100644
--- a/fhevm/src/rd_update.rs
+++ b/fhevm/src/rd_update.rs
@@ -136,7 +136,7 @@ impl<BE: Backend> Evaluate<u32, BE> for RD_UPDATE {
                 res.zero_byte(module, 1, keys, scratch);
                 res.zero_byte(module, 2, keys, scratch);
                 res.zero_byte(module, 3, keys, scratch);
-                //res.sext(module, 0, keys, scratch);
+                res.sext(module, 0, keys, scratch);
             }
             Self::LBU => {
                 module.glwe_copy(res, ram);
-- 
2.43.0


From 9f501a6d3bc4635fe9dfa37e18a7d11271ba5054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:33 +0000
Subject: [PATCH 5/9] fix: Memory::zero clears the addressed coefficient of the
 polynomial

---
 fhevm/src/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fhevm/src/memory.rs b/fhevm/src/memory.rs
index 981e7ca..60cf73e 100644
--- a/fhevm/src/memory.rs
+++ b/fhevm/src/memory.rs
@@ -151,7 +151,7 @@ impl Memory {
         Scratch<BE>: ScratchTakeCore<BE>,
     {
         let poly: usize = addr / module.n();
-        let idx: usize = poly % module.n();
+        let idx: usize = addr % module.n();
 
         let glwe_infos: GLWELayout = self.bits[0].data[0].glwe_layout();
         let key_infos: GGLWELayout = keys.automorphism_key_infos();
-- 
2.43.0


From 8af28c7d9cf0654cc106d2ba8373ec28a9d60c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:34 +0000
Subject: [PATCH 6/9] fix: load the initialised bytes of segments that also
 hold .bss

---
 compiler/src/interpreter.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 03dcc49..db51563 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -218,17 +218,13 @@ impl Phantom {
             ram_offset = hdrs[0].p_vaddr as usize;
             // load ram with .inpdata,.rodata,.data.,etc.
             hdrs.iter().for_each(|ph| {
-                // assert!(
-                //     ph.p_filesz == ph.p_memsz,
-                //     "Header contains uninitialised values (most probably .bss exists)"
-                // );
-                if ph.p_memsz > 0 && ph.p_filesz == ph.p_memsz {
-                    let vaddr = ph.p_vaddr as usize;
-                    boot_ram_data
-                        [(vaddr - ram_offset)..(vaddr + (ph.p_memsz as usize) - ram_offset)]
-                        .copy_from_slice(
-                            &elf_bytes[ph.p_offset as usize..(ph.p_memsz + ph.p_offset) as usize],
-                        );
+                if ph.p_memsz > 0 {
+                    let start = ph.p_vaddr as usize - ram_offset;
+                    let segment = &mut boot_ram_data[start..start + ph.p_memsz as usize];
+                    // bytes past p_filesz (.bss) have no image in the file and stay zero
+                    segment[..ph.p_filesz as usize].copy_from_slice(
+                        &elf_bytes[ph.p_offset as usize..(ph.p_filesz + ph.p_offset) as usize],
+                    );
                 }
             });
         }
-- 
2.43.0


From f27643a886fbc8b2d6eafc1959f9d2d335acb8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:22 +0000
Subject: [PATCH 7/9] fix: reject programs with loadable segments that would be
 dropped

---
 compiler/src/interpreter.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index db51563..13150fc 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -207,6 +207,15 @@ impl Phantom {
         );
         // macros::verbose_println!("ROM SIZE: {} bytes", txthdr.p_memsz);
 
+        // a loadable segment that is neither .text nor +r/+rw would be lost
+        assert!(
+            phdrs.iter().all(|p| p.p_memsz == 0
+                || std::ptr::eq(p, txthdr)
+                || p.p_flags == PF_R
+                || p.p_flags == PF_R + PF_W),
+            "Loadable segment is neither .text nor +r/+rw data"
+        );
+
         // load all +r/+rw headers
         let hdrs: Vec<&ProgramHeader> = phdrs
             .iter()
-- 
2.43.0


From bd0be27bccd52fbc4eb01375c9b4ebeb133bcf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:50 +0000
Subject: [PATCH 8/9] fix: refuse to encrypt instructions the encrypted machine
 cannot evaluate

---
 fhevm/src/interpreter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fhevm/src/interpreter.rs b/fhevm/src/interpreter.rs
index 132ed8d..60e8a8a 100644
--- a/fhevm/src/interpreter.rs
+++ b/fhevm/src/interpreter.rs
@@ -294,6 +294,10 @@ impl<BE: Backend> Interpreter<BE> {
             data_ram_rs2[i] = rs2 as u32;
             data_ram_rd[i] = rd as u32;
             let (rdu, mu, pcu) = instructions.get_raw(i).get_opid();
+            assert!(
+                (rdu as usize) < RD_UPDATE_RV32I_OP_LIST.len(),
+                "instruction {i}: operation has no encrypted evaluation"
+            );
             data_ram_rdu[i] = rdu as u32;
             data_ram_mu[i] = mu as u32;
             data_ram_pcu[i] = pcu as u32;
-- 
2.43.0


From ec4830c9f0140e9cf39de5ad1c674a1a2c39d2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:50 +0000
Subject: [PATCH 9/9] fix: draw the secret key, mask and noise seeds from fresh
 entropy

---
 compiler/src/interpreter.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 13150fc..ad84e82 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -2,6 +2,7 @@ use elf::{
     abi::{PF_R, PF_W, PF_X, PT_LOAD},
     segment::ProgramHeader,
 };
+use std::{fs::File, io::Read};
 use tqdm::tqdm;
 
 use fhevm::{
@@ -50,6 +51,15 @@ mod macros {
     pub(crate) use verbose_println;
 }
 
+/// Returns a seed drawn from the operating system's entropy source.
+fn fresh_seed() -> [u8; 32] {
+    let mut seed = [0u8; 32];
+    File::open("/dev/urandom")
+        .and_then(|mut source| source.read_exact(&mut seed))
+        .expect("operating system entropy is not available");
+    seed
+}
+
 pub struct BootMemory {
     data: Vec<u8>,
     offset: usize,
@@ -353,9 +363,9 @@ impl Phantom {
 
         // Initializing cryptographic parameters
         let params = CryptographicParameters::<BackendImpl>::new();
-        let mut source_xs: Source = Source::new([0u8; 32]);
-        let mut source_xa: Source = Source::new([0u8; 32]);
-        let mut source_xe: Source = Source::new([0u8; 32]);
+        let mut source_xs: Source = Source::new(fresh_seed());
+        let mut source_xa: Source = Source::new(fresh_seed());
+        let mut source_xe: Source = Source::new(fresh_seed());
         let mut scratch: ScratchOwned<BackendImpl> = ScratchOwned::alloc(1 << 24);
 
         // Generates a new secret-key along with the public evaluation keys.
-- 
2.43.0

