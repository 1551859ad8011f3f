From 54d3fcdee7a372621572e82f30958d8f553b03b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 01/15] fix: refuse hardened key path numbers of 2^31 and above
 instead of overflowing

---
 keychain/src/key_path.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keychain/src/key_path.rs b/keychain/src/key_path.rs
index 5a9f8d5..0d941f7 100644
--- a/keychain/src/key_path.rs
+++ b/keychain/src/key_path.rs
@@ -19,7 +19,8 @@ pub enum Error {
   InvalidChange(u32),
   InvalidAddress(u32),
   EmptyValueAtIndex(usize),
-  ParseErrorAtIndex(usize, std::num::ParseIntError)
+  ParseErrorAtIndex(usize, std::num::ParseIntError),
+  HardenedValueTooBigAtIndex(usize, u32)
 }
 
 impl fmt::Display for Error {
@@ -44,6 +45,9 @@ impl fmt::Display for Error {
       &Error::ParseErrorAtIndex(index, ref err) => {
         write!(f, "Can't parse number at index {}, error: {}", index, err)
       }
+      &Error::HardenedValueTooBigAtIndex(index, value) => {
+        write!(f, "Hardened value {} at index {} is too big", value, index)
+      }
     }
   }
 }
@@ -71,7 +75,8 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    Self::soft_int(index, &s[..s.len() - 1]).map(|val| val + BIP44_SOFT_UPPER_BOUND)
+    let val = Self::soft_int(index, &s[..s.len() - 1])?;
+    val.checked_add(BIP44_SOFT_UPPER_BOUND).ok_or(Error::HardenedValueTooBigAtIndex(index, val))
   }
 
   fn soft_int(index: usize, s: &str) -> Result<u32, Error> {
-- 
2.43.0


From de80e5001e587eb9c274758d3f2087b4e38ccfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 02/15] fix: do not slice key path components inside a
 multi-byte character

---
 keychain/src/key_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/key_path.rs b/keychain/src/key_path.rs
index 0d941f7..0f06b90 100644
--- a/keychain/src/key_path.rs
+++ b/keychain/src/key_path.rs
@@ -90,7 +90,7 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    if &s[s.len() - 1..] == "'" {
+    if s.ends_with("'") {
       Self::hard_int(index, s)
     } else {
       Self::soft_int(index, s)
-- 
2.43.0


From c08cbbec35a5fea72266022c4b4a7c09ad77bc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 03/15] fix: refuse oversized Cardano signatures instead of
 panicking

---
 keychain/src/networks/cardano/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/networks/cardano/key.rs b/keychain/src/networks/cardano/key.rs
index c06be8d..046306e 100644
--- a/keychain/src/networks/cardano/key.rs
+++ b/keychain/src/networks/cardano/key.rs
@@ -126,7 +126,7 @@ impl IKey for Key {
 
   fn verify(&self, data: &[u8], signature: &[u8], path: &dyn KeyPath) -> Result<bool, Error> {
     let mut sign: [u8; SIGNATURE_SIZE] = [0; SIGNATURE_SIZE];
-    if signature.len() < SIGNATURE_SIZE {
+    if signature.len() != SIGNATURE_SIZE {
       return Err(Error::InvalidSignatureSize(signature.len(), SIGNATURE_SIZE));
     }
     sign.copy_from_slice(signature);
-- 
2.43.0


From ed3581c397c4663dce56b060a26eeaffb4949929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 04/15] fix: refuse oversized Cardano key data instead of
 panicking

---
 keychain/src/networks/cardano/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/networks/cardano/key.rs b/keychain/src/networks/cardano/key.rs
index 046306e..ef840b4 100644
--- a/keychain/src/networks/cardano/key.rs
+++ b/keychain/src/networks/cardano/key.rs
@@ -48,7 +48,7 @@ pub struct Key {
 impl Key {
   pub fn from_data(data: &[u8]) -> Result<Self, Error> {
     let mut arr: [u8; XPRV_SIZE] = [0; XPRV_SIZE];
-    if data.len() < XPRV_SIZE {
+    if data.len() != XPRV_SIZE {
       return Err(Error::InvalidKeySize(data.len(), XPRV_SIZE));
     }
     arr.copy_from_slice(data);
-- 
2.43.0


From 18fc4a5042417915fa048fd7aeeadbe800b89daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 05/15] fix: report the address, not the change, of an invalid
 key path address

---
 keychain/src/networks/bitcoin/key_path.rs | 2 +-
 keychain/src/networks/cardano/key_path.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keychain/src/networks/bitcoin/key_path.rs b/keychain/src/networks/bitcoin/key_path.rs
index da77a71..20e4b9d 100644
--- a/keychain/src/networks/bitcoin/key_path.rs
+++ b/keychain/src/networks/bitcoin/key_path.rs
@@ -40,7 +40,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(())
   }
diff --git a/keychain/src/networks/cardano/key_path.rs b/keychain/src/networks/cardano/key_path.rs
index 6bae86a..7cd2d8c 100644
--- a/keychain/src/networks/cardano/key_path.rs
+++ b/keychain/src/networks/cardano/key_path.rs
@@ -19,7 +19,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(KeyPath { account: account + BIP44_SOFT_UPPER_BOUND, change, address })
   }
-- 
2.43.0


From b568936b9012d3fd452149b62a14bebc15f4c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 06/15] fix: open sealed data with an empty payload

---
 keychain/src/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/crypt.rs b/keychain/src/crypt.rs
index 1a3b964..65980b6 100644
--- a/keychain/src/crypt.rs
+++ b/keychain/src/crypt.rs
@@ -72,7 +72,7 @@ pub fn encrypt(data: &[u8], password: &str, entropy: &dyn Entropy) -> Vec<u8> {
 pub fn decrypt(data: &[u8], password: &str) -> Result<Vec<u8>, DecryptError> {
   use self::password_encryption_parameter::*;
 
-  if data.len() <= METADATA_SIZE {
+  if data.len() < METADATA_SIZE {
     // not enough input to decrypt.
     return Err(DecryptError::NotEnoughData);
   }
-- 
2.43.0


From 392ee23b0a3773b5b113d6c732cf28896676eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 07/15] fix: verify accepts the recoverable signatures that
 sign returns

---
 secp256k1_bip32/src/public.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/secp256k1_bip32/src/public.rs b/secp256k1_bip32/src/public.rs
index 2192c68..4291e9a 100644
--- a/secp256k1_bip32/src/public.rs
+++ b/secp256k1_bip32/src/public.rs
@@ -2,7 +2,9 @@ use super::error::KeyError;
 use cryptoxide::digest::Digest;
 use cryptoxide::sha2::Sha256;
 use cryptoxide::sha3::Sha3;
-use secp256k1::{util, verify, Message, PublicKey, Signature};
+use secp256k1::{recover, util, verify, Message, PublicKey, RecoveryId, Signature};
+
+const RECOVERABLE_SIGNATURE_SIZE: usize = util::SIGNATURE_SIZE + 1;
 
 pub struct XPub(PublicKey);
 
@@ -20,7 +22,8 @@ impl XPub {
   }
 
   pub fn verify(&self, data: &[u8], signature: &[u8]) -> Result<bool, KeyError> {
-    if signature.len() != util::SIGNATURE_SIZE {
+    // r|s, or r|s|recovery id as returned by XPrv::sign
+    if signature.len() != util::SIGNATURE_SIZE && signature.len() != RECOVERABLE_SIGNATURE_SIZE {
       return Err(KeyError::InvalidSignature(signature.len(), util::SIGNATURE_SIZE));
     }
     let mut sha3 = Sha3::keccak256();
@@ -30,11 +33,22 @@ impl XPub {
 
     let message = Message::parse(&out);
 
-    Signature::parse_slice(signature)
-      .map(|signature| verify(&message, &signature, &self.0))
+    let (rs, recovery) = signature.split_at(util::SIGNATURE_SIZE);
+    Signature::parse_slice(rs)
+      .map(|signature| {
+        verify(&message, &signature, &self.0)
+          && recovery.iter().all(|rec_id| self.is_recovered(&message, &signature, *rec_id))
+      })
       .map_err(|err| err.into())
   }
 
+  fn is_recovered(&self, message: &Message, signature: &Signature, rec_id: u8) -> bool {
+    RecoveryId::parse(rec_id)
+      .and_then(|rec_id| recover(message, signature, &rec_id))
+      .map(|key| key == self.0)
+      .unwrap_or(false)
+  }
+
   pub fn sha256(&self) -> [u8; util::MESSAGE_SIZE] {
     Self::_sha256(&self.0.serialize())
   }
-- 
2.43.0


From a835722199edb913b1e61f8e0540ce0ec632dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 08/15] fix: do not read outside of the dictionary for an index
 above 2047

---
 bip39/src/bip39.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bip39/src/bip39.rs b/bip39/src/bip39.rs
index c5568f2..701accd 100755
--- a/bip39/src/bip39.rs
+++ b/bip39/src/bip39.rs
@@ -921,7 +921,11 @@ pub mod dictionary {
       }
     }
     fn lookup_word(&self, mnemonic: MnemonicIndex) -> Result<String> {
-      Ok(unsafe { self.words.get_unchecked(mnemonic.0 as usize) }).map(|s| String::from(*s))
+      self
+        .words
+        .get(mnemonic.0 as usize)
+        .map(|s| String::from(*s))
+        .ok_or_else(|| Error::MnemonicWordNotFoundInDictionary(mnemonic.0.to_string()))
     }
   }
 
-- 
2.43.0


From 43a88575b204042f6d2b3da06e914693dd5cfa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 09/15] fix: release network lists with the layout they were
 allocated with

---
 keychain-c/src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain-c/src/network.rs b/keychain-c/src/network.rs
index ab30ccc..97f3585 100644
--- a/keychain-c/src/network.rs
+++ b/keychain-c/src/network.rs
@@ -33,7 +33,7 @@ impl Ptr<[Network]> for NetworksPtr {
     if self.ptr.is_null() {
       return;
     }
-    let _ = Vec::from_raw_parts(self.ptr as *mut &[Network], self.count, self.count);
+    let _ = Vec::from_raw_parts(self.ptr as *mut Network, self.count, self.count);
     self.ptr = std::ptr::null();
   }
 }
-- 
2.43.0


From 5f3b00994106dd7fd890be105538355add5a020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 10/15] fix: deleting a null string does nothing

---
 keychain-c/src/utils/string.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keychain-c/src/utils/string.rs b/keychain-c/src/utils/string.rs
index 4ab4ed0..8a4f2f2 100644
--- a/keychain-c/src/utils/string.rs
+++ b/keychain-c/src/utils/string.rs
@@ -10,6 +10,9 @@ impl Ptr<str> for CharPtr {
   }
 
   unsafe fn free(&mut self) {
+    if self.is_null() {
+      return;
+    }
     let _ = CString::from_raw(*self as *mut c_char);
     *self = std::ptr::null();
   }
-- 
2.43.0


From bbe5a3aaa7be36d49bd934e19c8ec04ca1684c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 11/15] fix: accept null pointers for empty data in the C
 interface

---
 keychain-c/src/backup.rs     |  6 +++---
 keychain-c/src/keychain_c.rs |  8 ++++----
 keychain-c/src/manager.rs    | 10 +++++-----
 keychain-c/src/utils/data.rs |  8 ++++++++
 4 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/keychain-c/src/backup.rs b/keychain-c/src/backup.rs
index cdc6052..99a396f 100644
--- a/keychain-c/src/backup.rs
+++ b/keychain-c/src/backup.rs
@@ -2,7 +2,7 @@ use error::ErrorPtr;
 use keychain::Network as RNetwork;
 use manager::{KeychainManagerPtr, Language};
 use network::Network;
-use utils::data::DataPtr;
+use utils::data::{slice_from_c, DataPtr};
 use utils::panic::handle_exception_result;
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -86,7 +86,7 @@ pub unsafe extern "C" fn keychain_manager_get_keys_data(
   data: &mut KeyBackupPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(encrypted, encrypted_len);
+    let data_slice = slice_from_c(encrypted, encrypted_len);
     manager
       .rust_ref()
       .get_keys_data(data_slice, password.rust_ref())
@@ -101,7 +101,7 @@ pub unsafe extern "C" fn keychain_manager_retrieve_mnemonic(
   mnemonic: &mut MnemonicInfoPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .retrieve_mnemonic(data_slice, password.rust_ref())
diff --git a/keychain-c/src/keychain_c.rs b/keychain-c/src/keychain_c.rs
index f4fc79a..fbe08cd 100644
--- a/keychain-c/src/keychain_c.rs
+++ b/keychain-c/src/keychain_c.rs
@@ -3,7 +3,7 @@ use key_path::KeyPath;
 use keychain::Keychain as RKeychain;
 use network::{Network, NetworksPtr};
 use std::ffi::c_void;
-use utils::data::DataPtr;
+use utils::data::{slice_from_c, DataPtr};
 use utils::panic::{handle_exception, handle_exception_result};
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -54,7 +54,7 @@ pub unsafe extern "C" fn keychain_sign(
   signature: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     keychain.rust_ref().sign(&network.into(), data_slice, &path).map(|data| DataPtr::from(data))
   })
   .response(signature, error)
@@ -66,8 +66,8 @@ pub unsafe extern "C" fn keychain_verify(
   signature_len: usize, path: KeyPath, result: &mut bool, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
-    let signature_slice = std::slice::from_raw_parts(signature, signature_len);
+    let data_slice = slice_from_c(data, data_len);
+    let signature_slice = slice_from_c(signature, signature_len);
 
     keychain.rust_ref().verify(&network.into(), data_slice, signature_slice, &path)
   })
diff --git a/keychain-c/src/manager.rs b/keychain-c/src/manager.rs
index 0d0c1d0..d5187ab 100644
--- a/keychain-c/src/manager.rs
+++ b/keychain-c/src/manager.rs
@@ -4,7 +4,7 @@ use keychain_c::KeychainPtr;
 use network::Network;
 use num_traits::FromPrimitive;
 use std::ffi::c_void;
-use utils::data::DataPtr;
+use utils::data::{slice_from_c, DataPtr};
 use utils::panic::{handle_exception, handle_exception_result};
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -92,7 +92,7 @@ pub unsafe extern "C" fn keychain_manager_keychain_data_from_seed(
   data: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let seed_slice = std::slice::from_raw_parts(seed, seed_len);
+    let seed_slice = slice_from_c(seed, seed_len);
     manager
       .rust_ref()
       .keychain_data_from_seed(seed_slice, password.rust_ref())
@@ -121,7 +121,7 @@ pub unsafe extern "C" fn keychain_manager_keychain_from_data(
   keychain: &mut KeychainPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .keychain_from_data(data_slice, password.rust_ref())
@@ -136,7 +136,7 @@ pub unsafe extern "C" fn keychain_manager_add_network(
   network: Network, response: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .add_network(data_slice, password.rust_ref(), network.into())
@@ -151,7 +151,7 @@ pub unsafe extern "C" fn keychain_manager_change_password(
   new_password: CharPtr, response: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_c(data, data_len);
     manager
       .rust_ref()
       .change_password(data_slice, old_password.rust_ref(), new_password.rust_ref())
diff --git a/keychain-c/src/utils/data.rs b/keychain-c/src/utils/data.rs
index 506f857..a901c2f 100644
--- a/keychain-c/src/utils/data.rs
+++ b/keychain-c/src/utils/data.rs
@@ -7,6 +7,14 @@ pub struct DataPtr {
   len: usize
 }
 
+/// Slice passed from C: an empty one may come with any pointer, null included.
+pub unsafe fn slice_from_c<'a>(ptr: *const u8, len: usize) -> &'a [u8] {
+  if len == 0 {
+    return &[];
+  }
+  std::slice::from_raw_parts(ptr, len)
+}
+
 impl Ptr<[u8]> for DataPtr {
   unsafe fn rust_ref(&self) -> &[u8] {
     std::slice::from_raw_parts(self.ptr, self.len)
-- 
2.43.0


From 5f4b0fc8a7d5c5344469cff40fbf86431acaa450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 12/15] fix: do not abort on error messages that quote a NUL

---
 keychain-c/src/error.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keychain-c/src/error.rs b/keychain-c/src/error.rs
index 85c1b4b..c1ca80a 100644
--- a/keychain-c/src/error.rs
+++ b/keychain-c/src/error.rs
@@ -58,12 +58,17 @@ impl ErrorPtr {
     }
   }
 
+  // C strings can't hold NULs, and messages may quote untrusted data
+  fn message(msg: &str) -> CharPtr {
+    msg.replace('\0', "\\0").to_cstr()
+  }
+
   pub fn new(err: &RError) -> Self {
-    Self { error_type: Self::error_type(err), message: format!("{}", err).to_cstr() }
+    Self { error_type: Self::error_type(err), message: Self::message(&format!("{}", err)) }
   }
 
   pub fn panic(msg: &str) -> Self {
-    Self { error_type: ErrorType::Panic, message: msg.to_cstr() }
+    Self { error_type: ErrorType::Panic, message: Self::message(msg) }
   }
 }
 
-- 
2.43.0


From 324b62aa7f4f5069d19e75b51b9cc33d9edcae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 13/15] fix: keep optimised builds from dropping the wiping of
 secrets

---
 bip39/src/bip39.rs          |  2 +-
 bip39/src/util/securemem.rs | 15 +++++++--------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/bip39/src/bip39.rs b/bip39/src/bip39.rs
index 701accd..d654283 100755
--- a/bip39/src/bip39.rs
+++ b/bip39/src/bip39.rs
@@ -512,7 +512,7 @@ impl Deref for Seed {
 }
 impl Drop for Seed {
   fn drop(&mut self) {
-    self.0.copy_from_slice(&[0; SEED_SIZE][..]);
+    securemem::zero(&mut self.0);
   }
 }
 
diff --git a/bip39/src/util/securemem.rs b/bip39/src/util/securemem.rs
index 61ba866..8f5de4c 100755
--- a/bip39/src/util/securemem.rs
+++ b/bip39/src/util/securemem.rs
@@ -1,12 +1,11 @@
 /// zero the given slice.
 ///
-/// We assume the compiler won't optimise out the call to this function
+/// The writes are volatile, so the compiler can't optimise them out even when
+/// the memory is never read again.
 pub fn zero(to_zero: &mut [u8]) {
-  // the unsafety of this call is bounded to the existence of the pointer
-  // and the accuracy of the length of the array.
-  //
-  // since to_zero existence is bound to live at least as long as the call
-  // of this function and that we use the length (in bytes) of the given
-  // slice, this call is safe.
-  unsafe { ::std::ptr::write_bytes(to_zero.as_mut_ptr(), 0, to_zero.len()) }
+  for byte in to_zero.iter_mut() {
+    // safe: a valid, exclusive and aligned reference
+    unsafe { ::std::ptr::write_volatile(byte, 0) }
+  }
+  ::std::sync::atomic::compiler_fence(::std::sync::atomic::Ordering::SeqCst);
 }
-- 
2.43.0


From fed19620fa1bd501689f9cb797fdd120592c0998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:30 +0000
Subject: [PATCH 14/15] fix: refuse Cardano signatures whose S is not below the
 group order

---
 keychain/src/networks/cardano/key.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/keychain/src/networks/cardano/key.rs b/keychain/src/networks/cardano/key.rs
index ef840b4..31eaf3e 100644
--- a/keychain/src/networks/cardano/key.rs
+++ b/keychain/src/networks/cardano/key.rs
@@ -12,6 +12,17 @@ use std::fmt;
 
 const D_SCHEME: DerivationScheme = DerivationScheme::V2;
 
+/// Order of the Ed25519 base point, little endian
+const GROUP_ORDER: [u8; 32] = [
+  0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+  0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10
+];
+
+/// RFC 8032 wants S below the group order, otherwise S + order would verify as well
+fn has_canonical_s(signature: &[u8; SIGNATURE_SIZE]) -> bool {
+  signature[32..].iter().rev().lt(GROUP_ORDER.iter().rev())
+}
+
 #[derive(Debug)]
 pub enum KeyError {
   LengthInvalid(usize),
@@ -133,7 +144,7 @@ impl IKey for Key {
 
     self.derive_private(path).map(|pk| {
       let native_signature: Signature<Vec<u8>> = Signature::from_bytes(sign);
-      pk.verify(data, &native_signature)
+      has_canonical_s(&sign) && pk.verify(data, &native_signature)
     })
   }
 }
-- 
2.43.0


From a41e5e2b0ba4a96d5f568f19821056140c14fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 15/15] fix: stay usable after the system's random source
 failed once

---
 keychain/src/entropy.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keychain/src/entropy.rs b/keychain/src/entropy.rs
index 29dbd18..3277274 100644
--- a/keychain/src/entropy.rs
+++ b/keychain/src/entropy.rs
@@ -18,7 +18,8 @@ impl OsEntropy {
 
 impl Entropy for OsEntropy {
   fn fill_bytes(&self, into: &mut [u8]) {
-    let rand = &mut self.random.lock().unwrap();
+    // an earlier failure of the system's source leaves nothing broken behind
+    let rand = &mut self.random.lock().unwrap_or_else(|err| err.into_inner());
     rand.fill_bytes(into);
   }
 }
-- 
2.43.0

