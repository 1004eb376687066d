From 3807fa73004ac6fa49f29a7f01e50621c7010b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 01/38] fix: keep the script_sig of finalized nested segwit
 inputs when deriving from a PSBT

An input with both a final witness and a final script_sig lost the latter,
so P2SH-P2WPKH inputs were not used for the shared secret and the recipient
could not find the payment.
---
 silentpayments/src/send/psbt/mod.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 56c8a34..291f721 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -327,18 +327,21 @@ fn get_prevout_script(psbt_input: &psbt::Input, txin: &TxIn) -> Result<ScriptBuf
 /// Returns a complete [`TxIn`] with witness or script_sig populated, or a [`SpSendError`] if
 /// neither final witness nor script_sig is available.
 fn build_full_txin(txin: &TxIn, psbt_input: &psbt::Input) -> Result<TxIn, SpSendError> {
-    if let Some(ref witness) = psbt_input.final_script_witness {
-        Ok(TxIn {
-            witness: witness.clone(),
+    // NOTE: Nested segwit inputs need both, the script_sig and the witness, to be recognized
+    match (
+        &psbt_input.final_script_witness,
+        &psbt_input.final_script_sig,
+    ) {
+        (None, None) => Err(SpSendError::MissingWitness),
+        (maybe_witness, maybe_script_sig) => Ok(TxIn {
+            witness: maybe_witness
+                .clone()
+                .unwrap_or_else(|| txin.witness.clone()),
+            script_sig: maybe_script_sig
+                .clone()
+                .unwrap_or_else(|| txin.script_sig.clone()),
             ..txin.clone()
-        })
-    } else if let Some(ref script_sig) = psbt_input.final_script_sig {
-        Ok(TxIn {
-            script_sig: script_sig.clone(),
-            ..txin.clone()
-        })
-    } else {
-        Err(SpSendError::MissingWitness)
+        }),
     }
 }
 
-- 
2.43.0


From dd9e65c5ae194a7e3d2c360bf44259b714cb53b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:30 +0000
Subject: [PATCH 02/38] fix: use the secret key matching the input when
 deriving from a PSBT

With several key origins in an input the first key known to the provider was
used, whatever public key the recipient extracts from that input: a payment to
an output nobody finds for non taproot inputs, or a spurious error for taproot
ones.
---
 silentpayments/src/send/psbt/mod.rs | 102 ++++++++++++++++++++++------
 1 file changed, 82 insertions(+), 20 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 291f721..3dc7188 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -12,12 +12,12 @@ use bitcoin::{
     bip32::KeySource,
     key::{Parity, Secp256k1, TweakedPublicKey, Verification},
     psbt::{self, GetKey, KeyRequest},
-    secp256k1::{SecretKey, Signing},
+    secp256k1::{PublicKey, SecretKey, Signing},
     PrivateKey, Psbt, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, TxOut, XOnlyPublicKey,
 };
 
 #[cfg(feature = "psbt_sp_spend")]
-use bitcoin::secp256k1::{PublicKey, Scalar};
+use bitcoin::secp256k1::Scalar;
 
 use std::{
     cmp::Ordering,
@@ -242,24 +242,7 @@ where
         } else {
             let full_txin = build_full_txin(txin, psbt_input)?;
             extract_pubkey(full_txin.clone(), &prevout)
-                .map(|pubkey_data| match pubkey_data {
-                    (SpInputs::Tr, even_tr_output_key) => {
-                        match get_taproot_secret(psbt_input, k, secp) {
-                            Ok(Some(secret)) => {
-                                let (xonly, _) = secret.x_only_public_key(secp);
-                                if even_tr_output_key == xonly.public_key(Parity::Even) {
-                                    Ok(Some(secret))
-                                } else {
-                                    Err(SpSendError::KeyError)
-                                }
-                            }
-                            Ok(None) => Ok(None),
-                            Err(_) => Err(SpSendError::KeyError),
-                        }
-                    }
-                    _ => get_non_taproot_secret(psbt_input, k, secp)
-                        .map_err(|_| SpSendError::KeyError),
-                })
+                .map(|pubkey_data| get_input_secret(psbt_input, k, secp, pubkey_data))
                 .transpose()?
                 .flatten()
         };
@@ -284,6 +267,85 @@ where
     }
 }
 
+/// Retrieves the secret key behind the public key an input contributes to the shared secret.
+///
+/// Every key origin of the input is tried, and only the secret key matching the public key the
+/// recipient is going to extract from the input is accepted.
+///
+/// # Arguments
+///
+/// * `psbt_input` - The [`Psbt`] input containing the key origins
+/// * `k` - A key provider implementing the [`GetKey`] trait
+/// * `secp` - A [`Secp256k1`] context for cryptographic operations
+/// * `pubkey_data` - The type of input and the public key extracted from it
+///
+/// # Returns
+///
+/// Returns `Some(SecretKey)` for the matching secret key, `None` if the key provider doesn't know
+/// any of the keys, or [`SpSendError::KeyError`] if it failed or provided an unrelated key.
+fn get_input_secret<C, K>(
+    psbt_input: &psbt::Input,
+    k: &K,
+    secp: &Secp256k1<C>,
+    (input_type, pubkey): (SpInputs, PublicKey),
+) -> Result<Option<SecretKey>, SpSendError>
+where
+    C: Signing + Verification,
+    K: GetKey,
+{
+    let single_origin_inputs: Vec<psbt::Input> = if let SpInputs::Tr = input_type {
+        psbt_input
+            .tap_key_origins
+            .iter()
+            .map(|(xonly, origin)| psbt::Input {
+                tap_key_origins: BTreeMap::from([(*xonly, origin.clone())]),
+                tap_merkle_root: psbt_input.tap_merkle_root,
+                ..Default::default()
+            })
+            .collect()
+    } else {
+        psbt_input
+            .bip32_derivation
+            .iter()
+            .map(|(pk, key_source)| psbt::Input {
+                bip32_derivation: BTreeMap::from([(*pk, key_source.clone())]),
+                ..Default::default()
+            })
+            .collect()
+    };
+
+    let mut failed = false;
+    for input in single_origin_inputs.iter() {
+        let maybe_secret = if let SpInputs::Tr = input_type {
+            get_taproot_secret(input, k, secp)
+        } else {
+            get_non_taproot_secret(input, k, secp)
+        };
+
+        match maybe_secret {
+            Ok(Some(secret)) => {
+                let candidate = if let SpInputs::Tr = input_type {
+                    secret.x_only_public_key(secp).0.public_key(Parity::Even)
+                } else {
+                    secret.public_key(secp)
+                };
+                if candidate == pubkey {
+                    return Ok(Some(secret));
+                }
+                failed = true;
+            }
+            Ok(None) => {}
+            Err(_) => failed = true,
+        }
+    }
+
+    if failed {
+        Err(SpSendError::KeyError)
+    } else {
+        Ok(None)
+    }
+}
+
 /// Extracts the previous output script from a [`Psbt`] input.
 ///
 /// This function attempts to retrieve the script pubkey from either the witness UTXO
-- 
2.43.0


From f5ce45eaf4b2b7d9f2ee8619414ed448b9b87c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:36 +0000
Subject: [PATCH 03/38] fix: refuse to derive from a PSBT when the secret of a
 contributing input is missing

An input available for shared secret derivation whose key the provider doesn't
have was silently ignored, but the recipient uses every such input: the payment
was sent to an output nobody finds.
---
 silentpayments/src/send/psbt/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 3dc7188..330cd8f 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -233,6 +233,7 @@ where
 {
     let mut data_for_partial_secret = DataForPartialSecret::default();
     let mut lex_min = LexMin::default();
+    let mut missing_secret = false;
 
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
         let prevout = get_prevout_script(psbt_input, txin)?;
@@ -241,10 +242,15 @@ where
             Some(secret)
         } else {
             let full_txin = build_full_txin(txin, psbt_input)?;
-            extract_pubkey(full_txin.clone(), &prevout)
-                .map(|pubkey_data| get_input_secret(psbt_input, k, secp, pubkey_data))
-                .transpose()?
-                .flatten()
+            match extract_pubkey(full_txin.clone(), &prevout) {
+                Some(pubkey_data) => {
+                    let maybe_secret = get_input_secret(psbt_input, k, secp, pubkey_data)?;
+                    // The recipient is going to use this input, so its secret cannot be ignored
+                    missing_secret |= maybe_secret.is_none();
+                    maybe_secret
+                }
+                None => None,
+            }
         };
 
         if let Some(secret_key) = maybe_secret_key {
@@ -258,6 +264,8 @@ where
 
     if data_for_partial_secret.scripts_with_secrets.is_empty() {
         Err(SpSendError::MissingInputsForSharedSecretDerivation)
+    } else if missing_secret {
+        Err(SpSendError::KeyError)
     } else {
         data_for_partial_secret.lex_min_outpoint = lex_min
             .bytes()
-- 
2.43.0


From 489fcc0a641e6672fab6d54bbddc26e7b0e7f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 04/38] fix: derive only for the recipients with an output in
 the PSBT

A recipient without placeholder output, e.g. an unused change address, took a
position in the derivation of its scan key. Scanning stops at the first gap, so
the outputs of other recipients with the same scan key were lost.
---
 silentpayments/src/send/psbt/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 330cd8f..6167934 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -199,7 +199,20 @@ where
 
     let partial_secret =
         create_silentpayment_partial_secret(&lex_min_outpoint, &scripts_with_secrets)?;
-    let silent_payments = create_silentpayment_scriptpubkeys(partial_secret, recipients);
+    // Only the recipients with an output in the PSBT take part in the derivation. A derivation for
+    // any other one would leave a gap which stops the scan of recipients sharing the scan key.
+    let payees: Vec<SilentPaymentCode> = recipients
+        .iter()
+        .filter(|sp_code| {
+            let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
+            psbt.unsigned_tx
+                .output
+                .iter()
+                .any(|txout| txout.script_pubkey == placeholder_spk)
+        })
+        .cloned()
+        .collect();
+    let silent_payments = create_silentpayment_scriptpubkeys(partial_secret, &payees);
 
     update_outputs(psbt, &silent_payments)?;
 
-- 
2.43.0


From 2fcb3cc7f77feeec4405565551bc1af1f14097a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 05/38] fix: don't panic on foreign silent payment data in a
 PSBT nor sign with an unrelated key

The proprietary fields of a PSBT come from somebody else: malformed entries,
or other inputs without witness_utxo, aborted sign_sp and derive_sp. Moreover,
the key returned by the provider was used without checking it opens the output.
---
 silentpayments/src/send/psbt/mod.rs  | 68 ++++++++++------------
 silentpayments/src/send/psbt/sign.rs | 85 +++++++++++++++++++---------
 2 files changed, 90 insertions(+), 63 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 6167934..f4be76f 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -13,12 +13,9 @@ use bitcoin::{
     key::{Parity, Secp256k1, TweakedPublicKey, Verification},
     psbt::{self, GetKey, KeyRequest},
     secp256k1::{PublicKey, SecretKey, Signing},
-    PrivateKey, Psbt, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, TxOut, XOnlyPublicKey,
+    PrivateKey, Psbt, Script, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, TxOut, XOnlyPublicKey,
 };
 
-#[cfg(feature = "psbt_sp_spend")]
-use bitcoin::secp256k1::Scalar;
-
 use std::{
     cmp::Ordering,
     collections::{BTreeMap, HashMap},
@@ -251,20 +248,21 @@ where
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
         let prevout = get_prevout_script(psbt_input, txin)?;
 
-        let maybe_secret_key = if let Ok(Some(secret)) = get_sp_secret(psbt_input, k, secp) {
-            Some(secret)
-        } else {
-            let full_txin = build_full_txin(txin, psbt_input)?;
-            match extract_pubkey(full_txin.clone(), &prevout) {
-                Some(pubkey_data) => {
-                    let maybe_secret = get_input_secret(psbt_input, k, secp, pubkey_data)?;
-                    // The recipient is going to use this input, so its secret cannot be ignored
-                    missing_secret |= maybe_secret.is_none();
-                    maybe_secret
+        let maybe_secret_key =
+            if let Ok(Some(secret)) = get_sp_secret(psbt_input, &prevout, k, secp) {
+                Some(secret)
+            } else {
+                let full_txin = build_full_txin(txin, psbt_input)?;
+                match extract_pubkey(full_txin.clone(), &prevout) {
+                    Some(pubkey_data) => {
+                        let maybe_secret = get_input_secret(psbt_input, k, secp, pubkey_data)?;
+                        // The recipient is going to use this input, so its secret cannot be ignored
+                        missing_secret |= maybe_secret.is_none();
+                        maybe_secret
+                    }
+                    None => None,
                 }
-                None => None,
-            }
-        };
+            };
 
         if let Some(secret_key) = maybe_secret_key {
             data_for_partial_secret
@@ -382,13 +380,18 @@ where
 /// Returns the script pubkey of the previous output, or a [`SpSendError`] if neither
 /// witness nor non-witness UTXO is available, or if the output index is invalid.
 fn get_prevout_script(psbt_input: &psbt::Input, txin: &TxIn) -> Result<ScriptBuf, SpSendError> {
+    get_prevout(psbt_input, txin).map(|txout| txout.script_pubkey)
+}
+
+/// Extracts the previous output from a [`Psbt`] input, with the rules of [`get_prevout_script`].
+fn get_prevout(psbt_input: &psbt::Input, txin: &TxIn) -> Result<TxOut, SpSendError> {
     if let Some(txout) = &psbt_input.witness_utxo {
-        Ok(txout.script_pubkey.clone())
+        Ok(txout.clone())
     } else if let Some(tx) = &psbt_input.non_witness_utxo {
         let txout = tx
             .tx_out(txin.previous_output.vout as usize)
             .map_err(SpSendError::IndexError)?;
-        Ok(txout.script_pubkey.clone())
+        Ok(txout.clone())
     } else {
         Err(SpSendError::MissingPrevout)
     }
@@ -429,7 +432,12 @@ fn build_full_txin(txin: &TxIn, psbt_input: &psbt::Input) -> Result<TxIn, SpSend
 }
 
 #[cfg(not(feature = "psbt_sp_spend"))]
-fn get_sp_secret<C, K, E>(_: &psbt::Input, _: &K, _: &Secp256k1<C>) -> Result<Option<SecretKey>, E>
+fn get_sp_secret<C, K, E>(
+    _: &psbt::Input,
+    _: &Script,
+    _: &K,
+    _: &Secp256k1<C>,
+) -> Result<Option<SecretKey>, E>
 where
     C: Signing + Verification,
     K: GetKey<Error = E>,
@@ -440,6 +448,7 @@ where
 #[cfg(feature = "psbt_sp_spend")]
 fn get_sp_secret<C, K, E>(
     psbt_input: &psbt::Input,
+    prevout: &Script,
     k: &K,
     secp: &Secp256k1<C>,
 ) -> Result<Option<SecretKey>, E>
@@ -448,21 +457,7 @@ where
     K: GetKey<Error = E>,
 {
     for (key, value) in psbt_input.proprietary.clone() {
-        if key.prefix == b"bip352".to_vec() && key.subtype == sign::SPEND_PK_SUBTYPE {
-            let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-            let mut scalar = [0u8; 32];
-            scalar.clone_from_slice(value.as_slice());
-
-            let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-            let output_key = if let Some(txout) = &psbt_input.witness_utxo {
-                XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                    .expect("p2tr script")
-            } else {
-                continue;
-            };
-            let tweaked_spend_pk = spend_pk
-                .add_exp_tweak(secp, &tweak)
-                .expect("will fix later");
+        if let Some((spend_pk, tweak)) = sign::read_sp_data(&key, &value) {
             let spend_sk = if let Ok(Some(sk)) =
                 k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
             {
@@ -470,8 +465,7 @@ where
             } else {
                 continue;
             };
-            if tweaked_spend_pk.x_only_public_key().0 == output_key {
-                let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
+            if let Some(sk) = sign::get_output_secret(prevout, &spend_sk.inner, &tweak, secp) {
                 return Ok(Some(sk));
             }
         }
diff --git a/silentpayments/src/send/psbt/sign.rs b/silentpayments/src/send/psbt/sign.rs
index a209e61..c94e462 100644
--- a/silentpayments/src/send/psbt/sign.rs
+++ b/silentpayments/src/send/psbt/sign.rs
@@ -1,10 +1,11 @@
+use super::get_prevout;
 use bitcoin::{
-    key::{Keypair, Secp256k1, Verification},
+    key::{Keypair, Secp256k1, TweakedPublicKey, Verification},
     psbt::{raw::ProprietaryKey, GetKey, KeyRequest},
-    secp256k1::{Message, PublicKey, Scalar, Signing},
+    secp256k1::{Message, PublicKey, Scalar, SecretKey, Signing},
     sighash::{Prevouts, SighashCache},
     taproot::Signature,
-    Psbt, TapSighashType, TxOut, XOnlyPublicKey,
+    Psbt, Script, ScriptBuf, TapSighashType, TxOut,
 };
 
 pub const SPEND_PK_SUBTYPE: u8 = 0x01;
@@ -29,6 +30,42 @@ pub fn add_sp_data_to_input(
     }
 }
 
+/// Reads the spend public key and the tweak from a proprietary entry of a [`Psbt`] input.
+///
+/// Returns `None` if the entry is not silent payment data, or is malformed.
+pub(super) fn read_sp_data(key: &ProprietaryKey, value: &[u8]) -> Option<(PublicKey, Scalar)> {
+    if key.prefix != b"bip352".to_vec() || key.subtype != self::SPEND_PK_SUBTYPE {
+        return None;
+    }
+    let spend_pk = PublicKey::from_slice(&key.key).ok()?;
+    let tweak = Scalar::from_be_bytes(value.try_into().ok()?).ok()?;
+    Some((spend_pk, tweak))
+}
+
+/// The secret key of a silent payment output, `None` if the data provided doesn't belong to it.
+pub(super) fn get_output_secret<C>(
+    script_pubkey: &Script,
+    spend_sk: &SecretKey,
+    tweak: &Scalar,
+    secp: &Secp256k1<C>,
+) -> Option<SecretKey>
+where
+    C: Signing + Verification,
+{
+    let sk = spend_sk.add_tweak(tweak).ok()?;
+    let tweaked_pk = TweakedPublicKey::dangerous_assume_tweaked(sk.x_only_public_key(secp).0);
+    if ScriptBuf::new_p2tr_tweaked(tweaked_pk).as_script() == script_pubkey {
+        Some(sk)
+    } else {
+        None
+    }
+}
+
+/// Signs every input with the data to spend a silent payment output.
+///
+/// Inputs already signed, with malformed data, or whose spend key is not available, are left as
+/// they are. Nothing is signed until the previous outputs of all inputs are known, as the
+/// signatures commit to them.
 pub fn sign_sp<C, K>(psbt: &mut Psbt, k: &K, secp: &Secp256k1<C>)
 where
     C: Signing + Verification,
@@ -37,23 +74,20 @@ where
     let tx = psbt.unsigned_tx.clone(); // clone because we need to mutably borrow when signing.
     let mut cache = SighashCache::new(&tx);
 
+    let maybe_prevouts = psbt
+        .inputs
+        .iter()
+        .zip(tx.input.iter())
+        .map(|(psbt_input, txin)| get_prevout(psbt_input, txin))
+        .collect::<Result<Vec<TxOut>, _>>();
+    let prevouts = match maybe_prevouts {
+        Ok(prevouts) => prevouts,
+        Err(_) => return,
+    };
+
     for i in 0..psbt.inputs.len() {
         for (key, value) in psbt.inputs[i].proprietary.clone() {
-            if key.prefix == b"bip352".to_vec() && key.subtype == self::SPEND_PK_SUBTYPE {
-                let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-                let mut scalar = [0u8; 32];
-                scalar.clone_from_slice(value.as_slice());
-
-                let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-                let output_key = if let Some(txout) = &psbt.inputs[i].witness_utxo {
-                    XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                        .expect("p2tr script")
-                } else {
-                    continue;
-                };
-                let tweaked_spend_pk = spend_pk
-                    .add_exp_tweak(secp, &tweak)
-                    .expect("will fix later");
+            if let Some((spend_pk, tweak)) = read_sp_data(&key, &value) {
                 let spend_sk = if let Ok(Some(sk)) =
                     k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
                 {
@@ -61,15 +95,15 @@ where
                 } else {
                     continue;
                 };
-                if psbt.inputs[i].tap_key_sig.is_none()
-                    && tweaked_spend_pk.x_only_public_key().0 == output_key
+                let sk = if let Some(sk) =
+                    get_output_secret(&prevouts[i].script_pubkey, &spend_sk.inner, &tweak, secp)
                 {
+                    sk
+                } else {
+                    continue;
+                };
+                if psbt.inputs[i].tap_key_sig.is_none() {
                     let sighash_type = TapSighashType::Default;
-                    let prevouts = psbt
-                        .inputs
-                        .iter()
-                        .map(|x| x.witness_utxo.clone().unwrap())
-                        .collect::<Vec<TxOut>>();
                     let prevouts = Prevouts::All(&prevouts);
 
                     let sighash = cache
@@ -79,7 +113,6 @@ where
                     // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
                     let msg = Message::from(sighash);
 
-                    let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
                     let keypair = Keypair::from_secret_key(secp, &sk);
 
                     let signature = secp.sign_schnorr_no_aux_rand(&msg, &keypair);
-- 
2.43.0


From 353c4bd9cf750f424cf9b028586ce55d6fe756b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 06/38] fix: leave the PSBT untouched when its outputs cannot
 be updated

With several recipients some outputs were already replaced when a later one
failed, so retrying with the same PSBT paid to outputs nobody finds.
---
 silentpayments/src/send/psbt/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index f4be76f..9fc1053 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -613,6 +613,9 @@ fn update_outputs(
         map
     };
 
+    // Collect all the updates before applying any, to not leave a half updated PSBT on errors
+    let mut updates = <Vec<(usize, XOnlyPublicKey)>>::new();
+
     for (sp_code, x_only_pks) in silent_payments.iter() {
         let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
 
@@ -621,19 +624,16 @@ fn update_outputs(
                 Ordering::Greater => return Err(SpSendError::MissingDerivations),
                 Ordering::Less => return Err(SpSendError::MissingOutputs),
                 Ordering::Equal => {
-                    for (idx, xonly_pk) in indexes.iter().zip(x_only_pks) {
-                        let x_only_tweaked = TweakedPublicKey::dangerous_assume_tweaked(*xonly_pk);
-                        let value = psbt.unsigned_tx.output[*idx].value;
-
-                        psbt.unsigned_tx.output[*idx] = TxOut {
-                            script_pubkey: ScriptBuf::new_p2tr_tweaked(x_only_tweaked),
-                            value,
-                        };
-                    }
+                    updates.extend(indexes.iter().copied().zip(x_only_pks.iter().copied()));
                 }
             }
         }
     }
 
+    for (idx, xonly_pk) in updates {
+        let x_only_tweaked = TweakedPublicKey::dangerous_assume_tweaked(xonly_pk);
+        psbt.unsigned_tx.output[idx].script_pubkey = ScriptBuf::new_p2tr_tweaked(x_only_tweaked);
+    }
+
     Ok(())
 }
-- 
2.43.0


From 260023a2d187cd9b80183b76aca798f7a54eb474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 07/38] fix: don't tap tweak the keys of non taproot inputs
 when sending from an xpriv

The shared secret was computed with a tweaked key the recipient cannot see in a
segwit v0 or legacy input, so the payment could not be found.
---
 silentpayments/src/send/bip32.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/silentpayments/src/send/bip32.rs b/silentpayments/src/send/bip32.rs
index bb00940..c6504d9 100644
--- a/silentpayments/src/send/bip32.rs
+++ b/silentpayments/src/send/bip32.rs
@@ -36,6 +36,13 @@ impl XprivSilentPaymentSender {
 
             let bip32_privkey = self.xpriv.derive_priv(&secp, &derivation_path)?;
             let mut internal_privkey = bip32_privkey.private_key;
+
+            // Only taproot outputs tweak the key
+            if !spk.is_p2tr() {
+                spks_with_keys.push((spk.clone(), internal_privkey));
+                continue;
+            }
+
             let (x_only_internal, parity) = internal_privkey.x_only_public_key(&secp);
 
             if let Parity::Odd = parity {
-- 
2.43.0


From 4cd57bea5162b80ba41bed6da6d518ba5a9abd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 08/38] fix: don't panic when indexing a transaction without a
 shared secret

---
 indexer/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/indexer/src/lib.rs b/indexer/src/lib.rs
index 85d735e..2ac601b 100644
--- a/indexer/src/lib.rs
+++ b/indexer/src/lib.rs
@@ -179,10 +179,11 @@ impl<A: bdk_chain::Anchor, T: PrevoutSource> SpIndexer<T, A> {
     pub fn index_tx(&mut self, tx: &Transaction) -> Result<tx_graph::ChangeSet<A>, SpReceiveError> {
         let prevouts = self.prevout_source.get_tx_prevouts(tx);
         let txid = tx.compute_txid();
-        let ecdh_shared_secret = self
-            .scanner
-            .get_shared_secret(tx, &prevouts)
-            .expect("infallible");
+        let ecdh_shared_secret = match self.scanner.get_shared_secret(tx, &prevouts) {
+            Ok(ecdh_shared_secret) => ecdh_shared_secret,
+            // Transactions without a shared secret cannot have silent payment outputs
+            Err(_) => return Ok(tx_graph::ChangeSet::default()),
+        };
 
         let spouts = self.scanner.scan_txouts(tx, ecdh_shared_secret)?;
 
-- 
2.43.0


From 157afb933914e717cb2be407b7b69518a40ddc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 09/38] fix: don't hide unspent coins that share their script
 with a conflicting transaction

---
 wallet/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/wallet/src/lib.rs b/wallet/src/lib.rs
index 5235102..fbf6420 100644
--- a/wallet/src/lib.rs
+++ b/wallet/src/lib.rs
@@ -219,10 +219,12 @@ impl SpWallet {
                 self.chain(),
                 self.chain().tip().block_id(),
                 CanonicalizationParams::default(),
+                // conflicting transactions may pay the same script, so go by outpoint
                 self.indexer()
                     .index()
-                    .by_xonly()
-                    .map(|(xonly, outpoint)| (xonly, *outpoint)),
+                    .by_shared_secret
+                    .keys()
+                    .map(|outpoint| ((), *outpoint)),
             )
             .unwrap()
         {
@@ -317,13 +319,17 @@ impl SpWallet {
                 self.chain(),
                 self.chain().tip().block_id(),
                 CanonicalizationParams::default(),
+                // conflicting transactions may pay the same script, so go by outpoint
                 self.indexer()
                     .index()
-                    .by_xonly()
-                    .map(|(xonly, outpoint)| (xonly, *outpoint)),
+                    .by_shared_secret
+                    .keys()
+                    .map(|outpoint| ((), *outpoint)),
             )
             .unwrap()
-            .filter_map(|(xonly, full_txout)| {
+            .filter_map(|(_, full_txout)| {
+                let spk = full_txout.txout.script_pubkey.as_bytes();
+                let xonly = XOnlyPublicKey::from_slice(&spk[2..]).expect("p2tr script");
                 self.spending_plan(xonly)
                     .map(|plan| (full_txout.outpoint, plan))
             });
-- 
2.43.0


From 388bfb7cebe1b142bba1bc9d30b8822efeb5746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 10/38] fix: don't panic on silent payment codes without a
 payload

---
 silentpayments/src/encoding/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/encoding/mod.rs b/silentpayments/src/encoding/mod.rs
index acdebb6..53c3846 100644
--- a/silentpayments/src/encoding/mod.rs
+++ b/silentpayments/src/encoding/mod.rs
@@ -326,7 +326,10 @@ impl TryFrom<&str> for SilentPaymentCode {
         let hrp = checked_hrpstring.hrp();
         let mut payload = checked_hrpstring.fe32_iter::<&mut dyn Iterator<Item = u8>>();
 
-        let version = payload.nth(0).into_iter().collect::<Vec<_>>()[0].to_u8();
+        let version = payload
+            .next()
+            .ok_or(VersionError::WrongPayloadLength)?
+            .to_u8();
         let data = payload.fes_to_bytes().collect::<Vec<u8>>();
         let keys = match version {
             0 => {
-- 
2.43.0


From 1764885589a0fa34aebe465d888ff8356cacc273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 11/38] fix: don't panic on silent payment codes whose
 placeholder key cancels out

---
 silentpayments/src/encoding/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/silentpayments/src/encoding/mod.rs b/silentpayments/src/encoding/mod.rs
index 53c3846..f6bd09e 100644
--- a/silentpayments/src/encoding/mod.rs
+++ b/silentpayments/src/encoding/mod.rs
@@ -200,10 +200,18 @@ impl SilentPaymentCode {
     /// ```
     pub fn get_placeholder_p2tr_spk(&self) -> ScriptBuf {
         let secp = Secp256k1::verification_only();
-        let spend_hash = sha256::Hash::hash(&self.spend.serialize());
-        let placeholder_tweak = Scalar::from_be_bytes(spend_hash.to_byte_array())
-            .expect("hash value greater than curve order");
-        let pubkey = self.scan.add_exp_tweak(&secp, &placeholder_tweak).expect("computationally unreachable: can only fail if placeholder_tweak = -scan_sk, but placeholder_tweak is the output of a hash function");
+        let mut spend_hash = sha256::Hash::hash(&self.spend.serialize());
+        // The scan key is chosen by the author of the code, knowing the hash of the spend key. It can
+        // be the one which cancels the tweak, then hash again.
+        let pubkey = loop {
+            let tweaked = Scalar::from_be_bytes(spend_hash.to_byte_array())
+                .ok()
+                .and_then(|tweak| self.scan.add_exp_tweak(&secp, &tweak).ok());
+            match tweaked {
+                Some(pubkey) => break pubkey,
+                None => spend_hash = sha256::Hash::hash(spend_hash.as_byte_array()),
+            }
+        };
         let (x_only_key, _) = pubkey.x_only_public_key();
         let output_key = TweakedPublicKey::dangerous_assume_tweaked(x_only_key);
         ScriptBuf::new_p2tr_tweaked(output_key)
-- 
2.43.0


From 89499eedf9b9811ec12ff7e055e3019bc534c01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 12/38] fix: don't panic on taproot inputs with a truncated
 control block

---
 silentpayments/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/silentpayments/src/lib.rs b/silentpayments/src/lib.rs
index 8df3a80..5fbeebc 100644
--- a/silentpayments/src/lib.rs
+++ b/silentpayments/src/lib.rs
@@ -52,7 +52,7 @@ pub fn tag_txin(txin: &TxIn, script_pubkey: &ScriptBuf) -> Option<SpInputs> {
                     .then(|| {
                         txin.witness
                             .taproot_control_block()
-                            .filter(|control_block| control_block[1..33] == NUMS_H)
+                            .filter(|control_block| control_block.get(1..33) == Some(&NUMS_H[..]))
                             // if P2TR has no internal key return None
                             .map_or(Some(Tr), |_| None)
                     })
-- 
2.43.0


From d21d810a03527359a830c670ce09277843a7ad00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:27 +0000
Subject: [PATCH 13/38] fix: report error statuses of the tweak server as
 errors

---
 oracles/src/tweaks/blindbit.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index 0b77150..debc9fb 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -86,7 +86,8 @@ impl BlindbitClient {
             .get(url)
             .timeout(Duration::from_secs(5))
             .send()
-            .await?;
+            .await?
+            .error_for_status()?;
         let blkheight: BlockHeightResponse = serde_json::from_str(&res.text().await?)?;
         Ok(blkheight.height)
     }
@@ -103,7 +104,8 @@ impl BlindbitClient {
             .get(url)
             .query(&[("dustLimit", format!("{}", dust_limit.to_sat()))])
             .send()
-            .await?;
+            .await?
+            .error_for_status()?;
 
         Ok(serde_json::from_str(&res.text().await?)?)
     }
@@ -111,7 +113,7 @@ impl BlindbitClient {
     pub async fn info(&self) -> Result<InfoResponse, BlindbitError> {
         let url = self.host_url.join("info")?;
 
-        let res = self.client.get(url).send().await?;
+        let res = self.client.get(url).send().await?.error_for_status()?;
         Ok(serde_json::from_str(&res.text().await?)?)
     }
 }
-- 
2.43.0


From 2f607da9fdfde2e13ac4741caf83570eaae0bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:27 +0000
Subject: [PATCH 14/38] fix: don't wait forever for the tweaks or the info of
 the tweak server

---
 oracles/src/tweaks/blindbit.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index debc9fb..9162bba 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -103,6 +103,7 @@ impl BlindbitClient {
             .client
             .get(url)
             .query(&[("dustLimit", format!("{}", dust_limit.to_sat()))])
+            .timeout(Duration::from_secs(30))
             .send()
             .await?
             .error_for_status()?;
@@ -113,7 +114,13 @@ impl BlindbitClient {
     pub async fn info(&self) -> Result<InfoResponse, BlindbitError> {
         let url = self.host_url.join("info")?;
 
-        let res = self.client.get(url).send().await?.error_for_status()?;
+        let res = self
+            .client
+            .get(url)
+            .timeout(Duration::from_secs(5))
+            .send()
+            .await?
+            .error_for_status()?;
         Ok(serde_json::from_str(&res.text().await?)?)
     }
 }
-- 
2.43.0


From 3e49f905e460365a419f8757cdadf838cf17dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 15/38] fix: recover the wallet file of the v1 cli after an
 interrupted write

---
 cli/v1/src/main.rs | 53 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index a0bc788..009c883 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -1,5 +1,6 @@
 use std::{
-    cmp, env,
+    cmp, env, fs,
+    path::Path,
     str::FromStr,
     sync::Mutex,
     time::{Duration, Instant},
@@ -15,7 +16,7 @@ use miniscript::{
 use rand::{rng, seq::SliceRandom, RngCore};
 use serde_json::json;
 
-use bdk_file_store::Store;
+use bdk_file_store::{Store, StoreError, StoreErrorWithDump};
 
 use bdk_coin_select::{
     metrics::LowestFee, Candidate, ChangePolicy, CoinSelector, DrainWeights, FeeRate, Target,
@@ -1053,16 +1054,14 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
                 LocalChain::from_genesis_hash(constants::genesis_block(network).block_hash());
             changeset.network = Some(network);
             changeset.local_chain = chain_changeset;
-            let mut db = Store::<ChangeSet>::create(db_magic, db_path)?;
-            db.append(&changeset)?;
+            create_db(db_magic, db_path, &changeset)?;
             println!("New database {DB_PATH}");
             Ok(None)
         }
         _ => {
-            let (db, changeset) =
-                Store::<ChangeSet>::load(db_magic, db_path).context("could not open file store")?;
+            let (db, changeset) = load_db(db_magic, db_path).context("could not open file store")?;
 
-            let changeset = changeset.expect("should not be empty");
+            let changeset = changeset.context("could not find a wallet in the file store")?;
 
             let network = changeset.network.expect("changeset network");
             let sp_code = if let (Some(scan_d), Some(spend_d)) =
@@ -1099,6 +1098,46 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
     }
 }
 
+/// Create the file store holding `changeset`. The store only shows up at `db_path` once it is
+/// complete, if this is interrupted it can be tried again.
+fn create_db(db_magic: &[u8], db_path: &str, changeset: &ChangeSet) -> anyhow::Result<()> {
+    if Path::new(db_path).exists() {
+        bail!("{db_path} already exists");
+    }
+    write_db(db_magic, db_path, changeset)
+}
+
+/// Load the file store at `db_path`. If its last changeset was only partially written, because the
+/// process was killed or the disk was full, recover all changesets before it. The original file is
+/// kept aside.
+fn load_db(
+    db_magic: &[u8],
+    db_path: &str,
+) -> Result<(Store<ChangeSet>, Option<ChangeSet>), anyhow::Error> {
+    match Store::load(db_magic, db_path) {
+        Err(StoreErrorWithDump {
+            changeset: Some(changeset),
+            error: StoreError::Bincode(_),
+        }) => {
+            fs::copy(db_path, format!("{db_path}.corrupt"))?;
+            write_db(db_magic, db_path, &changeset)?;
+            Ok(Store::load(db_magic, db_path)?)
+        }
+        loaded => Ok(loaded?),
+    }
+}
+
+/// Replace the file store at `db_path` by one holding `changeset`.
+fn write_db(db_magic: &[u8], db_path: &str, changeset: &ChangeSet) -> anyhow::Result<()> {
+    let tmp_path = format!("{db_path}.tmp");
+    if Path::new(&tmp_path).exists() {
+        fs::remove_file(&tmp_path)?;
+    }
+    Store::<ChangeSet>::create(db_magic, &tmp_path)?.append(changeset)?;
+    fs::rename(&tmp_path, db_path)?;
+    Ok(())
+}
+
 fn get_sk_from_sp_descriptor(desc_str: String) -> Result<SecretKey, anyhow::Error> {
     let secp = Secp256k1::signing_only();
     let (descriptor, keymap) = Descriptor::parse_descriptor(&secp, &desc_str)?;
-- 
2.43.0


From f0a62bdc426f5986569bc7a5e030b546f4444a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 16/38] fix: track all spends and re-mined transactions when
 scanning with the v1 cli

---
 cli/v1/src/main.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 009c883..7867cf4 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -537,13 +537,12 @@ fn main() -> anyhow::Result<()> {
 
                 let block_id = BlockId { hash, height };
                 for (tx_pos, tx) in txdata.iter().enumerate().skip(1) {
-                    if !tx.output.iter().any(|x| x.script_pubkey.is_p2tr()) {
-                        continue;
+                    let txid = tx.compute_txid();
+                    if tx.output.iter().any(|x| x.script_pubkey.is_p2tr()) {
+                        db_stage.tx_graph.merge(sp_indexer.index_tx(tx)?);
                     }
-                    let tx_graph_stage = sp_indexer.index_tx(tx)?;
-                    if !tx_graph_stage.is_empty() || sp_indexer.spends_owned_spouts(tx) {
-                        let txid = tx.compute_txid();
-                        db_stage.tx_graph.merge(tx_graph_stage);
+                    let has_owned_spouts = sp_indexer.indexes.txouts_in_tx(txid).next().is_some();
+                    if has_owned_spouts || sp_indexer.spends_owned_spouts(tx) {
                         let anchor = TxPosInBlock {
                             block,
                             block_id,
-- 
2.43.0


From a6be2d3337ca16903f7e9480cda168b1716e3140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 17/38] fix: don't panic when a prevout cannot be looked up
 while indexing

---
 cli/v1/src/main.rs                  |  3 ++-
 indexer/src/lib.rs                  | 27 ++++++++++++++++++++-------
 silentpayments/src/receive/error.rs | 11 +++++++++++
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 7867cf4..325c7d0 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -1058,7 +1058,8 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
             Ok(None)
         }
         _ => {
-            let (db, changeset) = load_db(db_magic, db_path).context("could not open file store")?;
+            let (db, changeset) =
+                load_db(db_magic, db_path).context("could not open file store")?;
 
             let changeset = changeset.context("could not find a wallet in the file store")?;
 
diff --git a/indexer/src/lib.rs b/indexer/src/lib.rs
index 2ac601b..5205e92 100644
--- a/indexer/src/lib.rs
+++ b/indexer/src/lib.rs
@@ -153,6 +153,11 @@ pub struct SpIndexer<T, A> {
 
 pub trait PrevoutSource {
     fn get_tx_prevouts(&self, tx: &Transaction) -> Vec<TxOut>;
+
+    /// Like [`get_tx_prevouts`](Self::get_tx_prevouts) for sources whose lookups may fail.
+    fn try_get_tx_prevouts(&self, tx: &Transaction) -> Result<Vec<TxOut>, SpReceiveError> {
+        Ok(self.get_tx_prevouts(tx))
+    }
 }
 
 impl<A: bdk_chain::Anchor, T: PrevoutSource> SpIndexer<T, A> {
@@ -177,7 +182,7 @@ impl<A: bdk_chain::Anchor, T: PrevoutSource> SpIndexer<T, A> {
     }
 
     pub fn index_tx(&mut self, tx: &Transaction) -> Result<tx_graph::ChangeSet<A>, SpReceiveError> {
-        let prevouts = self.prevout_source.get_tx_prevouts(tx);
+        let prevouts = self.prevout_source.try_get_tx_prevouts(tx)?;
         let txid = tx.compute_txid();
         let ecdh_shared_secret = match self.scanner.get_shared_secret(tx, &prevouts) {
             Ok(ecdh_shared_secret) => ecdh_shared_secret,
@@ -222,18 +227,26 @@ pub struct Custom<'a>(pub &'a Client);
 
 impl PrevoutSource for Custom<'_> {
     fn get_tx_prevouts(&self, tx: &Transaction) -> Vec<TxOut> {
+        self.try_get_tx_prevouts(tx)
+            .expect("should look up the prevouts")
+    }
+
+    fn try_get_tx_prevouts(&self, tx: &Transaction) -> Result<Vec<TxOut>, SpReceiveError> {
         let mut prevouts = <Vec<TxOut>>::new();
         let outpoint_refs = tx.input.iter().map(|x| x.previous_output);
-        for OutPoint { txid, vout } in outpoint_refs {
+        for outpoint in outpoint_refs {
             let prev_tx = self
                 .0
-                .get_raw_transaction_info(&txid, None)
-                .expect("reckless")
+                .get_raw_transaction_info(&outpoint.txid, None)
+                .map_err(|e| SpReceiveError::PrevoutError(outpoint, e.into()))?
                 .transaction()
-                .expect("reckless");
-            let prevout = prev_tx.tx_out(vout as usize).expect("reckless").clone();
+                .map_err(|e| SpReceiveError::PrevoutError(outpoint, e.into()))?;
+            let prevout = prev_tx
+                .tx_out(outpoint.vout as usize)
+                .map_err(|e| SpReceiveError::PrevoutError(outpoint, e.into()))?
+                .clone();
             prevouts.push(prevout);
         }
-        prevouts
+        Ok(prevouts)
     }
 }
diff --git a/silentpayments/src/receive/error.rs b/silentpayments/src/receive/error.rs
index 738011b..a65e5e0 100644
--- a/silentpayments/src/receive/error.rs
+++ b/silentpayments/src/receive/error.rs
@@ -8,6 +8,11 @@ pub enum SpReceiveError {
     SliceError(bitcoin::key::FromSliceError),
     /// Cannot derive silent payment output without input prevout outpoints
     NoOutpoints(crate::LexMinError),
+    /// The output spent by an input could not be looked up
+    PrevoutError(
+        bitcoin::OutPoint,
+        Box<dyn std::error::Error + Send + Sync + 'static>,
+    ),
 }
 
 impl From<crate::LexMinError> for SpReceiveError {
@@ -41,6 +46,12 @@ impl std::fmt::Display for SpReceiveError {
             SpReceiveError::Secp256k1Error(e) => write!(f, "Silent payment receive error: {e}"),
             SpReceiveError::SliceError(e) => write!(f, "Silent payment receive error: {e}"),
             Self::NoOutpoints(e) => write!(f, "Silent payment sending error: {e}"),
+            Self::PrevoutError(outpoint, e) => {
+                write!(
+                    f,
+                    "Silent payment receive error: no prevout {outpoint}: {e}"
+                )
+            }
         }
     }
 }
-- 
2.43.0


From 026a6238ab845b5178db432a60a1c797e933fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:05 +0000
Subject: [PATCH 18/38] fix: deserialize labels from formats without a bytes
 type

A Label serialized with serde_json could not be read back, since its tweak
is written as a sequence and only bytes were accepted.
---
 indexer/src/v2/indexes.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/indexer/src/v2/indexes.rs b/indexer/src/v2/indexes.rs
index e6c4c8d..4851a54 100644
--- a/indexer/src/v2/indexes.rs
+++ b/indexer/src/v2/indexes.rs
@@ -157,6 +157,23 @@ mod scalar_serde {
                 arr.copy_from_slice(v);
                 Ok(arr)
             }
+
+            // formats without a bytes type, such as JSON, hold them as a sequence
+            fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+            where
+                A: de::SeqAccess<'de>,
+            {
+                let mut arr = [0u8; 32];
+                for (i, byte) in arr.iter_mut().enumerate() {
+                    *byte = seq
+                        .next_element()?
+                        .ok_or_else(|| de::Error::invalid_length(i, &self))?;
+                }
+                if seq.next_element::<de::IgnoredAny>()?.is_some() {
+                    return Err(de::Error::invalid_length(33, &self));
+                }
+                Ok(arr)
+            }
         }
 
         let bytes = de.deserialize_bytes(Bytes32Visitor)?;
-- 
2.43.0


From f97232a995e46734dee76e7f17035cc4c66f228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:34 +0000
Subject: [PATCH 19/38] fix: merge the birthday of wallet changesets

Merging the changeset of a new wallet into an empty one lost its birthday.
---
 wallet/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wallet/src/lib.rs b/wallet/src/lib.rs
index fbf6420..72429ff 100644
--- a/wallet/src/lib.rs
+++ b/wallet/src/lib.rs
@@ -70,6 +70,11 @@ impl Merge for ChangeSet {
     ///
     /// * `other` - The [`ChangeSet`] to merge from.
     fn merge(&mut self, other: Self) {
+        // only the first changeset of a wallet holds its birthday, later ones have the default
+        if other.birthday != BlockId::default() {
+            self.birthday = other.birthday;
+        }
+
         if other.network.is_some() {
             debug_assert!(
                 self.network.is_none() || self.network == other.network,
-- 
2.43.0


From 736d8785cac666e9bc06dfd7c26c21ed67383075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 20/38] fix: keep the latest filter of a height in the queue

---
 oracles/src/filters/kyoto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oracles/src/filters/kyoto.rs b/oracles/src/filters/kyoto.rs
index f48ff40..f0bb801 100644
--- a/oracles/src/filters/kyoto.rs
+++ b/oracles/src/filters/kyoto.rs
@@ -48,7 +48,9 @@ impl DatabaseBuffer {
     }
 
     pub fn push_filter(&mut self, filter: IndexedFilter) -> Option<WriteRange> {
-        self.queue.insert(filter);
+        // filters are ordered by height only: after a reorganization the new one takes the place of
+        // the one it supersedes
+        self.queue.replace(filter);
         if self.queue.len() > QUEUE_SIZE {
             return Some(self.write_queue());
         }
-- 
2.43.0


From fb985d817ceb2db6d00378db7ec2ec1fc33b4072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:05 +0000
Subject: [PATCH 21/38] fix: don't panic when the filter consumer goes away
 before a sync notice

---
 oracles/src/filters/kyoto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oracles/src/filters/kyoto.rs b/oracles/src/filters/kyoto.rs
index f0bb801..2d85e05 100644
--- a/oracles/src/filters/kyoto.rs
+++ b/oracles/src/filters/kyoto.rs
@@ -99,7 +99,9 @@ impl FilterSubscriber {
                         height: tip.height,
                         hash: tip.hash,
                     };
-                    self.sender.send(FilterEvent::Tip(tip)).unwrap();
+                    if self.sender.send(FilterEvent::Tip(tip)).is_err() {
+                        return Err(UpdateError::ChannelClosed);
+                    }
                 }
                 Event::IndexedFilter(filter) => {
                     if filter.height() < self.birthday {
-- 
2.43.0


From e37dcdce5d7616bdca5e3319840c4224432eeb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:25 +0000
Subject: [PATCH 22/38] fix: stop matching blocks when the consumer is gone,
 don't panic

---
 oracles/src/tweaks/blindbit.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index 9162bba..c813a8a 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -130,6 +130,9 @@ pub enum TweakEvent {
     Synced(BlockId),
 }
 
+/// Nobody receives the [`TweakEvent`]s any more.
+struct ConsumerGone;
+
 pub struct BlindbitSubscriber {
     db: Arc<Mutex<Database>>,
     unspent_script_pubkeys: Vec<[u8; 34]>,
@@ -168,16 +171,20 @@ impl BlindbitSubscriber {
         while let Some(filter_event) = self.requests.recv().await {
             match filter_event {
                 FilterEvent::Changes(changes) => {
-                    self.process_changes(changes).await;
+                    if self.process_changes(changes).await.is_err() {
+                        return;
+                    }
                 }
                 FilterEvent::Tip(tip) => {
-                    self.sender.send(TweakEvent::Synced(tip)).unwrap();
+                    if self.sender.send(TweakEvent::Synced(tip)).is_err() {
+                        return;
+                    }
                 }
             }
         }
     }
 
-    async fn process_changes(&mut self, changes: WriteRange) {
+    async fn process_changes(&mut self, changes: WriteRange) -> Result<(), ConsumerGone> {
         let base = changes
             .writes
             .last_key_value()
@@ -232,8 +239,9 @@ impl BlindbitSubscriber {
                 tracing::info!("Match found for block {hash} at height {height}");
                 self.sender
                     .send(TweakEvent::Matches((hash, all_spks)))
-                    .unwrap();
+                    .map_err(|_| ConsumerGone)?;
             }
         }
+        Ok(())
     }
 }
-- 
2.43.0


From 3cd1c546937a65878f7b994dd0155d00098f4f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:33 +0000
Subject: [PATCH 23/38] fix: match spends in blocks without tweaks

---
 oracles/src/tweaks/blindbit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index c813a8a..10d994d 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -231,11 +231,11 @@ impl BlindbitSubscriber {
                 .collect::<HashMap<[u8; 34], PublicKey>>();
 
             let mut only_spks: Vec<[u8; 34]> = all_spks.clone().into_keys().collect();
-            // unspent script pubkeys can only be present in blocks with tweaks, because they are
-            // by themselves inputs available for shared secret derivation
+            // unspent script pubkeys may be spent in a block without tweaks: the spending
+            // transaction need not have taproot outputs
             only_spks.extend_from_slice(&self.unspent_script_pubkeys);
 
-            if !all_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
+            if !only_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
                 tracing::info!("Match found for block {hash} at height {height}");
                 self.sender
                     .send(TweakEvent::Matches((hash, all_spks)))
-- 
2.43.0


From 1aee4bf8853d129e6b3963bfb4879739002623ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 24/38] fix: insist on the tweaks of a block when the server
 fails

---
 oracles/src/tweaks/blindbit.rs | 45 ++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index 10d994d..d6e25b1 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -1,5 +1,8 @@
 use crate::filters::kyoto::{DatabaseBuffer, FilterEvent, WriteRange, TABLE_DEF};
-use bip157::{tokio::sync::mpsc::UnboundedSender, BlockFilter, BlockHash, UnboundedReceiver};
+use bip157::{
+    tokio::{self, sync::mpsc::UnboundedSender},
+    BlockFilter, BlockHash, UnboundedReceiver,
+};
 use bitcoin::{
     absolute::Height, hashes::serde::Deserialize, secp256k1::PublicKey, Amount, Network,
 };
@@ -17,6 +20,11 @@ use std::{
     time::Duration,
 };
 
+/// How long to wait before asking again for tweaks the server did not provide.
+const FIRST_RETRY: Duration = Duration::from_secs(1);
+/// Upper bound to the time between two attempts to get the tweaks of a block.
+const LAST_RETRY: Duration = Duration::from_secs(60);
+
 #[derive(Debug)]
 pub enum BlindbitError {
     Reqwest(reqwest::Error),
@@ -111,6 +119,22 @@ impl BlindbitClient {
         Ok(serde_json::from_str(&res.text().await?)?)
     }
 
+    /// Like [`BlindbitClient::tweaks`], but insists until the server gives an answer: without the
+    /// tweaks of a block its payments would go unnoticed.
+    async fn tweaks_until_answered(&self, block_height: u32, dust_limit: Amount) -> Vec<PublicKey> {
+        let mut delay = FIRST_RETRY;
+        loop {
+            match self.tweaks(block_height, dust_limit).await {
+                Ok(tweaks) => return tweaks,
+                Err(error) => {
+                    tracing::warn!("No tweaks for block {block_height}, trying again: {error:?}");
+                    tokio::time::sleep(delay).await;
+                    delay = LAST_RETRY.min(delay * 2);
+                }
+            }
+        }
+    }
+
     pub async fn info(&self) -> Result<InfoResponse, BlindbitError> {
         let url = self.host_url.join("info")?;
 
@@ -201,18 +225,25 @@ impl BlindbitSubscriber {
             .map(move |(height, hash)| {
                 let client = client.clone();
                 async move {
-                    if let Ok(tweaks) = client.tweaks(height, Amount::from_sat(1000)).await {
-                        (height, hash, tweaks)
-                    } else {
-                        (height, hash, vec![])
-                    }
+                    let tweaks = client
+                        .tweaks_until_answered(height, Amount::from_sat(1000))
+                        .await;
+                    (height, hash, tweaks)
                 }
             })
             .buffer_unordered(200);
 
         let read = self.db.lock().unwrap().begin_read().unwrap();
         let table = read.open_table(TABLE_DEF).unwrap();
-        while let Some((height, hash, tweaks)) = stream.next().await {
+        loop {
+            let next = tokio::select! {
+                biased;
+                _ = self.sender.closed() => return Err(ConsumerGone),
+                next = stream.next() => next,
+            };
+            let Some((height, hash, tweaks)) = next else {
+                break;
+            };
             tracing::info!("Tweaks {progress}/{base}");
             progress += 1;
 
-- 
2.43.0


From 3bfa6c9efdd9194e20a3889363c01909a0d24a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 25/38] fix: watch for spends of coins received in the same
 session

---
 indexer/src/v2/mod.rs          | 14 ++++++++++--
 oracles/src/tweaks/blindbit.rs | 39 +++++++++++++++++++++++++++++++++-
 2 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 46681a6..5301fed 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -117,6 +117,16 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
     }
 
     pub fn derive_spks_for_tweak(&self, tweak: &PublicKey) -> Vec<[u8; 34]> {
+        self.derive_spks_for_tweak_at(tweak, 0)
+    }
+
+    /// Like [`SpIndexerV2::derive_spks_for_tweak`], for the output number `derivation_order` of a
+    /// payment instead of the first one.
+    pub fn derive_spks_for_tweak_at(
+        &self,
+        tweak: &PublicKey,
+        derivation_order: u32,
+    ) -> Vec<[u8; 34]> {
         let ecdh_shared_secret = compute_shared_secret(self.scan_sk(), tweak);
 
         let mut script_pubkeys = self
@@ -127,7 +137,7 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
                 get_silentpayment_script_pubkey(
                     self.spend_pk(),
                     &ecdh_shared_secret,
-                    0u32,
+                    derivation_order,
                     Some(label_pk),
                 )
             })
@@ -136,7 +146,7 @@ impl<A: bdk_chain::Anchor> SpIndexerV2<A> {
         script_pubkeys.push(get_silentpayment_script_pubkey(
             self.spend_pk(),
             &ecdh_shared_secret,
-            0u32,
+            derivation_order,
             None,
         ));
 
diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index d6e25b1..b757342 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -231,7 +231,8 @@ impl BlindbitSubscriber {
                     (height, hash, tweaks)
                 }
             })
-            .buffer_unordered(200);
+            // in the order of the chain: coins are received before they are spent
+            .buffered(200);
 
         let read = self.db.lock().unwrap().begin_read().unwrap();
         let table = read.open_table(TABLE_DEF).unwrap();
@@ -268,6 +269,12 @@ impl BlindbitSubscriber {
 
             if !only_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
                 tracing::info!("Match found for block {hash} at height {height}");
+                let received = self.received_spks(&filter, &hash, &all_spks);
+                for spk in received {
+                    if !self.unspent_script_pubkeys.contains(&spk) {
+                        self.unspent_script_pubkeys.push(spk);
+                    }
+                }
                 self.sender
                     .send(TweakEvent::Matches((hash, all_spks)))
                     .map_err(|_| ConsumerGone)?;
@@ -275,4 +282,34 @@ impl BlindbitSubscriber {
         }
         Ok(())
     }
+
+    /// The script pubkeys of the coins received in a block, to notice their spends later on.
+    fn received_spks(
+        &self,
+        filter: &BlockFilter,
+        hash: &BlockHash,
+        first_spks: &HashMap<[u8; 34], PublicKey>,
+    ) -> Vec<[u8; 34]> {
+        let is_there = |spk: &[u8; 34]| {
+            filter
+                .match_any(hash, core::iter::once(spk.as_slice()))
+                .unwrap()
+        };
+        let mut received = vec![];
+        for (first_spk, tweak) in first_spks.iter().filter(|(spk, _)| is_there(spk)) {
+            received.push(*first_spk);
+            // further outputs of the same payment
+            for derivation_order in 1.. {
+                let spks = self
+                    .indexer
+                    .derive_spks_for_tweak_at(tweak, derivation_order);
+                let found: Vec<[u8; 34]> = spks.into_iter().filter(is_there).collect();
+                if found.is_empty() {
+                    break;
+                }
+                received.extend(found);
+            }
+        }
+        received
+    }
 }
-- 
2.43.0


From 23dbeaf35402bca997bf303c4ec2f48a95886e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 26/38] fix: recover the wallet file of the v2 cli after an
 interrupted write

---
 cli/v2/src/main.rs | 56 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 2a31fcd..2ccd86a 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -4,7 +4,7 @@ use bdk_bitcoind_rpc::{
     Emitter, NO_EXPECTED_MEMPOOL_TXIDS,
 };
 use bdk_coin_select::DrainWeights;
-use bdk_file_store::Store;
+use bdk_file_store::{Store, StoreError, StoreErrorWithDump};
 use bdk_sp::{
     bitcoin::{
         self,
@@ -50,8 +50,9 @@ use rand::RngCore;
 use serde_json::json;
 use std::{
     collections::{HashMap, HashSet},
-    env,
+    env, fs,
     net::Ipv4Addr,
+    path::Path,
     str::FromStr,
     sync::Mutex,
     time::{Duration, Instant},
@@ -796,15 +797,14 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
             };
 
             let wallet = SpWallet::new(birthday, block_hash, &tr_xprv, network).unwrap();
-            let mut db = Store::<ChangeSet>::create(db_magic, db_path)?;
-            if let Some(stage) = wallet.staged() {
-                db.append(stage).unwrap();
-            }
+            let stage = wallet
+                .staged()
+                .expect("a new wallet has changes to persist");
+            create_db(db_magic, db_path, stage)?;
             Ok(None)
         }
         _ => {
-            let (db, changeset) =
-                Store::<ChangeSet>::load(db_magic, db_path).context("could not open file store")?;
+            let (db, changeset) = load_db(db_magic, db_path).context("could not open file store")?;
 
             if let Some(stage) = changeset {
                 let wallet = SpWallet::try_from(stage).unwrap();
@@ -820,6 +820,46 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
     }
 }
 
+/// Create the file store holding `changeset`. The store only shows up at `db_path` once it is
+/// complete, if this is interrupted it can be tried again.
+fn create_db(db_magic: &[u8], db_path: &str, changeset: &ChangeSet) -> anyhow::Result<()> {
+    if Path::new(db_path).exists() {
+        bail!("{db_path} already exists");
+    }
+    write_db(db_magic, db_path, changeset)
+}
+
+/// Load the file store at `db_path`. If its last changeset was only partially written, because the
+/// process was killed or the disk was full, recover all changesets before it. The original file is
+/// kept aside.
+fn load_db(
+    db_magic: &[u8],
+    db_path: &str,
+) -> Result<(Store<ChangeSet>, Option<ChangeSet>), anyhow::Error> {
+    match Store::load(db_magic, db_path) {
+        Err(StoreErrorWithDump {
+            changeset: Some(changeset),
+            error: StoreError::Bincode(_),
+        }) => {
+            fs::copy(db_path, format!("{db_path}.corrupt"))?;
+            write_db(db_magic, db_path, &changeset)?;
+            Ok(Store::load(db_magic, db_path)?)
+        }
+        loaded => Ok(loaded?),
+    }
+}
+
+/// Replace the file store at `db_path` by one holding `changeset`.
+fn write_db(db_magic: &[u8], db_path: &str, changeset: &ChangeSet) -> anyhow::Result<()> {
+    let tmp_path = format!("{db_path}.tmp");
+    if Path::new(&tmp_path).exists() {
+        fs::remove_file(&tmp_path)?;
+    }
+    Store::<ChangeSet>::create(db_magic, &tmp_path)?.append(changeset)?;
+    fs::rename(&tmp_path, db_path)?;
+    Ok(())
+}
+
 fn get_partial_secret(
     client: &impl RpcApi,
     tx: &Transaction,
-- 
2.43.0


From bde3c5da0f12a906d581d6ffb13d679d5526c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 27/38] fix: start over with a damaged filter database

---
 oracles/src/tweaks/blindbit.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index b757342..03c679d 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -12,10 +12,11 @@ use indexer::{
     v2::SpIndexerV2 as SpIndexer,
 };
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
-use redb::Database;
+use redb::{Database, DatabaseError, StorageError};
 use reqwest::{Client, Url};
 use std::{
     collections::HashMap,
+    fs, io,
     sync::{Arc, Mutex},
     time::Duration,
 };
@@ -30,6 +31,7 @@ pub enum BlindbitError {
     Reqwest(reqwest::Error),
     ParseUrl(url::ParseError),
     Serde(serde_json::Error),
+    Database(DatabaseError),
 }
 
 impl From<serde_json::Error> for BlindbitError {
@@ -44,6 +46,12 @@ impl From<url::ParseError> for BlindbitError {
     }
 }
 
+impl From<DatabaseError> for BlindbitError {
+    fn from(value: DatabaseError) -> Self {
+        Self::Database(value)
+    }
+}
+
 impl From<reqwest::Error> for BlindbitError {
     fn from(value: reqwest::Error) -> Self {
         Self::Reqwest(value)
@@ -154,6 +162,25 @@ pub enum TweakEvent {
     Synced(BlockId),
 }
 
+/// Open the database of filters. There is nothing in it that the light client does not provide
+/// again, so if it was left behind in the middle of a write, because the process was killed or the
+/// disk was full, start over with a new one.
+fn open_filters(path: &str) -> Result<Database, DatabaseError> {
+    let opened = Database::builder()
+        .set_repair_callback(|session| session.abort())
+        .create(path);
+    match opened {
+        Err(DatabaseError::RepairAborted)
+        | Err(DatabaseError::Storage(StorageError::Corrupted(_))) => {}
+        Err(DatabaseError::Storage(StorageError::Io(error)))
+            if error.kind() == io::ErrorKind::InvalidData => {}
+        opened => return opened,
+    }
+    tracing::warn!("The filter database is damaged, starting over");
+    fs::remove_file(path).map_err(StorageError::from)?;
+    Database::create(path)
+}
+
 /// Nobody receives the [`TweakEvent`]s any more.
 struct ConsumerGone;
 
@@ -176,7 +203,7 @@ impl BlindbitSubscriber {
     ) -> Result<(Self, DatabaseBuffer), BlindbitError> {
         // Set up the database
         tracing::info!("Setting up filter database...");
-        let db = Arc::new(Mutex::new(Database::create("filter_data.redb").unwrap()));
+        let db = Arc::new(Mutex::new(open_filters("filter_data.redb")?));
         let db_buffer = DatabaseBuffer::new(Arc::clone(&db));
         Ok((
             Self {
-- 
2.43.0


From 406bd60843a293bee254db0f146a9bc03648e9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 28/38] fix: save a new label before showing its address

---
 cli/v2/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 2ccd86a..a1ef7f0 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -294,6 +294,10 @@ async fn main() -> anyhow::Result<()> {
                 Some(wallet.get_address())
             };
             if let Some(address) = maybe_address {
+                // whoever sees the address may pay to it: its label must not get lost
+                if let Some(changeset) = wallet.take_staged() {
+                    db.lock().unwrap().append(&changeset)?;
+                }
                 obj.insert(
                     "silent_payment_code".to_string(),
                     json!(address.to_string()),
-- 
2.43.0


From d8d77f6ebe7d62f4f1a7da3502e8e61eba94dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 29/38] fix: keep the wallet of the v2 cli true to the chain
 when scanning compact filters

A block that was reorganized out of the chain, or that could not be fetched, was
skipped together with its payments, or left the wallet with a chain mixed from two
branches. Blocks replaced while the wallet was closed were not scanned again. Spends
of coins that a reorganization brought back were missed. When the node stopped the
scan went on forever.
---
 cli/v2/src/main.rs | 301 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 234 insertions(+), 67 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index a1ef7f0..1552ab8 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -12,7 +12,7 @@ use bdk_sp::{
         bip32,
         consensus::Decodable,
         hex::{DisplayHex, FromHex},
-        key::Secp256k1,
+        key::{Secp256k1, TweakedPublicKey},
         script::PushBytesBuf,
         secp256k1::{PublicKey, Scalar},
         Address, Amount, Block, BlockHash, FeeRate, Network, OutPoint, PrivateKey, ScriptBuf,
@@ -29,9 +29,10 @@ use bdk_sp::{
 use bdk_sp_oracles::{
     bip157::{
         self,
-        tokio::{self, select},
-        AddrV2, Builder, Client as KyotoClient, HeaderCheckpoint, IndexedBlock, Info, ServiceFlags,
-        TrustedPeer, UnboundedReceiver, Warning,
+        chain::BlockHeaderChanges,
+        tokio::{self, select, sync::mpsc::UnboundedSender},
+        AddrV2, Builder, Client as KyotoClient, Event, HeaderCheckpoint, IndexedBlock, Info,
+        Requester, ServiceFlags, TrustedPeer, UnboundedReceiver, Warning,
     },
     filters::kyoto::{FilterEvent, FilterSubscriber},
     tweaks::blindbit::{BlindbitSubscriber, TweakEvent},
@@ -45,16 +46,16 @@ use bdk_sp_wallet::{
     ChangeSet, SpWallet,
 };
 use clap::{self, ArgGroup, Args, Parser, Subcommand};
-use indexer::bdk_chain::BlockId;
+use indexer::bdk_chain::{BlockId, CheckPoint};
 use rand::RngCore;
 use serde_json::json;
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashMap, HashSet},
     env, fs,
     net::Ipv4Addr,
     path::Path,
     str::FromStr,
-    sync::Mutex,
+    sync::{Arc, Mutex},
     time::{Duration, Instant},
 };
 
@@ -64,6 +65,8 @@ const DB_MAGIC: &[u8] = b"bdk_example_silentpayments";
 const STDOUT_PRINT_DELAY: Duration = Duration::from_secs(6);
 /// Delay for committing to persistence.
 const DB_COMMIT_DELAY: Duration = Duration::from_secs(60);
+/// Delay for requesting again a block that could not be fetched.
+const BLOCK_RETRY_DELAY: Duration = Duration::from_secs(1);
 
 fn parse_recipients(s: &str) -> Result<(Address<NetworkUnchecked>, u64), String> {
     let parts: Vec<&str> = s.split(':').collect();
@@ -317,22 +320,16 @@ async fn main() -> anyhow::Result<()> {
             ) {
                 loop {
                     select! {
-                        info = info_rx.recv() => {
-                            if let Some(info) = info {
-                                tracing::info!("{info}");
-                            }
-                        }
-                        warn = warn_rx.recv() => {
-                            if let Some(warn) = warn {
-                                tracing::warn!("{warn}");
-                            }
-                        }
+                        Some(info) = info_rx.recv() => tracing::info!("{info}"),
+                        Some(warn) = warn_rx.recv() => tracing::warn!("{warn}"),
+                        else => break,
                     }
                 }
             }
 
             tracing::info!("Wallet main SP address: {}", wallet.get_address());
 
+            let rescan_from = height.and(hash).and(height);
             let sync_point = if let (Some(height), Some(hash)) = (height, hash) {
                 HeaderCheckpoint::new(height, hash)
             } else if wallet.birthday.height <= wallet.chain().tip().height() {
@@ -401,17 +398,41 @@ async fn main() -> anyhow::Result<()> {
                 event_rx,
             } = client;
 
+            // a reorganization may bring back coins that were spent already, watch all of them
+            let owned_spks = wallet
+                .indexer()
+                .index()
+                .by_xonly()
+                .map(|(xonly, _)| {
+                    ScriptBuf::new_p2tr_tweaked(TweakedPublicKey::dangerous_assume_tweaked(xonly))
+                        .to_bytes()
+                        .try_into()
+                        .expect("p2tr script, should succeed")
+                })
+                .collect();
             let (mut blindbit_subscriber, db_buffer) = BlindbitSubscriber::new(
-                wallet.unspent_spks(),
+                owned_spks,
                 wallet.indexer().clone(),
                 tweak_server_url,
                 changes_rx,
                 matches_tx,
             )
-            .unwrap();
+            .map_err(|error| anyhow::anyhow!("could not set up the tweak server: {error:?}"))?;
+
+            let birthday = wallet.birthday.height;
+            let (filters_tx, filters_rx) = tokio::sync::mpsc::unbounded_channel::<Event>();
+            let mut filter_subscriber = FilterSubscriber::new(
+                db_buffer,
+                filters_rx,
+                changes_tx,
+                rescan_from.unwrap_or(birthday).min(birthday),
+            );
 
-            let mut filter_subscriber =
-                FilterSubscriber::new(db_buffer, event_rx, changes_tx, sync_point.height);
+            let best_chain = Arc::new(Mutex::new(BestChain::new(
+                checkpoint,
+                wallet.chain().tip(),
+                rescan_from,
+            )));
 
             tracing::info!("Starting the node...");
             tokio::task::spawn(async move {
@@ -427,60 +448,82 @@ async fn main() -> anyhow::Result<()> {
             tracing::info!("Initializing log loop...");
             tokio::task::spawn(async move { trace(info_rx, warn_rx).await });
 
+            tracing::info!("Starting chain tracker...");
+            tokio::task::spawn(track_chain(event_rx, filters_tx, Arc::clone(&best_chain)));
+
             tracing::info!("Starting filter subscriber...");
             tokio::task::spawn(async move { filter_subscriber.run().await });
 
             tracing::info!("Synchronizing wallet...");
-            loop {
-                if let Some(tweak_event) = matches_rx.recv().await {
-                    match tweak_event {
-                        TweakEvent::Matches((hash, spks_tweak_map)) => {
-                            tracing::info!("Checking matches...");
-                            if let Ok(rrx) = requester.request_block(hash) {
-                                if let Ok(Ok(IndexedBlock { height, ref block })) = rrx.await {
-                                    let checkpoint =
-                                        wallet.chain().tip().insert(BlockId { height, hash });
-                                    wallet.update_chain(checkpoint);
-
-                                    let mut partial_secrets = HashMap::<Txid, PublicKey>::new();
-                                    for tx in block.txdata.iter() {
-                                        let spks = tx
-                                            .output
-                                            .iter()
-                                            .filter(|txout| txout.script_pubkey.is_p2tr())
-                                            .map(|txout| {
-                                                txout
-                                                    .script_pubkey
-                                                    .to_bytes()
-                                                    .try_into()
-                                                    .expect("p2tr script, should succeed")
-                                            })
-                                            .collect::<HashSet<[u8; 34]>>();
-                                        if let Some(tweak) =
-                                            spks.iter().find_map(|spk| spks_tweak_map.get(spk))
-                                        {
-                                            partial_secrets.insert(tx.compute_txid(), *tweak);
-                                        }
-                                    }
-
-                                    tracing::info!("Block {hash} is relevant, indexing.");
-                                    // if all outputs in transactions in the block are not p2tr
-                                    // outputs, partial secrets is going to be empty
-                                    wallet.apply_block_relevant(block, partial_secrets, height);
-                                }
-                            }
-                        }
-                        TweakEvent::Synced(new_tip) => {
-                            tracing::info!("Updating to last checkpoint");
-                            let checkpoint = wallet.chain().tip().insert(new_tip);
+            let mut synced = false;
+            while let Some(tweak_event) = matches_rx.recv().await {
+                match tweak_event {
+                    TweakEvent::Matches((hash, spks_tweak_map)) => {
+                        tracing::info!("Checking matches...");
+                        let Some(IndexedBlock { height, ref block }) =
+                            fetch_block(&requester, &best_chain, hash).await?
+                        else {
+                            tracing::info!("Block {hash} was reorganized out of the chain.");
+                            continue;
+                        };
+                        let update = best_chain
+                            .lock()
+                            .unwrap()
+                            .update(wallet.chain().tip(), BlockId { height, hash });
+                        if let Some(checkpoint) = update {
                             wallet.update_chain(checkpoint);
-                            tracing::info!("Shutting Down");
-                            requester.shutdown().unwrap();
-                            break;
                         }
+
+                        let mut partial_secrets = HashMap::<Txid, PublicKey>::new();
+                        for tx in block.txdata.iter() {
+                            let spks = tx
+                                .output
+                                .iter()
+                                .filter(|txout| txout.script_pubkey.is_p2tr())
+                                .map(|txout| {
+                                    txout
+                                        .script_pubkey
+                                        .to_bytes()
+                                        .try_into()
+                                        .expect("p2tr script, should succeed")
+                                })
+                                .collect::<HashSet<[u8; 34]>>();
+                            if let Some(tweak) = spks.iter().find_map(|spk| spks_tweak_map.get(spk))
+                            {
+                                partial_secrets.insert(tx.compute_txid(), *tweak);
+                            }
+                        }
+
+                        tracing::info!("Block {hash} is relevant, indexing.");
+                        // if all outputs in transactions in the block are not p2tr
+                        // outputs, partial secrets is going to be empty
+                        wallet.apply_block_relevant(block, partial_secrets, height);
+                    }
+                    TweakEvent::Synced(new_tip) => {
+                        let update = best_chain
+                            .lock()
+                            .unwrap()
+                            .update(wallet.chain().tip(), new_tip);
+                        let Some(checkpoint) = update else {
+                            tracing::info!(
+                                "Block {} was reorganized out of the chain.",
+                                new_tip.hash
+                            );
+                            continue;
+                        };
+                        tracing::info!("Updating to last checkpoint");
+                        wallet.update_chain(checkpoint);
+                        synced = true;
+                        tracing::info!("Shutting Down");
+                        // the node may have stopped already
+                        let _ = requester.shutdown();
+                        break;
                     }
                 }
             }
+            if !synced {
+                bail!("the node stopped before the wallet was synchronized");
+            }
         }
         Commands::ScanRpc { rpc_args } => {
             let rpc_client = rpc_args.new_client()?;
@@ -808,7 +851,8 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
             Ok(None)
         }
         _ => {
-            let (db, changeset) = load_db(db_magic, db_path).context("could not open file store")?;
+            let (db, changeset) =
+                load_db(db_magic, db_path).context("could not open file store")?;
 
             if let Some(stage) = changeset {
                 let wallet = SpWallet::try_from(stage).unwrap();
@@ -864,6 +908,129 @@ fn write_db(db_magic: &[u8], db_path: &str, changeset: &ChangeSet) -> anyhow::Re
     Ok(())
 }
 
+/// The best chain as announced by the light client, and what the wallet knows of it.
+struct BestChain {
+    /// The blocks of the best chain, from the first header of the light client on.
+    blocks: BTreeMap<u32, BlockHash>,
+    /// The tip of the wallet at the start: everything up to it has been scanned.
+    wallet_tip: CheckPoint,
+    /// Where to start from instead of the last block the wallet has in common with the best chain.
+    rescan_from: Option<u32>,
+}
+
+impl BestChain {
+    fn new(start: HeaderCheckpoint, wallet_tip: CheckPoint, rescan_from: Option<u32>) -> Self {
+        Self {
+            blocks: [(start.height, start.hash)].into(),
+            wallet_tip,
+            rescan_from,
+        }
+    }
+
+    fn contains(&self, block: BlockId) -> bool {
+        self.blocks.get(&block.height) == Some(&block.hash)
+    }
+
+    fn apply(&mut self, changes: &BlockHeaderChanges) {
+        match changes {
+            BlockHeaderChanges::Connected(connected) => {
+                self.blocks
+                    .insert(connected.height, connected.header.block_hash());
+            }
+            BlockHeaderChanges::Reorganized {
+                accepted,
+                reorganized,
+            } => {
+                for header in reorganized {
+                    self.blocks.remove(&header.height);
+                }
+                for header in accepted {
+                    self.blocks
+                        .insert(header.height, header.header.block_hash());
+                    self.rescan_from = self.rescan_from.map(|from| from.min(header.height));
+                }
+            }
+            BlockHeaderChanges::ForkAdded(_) => {}
+        }
+    }
+
+    /// Filters below this height are not needed.
+    fn first_needed(&self) -> u32 {
+        self.rescan_from.unwrap_or_else(|| {
+            self.wallet_tip
+                .iter()
+                .find(|scanned| self.contains(scanned.block_id()))
+                .map_or(0, |scanned| scanned.height() + 1)
+        })
+    }
+
+    /// The wallet's chain, which has `tip`, extended by `block`. Blocks of the wallet that are no
+    /// longer part of the best chain are replaced. None if `block` is not part of it either.
+    fn update(&self, tip: CheckPoint, block: BlockId) -> Option<CheckPoint> {
+        if !self.contains(block) {
+            return None;
+        }
+        let last = *self.blocks.last_key_value()?.0;
+        let mut update: BTreeMap<u32, BlockHash> = tip
+            .iter()
+            .filter(|checkpoint| checkpoint.height() <= last)
+            .map(|checkpoint| {
+                let height = checkpoint.height();
+                let hash = self.blocks.get(&height).copied();
+                (height, hash.unwrap_or(checkpoint.hash()))
+            })
+            .collect();
+        update.insert(block.height, block.hash);
+        CheckPoint::from_block_ids(update.into_iter().map(BlockId::from)).ok()
+    }
+}
+
+/// Keep `best_chain` up to date and pass on the events of the light client, apart from the filters
+/// of blocks the wallet has scanned already.
+async fn track_chain(
+    mut event_rx: UnboundedReceiver<Event>,
+    filters_tx: UnboundedSender<Event>,
+    best_chain: Arc<Mutex<BestChain>>,
+) {
+    while let Some(event) = event_rx.recv().await {
+        match &event {
+            Event::ChainUpdate(changes) => best_chain.lock().unwrap().apply(changes),
+            Event::IndexedFilter(filter)
+                if filter.height() < best_chain.lock().unwrap().first_needed() =>
+            {
+                continue;
+            }
+            _ => {}
+        }
+        if filters_tx.send(event).is_err() {
+            return;
+        }
+    }
+}
+
+/// Get a block from the light client, unless it is no longer part of the best chain.
+async fn fetch_block(
+    requester: &Requester,
+    best_chain: &Mutex<BestChain>,
+    hash: BlockHash,
+) -> anyhow::Result<Option<IndexedBlock>> {
+    let is_best = |height: Option<u32>| {
+        let blocks = &best_chain.lock().unwrap().blocks;
+        match height {
+            Some(height) => blocks.get(&height) == Some(&hash),
+            None => blocks.values().rev().any(|best| *best == hash),
+        }
+    };
+    loop {
+        // requests are dropped when the block is reorganized out of the chain
+        match requester.request_block(hash)?.await {
+            Ok(Ok(block)) => return Ok(is_best(Some(block.height)).then_some(block)),
+            _ if !is_best(None) => return Ok(None),
+            _ => tokio::time::sleep(BLOCK_RETRY_DELAY).await,
+        }
+    }
+}
+
 fn get_partial_secret(
     client: &impl RpcApi,
     tx: &Transaction,
-- 
2.43.0


From 8f83dcc742e16f80800c04f2dab53606a782aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 30/38] fix: report failing prevout lookups of the v2 cli
 instead of dropping payments

---
 cli/v2/src/main.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 1552ab8..d73707a 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -252,12 +252,13 @@ async fn main() -> anyhow::Result<()> {
                     Transaction::consensus_decode_from_finite_reader(&mut tx_bytes.as_slice())?;
                 tx
             } else if let Some(txid) = maybe_txid {
-                rpc_client.get_raw_transaction(&txid, None).unwrap()
+                rpc_client.get_raw_transaction(&txid, None)?
             } else {
                 bail!("Should provide a txid to request tx or the serialized tx")
             };
 
-            let partial_secret = get_partial_secret(&rpc_client, &tx).expect("will fix later");
+            let partial_secret = get_partial_secret(&rpc_client, &tx)?
+                .context("the transaction cannot be a silent payment")?;
             let ecdh_shared_secret =
                 compute_shared_secret(wallet.indexer().scan_sk(), &partial_secret);
             let maybe_label =
@@ -554,14 +555,12 @@ async fn main() -> anyhow::Result<()> {
                 let block = &emission.block;
                 let Block { ref txdata, .. } = block;
 
-                let partial_secrets: HashMap<Txid, PublicKey> = txdata
-                    .iter()
-                    .skip(1)
-                    .filter_map(|tx| {
-                        get_partial_secret(&rpc_client, tx)
-                            .map(|partial_secret| (tx.compute_txid(), partial_secret))
-                    })
-                    .collect();
+                let mut partial_secrets = HashMap::<Txid, PublicKey>::new();
+                for tx in txdata.iter().skip(1) {
+                    if let Some(partial_secret) = get_partial_secret(&rpc_client, tx)? {
+                        partial_secrets.insert(tx.compute_txid(), partial_secret);
+                    }
+                }
 
                 wallet.apply_block_relevant(block, partial_secrets, height);
 
@@ -1031,19 +1030,20 @@ async fn fetch_block(
     }
 }
 
+/// The partial secret of a transaction, if it can be a silent payment. Fails when one of its
+/// prevouts cannot be looked up.
 fn get_partial_secret(
     client: &impl RpcApi,
     tx: &Transaction,
-) -> Option<bitcoin::secp256k1::PublicKey> {
+) -> anyhow::Result<Option<bitcoin::secp256k1::PublicKey>> {
     let mut prevouts = <Vec<TxOut>>::new();
     let outpoint_refs = tx.input.iter().map(|x| x.previous_output);
     for OutPoint { txid, vout } in outpoint_refs {
         let prev_tx = client
-            .get_raw_transaction_info(&txid, None)
-            .ok()
-            .and_then(|tx| tx.transaction().ok())?;
-        let prevout = prev_tx.tx_out(vout as usize).ok()?.clone();
+            .get_raw_transaction_info(&txid, None)?
+            .transaction()?;
+        let prevout = prev_tx.tx_out(vout as usize)?.clone();
         prevouts.push(prevout);
     }
-    compute_tweak_data(tx, &prevouts).ok()
+    Ok(compute_tweak_data(tx, &prevouts).ok())
 }
-- 
2.43.0


From 254439f631ef51f68be763e27ece3c43918c2818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 31/38] fix: follow reorganizations when scanning by rpc with
 the v2 cli

---
 cli/v2/src/main.rs | 24 ++++++++++++++++++------
 wallet/src/lib.rs  | 18 +++++++++++++++++-
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index d73707a..9de5617 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -528,13 +528,13 @@ async fn main() -> anyhow::Result<()> {
         }
         Commands::ScanRpc { rpc_args } => {
             let rpc_client = rpc_args.new_client()?;
-            let start_height = if wallet.birthday.height <= wallet.chain().tip().height() {
-                wallet.chain().tip().height()
-            } else {
-                wallet.birthday.height
-            };
+            // from the last block in common with the best chain, but not before the birthday
+            let start_height = wallet.birthday.height;
 
-            tracing::info!("Synchronizing from block height {}", start_height);
+            tracing::info!(
+                "Synchronizing from block height {}",
+                start_height.max(wallet.chain().tip().height())
+            );
 
             let mut emitter = Emitter::new(
                 &rpc_client,
@@ -550,6 +550,18 @@ async fn main() -> anyhow::Result<()> {
 
             while let Some(emission) = emitter.next_block()? {
                 let height = emission.block_height();
+                // blocks the best chain does not have any more
+                let stale = wallet
+                    .chain()
+                    .iter_checkpoints()
+                    .take_while(|checkpoint| {
+                        let best = emission.checkpoint.get(checkpoint.height());
+                        best.is_none_or(|best| best.hash() != checkpoint.hash())
+                    })
+                    .last();
+                if let Some(stale) = stale {
+                    wallet.disconnect_from(stale.block_id())?;
+                }
                 wallet.update_chain(emission.checkpoint);
 
                 let block = &emission.block;
diff --git a/wallet/src/lib.rs b/wallet/src/lib.rs
index 72429ff..0b6b4dc 100644
--- a/wallet/src/lib.rs
+++ b/wallet/src/lib.rs
@@ -24,7 +24,7 @@ use indexer::{
     bdk_chain::{
         bdk_core::Merge,
         bitcoin::{bip32::DerivationPath, key::Secp256k1, BlockHash, Network},
-        local_chain::{self, LocalChain},
+        local_chain::{self, LocalChain, MissingGenesisError},
         miniscript::{
             descriptor::{DescriptorSecretKey, DescriptorType},
             Descriptor,
@@ -559,6 +559,22 @@ impl SpWallet {
             .merge(self.chain.apply_update(checkpoint).expect("will fix later"));
     }
 
+    /// Removes `block_id` and all blocks above it from the local chain. The changes are staged.
+    ///
+    /// # Arguments
+    ///
+    /// * `block_id` - The lowest block that is no longer part of the best chain.
+    ///
+    /// # Errors
+    ///
+    /// * [`MissingGenesisError`] if `block_id` is the genesis block.
+    pub fn disconnect_from(&mut self, block_id: BlockId) -> Result<(), MissingGenesisError> {
+        self.stage
+            .chain
+            .merge(self.chain.disconnect_from(block_id)?);
+        Ok(())
+    }
+
     /// Returns a reference to the wallet's local blockchain.
     ///
     /// # Returns
-- 
2.43.0


From 7a1526a39c557c08947ea1e86652c120b67a400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 32/38] fix: derive no change output of the v2 cli that isn't
 in the transaction

---
 cli/v2/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 9de5617..4fb87d6 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -687,7 +687,7 @@ async fn main() -> anyhow::Result<()> {
                 }
             }
 
-            let mut sp_recipients: Vec<SilentPaymentCode> = vec![wallet.get_change_address()];
+            let mut sp_recipients = <Vec<SilentPaymentCode>>::new();
             if let Some(sp_codes) = maybe_sp_codes {
                 for (sp_code, value) in sp_codes {
                     if sp_code.network != wallet.network() {
@@ -712,6 +712,8 @@ async fn main() -> anyhow::Result<()> {
                 outputs.push(Output::with_script(script, Amount::from_sat(0)));
             }
 
+            let recipient_count = outputs.len();
+
             let (tip_height, tip_time) = wallet.tip_info();
             let longterm_feerate = FeeRate::from_sat_per_vb_unchecked(1);
             let change_placeholder_spk = wallet.get_change_address().get_placeholder_p2tr_spk();
@@ -749,6 +751,11 @@ async fn main() -> anyhow::Result<()> {
                 ..Default::default()
             })?;
 
+            // a change output is only there if there is something left to pay to it
+            if psbt.outputs.len() > recipient_count {
+                sp_recipients.push(wallet.get_change_address());
+            }
+
             let finalizer = selection.clone().into_finalizer();
             let descriptor = descriptor.expect("already checked is some");
             let spend_sk = get_spend_sk(&descriptor, wallet.network());
-- 
2.43.0


From 5712103116ffb46b820668a438642e1ed1382faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 33/38] fix: sign every input with its own sighash in the v1
 cli

---
 cli/v1/src/main.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 325c7d0..442105a 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -919,12 +919,7 @@ fn main() -> anyhow::Result<()> {
                 .collect::<Vec<TxOut>>();
             let prevouts = Prevouts::All(&prevouts);
 
-            let sighash = SighashCache::new(&mut psbt.unsigned_tx)
-                .taproot_key_spend_signature_hash(0, &prevouts, sighash_type)
-                .expect("failed to construct sighash");
-
-            // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
-            let msg = Message::from(sighash);
+            let mut sighash_cache = SighashCache::new(&psbt.unsigned_tx);
 
             for i in 0..psbt.inputs.len() {
                 let psbt_input = &mut psbt.inputs[i];
@@ -934,6 +929,12 @@ fn main() -> anyhow::Result<()> {
                         let keypair = Keypair::from_secret_key(&secp, &sk);
                         let (x_only_internal, _parity) = XOnlyPublicKey::from_keypair(&keypair);
 
+                        let sighash = sighash_cache
+                            .taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
+                            .expect("failed to construct sighash");
+
+                        // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
+                        let msg = Message::from(sighash);
                         let signature = secp.sign_schnorr(&msg, &keypair);
 
                         let signature = Signature {
-- 
2.43.0


From 868c8cb7fa6b7699bb83adf8314c53ab17e90e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 34/38] fix: don't panic signing a transaction of unknown coins
 in the v1 cli

---
 cli/v1/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 442105a..2cd1cf7 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -915,8 +915,9 @@ fn main() -> anyhow::Result<()> {
             let prevouts = psbt
                 .inputs
                 .iter()
-                .map(|x| x.witness_utxo.clone().unwrap())
-                .collect::<Vec<TxOut>>();
+                .map(|x| x.witness_utxo.clone())
+                .collect::<Option<Vec<TxOut>>>()
+                .context("cannot sign without knowing the outputs spent")?;
             let prevouts = Prevouts::All(&prevouts);
 
             let mut sighash_cache = SighashCache::new(&psbt.unsigned_tx);
-- 
2.43.0


From 7f10dd46758d09e519ecfc143f0f38bcdcc956f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 35/38] fix: refuse to derive payments from output keys
 committing to scripts

---
 silentpayments/src/send/bip32.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/send/bip32.rs b/silentpayments/src/send/bip32.rs
index c6504d9..d2c17ea 100644
--- a/silentpayments/src/send/bip32.rs
+++ b/silentpayments/src/send/bip32.rs
@@ -7,7 +7,7 @@ use crate::{
 };
 use bitcoin::{
     bip32::{DerivationPath, Xpriv},
-    key::{Parity, Secp256k1},
+    key::{Parity, Secp256k1, TweakedPublicKey},
     secp256k1::SecretKey,
     OutPoint, ScriptBuf, TapTweakHash, XOnlyPublicKey,
 };
@@ -56,6 +56,14 @@ impl XprivSilentPaymentSender {
             let external_privkey = internal_privkey.add_tweak(&tap_tweak.to_scalar())
                 .expect("computationally unreachable: can only fail if tap_tweak = -internal_privkey, but tap_tweak is the output of a hash function");
 
+            // Outputs committing to scripts need a different key, a payment derived from this one
+            // would be lost
+            let (x_only_external, _) = external_privkey.x_only_public_key(&secp);
+            let tweaked_pk = TweakedPublicKey::dangerous_assume_tweaked(x_only_external);
+            if *spk != ScriptBuf::new_p2tr_tweaked(tweaked_pk) {
+                return Err(SpSendError::KeyError);
+            }
+
             spks_with_keys.push((spk.clone(), external_privkey));
         }
 
-- 
2.43.0


From beae173f82bebe079586e32c9dbbd0601574987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 36/38] fix: replace only the chosen output, from known inputs
 only, in the v1 cli

---
 cli/v1/src/main.rs | 49 +++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 2cd1cf7..4c9f2c5 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -373,13 +373,13 @@ fn main() -> anyhow::Result<()> {
         } => {
             let mut psbt = Psbt::from_str(psbt.as_str())?;
 
-            let single_external_txout = psbt
+            let output_index = psbt
                 .unsigned_tx
                 .output
                 .iter()
-                .find(|x| x.value == Amount::from_sat(amount))
-                .expect("send to multiple addresses not implemented yet")
-                .clone();
+                .position(|x| x.value == Amount::from_sat(amount))
+                .context("no output with the given amount")?;
+            let single_external_txout = psbt.unsigned_tx.output[output_index].clone();
 
             if !single_external_txout.script_pubkey.is_p2tr() {
                 bail!("can only replace p2tr outputs");
@@ -412,21 +412,20 @@ fn main() -> anyhow::Result<()> {
             let mut outputs_and_derivation_paths =
                 <Vec<(OutPoint, (ScriptBuf, DerivationPath))>>::new();
             for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.clone()) {
+                let known_inputs = outputs_and_derivation_paths.len();
                 for (fingerprint, path) in psbt_input
                     .bip32_derivation
                     .values()
                     .chain(psbt_input.tap_key_origins.values().map(|x| &x.1))
                 {
-                    let spk = {
-                        psbt_input.witness_utxo.clone().map_or(
-                            psbt_input.non_witness_utxo.clone().map(|tx| {
-                                tx.tx_out(txin.previous_output.vout as usize)
-                                    .expect("should be in range")
-                                    .script_pubkey
-                                    .clone()
-                            }),
-                            |txout| Some(txout.script_pubkey),
-                        )
+                    let spk = match (&psbt_input.witness_utxo, &psbt_input.non_witness_utxo) {
+                        (Some(txout), _) => Some(txout.script_pubkey.clone()),
+                        (None, Some(tx)) => Some(
+                            tx.tx_out(txin.previous_output.vout as usize)?
+                                .script_pubkey
+                                .clone(),
+                        ),
+                        (None, None) => None,
                     };
                     if let Some(spk) = spk {
                         if *fingerprint == master_privkey.fingerprint(&secp) {
@@ -438,6 +437,13 @@ fn main() -> anyhow::Result<()> {
                         bail!("Cannot create silentpayemnt output without knowing the script pubkey of the input");
                     }
                 }
+                // the recipient is going to use all the inputs to find the output
+                if outputs_and_derivation_paths.len() == known_inputs {
+                    bail!(
+                        "Cannot create silentpayment output without the key of input {}",
+                        txin.previous_output
+                    );
+                }
             }
 
             let mut sp_script_pubkeys =
@@ -464,19 +470,8 @@ fn main() -> anyhow::Result<()> {
                 })
                 .collect::<Vec<TxOut>>();
 
-            psbt.unsigned_tx.output = psbt
-                .unsigned_tx
-                .output
-                .into_iter()
-                .map(|x| {
-                    if x.script_pubkey == single_external_txout.script_pubkey {
-                        // TODO: Generalize for all outputs to replace
-                        txouts[0].clone()
-                    } else {
-                        x
-                    }
-                })
-                .collect();
+            // TODO: Generalize for all outputs to replace
+            psbt.unsigned_tx.output[output_index] = txouts[0].clone();
 
             if debug {
                 dbg!(psbt);
-- 
2.43.0


From d9cbd7a7805e8f92b48d767cf9ecf8c7e4047e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 37/38] fix: sum the input keys even if some of them cancel
 each other out

The result must not depend on the order of the inputs: a partial sum of zero made
the payment fail, although the sum of all the keys was not zero.
---
 silentpayments/src/send/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/silentpayments/src/send/mod.rs b/silentpayments/src/send/mod.rs
index fc4e345..ac5d22c 100644
--- a/silentpayments/src/send/mod.rs
+++ b/silentpayments/src/send/mod.rs
@@ -6,7 +6,7 @@ use crate::{
 };
 use bitcoin::{
     key::{Parity, Secp256k1},
-    secp256k1::{PublicKey, Scalar, SecretKey},
+    secp256k1::{self, PublicKey, Scalar, SecretKey},
     ScriptBuf, XOnlyPublicKey,
 };
 use std::collections::HashMap;
@@ -45,12 +45,16 @@ pub fn create_silentpayment_partial_secret(
         return Err(SpSendError::MissingInputsForSharedSecretDerivation);
     }
 
-    // Use first derived_secret key to initialize a_sum
-    let mut a_sum = available_keys[0];
-    // Then skip first element to avoid reuse
-    for sk in available_keys.iter().skip(1) {
-        a_sum = a_sum.add_tweak(&Scalar::from(*sk))?;
+    // The keys summed so far may cancel each other out, only the sum of all of them must not
+    let mut maybe_a_sum = None;
+    for sk in available_keys {
+        maybe_a_sum = match maybe_a_sum {
+            None => Some(sk),
+            Some(sum) if sum == sk.negate() => None,
+            Some(sum) => Some(sum.add_tweak(&Scalar::from(sk))?),
+        };
     }
+    let a_sum = maybe_a_sum.ok_or(secp256k1::Error::InvalidTweak)?;
 
     #[allow(non_snake_case)]
     let A_sum = a_sum.public_key(&secp);
-- 
2.43.0


From 6456fd2ce9da0107c625298217afdb1a16200114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 38/38] fix: find the tweak of a payment next to outputs that
 reuse another one's script

The light client looks up the tweak of a transaction by the scripts it
pays to and took the first match, in random order. When the transaction
also pays to a script that belongs to another payment in the same block,
it could end up with the other one's tweak, and its own payment was
never seen.
---
 cli/v2/src/main.rs | 71 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 4fb87d6..df3fc58 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -50,7 +50,7 @@ use indexer::bdk_chain::{BlockId, CheckPoint};
 use rand::RngCore;
 use serde_json::json;
 use std::{
-    collections::{BTreeMap, HashMap, HashSet},
+    collections::{BTreeMap, BTreeSet, HashMap},
     env, fs,
     net::Ipv4Addr,
     path::Path,
@@ -475,25 +475,7 @@ async fn main() -> anyhow::Result<()> {
                             wallet.update_chain(checkpoint);
                         }
 
-                        let mut partial_secrets = HashMap::<Txid, PublicKey>::new();
-                        for tx in block.txdata.iter() {
-                            let spks = tx
-                                .output
-                                .iter()
-                                .filter(|txout| txout.script_pubkey.is_p2tr())
-                                .map(|txout| {
-                                    txout
-                                        .script_pubkey
-                                        .to_bytes()
-                                        .try_into()
-                                        .expect("p2tr script, should succeed")
-                                })
-                                .collect::<HashSet<[u8; 34]>>();
-                            if let Some(tweak) = spks.iter().find_map(|spk| spks_tweak_map.get(spk))
-                            {
-                                partial_secrets.insert(tx.compute_txid(), *tweak);
-                            }
-                        }
+                        let partial_secrets = assign_tweaks(block, &spks_tweak_map);
 
                         tracing::info!("Block {hash} is relevant, indexing.");
                         // if all outputs in transactions in the block are not p2tr
@@ -1026,6 +1008,55 @@ async fn track_chain(
     }
 }
 
+/// Finds the tweak of each transaction of a block by the script pubkeys it pays to.
+///
+/// A script pubkey that belongs to one transaction can be paid by others too. A tweak that is the
+/// only possibility for some transaction is therefore not considered for those with another one.
+fn assign_tweaks(
+    block: &Block,
+    spks_tweak_map: &HashMap<[u8; 34], PublicKey>,
+) -> HashMap<Txid, PublicKey> {
+    let mut candidates: Vec<(Txid, BTreeSet<PublicKey>)> = block
+        .txdata
+        .iter()
+        .map(|tx| {
+            let tweaks = tx
+                .output
+                .iter()
+                .filter_map(|txout| {
+                    let spk: [u8; 34] = txout.script_pubkey.as_bytes().try_into().ok()?;
+                    spks_tweak_map.get(&spk).copied()
+                })
+                .collect();
+            (tx.compute_txid(), tweaks)
+        })
+        .collect();
+
+    loop {
+        let settled: BTreeSet<PublicKey> = candidates
+            .iter()
+            .filter(|(_, tweaks)| tweaks.len() == 1)
+            .filter_map(|(_, tweaks)| tweaks.first().copied())
+            .collect();
+        let mut changed = false;
+        for (_, tweaks) in candidates.iter_mut().filter(|(_, t)| t.len() > 1) {
+            let rest: BTreeSet<PublicKey> = tweaks.difference(&settled).copied().collect();
+            if !rest.is_empty() && rest.len() < tweaks.len() {
+                *tweaks = rest;
+                changed = true;
+            }
+        }
+        if !changed {
+            break;
+        }
+    }
+
+    candidates
+        .into_iter()
+        .filter_map(|(txid, tweaks)| Some((txid, *tweaks.first()?)))
+        .collect()
+}
+
 /// Get a block from the light client, unless it is no longer part of the best chain.
 async fn fetch_block(
     requester: &Requester,
-- 
2.43.0

