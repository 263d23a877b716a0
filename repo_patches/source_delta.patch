From ce2d6240ae8c056a2d762fd42a84c9b3d1d64d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 01/18] fix: validate() judges not-before against the supplied
 time

It used the machine clock even when the caller supplied the time to
validate at, so that tokens were refused or accepted at the wrong time.
---
 ucan/src/ucan.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index beaf8d2..5fb9f85 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -75,7 +75,7 @@ impl Ucan {
             return Err(anyhow!("Expired"));
         }
 
-        if self.is_too_early() {
+        if self.is_too_early_at(now_time) {
             return Err(anyhow!("Not active yet (too early)"));
         }
 
@@ -119,8 +119,12 @@ impl Ucan {
 
     /// Returns true if the not-before ("nbf") time is still in the future
     pub fn is_too_early(&self) -> bool {
+        self.is_too_early_at(None)
+    }
+
+    fn is_too_early_at(&self, now_time: Option<u64>) -> bool {
         match self.payload.nbf {
-            Some(nbf) => nbf > now(),
+            Some(nbf) => nbf > now_time.unwrap_or_else(now),
             None => false,
         }
     }
-- 
2.43.0


From c4d24607436493a5535a1ee347e4756a4d3dc749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 02/18] fix: a capability the semantics does not understand no
 longer hides the following ones

---
 ucan/src/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 285efbb..7a40482 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -219,7 +219,7 @@ impl ProofChain {
             .ucan
             .capabilities()
             .iter()
-            .map_while(|data| semantics.parse_capability(&data));
+            .filter_map(|data| semantics.parse_capability(&data));
 
         // Get the claimed attenuations of this ucan, cross-checking ancestral
         // attenuations to discover the originating authority
-- 
2.43.0


From 427a3d9353067818c4799d401e8c496f07eff8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 03/18] fix: parse the whole resource behind my: and as:<did>:

Resources rendered as my:<resource>, as:<did>:<resource> and as:<did>:*
could not be parsed again: the colons, query and fragment of the inner
resource were lost, and my: was never removed from it.
---
 ucan/src/capability/semantics.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/ucan/src/capability/semantics.rs b/ucan/src/capability/semantics.rs
index 65966fb..55dadac 100644
--- a/ucan/src/capability/semantics.rs
+++ b/ucan/src/capability/semantics.rs
@@ -1,7 +1,7 @@
 use super::{Capability, Caveat};
 use serde_json::{json, Value};
 use std::fmt::Debug;
-use url::Url;
+use url::{Position, Url};
 
 pub trait Scope: ToString + TryFrom<Url> + PartialEq + Clone {
     fn contains(&self, other: &Self) -> bool;
@@ -127,11 +127,14 @@ where
         };
 
         let value = match path_parts.next() {
-            Some(value) => value,
+            Some(value) if !value.is_empty() => value,
             _ => return None,
         };
 
-        Some((format!("did:key:{value}"), path_parts.collect()))
+        Some((
+            format!("did:key:{value}"),
+            path_parts.collect::<Vec<&str>>().join(":"),
+        ))
     }
 
     fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<S>> {
@@ -141,6 +144,14 @@ where
         })
     }
 
+    /// Parse the resource that is qualified by the `my:` or `as:<did>:` prefix
+    fn parse_owned_resource(&self, resource: &str) -> Option<ResourceUri<S>> {
+        match resource {
+            "*" => Some(ResourceUri::Unscoped),
+            _ => self.parse_resource(&Url::parse(resource).ok()?),
+        }
+    }
+
     fn parse_caveat(&self, caveat: Option<&Value>) -> Value {
         if let Some(caveat) = caveat {
             caveat.to_owned()
@@ -161,13 +172,13 @@ where
 
         let cap_resource = match uri.scheme() {
             "my" => Resource::My {
-                kind: self.parse_resource(&uri)?,
+                kind: self.parse_owned_resource(&uri[Position::BeforePath..])?,
             },
             "as" => {
-                let (did, resource) = self.extract_did(uri.path())?;
+                let (did, resource) = self.extract_did(&uri[Position::BeforePath..])?;
                 Resource::As {
                     did,
-                    kind: self.parse_resource(&Url::parse(resource.as_str()).ok()?)?,
+                    kind: self.parse_owned_resource(&resource)?,
                 }
             }
             _ => Resource::Resource {
-- 
2.43.0


From 94ed13e3d34cc8d3da4e76e74e2e13a2ff04fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:30 +0000
Subject: [PATCH 04/18] fix: prf:* redelegates all proofs

It was parsed as the unscoped resource, which selects no proof.
---
 ucan/src/capability/proof.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ucan/src/capability/proof.rs b/ucan/src/capability/proof.rs
index 986bb57..ac9e0e1 100644
--- a/ucan/src/capability/proof.rs
+++ b/ucan/src/capability/proof.rs
@@ -1,4 +1,4 @@
-use super::{Ability, CapabilitySemantics, Scope};
+use super::{Ability, CapabilitySemantics, ResourceUri, Scope};
 use anyhow::{anyhow, Result};
 use url::Url;
 
@@ -76,4 +76,10 @@ impl ToString for ProofSelection {
 
 pub struct ProofDelegationSemantics {}
 
-impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {}
+impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {
+    /// A proof selection is always a scope: `prf:*` selects all the proofs of
+    /// the token, and the wildcard of any other scheme selects none
+    fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<ProofSelection>> {
+        self.parse_scope(resource).map(ResourceUri::Scoped)
+    }
+}
-- 
2.43.0


From 4220d066ec720607deb2daa04d39e206c5a569bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 05/18] fix: originators of a narrower capability are not
 credited with the broader one

Merging the capabilities of a token attributed its broadest claim to
everyone from whom a narrower one originates.
---
 ucan/src/chain.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 7a40482..c883be9 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -267,17 +267,32 @@ impl ProofChain {
         let mut merged_capability_infos = Vec::<CapabilityInfo<S, A>>::new();
 
         // Merge redundant capabilities (accounting for redelegation), ensuring
-        // that discrete originators are aggregated as we go
+        // that discrete originators are aggregated as we go. Note that the
+        // originators of a narrower capability did not necessarily delegate
+        // the broader one
         'merge: while let Some(capability_info) = self_capability_infos.pop() {
             for remaining_capability_info in &mut self_capability_infos {
                 if remaining_capability_info
                     .capability
                     .enables(&capability_info.capability)
                 {
-                    remaining_capability_info
+                    let equivalent = capability_info
+                        .capability
+                        .enables(&remaining_capability_info.capability);
+
+                    if equivalent {
+                        remaining_capability_info
+                            .originators
+                            .extend(capability_info.originators);
+                        continue 'merge;
+                    }
+
+                    if remaining_capability_info
                         .originators
-                        .extend(capability_info.originators);
-                    continue 'merge;
+                        .is_superset(&capability_info.originators)
+                    {
+                        continue 'merge;
+                    }
                 }
             }
 
-- 
2.43.0


From 63b74fa9988467c80db85fb43420219989614610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 06/18] fix: a DID without magic bytes is refused instead of
 panicking

---
 ucan/src/crypto/did.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ucan/src/crypto/did.rs b/ucan/src/crypto/did.rs
index 3322f2c..9d1b47f 100644
--- a/ucan/src/crypto/did.rs
+++ b/ucan/src/crypto/did.rs
@@ -50,7 +50,9 @@ impl DidParser {
         }
 
         let did_bytes = bs58::decode(&did[DID_KEY_PREFIX.len()..]).into_vec()?;
-        let magic_bytes = &did_bytes[0..2];
+        let magic_bytes = did_bytes
+            .get(0..2)
+            .ok_or_else(|| anyhow!("Missing magic bytes: {}", did))?;
         match self.key_constructors.get(magic_bytes) {
             Some(ctor) => {
                 let key = ctor(Vec::from(&did_bytes[2..]))?;
-- 
2.43.0


From bee08fdcd83755da43553e23f1e8008bf91f9635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 07/18] fix: a signature envelope that is not as long as it
 announces is refused

A shorter one caused a panic, and extra bytes were ignored.
---
 ucan/src/ipld/signature.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ipld/signature.rs b/ucan/src/ipld/signature.rs
index ed520cb..419cdc0 100644
--- a/ucan/src/ipld/signature.rs
+++ b/ucan/src/ipld/signature.rs
@@ -130,9 +130,16 @@ impl Signature {
         // TODO: Non-standard algorithm support here...
 
         let algorithm = JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(prefix)?)?;
-        let signature = buffer[..signature_length].to_vec();
 
-        Ok((algorithm, signature))
+        if buffer.len() != signature_length {
+            return Err(anyhow!(
+                "Expected {} signature bytes, got {}",
+                signature_length,
+                buffer.len()
+            ));
+        }
+
+        Ok((algorithm, buffer.to_vec()))
     }
 }
 
-- 
2.43.0


From 013930d6971bbe56cf6253cb8639726caaed780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 08/18] fix: converting from IPLD keeps the version

The version of this library was substituted, so that tokens of another
version no longer validated.
---
 ucan/src/ipld/ucan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ipld/ucan.rs b/ucan/src/ipld/ucan.rs
index c98970d..0835606 100644
--- a/ucan/src/ipld/ucan.rs
+++ b/ucan/src/ipld/ucan.rs
@@ -3,7 +3,7 @@ use crate::{
     crypto::JwtSignatureAlgorithm,
     ipld::{Principle, Signature},
     serde::Base64Encode,
-    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload, UCAN_VERSION},
+    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload},
 };
 use cid::Cid;
 use serde::{Deserialize, Serialize};
@@ -74,7 +74,7 @@ impl TryFrom<&UcanIpld> for Ucan {
         };
 
         let payload = UcanPayload {
-            ucv: UCAN_VERSION.into(),
+            ucv: value.v.clone(),
             iss: value.iss.to_string(),
             aud: value.aud.to_string(),
             exp: value.exp,
-- 
2.43.0


From f090194c9b372ad127258acf0d11ba825efaf2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 09/18] fix: encode() emits the data that was signed

It serialized the token anew, so that a token which another
implementation had laid out differently changed its text, its content
identifier and lost its valid signature.
---
 ucan/src/ucan.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 5fb9f85..6068463 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -1,9 +1,4 @@
-use crate::{
-    capability::Capabilities,
-    crypto::did::DidParser,
-    serde::{Base64Encode, DagJson},
-    time::now,
-};
+use crate::{capability::Capabilities, crypto::did::DidParser, serde::DagJson, time::now};
 use anyhow::{anyhow, Result};
 use base64::Engine;
 use cid::{
@@ -91,12 +86,11 @@ impl Ucan {
     /// Produce a base64-encoded serialization of the UCAN suitable for
     /// transferring in a header field
     pub fn encode(&self) -> Result<String> {
-        let header = self.header.jwt_base64_encode()?;
-        let payload = self.payload.jwt_base64_encode()?;
+        let signed_data = std::str::from_utf8(&self.signed_data)?;
         let signature =
             base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(self.signature.as_slice());
 
-        Ok(format!("{header}.{payload}.{signature}"))
+        Ok(format!("{signed_data}.{signature}"))
     }
 
     /// Returns true if the UCAN has past its expiration date
-- 
2.43.0


From 8c13737dc9bc3c7dd2162c993c94d64c32fdef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:42 +0000
Subject: [PATCH 10/18] fix: sign() returns an error when the payload cannot be
 made instead of panicking

---
 ucan/src/builder.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 44fb9cb..4adb4e7 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -87,10 +87,7 @@ where
     /// data suitable for encoding as a JWT token string
     pub async fn sign(&self) -> Result<Ucan> {
         let header = self.ucan_header();
-        let payload = self
-            .ucan_payload()
-            .await
-            .expect("Unable to generate UCAN payload");
+        let payload = self.ucan_payload().await?;
 
         let header_base64 = header.jwt_base64_encode()?;
         let payload_base64 = payload.jwt_base64_encode()?;
-- 
2.43.0


From 0d12484a20df132ea672cd068f5b135727e13b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 11/18] fix: a huge lifetime does not overflow

---
 ucan/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 4adb4e7..fc01f6d 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -282,7 +282,7 @@ where
         if self.expiration.is_some() {
             self.expiration
         } else {
-            self.lifetime.map(|lifetime| now() + lifetime)
+            self.lifetime.map(|lifetime| now().saturating_add(lifetime))
         }
     }
 
-- 
2.43.0


From 32c68873cfffeb659f3c0837a1a1778e58c6d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 12/18] fix: a token string with more than three parts is
 refused

The excess was ignored.
---
 ucan/src/ucan.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 6068463..bc99735 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -258,6 +258,10 @@ impl FromStr for Ucan {
             .ok_or_else(|| anyhow!("Missing UCAN signature in token part"))?
             .map_err(|e| e.context("Could not parse UCAN signature base64"))?;
 
+        if parts.next().is_some() {
+            return Err(anyhow!("Unexpected part after UCAN signature"));
+        }
+
         Ok(Ucan::new(
             header,
             payload,
-- 
2.43.0


From cc56946c27805fe480ce2bea64bab1e5db59b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 13/18] fix: deserializing capabilities checks them like the
 other conversions

The derived implementation let resources without abilities and caveats
that are not objects into received tokens.
---
 ucan/src/capability/data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ucan/src/capability/data.rs b/ucan/src/capability/data.rs
index 307fe71..79eac80 100644
--- a/ucan/src/capability/data.rs
+++ b/ucan/src/capability/data.rs
@@ -64,6 +64,7 @@ type CapabilitiesIterator<'a> = FlatMap<
 >;
 
 #[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize)]
+#[serde(try_from = "CapabilitiesImpl")]
 /// The [Capabilities] struct contains capability data as a map-of-maps, matching the
 /// [spec](https://github.com/ucan-wg/spec#326-capabilities--attenuation).
 /// See `iter()` to deconstruct this map into a sequence of [Capability] datas.
@@ -181,6 +182,11 @@ impl TryFrom<CapabilitiesImpl> for Capabilities {
                 // One or more abilities MUST be given for each resource.
                 return Err(anyhow!("No abilities given for resource: {}", resource));
             }
+            for caveat in abilities.values().flatten() {
+                if !caveat.is_object() {
+                    return Err(anyhow!("Caveat must be an object: {}", caveat));
+                }
+            }
         }
         Ok(Capabilities(value))
     }
-- 
2.43.0


From f96b12ce5f54ed93311f4c67e5f3f4a8bf3a0167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 14/18] fix: check_signature() checks that the signed data is
 that of the token

A token deserialized from JSON, or made with Ucan::new(), could state
any content next to the data that its issuer signed.
---
 ucan/src/ucan.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index bc99735..3c90908 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -79,6 +79,13 @@ impl Ucan {
 
     /// Validate that the signed data was signed by the stated issuer
     pub async fn check_signature<'a>(&self, did_parser: &mut DidParser) -> Result<()> {
+        let signed = Ucan::try_from(self.encode()?)?;
+        if signed.header != self.header || signed.payload != self.payload {
+            return Err(anyhow!(
+                "The signed data differs from the header or payload"
+            ));
+        }
+
         let key = did_parser.parse(&self.payload.iss)?;
         key.verify(&self.signed_data, &self.signature).await
     }
-- 
2.43.0


From eb2433516f142bc0d5e9d94a7611a22e9af40fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 15/18] fix: bytes that are not the binary form of a DID are
 refused as principal

Rendering them panicked, and some DIDs had two binary forms, so that an
altered binary token still validated.
---
 ucan/src/ipld/principle.rs | 44 +++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/ucan/src/ipld/principle.rs b/ucan/src/ipld/principle.rs
index 9980f40..1e25dea 100644
--- a/ucan/src/ipld/principle.rs
+++ b/ucan/src/ipld/principle.rs
@@ -8,14 +8,44 @@ pub const DID_IPLD_PREFIX: &[u8] = &[0x9d, 0x1a];
 
 #[repr(transparent)]
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "Vec<u8>")]
 pub struct Principle(Vec<u8>);
 
+impl TryFrom<Vec<u8>> for Principle {
+    type Error = anyhow::Error;
+
+    fn try_from(bytes: Vec<u8>) -> Result<Self, Self::Error> {
+        let principle = Principle(bytes);
+
+        // Each DID has one binary form
+        match principle.did() {
+            Some(did) if Principle::from_str(&did).ok().as_ref() == Some(&principle) => {
+                Ok(principle)
+            }
+            _ => Err(anyhow!("Not the binary form of a DID")),
+        }
+    }
+}
+
+impl Principle {
+    fn did(&self) -> Option<String> {
+        match self.0.strip_prefix(DID_IPLD_PREFIX) {
+            Some(stripped) => Some([DID_PREFIX, std::str::from_utf8(stripped).ok()?].concat()),
+            None => Some([DID_KEY_PREFIX, &bs58::encode(&self.0).into_string()].concat()),
+        }
+    }
+}
+
 impl FromStr for Principle {
     type Err = anyhow::Error;
 
     fn from_str(input: &str) -> Result<Self, Self::Err> {
         if let Some(stripped) = input.strip_prefix(DID_KEY_PREFIX) {
-            Ok(Principle(bs58::decode(stripped).into_vec()?))
+            let bytes = bs58::decode(stripped).into_vec()?;
+            if bytes.len() < 2 || bytes.starts_with(DID_IPLD_PREFIX) {
+                return Err(anyhow!("This is not the DID of a key: {}", input));
+            }
+            Ok(Principle(bytes))
         } else if let Some(stripped) = input.strip_prefix(DID_PREFIX) {
             Ok(Principle([DID_IPLD_PREFIX, stripped.as_bytes()].concat()))
         } else {
@@ -26,17 +56,7 @@ impl FromStr for Principle {
 
 impl Display for Principle {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let bytes = &self.0;
-        let did_content = match &bytes[0..2] {
-            DID_IPLD_PREFIX => [
-                DID_PREFIX,
-                std::str::from_utf8(&bytes[2..]).map_err(|_| std::fmt::Error)?,
-            ]
-            .concat(),
-            _ => [DID_KEY_PREFIX, &bs58::encode(bytes).into_string()].concat(),
-        };
-
-        write!(f, "{did_content}")
+        write!(f, "{}", self.did().ok_or(std::fmt::Error)?)
     }
 }
 
-- 
2.43.0


From 1749edb381fb0ad4b654994522746b7df8bb3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 16/18] fix: facts and caveats that contain null can be encoded

Signing, encoding or converting such a token failed, because a null was
serialized as a unit, which IPLD does not have.
---
 ucan/src/capability/data.rs | 20 ++++++++++++++++++--
 ucan/src/ipld/ucan.rs       |  1 +
 ucan/src/serde.rs           | 35 +++++++++++++++++++++++++++++++++++
 ucan/src/ucan.rs            |  5 ++++-
 4 files changed, 58 insertions(+), 3 deletions(-)

diff --git a/ucan/src/capability/data.rs b/ucan/src/capability/data.rs
index 79eac80..f200f50 100644
--- a/ucan/src/capability/data.rs
+++ b/ucan/src/capability/data.rs
@@ -1,5 +1,6 @@
+use crate::serde::IpldValue;
 use anyhow::anyhow;
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Serialize, Serializer};
 use serde_json::Value;
 use std::{
     collections::{btree_map::Iter as BTreeMapIter, BTreeMap},
@@ -63,7 +64,7 @@ type CapabilitiesIterator<'a> = FlatMap<
     fn((&'a String, &'a AbilitiesImpl)) -> AbilitiesMap<'a>,
 >;
 
-#[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize)]
+#[derive(Debug, Clone, Eq, PartialEq, Deserialize)]
 #[serde(try_from = "CapabilitiesImpl")]
 /// The [Capabilities] struct contains capability data as a map-of-maps, matching the
 /// [spec](https://github.com/ucan-wg/spec#326-capabilities--attenuation).
@@ -136,6 +137,21 @@ impl Capabilities {
     }
 }
 
+impl Serialize for Capabilities {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        serializer.collect_map(self.0.iter().map(|(resource, abilities)| {
+            let abilities: MapImpl<&String, Vec<IpldValue>> = abilities
+                .iter()
+                .map(|(ability, caveats)| (ability, caveats.iter().map(IpldValue).collect()))
+                .collect();
+            (resource, abilities)
+        }))
+    }
+}
+
 impl Deref for Capabilities {
     type Target = CapabilitiesImpl;
     fn deref(&self) -> &Self::Target {
diff --git a/ucan/src/ipld/ucan.rs b/ucan/src/ipld/ucan.rs
index 0835606..eb6595f 100644
--- a/ucan/src/ipld/ucan.rs
+++ b/ucan/src/ipld/ucan.rs
@@ -20,6 +20,7 @@ pub struct UcanIpld {
     pub cap: Capabilities,
     pub prf: Option<Vec<Cid>>,
     pub exp: Option<u64>,
+    #[serde(serialize_with = "crate::serde::ser_facts")]
     pub fct: Option<FactsMap>,
 
     pub nnc: Option<String>,
diff --git a/ucan/src/serde.rs b/ucan/src/serde.rs
index a2ffebc..bec34b7 100644
--- a/ucan/src/serde.rs
+++ b/ucan/src/serde.rs
@@ -1,3 +1,4 @@
+use crate::ucan::FactsMap;
 use anyhow::Result;
 use base64::Engine;
 use libipld_core::{
@@ -7,6 +8,7 @@ use libipld_core::{
 };
 use libipld_json::DagJsonCodec;
 use serde::{de::DeserializeOwned, Serialize, Serializer};
+use serde_json::Value;
 use std::io::Cursor;
 
 /// Utility function to enforce lower-case string values when serializing
@@ -17,6 +19,39 @@ where
     serializer.serialize_str(&string.to_lowercase())
 }
 
+/// A JSON value whose nulls serialize as a missing value instead of a unit,
+/// because the IPLD data model has no unit
+pub(crate) struct IpldValue<'a>(pub &'a Value);
+
+impl Serialize for IpldValue<'_> {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        match self.0 {
+            Value::Null => serializer.serialize_none(),
+            Value::Array(items) => serializer.collect_seq(items.iter().map(IpldValue)),
+            Value::Object(fields) => {
+                serializer.collect_map(fields.iter().map(|(key, value)| (key, IpldValue(value))))
+            }
+            value => value.serialize(serializer),
+        }
+    }
+}
+
+/// Serialize facts so that they can be converted to IPLD
+pub(crate) fn ser_facts<S>(facts: &Option<FactsMap>, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    match facts {
+        Some(facts) => {
+            serializer.collect_map(facts.iter().map(|(key, value)| (key, IpldValue(value))))
+        }
+        None => serializer.serialize_none(),
+    }
+}
+
 /// Helper trait to ser/de any serde-implementing value to/from DAG-JSON
 pub trait DagJson: Serialize + DeserializeOwned {
     fn to_dag_json(&self) -> Result<Vec<u8>> {
diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 3c90908..c1e45ee 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -31,7 +31,10 @@ pub struct UcanPayload {
     #[serde(skip_serializing_if = "Option::is_none")]
     pub nnc: Option<String>,
     pub cap: Capabilities,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        skip_serializing_if = "Option::is_none",
+        serialize_with = "crate::serde::ser_facts"
+    )]
     pub fct: Option<FactsMap>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub prf: Option<Vec<String>>,
-- 
2.43.0


From c841276abdd54f0b99ff6f4be38ed41bf65d3fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 17/18] fix: sign() refuses a payload that cannot be decoded
 again

Facts and caveats that use the key "/", which DAG-JSON reserves, gave
tokens that could not be parsed.
---
 ucan/src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index fc01f6d..1fdfbb7 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -3,7 +3,7 @@ use std::collections::BTreeMap;
 use crate::{
     capability::{proof::ProofDelegationSemantics, Capability, CapabilitySemantics},
     crypto::KeyMaterial,
-    serde::Base64Encode,
+    serde::{Base64Encode, DagJson},
     time::now,
     ucan::{FactsMap, Ucan, UcanHeader, UcanPayload, UCAN_VERSION},
 };
@@ -92,6 +92,11 @@ where
         let header_base64 = header.jwt_base64_encode()?;
         let payload_base64 = payload.jwt_base64_encode()?;
 
+        // Not all JSON can be represented in DAG-JSON, which reserves the key "/"
+        if UcanPayload::from_dag_json(&payload.to_dag_json()?)? != payload {
+            return Err(anyhow!("The payload cannot be represented in DAG-JSON"));
+        }
+
         let data_to_sign = format!("{header_base64}.{payload_base64}")
             .as_bytes()
             .to_vec();
-- 
2.43.0


From f32bbb2995548d993975415e6864ebffccca2116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 18/18] fix: a wildcard with a query or fragment does not stand
 for every resource

---
 ucan/src/capability/semantics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/capability/semantics.rs b/ucan/src/capability/semantics.rs
index 55dadac..00aa11e 100644
--- a/ucan/src/capability/semantics.rs
+++ b/ucan/src/capability/semantics.rs
@@ -138,7 +138,7 @@ where
     }
 
     fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<S>> {
-        Some(match resource.path() {
+        Some(match &resource[Position::BeforePath..] {
             "*" => ResourceUri::Unscoped,
             _ => ResourceUri::Scoped(self.parse_scope(resource)?),
         })
-- 
2.43.0

