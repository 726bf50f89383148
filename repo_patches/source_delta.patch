From 1728463fa0e84470bcd1e5453990e720e382b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 01/12] fix: apply configured timeout to key record lookups

Config::lookup_timeout was ignored, so a resolver that never answers made
verification hang.
---
 src/verifier/query.rs | 51 ++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/verifier/query.rs b/src/verifier/query.rs
index 84710ca..b634929 100644
--- a/src/verifier/query.rs
+++ b/src/verifier/query.rs
@@ -22,10 +22,12 @@ use crate::{
     },
 };
 use std::{
-    collections::{HashMap, HashSet, BTreeSet},
+    collections::{HashMap, HashSet},
+    future::Future,
     io::{self, ErrorKind},
+    time::Duration,
 };
-use tokio::{task::JoinSet, time};
+use tokio::time;
 use tracing::trace;
 
 struct QueriesBuilder {
@@ -59,37 +61,32 @@ impl QueriesBuilder {
         for ((domain, selector), indexes) in self.lookup_pairs {
             trace!(%domain, %selector, "spawning DNS query");
 
-            let resolver = resolver.clone();
-
-            let lookup_timeout = config.lookup_timeout;
-
-            // set.spawn(async move {
-            //     let f = look_up_records(&resolver, domain.as_ref(), selector.as_ref());
-                // let result = match time::timeout(lookup_timeout, f).await {
-                //     Ok(r) => r,
-                //     Err(e) => Err(e.into()),
-                // };
-
-            //     (indexes, result)
-            // });
-
-            let f = look_up_records(&resolver,domain.as_ref(),selector.as_ref()).await;
-            // let f = look_up_records(&resolver, domain.as_ref(), selector.as_ref());
-            // let result = match time::timeout(lookup_timeout, f).await {
-            //             Ok(r) => r,
-            //             Err(e) => Err(e.into()),
-            // };
-            
-            set.push(
-                (indexes, f)
-            );
-        }
+            let f = look_up_records(resolver, domain.as_ref(), selector.as_ref());
+
+            let result = with_timeout(config.lookup_timeout, f).await;
 
+            set.push((indexes, result));
+        }
 
         Queries { set }
     }
 }
 
+// Fails the lookup when not completed in time. There is no timer on Wasm targets.
+async fn with_timeout(
+    duration: Duration,
+    lookup: impl Future<Output = QueryResult>,
+) -> QueryResult {
+    if cfg!(target_family = "wasm") {
+        return lookup.await;
+    }
+
+    match time::timeout(duration, lookup).await {
+        Ok(r) => r,
+        Err(e) => Err(e.into()),
+    }
+}
+
 pub type QueryResult = io::Result<Vec<io::Result<String>>>;
 
 async fn look_up_records<T: LookupTxt + ?Sized>(
-- 
2.43.0


From 359a59a31121bfd6b97b1c7e0d1cf00fbc58499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 02/12] fix: perform key record lookups concurrently

Lookups for different keys were awaited one after the other, so that delays
added up, contrary to the documented concurrent operation.
---
 src/verifier/query.rs | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/verifier/query.rs b/src/verifier/query.rs
index b634929..adfa6f7 100644
--- a/src/verifier/query.rs
+++ b/src/verifier/query.rs
@@ -23,8 +23,10 @@ use crate::{
 };
 use std::{
     collections::{HashMap, HashSet},
-    future::Future,
+    future::{self, Future},
     io::{self, ErrorKind},
+    pin::Pin,
+    task::Poll,
     time::Duration,
 };
 use tokio::time;
@@ -56,22 +58,50 @@ impl QueriesBuilder {
     where
         T: LookupTxt + Clone + 'static,
     {
-        let mut set = Vec::new();
+        let mut lookups = Vec::new();
 
         for ((domain, selector), indexes) in self.lookup_pairs {
-            trace!(%domain, %selector, "spawning DNS query");
+            lookups.push(Box::pin(async move {
+                trace!(%domain, %selector, "spawning DNS query");
 
-            let f = look_up_records(resolver, domain.as_ref(), selector.as_ref());
+                let f = look_up_records(resolver, domain.as_ref(), selector.as_ref());
 
-            let result = with_timeout(config.lookup_timeout, f).await;
+                let result = with_timeout(config.lookup_timeout, f).await;
 
-            set.push((indexes, result));
+                (indexes, result)
+            }));
         }
 
+        let set = join_all(lookups).await;
+
         Queries { set }
     }
 }
 
+// Drives all futures concurrently in the current task, until all have completed.
+async fn join_all<F: Future + Unpin>(mut futures: Vec<F>) -> Vec<F::Output> {
+    let mut outputs = Vec::with_capacity(futures.len());
+
+    future::poll_fn(|cx| {
+        futures.retain_mut(|f| match Pin::new(f).poll(cx) {
+            Poll::Ready(output) => {
+                outputs.push(output);
+                false
+            }
+            Poll::Pending => true,
+        });
+
+        if futures.is_empty() {
+            Poll::Ready(())
+        } else {
+            Poll::Pending
+        }
+    })
+    .await;
+
+    outputs
+}
+
 // Fails the lookup when not completed in time. There is no timer on Wasm targets.
 async fn with_timeout(
     duration: Duration,
-- 
2.43.0


From 79069e6b8f2d437d608fd43ba9f53a513b702795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 03/12] fix: do not accept plus sign in l=, t=, and x= tags

RFC 6376 defines these values as sequences of digits only.
---
 src/signature.rs |  6 +++---
 src/tag_list.rs  | 12 ++++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index c4011ec..e6244dc 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -957,7 +957,7 @@ impl DkimSignature {
                     identity = Some(value);
                 }
                 "l" => {
-                    let value = value.parse()
+                    let value = tag_list::parse_integer_value(value)
                         .map_err(|_| DkimSignatureErrorKind::InvalidBodyLength)?;
 
                     body_length = Some(value);
@@ -991,13 +991,13 @@ impl DkimSignature {
                     selector = Some(value);
                 }
                 "t" => {
-                    let value = value.parse()
+                    let value = tag_list::parse_integer_value(value)
                         .map_err(|_| DkimSignatureErrorKind::InvalidTimestamp)?;
 
                     timestamp = Some(value);
                 }
                 "x" => {
-                    let value = value.parse()
+                    let value = tag_list::parse_integer_value(value)
                         .map_err(|_| DkimSignatureErrorKind::InvalidExpiration)?;
 
                     expiration = Some(value);
diff --git a/src/tag_list.rs b/src/tag_list.rs
index 705106c..a6884c7 100644
--- a/src/tag_list.rs
+++ b/src/tag_list.rs
@@ -162,6 +162,18 @@ pub fn parse_colon_separated_value(value: &str) -> Vec<&str> {
     value.split(':').map(trim_surrounding_fws).collect()
 }
 
+/// Parses an unsigned decimal integer value, consisting of digits only.
+pub fn parse_integer_value(value: &str) -> Result<u64, ParseTagListError> {
+    debug_assert!(is_tag_value(value));
+
+    // Unlike `u64::from_str` do not accept a leading plus sign.
+    if !value.chars().all(|c| c.is_ascii_digit()) {
+        return Err(ParseTagListError::Syntax);
+    }
+
+    value.parse().map_err(|_| ParseTagListError::Syntax)
+}
+
 pub fn parse_base64_value(value: &str) -> Result<Vec<u8>, ParseTagListError> {
     debug_assert!(is_tag_value(value));
 
-- 
2.43.0


From d22e0403ea3cc87c6ecdf567421e3d451667db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:58 +0000
Subject: [PATCH 04/12] fix: use exact bit length as RSA key size

The size was rounded up to whole bytes, so RSA keys up to seven bits below
the minimum (or configured minimum) were accepted.
---
 src/crypto/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/rsa.rs b/src/crypto/rsa.rs
index 32cc1eb..98cd8c4 100644
--- a/src/crypto/rsa.rs
+++ b/src/crypto/rsa.rs
@@ -79,7 +79,7 @@ pub fn read_rsa_public_key(
 pub const MIN_KEY_BITS: usize = if cfg!(feature = "pre-rfc8301") { 512 } else { 1024 };
 
 pub fn get_public_key_size(k: &RsaPublicKey) -> usize {
-    k.size() * 8
+    k.n().bits()
 }
 
 /// Verifies an RSA signature for a given message byte slice.
-- 
2.43.0


From f8ddb35d5fe7576a2e8648bb238e6ae054cd5264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:14 +0000
Subject: [PATCH 05/12] fix: encode field names in z= tag

Copied header fields with | or = in the name produced signatures with an
ill-formed z= tag that verifiers cannot parse.
---
 src/signer/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/signer/format.rs b/src/signer/format.rs
index 17b72b1..fa7b5f2 100644
--- a/src/signer/format.rs
+++ b/src/signer/format.rs
@@ -419,7 +419,11 @@ fn format_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[(FieldNa
         encode(value, Some('|'))
     };
 
-    let mut iter = value.iter().map(|(f, v)| (f.as_ref(), v));
+    // names may contain characters that are not safe in this tag, such as `|` or `=`
+    let format_field_name =
+        |name: &FieldName| quoted_printable::encode(name.as_ref().as_bytes(), Some('|'));
+
+    let mut iter = value.iter().map(|(f, v)| (format_field_name(f), v));
 
     // ensure that z= plus the first header name (including ':') fit on the first line
 
-- 
2.43.0


From 1a6c04a37a32d3a6b4a9c4fd50c896e18e7dae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:48 +0000
Subject: [PATCH 06/12] fix: reject non-ASCII extension tags for ASCII-only
 output

Extension tag values were written as is, so the signature header contained
non-ASCII content even though only ASCII was requested.
---
 src/signer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/signer/mod.rs b/src/signer/mod.rs
index 0050c4b..84250f8 100644
--- a/src/signer/mod.rs
+++ b/src/signer/mod.rs
@@ -357,6 +357,7 @@ fn validate_request<T: AsRef<SigningKey>>(request: &SignRequest<T>) -> Result<()
             || !tag_list::is_tag_name(name)
             || !tag_list::is_tag_value(value)
             || format::is_output_tag(name)
+            || (request.format.ascii_only && !value.is_ascii())
     }) {
         return Err(RequestError::InvalidExtTags);
     }
-- 
2.43.0


From da017170c616eb3142aa9b8dceba03b0bca0b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 07/12] fix: canonicalize body of only empty lines as CRLF in
 simple algorithm

RFC 6376, section 3.4.3: simple canonicalization converts *CRLF at the end
of the body to a single CRLF. A body that consists of nothing but empty lines
was canonicalized to the empty string instead.
---
 src/canonicalize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/canonicalize.rs b/src/canonicalize.rs
index f832b5e..3e6297e 100644
--- a/src/canonicalize.rs
+++ b/src/canonicalize.rs
@@ -139,6 +139,7 @@ pub struct BodyCanonicalizer {
     state: CanonState,
     blank_line: bool,  // whether currently on an empty or blank line
     empty_lines: usize,  // number of empty lines seen
+    only_empty_lines: bool,  // whether no content other than empty lines seen
 }
 
 impl BodyCanonicalizer {
@@ -148,6 +149,7 @@ impl BodyCanonicalizer {
             state: CanonState::Init,
             blank_line: true,
             empty_lines: 0,
+            only_empty_lines: true,
         }
     }
 
@@ -305,6 +307,8 @@ impl BodyCanonicalizer {
             CanonicalizationAlgorithm::Simple => {
                 match self.state {
                     CanonState::Init => CRLF.to_vec(),  // empty body is CRLF
+                    // a body consisting of only empty lines is CRLF, too
+                    CanonState::CrLf if self.only_empty_lines => CRLF.to_vec(),
                     CanonState::CrLf => vec![],
                     CanonState::Cr => {
                         let mut result = vec![];
@@ -353,6 +357,7 @@ impl BodyCanonicalizer {
         }
         self.empty_lines = 0;
         self.blank_line = false;
+        self.only_empty_lines = false;
     }
 }
 
-- 
2.43.0


From e750cb9de60fc64f9ee2ffa91749cf3b68df6361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 08/12] fix: refuse to sign when expiration cannot lie after
 timestamp

---
 src/signer/sign.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/signer/sign.rs b/src/signer/sign.rs
index f56d85d..fab10a7 100644
--- a/src/signer/sign.rs
+++ b/src/signer/sign.rs
@@ -99,6 +99,14 @@ where
             .saturating_add(duration.as_secs())
     });
 
+    // an expiration not after the timestamp (at the maximum) would be invalid
+    if let (Some(timestamp), Some(expiration)) = (timestamp, expiration) {
+        if expiration <= timestamp {
+            trace!("not signing, expiration too large");
+            return Err(SigningError::Overflow);
+        }
+    }
+
     // calculate z= tag copied headers
 
     let copied_headers = if request.copy_headers {
-- 
2.43.0


From 5f676382e34184aa0fca96cefc139107483a704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 09/12] fix: never take the DKIM-Signature being verified for
 one that it signs

RFC 6376, section 3.5, on the h= tag: 'The field MUST NOT include the
DKIM-Signature header field that is being created or verified but may include
others.' A signature listing DKIM-Signature more often than there were other
instances (or that has been moved below another one) could not be verified,
because the header field being verified was itself selected.
---
 src/verifier/header.rs |  2 +-
 src/verifier/verify.rs | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/verifier/header.rs b/src/verifier/header.rs
index a4b4c35..5f78154 100644
--- a/src/verifier/header.rs
+++ b/src/verifier/header.rs
@@ -405,7 +405,7 @@ fn verify_task(
         let name = task.header_name.as_ref().unwrap();
         let value = task.header_value.as_ref().unwrap();
 
-        match verify::perform_verification(headers, &key, sig, name, value) {
+        match verify::perform_verification(headers, &key, sig, task.index, name, value) {
             Ok(()) => {
                 task.status = VerifyStatus::Successful;
                 break;
diff --git a/src/verifier/verify.rs b/src/verifier/verify.rs
index bdd8e98..8e4db48 100644
--- a/src/verifier/verify.rs
+++ b/src/verifier/verify.rs
@@ -29,6 +29,7 @@ pub fn perform_verification(
     headers: &HeaderFields,
     verifying_key: &VerifyingKey,
     sig: &DkimSignature,
+    index: usize,
     name: &str,
     value: &str,
 ) -> Result<(), VerificationError> {
@@ -36,11 +37,24 @@ pub fn perform_verification(
 
     let original_dkim_sig = make_original_dkim_sig(value);
 
+    // §3.5: ‘The field MUST NOT include the DKIM-Signature header field that is
+    // being created or verified but may include others.’
+    let mut headers = Cow::Borrowed(headers);
+    let mut signed_headers = &sig.signed_headers[..];
+    if signed_headers.iter().any(|n| *n == name) {
+        let mut other_headers = headers.as_ref().as_ref().to_vec();
+        other_headers.remove(index);
+        match HeaderFields::new(other_headers) {
+            Ok(h) => headers = Cow::Owned(h),
+            Err(_) => signed_headers = &[],
+        }
+    }
+
     let data_hash = message_hash::compute_data_hash(
         hash_alg,
         sig.canonicalization.header,
-        headers,
-        &sig.signed_headers,
+        &headers,
+        signed_headers,
         name,
         &original_dkim_sig,
     );
-- 
2.43.0


From 0b4ca4b6ed247ff597ebccecffb67b9a8c156b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 10/12] fix: do not print the RSA private key in the Debug form
 of SigningKey

---
 default_15263436654663887031_0_22505.profraw | Bin 0 -> 463616 bytes
 default_8395779702440794847_0_22505.profraw  | Bin 0 -> 336312 bytes
 src/crypto/mod.rs                            |  14 +++++++++++++-
 3 files changed, 13 insertions(+), 1 deletion(-)
 create mode 100644 default_15263436654663887031_0_22505.profraw
 create mode 100644 default_8395779702440794847_0_22505.profraw

diff --git a/default_15263436654663887031_0_22505.profraw b/default_15263436654663887031_0_22505.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..db26d550d8e661d89c3bd8244842851812e98fdb
GIT binary patch
literal 463616
zcmbT<c{r5q|3CggAw?)6*;2B!jIt&oL|H>wvlmI35TlYwwo<ktL`0TChV1KD5|Skn
zMI?m8M7ETEpU?O6KKmZu>vQ~$<2qjb<JNuOkK??a=Xssi%r(!Mx#4lv-Gk)zcRk^M
z{)qhNrzY2b{^37A7<c@?zvKOldke$=`A_MCtAGFd53#!BX)@*S-#a~`r|kUyx5D_J
zzuNqtpU*Oqj~DeQIvIcW|9&qv>5{gBr0;+KD`{`dr$(C$yKa8c{rvMy&m8jq^S}N7
z{$RrV8wcaY1ZO1@7jkI-87JmH`(M9e9dcbivoWi&ykk=tcYkskArhy<ijf`3%r3il
zmUbd16zEhaEw_wvuzy?VFhBL<g8NYlP6spX1g?`+eJgJF-y#QZK3GR-{cC3;3t{so
zrm2JlK6*7_=zrD&=J5a5ue&gRlkW1wYR^l3I&$bh$9hBJ<kfr0+tlg}G9GXJY(MlF
z-*`AN<LNweBF@KwKOZ@K!!YL($ALdQ)2R*Rs~a@RH)zNj;dHR;u$j3t=ewc17IH*@
zPVb^*F5kRKhN3{If6g_tIXcdK(D{pEx{x-moO(jR89Ajur_AyEG0~@W6(YYX=Zd<G
z%_umXHE1CJ`DvvkG#T{v#yoP&fllG1f(K#H_qZur$V-2VrrkuG&PL35vNejDtOo6)
z7y3lHT<?5XwZrLPa~``9p&lj|WPltAprgKh&vho#4%fmb)RgamKACvWFYG$>k6hmR
zC|{@?IW(N-Db^|K&T*`jx_=~2KiFosZ4oIFr}IBoo&OtlWZIS3Tpp4lZU4O-%Z0qH
zMmQbpc#=J(Y+}Nq2azKJbOO$X?yi)%nVE4%#-zS7um^hm3O|_8B%W(tf*id2GxoS{
zC1&?As7ZbP`LJ(oYch);-s=~39S&+d{TqBjaS}P^IIlZcC#a7h<}K^~+uu3L%T5K8
zABq5-fnB6)()=^x$Ql2HZ-2&)=UmK;TO|*(t)kt4_N8e~St?Ekn{#M9fAWFlvNOn`
z0G+DGEB75r8ENIgmzXz3ujeuXI+GJCX_r^5E0H4tbl!-Z%jP6Y)6?4rhRg2Xl&25C
zau&aM`S|sO?@P!j1v+t`doAzuJ=YvuFVFr)wY8Fh)4|Ty(3JxWEF<k)$T0#sGgr^_
zo!#3{bCmz{$4^g;RRpJlU56eW)0r|CWyFv(-Ve+9u0#Mo@2@)9cGf};y*oy(RG{PX
zQg!J$ms|vL$UvucDzwM=cfs7jp11dU*3gJ*K<DV4?E`5WLoOkQ73eU99}elt$**WI
zy!R(ql25MVBfgxm>t~~$%-7|K-!G7p0(4rNC(rt9eH`x+{6>&DCF(p0r-Oa`6S|PU
ze;uvB4>>wOC#(1U<n!J?2QTcaQP&Uh4i&-aVAu0h=jI(oF`fL#8UKJUXRITieP_tm
zR`|tz_TQ6Dt8ErkpkueHaP#!mfz!w#1D(Z>izk+H3)UaF9~sc5N!Y6fbVRPRB%3WA
zkw*?I&<RMb9{M?2ef{>=#fPh*Ip!UGu$(JH172^H`FsXBaX=@&ut+{}!m34{yKHmd
zOp&@BP6xZ5KP)(Lx#uSALXINPDdl=J>Yn;%lh@0m2ma`&o#VvmU>|43-Mu3@l)@c`
zoQ__6Ib$9FisXPb#3L~cB0q;1-fv}&#ObX4zYlr;&p!p-vAb~4Z+RVZNI-|C^x_p!
zRL)pP=SAmL>GuIfI34VMm^-yGDb>n11UVu=ho{-E|K8PoY7UerkGFYUSLpBY<%}KA
z47oPIP~WT(IW(Yijs5Hin-_U&Hflw8_22Ulh{Wk&_pw;EUS`dU8F|Pt2RdejQh_>5
z${%z&6qn0&8iPb|I@o*^_kO?1X`o|{9C{BdXKFz5JEy$+UBtBI;KypO8)!hsf7^Zc
zgSw|=krN4Yt{7#S1lh-`kMJ^a<c5CTZimys&e!i=&3IML_$SDb06JzhHzuPpxf$C>
zoP7-ZqH^f(@a2p>-;GXODDvHLK^8e3K*xZ8*_3$yCbPa$*~XKLzv8Jl9qjr^I~bL<
zO+Bg?ITWD7YWTx8{GD7N&D<tJ`B&1Y5l#ntz4&Feo?}^{jgA}%ptJ7lNQ#?%zy8Vn
z5gZkd3j_%`9qjsv@|B&fwtZuVoThGk^Nw}aYET{S5Ka0^dT84UFI!%Y#OYw?tJ6%v
z#Bn9;3v%p$j<Vn1&iLY{smKAjS-$~cJ|a#BdtBryLYn_mmJi5T>VoC7DV(vE{budy
zT>Ad+mr`S_XgD2gKKEB#T<a504kITL=p-IZoW0qweVeWW)7{J;{k?WTNA<jONcXou
zYvd4t&N$P(jFffzIsTlxCbXJJO(EcPu;<s~gHC3;wKk2&>3xfDzOatfhg*aj3EVWl
zH}|TlH!~DdaXQ%bqghf@Qm?^q>U>$n)n6iNrevU_s(js@A=y0=Ich+MaPer{rMCP#
z5<yDJ+A2FMS%FTb($`Ga-jq`0badj&8Jmx_YeegvyFxMIH(tMFvF^2x!|7npi&OhJ
z%$xpt+9JmV=#2lp=eRzpvQXttK)22ApaY6P$J*@=``0rsk0XZ_=y0bq^lId1Q!AZn
zKOIUiv+wPI<s9y=W#f9GlpQ%KKqp#jSH^=Xmn4y=3tgm7;u$VLCsuQA?dxji4&)Gl
zj^{4XkIQ=Lidv^zjwn3#PhM)rmk)OR%&DbrQ9pF@3v!x(PU)ViSh1;f`s<iZe=ak!
zFOS3NVE3QQW?RcU39VhoApxDkAC5ezQ5Jr4fOAiHLirhf9h?sKJY{xdb$D#|RS-Fx
zKqrL6#BCS#_x#EDNs(XD^A^2r_~r{co_moprh-YYPa!7-=*YSm9ov?wcs+mf=cvUe
zn{-@&j{6>i10^zYACW@@I-=fpXM6U1luWKEIhdz-Eo$ivEFX!Uy1!#L>?4pv13K?N
zS`nYM{nS^yGbaCg^TsWqK<D<Y&_-(Otw!V+0UfPI@o+AV>lMb#P6^S?I_Z2sXU%JY
zY8Crf6XXoF!g6k2+1@m9y7+#G)cN$a4EKt%a5~uiNB{Hf@(BrLXXKE9PQcmiCyLDZ
z{55xNzCQF)q*({2gFU}^MwTvww>eEAhZE@Z{b}27BfqIw_4HX;Qef4Q-q-kY#_oq+
zp|>r|7Z`UVhYEBa-7Vj*JV$w^rCIIE)6{MriqpZ)*O3>}lUH}Bx*^9L=&;D!o9Kmi
zzU6(DoNzliMppu-gPpHHGm^YXh<qM$=q>ni#yS<+tO39CT?FzAB*ZS=((Wq7>0tBm
zaXQp)P*KQ>oKT?iF`Ius)o$cSw0>KmWr#nAInXh>nY`^7{ZTM-B!Eurt-lK!oDv<@
zTCh&-?22$&YKG<fah6jyG4uoja%e!u(C8zJPNkFB39%E0j2o^#4aMnT=PPUt(Xe*-
zsReS(fsUsi|InGRN5@G!i)D50a_^VG>0r-y4aK#ZQ>tpN$RPlo&#u3V!{Q|e_a^>*
z-2Q{Jy|)QAUwkQg$+!J;b|NPQ=nOse54l`rb$gBM#{T}_9Q`gpN9wr=Puhj%kH{ec
z9WIU3)sE)c4Nn)j-8R!dSuef9mk;*7pMHR(K=k>O8p!DdI@vG!^zR!wv5BN{JaLrX
z`l=MCgWbnUg#SvZ3jT;e4h85iTo}vO)hf#0^*1cbJkaBz4o(M~k3qQIVkh&$GIAt<
z&UAI^3C0}a&-n<It2=$xerCn#U|-)k`b_=n+R4Ek&6_sd89Y2sXllea@7VLS<Lcw8
zTkpq@Atwds1hL$_Qbu_!AZ)XurQ`ExgpAX{&U;6^RT=TzREvvaS?t0i%}h0*W9FEC
zLTRlXH*#2kj>X%1`J*F}V~ON!v+wd(Gdf=4%Ne^rfBw^WP&Q6W|Ly&IBegd_x~2df
z*UFN1&ZPa`$RPopu$kU0)p=ESzkAksTIDwOYB(M2eDyD92x<KumqHFJ(8<|t`{G^F
z)ufwyIfu@0n%H+V;L901p2&#bXD<@0FCixm=&(E7Xt1l`l&H>;=RB9YqHPCse6-6m
z3*(QdAV&h|TubG8oc8wCA?tz)!I$r;X7qY|`C!+f?2Bkexr|fQ$e{t9tPEkX{NXy*
zvqJn1*Pi+-MB;R?`)ccp?*rVo<pYsJ0y@R5qcwNFg(a2GNpv_K2-;<Y)4{Hv$0u8Y
zJzModk;4ac2uC?L)eWsnre*H)A6BOC8mhxLU)b@)o0>88?FfuOP8QI~F;O^Y_qkeM
zv-V1Nb$u8o3Fxq2d&!nyz%q>-MWCajpE$YJu#7=rz-2=9`HeaP&|#AP`0)0ZBihJm
zs)gme)@QQ&iMZ>NHDR&G4nDjQ9tm_zB;)xXes@hnjycrn=oU-){*|3%&`r{w(3KOx
z>0qz#9#c&+-~1+CA!mt(FCVNUXMa6_vgkhc?#c>70SD``4xA2lJ=2eE=6e28t_nGE
zKqrC_G^PK#w6Lg5^9h$%+6OzF4tD?Xf9rG3H7e8=Ich-1;P*N)>FKO_$KP_oM>e-#
z62a+U^SN-i#j^ake>rl-Yw*n%*6E&(57|nVaN9Bv$DQHV;Yr2mVDqW*H@H?Ne#wW)
zb<^yl@4tH@aXQ%XuvuI=-zfO22|4CKhi4Pn;F8)6kG{(V9?3<E{USIW>~*l8EB``g
z0rwlZty>mNjgr>VtMTQGb?kg(#N_XHY9NOObeKQber|sdBrP)jsE*f%x)=#`%#zuR
zFIry`LyjHLG0%(Mq`6Mx)XArLg6hNHcMyS&*o`*ZH!~_a$RPloBZ@!DM9BLYoAa->
zdBpkL>ZrmuU)Xgx=AhB(cJPraa^iqaY||6HHSZau?feIGjRdss*x_`r>qjm;XZGch
zUB{3^1Ue&XUG>kGPu-UCdhxU6vw{Tyr-RMMEcbL~ap~|D<TO>na^C-K+iA<^He1Ke
zF!f%Y6Cy_fon+-;H;eFXX~;1LI$VdI#k{w&RWBH8ZQHo_dXxyzVVQLJvObC9J#xk?
zVELT%dVZgM=yySXasSS?nl~G$K&SKWXJNgMFXxd%20EtaW!C!8SXw2_bht}f<?PgO
zI@tAm%y@a-EAERe$l(M!_3g^slIKq~KS?Ma_G8g>94g0`Gj=@6w|`cNsky5mhYEDq
z2Lu(ksOPlKx|<4@3hTe70G;hhJl4eas{eY|^#3?UK!@^ETjs+<a?qnB-n@@YISV2<
z9qjqOW@JT2hPmBfyHETWFJp1~cp1K&v5qe3FH3#+_XEhG0v$?V%jL&i<S2H5zEkZ@
zA%$e1v%(Re^@}_ofgClU<G<YO7A1eHKe$fd$@LbW&8$F2J$q;5HCLu!<aCt6a;_Y)
zu1m|J&BaHFf8VyNDl`u0?CYfN7S;+JMvfiOIi`1dM8UavPL==lSVgAV0|}fC_W4D$
zs%!1j{LRmiLjXGVF$t-Uofu4Z&C!%L7G6v3ErI3izeu0eHn>2a4~R-(h&7)`0XpqP
z8~hhGx^72~3()DTXRH3b=Yje+hf}n#%)(YgoDMeUMustWCT{mk<gfxAj^4ZtiH!64
z8y?Z}%r%Q;hl=s#%#3+|!O5qM)DaQ0@5pHaI>X0H3x+@Td1#!DyMF5D+iEIK2YbDE
zyZcD_CgBwg<WPW)rQ>~Rr^AX3citG7x%W=>8v&iQ+oz5*eYAOn91);XD_XpmH4$uR
zbf;SK-D~k^dJ(?)!mgjB#Huy5yZ@4r(*$&`CWsBP{E&PY@VJmzF{vAzg44mymsN-E
zb-gK_VC0a1&fB6?CLyUj`PTbWLh%Y;tJH8h*z4eQQcmxoeMiiZ!wPh2$|q-=7iU-f
zbptM+D`%bVD8x5k*nH+yhK`rcsjna>1?aE`?@8<?oYeVsOwz`^_18NRP6wM$R}%ZL
z7RPJ+$Wa73xfh$gYQlYf-L5#6y-oGeB?3+dn@^PI?S||RG3LnWcmd0qa5&E5@&zXQ
znEnR_w+wwMQ*b)ie3XX09oVA=w;YMxlJU~Y+Q<dy=(QNnSp}InA%_Tb#KLz(ZS~{7
zL0R3~&&a5vy;OiNAMA1U{di|G##+OT92(FW)oKgqrV<HPKC=-sceLw;0v$PT1yNCM
zPDA7v0Udw)<F)R`<7T}^=Fc2wr!?~coq|mt)!aV4OGnO7J}l?fM_-(Z>h(jpd{g$i
zG_1+b0y<5Gd7}k_5$ebx0iCT^H$}B3>z%E<VfD=_+09N7r-OaHTXE~fQmbD5SmZ2G
z@#TYcgq(9$OBMuVkW&hDE{$8<Ph7jAg&Z=_(JeOPI^}Td6mk@S&fH1v^z%dWn~<}V
z2g_$i<ay5xI^Dg<DFr&Lj$%xifA|!TLk2qc8+OixzTR~UIf_6>Vs=}W?BK*z<Sadh
z<uke?#J(#bdI~wEKxgZTEbi*0-e1Te10C|_0qGMRYbBAR2y_%#t3Q@ZTW&$lQZ6hX
zO+lf)9QR9yky8qEq@)~2n_eaPA%_ff&T;8pP#QTjh8#tp(-=!2-F<Xp$3D~NuM@0x
zX)fi!@=3_CXi@9F`X_^A<WO?wT1zR=Iqn(0S8~OaJ81XM2NxMj?~{SfMMZTDUG}y8
zhMf)Bb$6R@D*_$rVSdl~!%tgP#4oS=WcPH-QZ_7~U>?Vx3B=tTOOLfR_`W+ylmeYT
zy_Yd_$E8{`PP&d-L_|)LfsSxsquG^1-JdF@r;e?y?th{Pbi{@GJlb3|v%`&;7QS2$
zu3CBq%V%Y2;(#0Vuj%f0TC?%b+dh;69eVL1{ez3&s%!jnpV6&9y2(ICTgu#F`e%nS
ze}L$_Ripj+ia=+s-t>#N=Z&16hpayjTz6GidJ4<Ou|)i*ud{{r<(t08{;2vbmja!X
z`i|Vul+<S*&M$cyzitd710Bs7hZ^TyhjV1tu-TNZX5Uc+I)P84(!Z7NsYd(8QWh+q
z6DkAWPNcR=p?#wi=n!X&*n1w151@U640Ik)f}YtQdtrw54Mm_M`CUfs@)!PtXx~`M
zgym!6)n|9pL$4d{8>K+!jZ5Xy@eA<_Xx|_M9qPdk3XPsU^Jw2t1Umd{tP3<IiU!en
zx|9LS$NtB{U*CLH7IdDL0v*ql)%neQ9hvAnB?FzyPfFbQqUUDOd8!C>a@}4#Q5vL@
z(RsR*4$G&ReL}(`?yG3{!Ogy+Hy?_Y;&iajmqQ#j$nGt4$=<Ykn<dBejYkxm4)*!Z
zx9-_6gCiT3t$bX$<XA4{so`|6<Ei}mSno@{XTSQ7Sm75L^?j^39qf3nUO13Z?^P@E
zes97sr%zdN(-T<Ev)@fM*2>>DMmdM#bg;)Y(4Vz4W@CXka*TkEXP3pZF|9Zi<nRHV
zEu7BM^Vv6hku#KrFCXl2afTMYao4cqL{1jap?Z|<Da!NJKn@A$H1BEqR8ew)4>^iJ
zN5=lg%zwQCmW><&&^h&Wi%#kBxBte|lnTo^=>24dv%TxToFjow(|*Z*Cng?4bX?{@
z=h!#HXzSI(LdX#TI#NoHZ9182N0BrB7?zK~T-f+$X~PT1p#q&S`{z=RW_fv$Lk2n_
z6qWW7uf4g*Q3E<Jd#92ft$eW?OBwyPmgPnuD^3TyA9_<GZ`p0@v1QvGX8%!wHLocJ
zU(VS3*l)vRrh3$EluER$Wj^!PypF@^Y{R@B=X9JaLBspPK}FAi=xEnR-9+GV9kO|v
zzqr10`)tMz#hVG~*XTIMgUv_v{fCgwt@oQq<<5UP52f``fsQHp<szr#)3`TsKJShW
zk3J^>o#EUs4hdp!w@otqQaTf6Q$z$ho<4c!n@ei~%lcj`lY<<U>B;!!9h*;({~qi2
zqQWaJ!_o~?gdSrm(D`dGtt<7mxw19vc=p)_`Va}|P%EWGrFbfjrv5P8H5e<YNd!8{
z2mN=-RvQEaoKY0%RJwMQ{s><_*z2I3RqNaBZoX2#<sb7Cc0cbc#pz&kcF2=_a&z6b
zt5>?y%8eC{uOZ`fu;Y2tSmehw-8UWQ^>C1`ad%z~=r9V7F&)(S$%*z2R-6uY-{5(*
z*W>o}buZAq(VK)XXY9UFeX33R%i5!4v~Q4bjt84FsVF^DV5D~m?Hfd(Q^ynF`pUP)
z5A7RtoX3S7kEl#U?a#C;;%MKX0v+3%-|dFG6y(vqK>|8;Det|{3-azl`vwu{Sn5pt
zFttvsN9QR$5#PLH^C{OXV);FLvkjf6RGbd>ywJ}x3FZk7mqF(#8K;9C&zt92T}tje
zm(Y2th|~FB<7o`&qPA&mN9QR4=*(Vqc3ohg?I_-zt8yUE_*m0Jd^uys6L8|<)}1Yr
zF9m80V@tNU-ipNOY`|RKRSPKTKig9Ck&^{<=4N`jH>DjbK@JV4gPpGtsr!+A^GErS
zL&51_dqlc^rv(S(BN>q6g44l{C-Y5q&W*1hwU8qLbZm9`?Vg`ewL{K$0={|29#@m=
zeA%Zf3M0tr!0BL*tJ{)=oynv7J#r#}PX5a#?iOdd7jlenI@lhOs(IK&o30P5$dSP5
zV2|s^(fPp3-;+g=GaipGXRKpvq8b+2b5kEVSvVc+aixywd4xr+yNnzPP6s<4{}Wox
zOtG|1<f!3vu=~cT^HqcX&r1#>hZX2>r4c60l5QMBPDdOpXU<9Q@&|#3{vsz5=q#Q2
zIkPu=`t)G|&E@JdyU9jC=dt<^P7je!iOAsuIu&_?2ZX+NU6UAkaG`$UAgSX4zI?Fj
zM_6ysOVNQr6ggQq9qjt)UDa+|6^vR%jtfo)yM6|^eyguB*ksDfu|9~r{dzYMr-L2O
zDY4zf-72q5Tzuz`SMh3Ir^n*U2kR`my?V&z(a3}xD$rR|HF$<;OX~!3NI)keg|68*
zeKu9ptwd>aUylY6=oDG=MmBAZ+l|&CJqBMs*!A<9C%g9I=nv(t^{2OUMvS{Q;dHP$
z%M=^+Z-@;$i=0rPV_fzzb#;L;7Og`aoDMhUam#`0w#5Us<8^2qM&fj^`IwJfZK}ET
zH5kpi3r+`nT@Hy}GGD6L_gbgwE2Gq3Hyb0I4)*z1;pUv7l-AY&57w+;xv7h?A~+rF
zeC>!|TzY-=XlC)9C!zt7n{Ex=hpitYhAW0~Uqng!U($jTE1ry(;&iab6?MehRrYk*
zq0iT2oVFT>O@`uhu=|gSjfUSya15LKn!fov-t4=La5~uW6pPelE_*WVM2-m1QTA?F
z^${`7$z;z7w0XOxl70_g&e-|tdG|Smsh{Y5mTgvtWuQQU3UszAbUbC~+Yl0R`p^Z3
z$K6#VptClLJC8AD!IN)ekJS4rR|O)_@$r77cqLXhKQebc)9aarU-W2LJ_LhH>hp)1
zy>H#Tc#-*ePdgRp)N1UcZT&iJ&1$k)D?KSHgamXfJ=jIN4ev<V4XZ2F&hP{hfeyAu
zM2~{yqadQ@RaCr<HH7?nb~-X+2Nme3zR^*r?7ZvA!z*ReB`-Nl0y+u}Z=Gxznst-+
ze7N0rr^1g2bXcf@EhanfF{(F<QoIKjx6>nG`GoCSz8K7PuI84R^YT^E)gx4(!$mu4
zl_xW&DY|Q2LNsd!i3D^woE#2#G!lPoU2)sBkKxoUBGCCAqZWDn%c&ua@jAZ0Y@uBA
z2v|PWiY+H3*hL!+UW(mZt?;E&fzIR$otcVJX<s4jZgT}HUjqr~Fxn-~9LP{DU#nuz
zbAWT@2NCGJSo1!pee}Sav+nvi?D`TZ^l(@{w{@jbHkz6|b1Q!p``NBdkP393zWmPM
zFnyG?PJ8;R4bKKK641%litKO|BV`IwuAE}c&n_ea9c)jJeixR{4Y5D=iI$`)?j$d{
zkWZUGP=U_PMTZsbii4z$sf$uQm62yjK<9<YF3W9&Y<`wgmtL0l#)lAr&LcCeh&G;M
z5>9%TO?}jEn$qvU@-f~c@$8v};Dl;J<!no>8<h%lc8-snHQxRClFrT5P4{l*?;!yl
z%7#B9r)^6)quZHy>>Tt2i9p9b__>+c^}v~tlrz#B{kwM2!(jQ?E{7lKy-@Thz@ekk
ztHtaO73eG+W|w=X@ztDDkL{t$;HVi1=&);D91EA*{whZLc)WbE`Y|HV`EgAkwPc5n
z_fe}=f6e?48T8w*d<NW_aw$_n$<u5imde%x3sj(UUV_%Bv0v}dMQwid>l-`;NI*yF
z)GPJXUxzi>H@NyLS~R#4feynOQ#skcnbtl<zNK}}jZf*fVEG6w<vsbX%hI`U^%U^{
z(_%9f=)Bfe**}tJ&3iXN<P#rL@EQ`(`J}M1H+<QoEz~2;VD>M2FcIj~ECg7$_$+aa
z6>W)2$tv7I4~6A(rElQe>(Y7W@u%;?pDiD~O$9o}yszrlbVw@6(PDIZj~1(wfDXBI
z;7OL~#Iud|$IX-H(k6*OM`2LT?w6VC!|mFh%vz}*BIzNpd^SIHw7>h_z>iNuXgzO=
zLoXHR`0+KQ{8^+}mPZY{%k+mxl7Nns+M=E+Wg<SnXj)qC!Y_Fu(D5Bk|5&DGeY2P|
z<j`!5n+!b|me1Wi(y#9go{?QE<8op5+)5c0=<J*?=H+^E_xW+>O7SP39v>$Gop+B!
z_UA5L*eSKfq~prd$E-x4Gxl@p)G?liqbFo`+K$e2Q|Ljkd?IAkVmfX*Nh_rZcx8*u
zNl}50zCf<Pw@&88htYX6^6{s;NkAv8&Y;W7I+pl!>-n>mOW9pSpmXb(qho^2*TJvG
z8gHjwDzeZ6Vfk2Ci^#f)`;`QyFh2jb|CuHg=%nw7ys*rb6Iu}Wb(H^$TN(-I>>@Oz
z?`%?3{cE+Rh4oF6ClTmqEIb^H`*XcDhe@}N^dnb?eiN3@%uW@Hh3L2bJHEcMalhYu
ziVAf2#MTQh>Z@2y@;&n;=NrqCfX<25xANwdclHHGKfV=rMe_|2=sbMKerCzwP2!BA
zR(@R4gc&^mmJeIVzT<7@<02}L3lvGu3M^28PK@tv`N+6NWtXH^-|RLk{UiY$>sMX7
z#Qc615E-{s+DB`o5P?p_?N=O<-wti&FJSn>pY9?<zX8ift*X8;Z$pG)6Kf-1AT3{&
z3UowV2FM9}zAbGwxcOGBqsWT{bXd>PMN1|honH<=_wad;>I)*!ktBD^8O%$yS)GbD
z^mRS`olb$}LwBhxWe@$Re7(Hs-rSWMBP!65X-qF=yKucP;$)+g{`24KNkGR~y}K{j
z^i+Gn&z(lQjC#k3Kxf6P>-5V^gZu8Eb85#WRPWRMVfmbKd*{=x$GHBxwfec+0i55d
zKqq(qm8me>J$b(pyBItB`za)#^RYqc@Y@xG{Rd>KcXRK4aEl0Z#*M{~PHX*%bF6+@
zAF3;rOur7xr}?Y;&Ga>!jZ|6nx}`s-Pf~#nQ8dIp!oI{pV!-A><Nb|CNI<9m`nz{(
zFSeGg?mhZ8Ut#BYBG8EwNoKko9BX+bs6Tb?ZJ09M50=l>FWpblwqA>Az4GO*=*!Yh
zD$rr`6_U2ulG<!&-)ST?J@tkJbT)Dq{P48PqsB+<bEns=>mmXj`B#1mOQr{_82HzT
z_Ula^pkIUKv)o^2VQT-@Fk7f=JN4FyF)Gmc9l6D6fi>39E^K)2+WeaLB%t%0>Jxb9
zV$%`v-??^GTwV8xK<B=>T4>Oe!NaxP5&T^*>6hqNVfifNkDT49uq=3|@wo6AzS%=m
zpmUr)Ci+~2QSKan>-XQ%hR;brNBwnL%QP|RNX(C=Ao3T_dqkj9nQZJUS(74AtgGN@
ze{8vceg&3~wrz^^UkL**76zfo+Z>r!s6fZ>s-FN$^3e-|{e{2sotICOfR1pa(<9rR
zZjy7>Va>J=|LgTZpyNGa_1OCc)p@6RBRTS7fjQk5mXCjkj(wC6XQjDENj67j{8=i{
z$^IGJo@~*(f2vMAwyo7&l>~HldDPfReBZIq#Cz$2_~haQ5$GgQcv9s`1{Nt#-xjYS
zr+d)JuzZe8w(huRI!=n`nUT3&cfFqqbo%yhaFmWaB(Z+AT4`v|tD6LLge-kZl$HdD
z`7LV3(nsrAh(KrjwT<*AlTd}Dyu9a6Xg2uLePH=GWh|uVf0_*Pr1$7cow<FU3Uu_C
zUfRe>uM0Z6+4JHJ*7jf$&|#@4>h$YAog+E0XsLB^@(dB^wDv^rd>J7tyK7A6Sw-B>
zS-LkYpO&CQYkN+FUpY&OexI~FaGeTtey~5jqOXwuJ4C=)N$S%8nFMqQohLR2KI%C&
zRF`%^r#kQ=5$G`YrRRBj{8C#rPp#wct}CNohUL@S`QD?z|7u}4g~Vz$e0PxwbgUYB
zySq!xo;I_NE2Qr0?;`=7wz22FjX%n=Sal|1ZzqKn6M;^jjoQzRtIH>*F6uByl`##{
zy<qt$rv}~rBztjYVvT@&cdlG273l2C5ApF*&tDRuY%ttAu3kj~I$!i6jYBJnvd!~f
z=rC$;*hU08UhAfxw<nQ1Ql><D)2^`*=$^2AoE^?L>FoTrZ^Mk1QPFsi78U5QEbByY
zZWXqVPgZ=8BzPd61avO8@_v_oIO=<~Ia_K`M_qvkbQU*=|5#Twaj#WJ=^Me0{RiCx
zmXCgF1Vv1Ic}G^d(#<0sr&*~$=SbQ7acj$uT#d&W1Y+E}hDktYZH>QNLgYg}8=*cq
z8Mc8eBGAzxmios86=uJ`#kBnDaAghs5-gwWEyRWri}Gxj36<Do`t&U-&{=zGL8K{b
zwf1{~*1(~nTwxN>akMy|aHed==3!x=4Pyd-2odP)ef*-n>jA?8?F@;jKcJwLPJ-pb
z_-h}V^ZB?_!oQaG(XEB9Q-O|q-q_)y<o9C~<GqziT=U~3pff!<t5k5^=w0aDjdu_2
zc^*OpI#J_}iGcxuUq9`oycuEs;ZApl<#S)ja)VIkGl6jXBuAD<nXjopC-1`#Qpu?Q
z=hPavkHY;As!2d6?eNi@1zv>_UOj%V!>a5oM4+?p#Cjvn`KZ$u-<zp7Y6!N{FT(P<
zY(1xa(W&Wv7th)bA+C!VRG^dFK^~8o)07db`eMGH*zZ6BI;~vuTE>SfW^|6pKHke9
zYfA(=-0yT!72C!PN86{=*=J>X=@(%6M8?$|k8OJ`uDfz8@bkh&Zz|BS&e6#cyH*zR
zOt0>Zns>t)643eWR<X85?!u~fe9YRI^kyd_(7Ej7z?l`Ze$UvZ*KPf&d&TH(uzV6L
zj-9=pmLbDyv^DgJ!Oku!&=LH-vb3khQd4d|qoHSFIG6-<)F!sw>7{;7O--&D@anRk
zBmx~1qgXvcSYrLZ{_}ZQKDBq4Z*Vt1d;hQh40NvcbAL!bXg&6?{|t0A)9-!nSfmvG
z>pugXuiInVCwO1;{p&xw!t#08cJa*;&-0dl{b!)V%>K5zkgx6Vzy34O$=auV*154x
z@L&HK=yXqAxlH3dPez}kNIwV5=k#ckka2}y!oU7A(BV+BdbwWZiR-`qGtjYA-WXUf
zV3PE&{|t1pSOPSYg=vhaw@i0|<zvC0QzBDha2fTMsX!-`!qs*_Cg23>Et7zb$m>(a
z@dw!7px!bO=&1C3CzPDIy@-0tbZ1yT0t}mVH-(XIq24kT=zLc(<nLbazk+(pB%l*#
z9pj#<E6{*?%S50f5V%ut-;S2AsJBc%3(JR9q3NTm$rBIMTc!dX#>zyi@satXsJBc4
zI@r$%Bmy1Z^q&$20xwKZZ<&4umJjhA!_Mj-6TYaoOa(e*)dGu0F~-TLw@d;$M@;Bi
zONCEFP;Z$CbTVx`NBG=36i{!O?gY!n^U#IptlB|4)LW(kopbsFqdA*@Go#)z3Fw?2
zysU2iWXomLTP6aXZvj_Tjbtx#px!dw5th$@Hrumrg6)&2w@d{(Gk0{3rZN8fg?h^*
zpu^y3_gL8Hup{a%6M;@(W?|`7m6%M_Tc$g}@=>w2{S`LExCix(sX!-}k|EpF8Lf=^
z#w4Iqer58DQHz*7>KhY*PKDHuM|q(E38-&Ow}<6(x$yIab)TYEP~VsebP|8f@gJ>g
zdW`zUB%ni#%M%;T?5sz9V<ONgm7uEkQ?{Q*ePg;EET5$%Q}z8~;rXa<Oa(g0j}(S`
zMEee+zA*{t6h%&)s1y+rLVaT*&|$5<%`8$mJB<3qbX!<HUsbmji@mrjkNU<`pffUh
z&*+no(+uhxlYmZ@u&ZaSK3fp#8xw)ftB8n_jF7_w)HkNv!1DPUU0nFXg6Tc#8&iQ!
zoT1Lf31<El)HfypovN1^L2DHD6rjE_5$IfS4D0;hDl>xm#`M#$d@?y^7(5sF8c<J|
z3UnOazdvfYd}$l%36p@1V8-uXowJ1#s3%MWI(r!x0vQu(8c|P}ZVk)lu<YOg?OY#C
z)Dxxx9lcpLOQGC{f~Y4<0y?@IW40%D9ovR_!bG4W(e1I$v0|e$>Iu`WVELF$&S#x@
zkYk8?!c?I1{^hNWb+PA*P*0cybhsX`GH&eGl|?;aBG6%W8hJmVqd0_m!gNbmJ|$Le
zvKeKsgiueI3Uof2evfyU%*;bQVG__0ZgAZ9w(ZFV)DtEGoi|%uOV`+|t)QMT-2#@+
z`xvvAZ`EQfP*0c&bojNFK7<?#4n;j-643E|=b`Z_v0@(ego!}sJ7xNg@1e1as3%M}
zhvnma_H37wkc=hj2~&a2;ofs$>DmuxQBRlzbQBh);~S^9OroAJ5$fpE$}**5$*3nx
zH-qI9>Op>ze|$^|^@OQFNA1-hv1hdHIqC_MfX+h~0}|)aqi;}8m<V)syx(faGG;<W
zJz@GOSUx#Y#?HT(h8s{%m<n{}_V^T}r`(c7Jz)~iX%C$!TQgHkM}1l%&{1CW7`#}f
z*nxVd^pmiB+T3=Ws}_yji+ZP2ptGrk^&qV;bpZ8FNkGSS)9xAZDW*TDFG>VDjdO?2
zH>cbvKz&iVDJ&muiywN<nZ!G&FG>YE98U{BlqIp<Kz&gX(D69HeNFxQO>xv0B?2Aw
zPyNwPPfN0)z9`)Umd~XfQX@ZzTE?g^N(DMuac9FzBT~FkUz7xNNV_V&28MVaM14^r
z&{@05Nn`UNyC&2Zr5nTY3Hr9X`LV}4XVe#^0v(Tet>{NjHTI#tC<*9r?nsp0MA*5A
z`l3Xj^H%8WBK@&#0_uy>Pr&loWh?b*;@j;y)EA`!9b5BlJHlE`kD$IN3Fz?p8r0TJ
zb=#x9C=u#p)lN+s+MPx{Pr4B-pA*LfZ7A}kE&uwNKxa+r;U9K$=Q;lMGl5Rb{S5I}
z+DCT$>t_O;H!JmatjS5I|MfEsVfmyjHyiv(8YcehX969W--!cKZGOT3`k6q-=k`0X
zhu+*i|N5Cg=kS7|nCS!clmGge2C#hQXPD)k0!EYm^)rFaG*7{&@OO1e|N5Cg=gRKw
z3~7yRQvdpyK<CJ?uD?BzH{f4CQy-QO%K`D1Qh#;wP_L2-bP8YU*wgmjkVL&o63|f=
zG+{WqzSs%%Dv3a+c=OV4S>~kss8>nXgXL3n_s!}JAGP(US4jmrA$dmer#U7!p<X2k
z=p-~HS5>775m2v^2y|?`>m@fdoNhq9O1dsAAD^eCc`eZon@}H;3UsE$Rc@ZsR<uNY
zND|O7x@5MOS#Fyd>O&HNPKFiXDA(Kn`dt10^dafTVfkoUz1Y)xDZv5tA*n!T&&`2b
z?p;MWs1Hd3I-f7O@6u0Y<3W8$BGAzrFR}U*aYh~WA?e3p`FM({<{wSGWs3TcRG{P9
z`muZ^w(=Y5Ly~~bl-`&`P^jhz>O&HN&X2VBXR~%02B97!T?dxWL%q~>Wczn(P>+!c
zbUYtKvPD0i2}3<b641#@@+v+3d_ooV7>Pi~|IV6Gzc1fjqaGt&8<x+X+{-D`ufyGC
zj+_e_KiYhO3Ur3`ZOg0g6|Y;Hm7#EqQ}Y=K=wQF^j|g<I-}gs9iZ37R=k8*^@2?c6
zgZ-Ra?DzeVfzH|wpQ}Zc`9{Olx9_ksGxbmeI<u2n+0|<`FR2d(xm=<WhnKYQ<%2yg
zH??LL!Dx!h?4{+(Up%B+r9eks{90OcgynK$$>xT;<DKbbpwkz)OJekl+><fG#{a5K
zP$m_DPAgltg6L0+L%W=x&hW_`2wc*H<@2#YzTMl;KKEZfKqtV1%g$@=({tpIfevd*
zPW8ZsdMo580-dIdTfX_oM~qawoO|eRGakI8fiEBI`IVa&V(Y9U>W0Qc!|7nxp}>s?
zr4uF}525i;a5~uWnD1%-D_6)fi^ija)4`7Cfb!*)aIOJUG#*x*4t6}mga@a10;^Nd
zcsh>Y%NaW!u7EK%n{kUeG@eMD4t6}b`gc!1NaR^X<1xqSV8_F;<G(&rEqiz?a`=Ew
zxumSLcAJxeU}DI{roz9qz3Q-hzA_8eq;8dBLF0)7I#Ty$0?)ls6h-4P2Ran>ihCo)
zyB?tN@BtkeuAH|<n(O`@SFai@pLHHB+(jpQOVIj>!|7nxkHhrmfrl){S7KAyE9S~K
zezL>qVAqe07XL@mgF|j;e-;5c+EQK&X<8!TDCeQWuzZTWxliV9xIBfN6rf{K-+x<0
z;MYIL4(OctTKY0Re(?voo{9jSJxtya^=uBkDCZ$nSU$D%zIG#(*TVnu0XjV8x8H2K
z(?>_^&<>}AU56}B-gBn+Fw@X@Byc*|b=Z3D+Ng2i39eAh!QF9>w3NqHVENejyG-_b
z?o<#s?oQkuvVArSr-MDNf(t91IkM%=OLan7No#(FkZ?NK<613fjQ^Q4`o!K%dwYl9
zFFzvCp{ai}-r~56$?{#15OMlI2mKH%pHjzHH!rPw%7k*J0v+Yq;ntv>`Oj$HNkGSK
z$hU6f*1P;?o4*Y33uK27aXQ%fs_++&tF&0+N6){OlwtX3Q@5AR(o623=U=5jM^?dT
z(5lr>z=X0Gntx>U8X4$pYE<S_D8D_!BD-W}@Ii1=5$Jqe^)O&me_tQRzPc$|dnkYD
zAS@p)<IMI$=aRzEe3jyKu=7=@yQ!c-l{eyAae%Gzu%$Bv=wQD$SqG<sJx>+<1^8WN
z|7Zq8@o+5PwCG|5Iw9)Ip#`t4@1Fe0yQ48tovld;mUHH*qSm_=#<#UZoAXL!W!XZ3
zPMsHHVuS#da@X53cf@ZgUkB)5zkit(=<NArX)8DUcBZtW@yFlbE2d3~uzao@VF@0R
z2p&{7Uu5eW`En@~=)9PGTftG(XTaTEXm{uE*8v@%b9Fl0JCyr6L1lZUP=VIlP*$K*
z-u0&bn7E=u^UKifx7H1(Hz~mKaUNN%b(1o`nC$kEm3e~_DHQ0GU36gxoYAT_{%M`6
zT%>HLgVVvD@4dmfuCF|U-`VT<Kl~x6u$L33gFR2L7|Ctbd+$Qodvx99^FwzUI^<#b
zINf!e6^{>%y*C~#=Q1qc6A5%`y}sTsy=!K1a(jW`aJvwf5zrCt%yvpGR_;+|*Wtfm
zq+QGjbnZVl|HdyKotx$26Q;F#k=7xHFCXmpTV?KUxWa7Pck;nI#whnxzWpgU9qhb+
zycHDPFq!j8$oJ&Zi5U)87n}}u-f!-2KI|y1S8ixI(2}mx>ns6u-X2$v(r%}&Br)cn
zCC-bwj?2RG5h|Q9Q`{WudGOMX0m(y4gi@Ri_PFY;Bwugn{WXcMgJhfzHs^KHEo|k2
zyUWK?M!&6Pxe=&_)4`6XQ|(8F&-{lTbR8rBoygn$db_WsK0(((+5vnyW5+Y`eD1AR
z{nRCN9i#vqDZO8Za%pi?bRAR!I@s?MCjcGM=_?=3=`+=%>mY4EEFbqG?WU3HZ7JwF
zNC7&^7DBIzd_{ZF^-B%tC|vJhfAKl}1iF3^fKK9qQtC<WK~;49qRGJWsoZtu!cD4$
z54wI)a5~uYtGtJO+s5!_Z?r$_;B>I-nPglPnOMeai}q($oDOz>PSbyoGFaTXjP~bV
zBEEdE$HitFpL@zUb}ibUQ*b)i<C=YDW2{`$N<jOw9nfh$x$@GnVDoXbKa1dWu=xmG
zm8hHC@nARFpXvMX<%2ygr{(sC#c$tlLf<b;#pz&k?q1marLcHk8FI)#C%CI?B}jzN
z3^{5z9c(_5#>`b4xA+($hZCoRJub77FPuMy>i&I?eD7X-Ib)p|?#-JP9me?3cv5gW
z*yCC&r)8}h^rW}Yn|m^pt;wB))4|UB=VzR=&o#c$mhL+9Su81!5rNL!9rpGVcB@l+
zju?C>I5m()--9n7?06n(rkqe5`lN*JZ%~1byszmYe?@6abbo^cbg-{q5P=SHJYyfX
zL|q)ZA4T5{%Ln^<Hx=k$U+*U2bg=6g`+Bz`P6s>h*w?$4q+$73T`MZPuJHQ`vuEzP
zd)FouN`Ve-T#R+O^Gd_Lr<<2n9D?V_KxfN4%U3LW7BA45IR<4Kc5P7vI&bze5Byn8
zE=A6g6fB=pmhl}<N2?Q%QwnrgFI)C#TkN}r95T>Zx1W$bTp2jB`%9DOjM`prMWE9q
zvzJFIpgjdSOOmjBx+z`?m6?HE$SDOn8-K+LkDdMc1vzA(^W^GAS=)2Z&m%_>===_;
zKlGV;XB0V060m#{xpYYmwZRI=DFr&|DH3C!gAQ^ahYWO%hTi*TB>d(cauk8i#y(N+
z-~BIJkh8Q4mXG+$lfl)Ew-k|63Uti4<(X*lI{C;U1D##3T$TLF=IO{$1Ue>XEu<W@
zj~F3mNgS5Xfv?L4lCKV}MNTQud6D19w2k{a4|2#rXQ`z^*6)^6GIA7wPI6M=<c)h;
zd$R|t4*a}yIbvxiET0((-vL4X_9Enz0-cW~+QvIMj%`B@8R&3Cl?1UzGG0TDBGB2>
zqeAX>u-#Jmt#|w8kt3IucEIwvu5uuE#4%tKa!P?tW>J#yoZ(9r<dA{RREO^~@s2?c
z<R}6iuU_G9ea^U(*{{ShZjb3KFNxvH2m5&J^I(3InRk_X$MUTI<}}6+G@!HOf1U4K
zCcCDXhwy{%`KjrlIGr_w|M$;Oy3yZamxYMN9}=(gTLmWVa5~t>hY8{2cINrn_XV77
zyxH|1kBb1El5oq0<l)1)*||QVH-uGchqmL(89SaMlE<vq)fEh*`AWg*VCQS5BtGtu
z4`ULVFBhQWJR983%^}BFm7PX7UKN)>#ObX4f2WI}Jx)G+U^4kDnlDbA4mKa%nSK_l
z+Q3rebcn)ortVxHy{}<QF3LF)r-RM8ar$!Vw=~*sl(RX|iOT$#w6B)xj&c^k>0omf
zy|>C=>nlq|`4DhA*qql{XE`_UTMdXy9wn(I_FB<IU^!={o>D20@o8N5NL4oCREIPL
z==>s_{k3pr)CM_fKu3R@Sb?Cziy`C?fX-M@f#!}0BVFXsgkkv%NMCeyTTkYkUUkqt
z+g^Hw0(5#k@4Y)Vn05#`YCvcIwG(1@oi@xNhX8bh-|_vNbAO=Bb%f{s`q5(tX+p4k
zMk#88YX{%tqvzcepu_zuk<_|7TMIq!Rs%Y^tb87KbwyrZtvY)tYUf>h0?<j=P~4h-
z$(*4`sj$LRl(LB?2+PMlQ`j_judy?7C_ty+a?Qh~u5l`I)PRoK(YbZ*e7WuB&b<z|
zlF1YTP6xZMPBGg)J$3wU5ptTg;mZf>=r3qQ(N_J|ASV*&R2qAU^qJpuM2<PoIh~-f
z{xomS9dv&~1gC@DpY05eksVLh3?pYq0AD^>C%$`XD1;?P4>>77Cz7N8&F%bfd*s*w
z9p9#a+P-jcIrO|q1nBJT%Iz@c7qdmq&{kMJF<bJ3*UNM&Atwds@b+7?rFsT^M2;QM
ziA$HcpB26D2XaJ!PUF^rP9L+n732)@!}1BdSvR=n;A9VSQh?5FM%Ohwdo#n3V+VAa
zS85*&ijAuvM+E4wr(CK|dLg+PIYWG~eAe%2&N<y#zZW?vKqoRKwCM4>7#ecyfDVg+
zov+08GZ&B}0(8dOb8Ux2j}wqHv;~$=ubXyYQM1=0<fH%{-D??RQ|4yX$gu-Dj3(=r
z&yYq=B1Z)1bUJ+bGE~x+Y3n@m`Pp4|)gfM3KGj<!H#D_1|LPKA7U~nV3Qqw#H44n}
zHHtS<(0J^C&W<P6CB7p%PG~$LK<DdL*`p@KNy}(FLp-p23=0j9Jvm=HgvOHsbR-1N
zaLaVsy>6KBW4**1Bxwh9s#urk*VhXkM2-m1A$IPaw`_cU2{}WXVfk=a9eJ4J@GKhj
z=Tm^r_B4Cymd+%7<k$h7xNYMNW`(m(=)Ru_(5VS<Zte8?riz@QO|X2nGHIsY8DjB9
zP72UT7me~$X_>u>96O*RVzby8BRrXp?)!-Vojp%p)dt_)vVxo;Zdg7M{&nM~bq@da
zj{N_*znTJcye*Y=$DW=yLyjHLNqj4jF2C!EcPf2B%|h^iw+PU&%HBSGRd|;Ua)!8I
z`D7isPgOqHv<^8bK!<fwp`}nz?t!qcbwO~EU7Q`zQQg1$rSH$)3gn0Yo$D_YBGqa0
zKan%U3Criip76A?XR?(RuB%$r&yD$0fKH6f%O9E3d0$#X*OzD;PR`i@9lx5{iNUt7
zJ1k7NLoKek-xUEmyY_vfZnQXlE;_?X@QU2KkfDvRd}bm>ZMG0!4fUz(G7EP;yqyAc
z;@UoXY7|7fYYQp_s9e%JWCwJ*2<?0<PBH4}eNrMor&?&#XSZCC8@gT$alrBsHC>X~
zsC+>2-}(VMY$Se%p?zO>{98Xj=lr=a>AvS`;&<Ohv6c0)c8dU=S?|)vl8(MYN9c>6
zQ@k#J9Aby%6Vz-H&ZeF~M(Z#I=nTbFZZTaHiAU?u4(QNE#NQ47$?8Ck2+%ncH<`S(
zK4}-4_n{52d`>a%T+kQR6GQW!0(6{?Sxv1!z*B*a%MR!~ALd+fI)A(iIU+!ZqEN&C
zEvuv-y^m~YJ-&Rf_s1A`B|F?d8A~H43+Qx<5k*HAf9oQL1ayec&o-D`OV>t@BGA#<
z%8{(GCD$13V+5QI_WqdZkG=XWj*?__UyH_uFK4X7v?qa4f~DONITWB{aKKRaa`Gk?
z<fs81k46FO?ZMC4kV61ETGFOnZ3+Ay==m~j9W0-{GWH=>=SX{yLjgJipGJAl%X2Ox
zM-Axk-Mh3U$?NF9`v3%>BV|`~;(<E#-+f3LD=eQ5p1bLf{bh#HaZ!K{$7@G}4F;7t
z$Wa42+M`b&oj)XAiyQ*bnSNbpZ!hqk0XZ}lSU!Hn^|KuVXG@Sn0XhvAgdfCSWPFGm
zHK3Etv&U%Ecw;1T2tenl^~VkD^tM&x(3oNQ6r3wGon!gC0XY<)^JcF^U@pTpPUNTo
zotVIpOiQIbmB=9gopmukLuI1*c#%U}3(IG>s<eZIEK>@)UQmF}4r%|@kVj{CB1aAA
z_~r904gTu(e{?j+D`FFQkN|Y_NUyyI&ktWesV#H;fOGpN+8TWMti$v-mQGZNZhcJd
zqx)^+uf3H`$LnCPgC8@7&cr<OI1@%z9eR}58b-l69_-^5H%X2AG2%QYQ9e329qf2`
z#VzbtO6pU()}P+a88Pn43UtP%Rm0cs9ydfz6BE9ivEwN_yHp}NLrLmTEnm;SX1F*M
z=v@4gbSOW%&5(SfbJb3SJxd3tgUxwNU5PO2>-6t)dpL1A*y9=+Ot>*o5^93hVFx3=
zd{{B-P-$b3&TdKFgv)O>O>o`wDs95)VEbd`-j@P948kuWCk5y<n%D;Obbc-NTaG8)
z;CS|u40P%rK6r9;+lKeZF#<Xqy#0eW6-YA-0cHhGF*5}cI2~+{s6gPOC%J!&ysM%w
zB<{W29#)(V_WeZX#h&sN9GR5xf5G;CYW(r~UIu*gj$J=SrdMLOO6aVqytjAiMdOF=
zIGheUX8pJweXxzrl(1-iOXgAEjkryvI34V9IbB<{-cV&Pkiu(6&%C~!6pGUk$Bf5B
z*j;!Z-*>OXzQY@9t?MF4ICIA4b8_^8SkCftpHGs?m_u6gRw7OZdtBFASkx8$sn26o
zLWFjVD?BFPbg<)5WDytMRIsw3N<U~)!~b26hBKc{n0%%jZ$~w9ad}#%eXBTl-pha!
z=XjVgjz=-ET;u5_E<L)e@9?sx#1hW&V2|swKo4t+0pZ!4|IF=K$=&bqt{<#}{rpTa
za6H)0&r}3DVSfTdjcdYpaW(CGa5D7z+a&_*JjLE$Ed@HCpDNW!#XoRMb#XNh6?S<~
z20C_J?hb3%H*fB--_3gONqUbW&@l|;{^UfOi(c9=@w=|OZ`;z}KY#!G4`!MDuV1nA
zu4=!&EQtNlIJ#d~3UpW$f4SUd5*d6K+V`DfeX%4N=wRRXrwDYg@B3R?#g`BE@doyN
ze>9v9HfQYn{wP3)>*JYgdOb4#?(?ew9qi}n5r7WUX5I+)nUfCaa|>yI@a2rn2mAT7
z6ri(KzWU4Nd-AO4bNSSOj#6-4p6H1_m&f9XbobxK(+NNadw-tx8<r3D{yYWf$PJIy
z^!+|@1?@j-KnHuDp8#}H6($3+?2_Zr{zF@V<>R*L^j>z6^~=bi03A{3pBDFJ$Xk)4
z26V0@Wt<x~4sk#Z0qB^p{XJG!K-q{K+Aml>nu+l#)Dx{IkwXDGIhGl#Rx4?X$Wa42
zs;dLp&)8CbB8LEUYP83UbT`Q5J|_7$su!M)r!B+s$r!yKuTWm#jru<npmX2x<_(SQ
zG$nLgYCtF7`A>KMPv0%*xClV!<iy)|+n##&qtD%?Ey40xDct1IXs&Y+?S~Yg6B}4y
zEod7eha5GaV@u`I-J*ZF9py{_I?5-D6VEh`izA1&2+K!)HB&0@nL7tME(*|j$5zK%
z(mS7rK8I5c=p3|GEHRa7ltJ@O06MZu!wb<DJ71yk&=z3%U_Vco0(2Pm<y_7b(#$$3
z=U>>CB|ugKI!W~fw4sz44|E+Q0G+yH6rB$#eJ;qM&BOB9D)TMfXYv>sITWDty-nWj
zgl`24a@2rM$Jz|%%e6FC<Pd<)%#_NLKMoN!$f5m&<&*Vm^6d|m4}8d>03H6nw2t#<
z?gb-94d{e#4PzsR?A?hR0?=Xjog|^BeJukyv^iKl$x*S6?^|T=qJ4}4bkh60QlIE-
z>O+ni(3yKbq;X_l@lE6qfX)HW&`(NMsxru-&BF3I=N@Rf-q__UawtH@(|Py0{gui8
za#jO6zpffcxefQ(pz#oZ&hd%hUvgnnKFFc{faUX|&%5Npj%qdJP=HRuv)PJ%AEzPY
zr~#c~U2(2grP6DVLjXD>$Ifulyfo_nonLfVKB+lED*Tzn*N{U2IwDa9x-y)vBG7TE
z0Udttr^&aSMVOF706OvgpIdZ}HfR33zR$q&IajQaa{92m7y7&}3efpOyU!mkr>Kh@
zHK5ZtdTq;?tTRJR<)USnXI35o=zIxzFt?=srI3+%)qO>cev>whFCXlEY^fnh0^`Sy
z_Rg%`!PYI)RgpLy?ENTO6~Rin)9GU*$HqfnOj+&BaXQ%7o3Qsqi8vkXeVZun3olhp
zy}9yaI{w{FOUqdLcYOI^k4th+|6<yT%o1`+fzDKtQ0kV3JbmO)fKI_u`fJwO^zF#e
z0XqKot2TA0>{>t$C(y|W=^F6aO9((t?-VR&;WFE^aeLgSkdp#**f>0tWe#uKjT{%C
zV;B_?WwA|d4|0e=N7>`kk%$KzDacv+2FvHAK!iyhV_1&su~~1yfi350I34Wye#PRq
zU^tEH_2$vn837qN=18DpoB!hVNY*c>{X4&ncN`lSvI9CU3H(lGEW3=Qdt0{%i8`(j
zfzDbPi8Uf@ZRQ0VR_^Mn)NUpK9kB#WlNQta`I}!|e;s+sMXX~I-+W<n-Z;<U!$H2r
zpRU`d)Xtn8m;!X{pId1Q*SnNNi#JrCuFjPp0iBsYO`=;CUT#0LQf^Zo#dcl|=w$5M
z8avms-AVt5#PQX~-%oP_ox?q9ttw&Xf1>Nf&;-7mvDb^^M|#f4R`Q)hPASmI;5DeQ
zJ^wQbIgvmohgC&XoLg3_v&MV*O%C&W7n~0E`i1?xN(rEYecft&9AD1Z@nB!K%EIYj
zucup{v90@|dS_t2xeB`~(a@QM)4`4h`}!9V=wM&}qJM?ugMHjW1v&@$?TY$^mLDX^
z9J-c2>#~&ubm}dcXSVH1u0jqGr-PlZj7R1I6rO;GJR58Fi)KhSEsf#J2Ya5bb5?HN
z_eAkv=~b6Krfi0%J8(MxYdk4*&A#cgsiJNrN}Kz7G~#eN*!6SllhVmUOJCK|<8X7J
z6GqzP-}5`|dfehuVyIcyARkT#+q>Ykl>ESdDvMD?ve}|ubln94P6vBjiksZCc|<9_
zf7WHCuNAy(N*l#DUs$KF^Z3cIk0CneMBEHQMt_%6fKD&-Erpr9q`iE{?$!UcWGz(#
zI^x|s^fmbM_PpzUINs9lUQYlzlO{z*u?lRpJ>@&OGf(?$rH#PyX<PlBdW;-cfaZ$=
zbn4^{=;OKLx@f-CfKJTY3wdMYoHJ-V1fV19HRl>Qu6YoRhxP@Q&xH#=BR%;-vaSW2
z$QC)=K2HHU&K;yi*~e8&=zfA4&{<PZdifEXG&^z#K<7&$p)mMzY9exI!?1h?SgvY3
zxfM*|<yap?-hREC0(4G^?Jn+Cd2Qn2JAb^2SM$0W&{=kS^^nb@kqJ2jptGiG@C?(I
z)(Pa$KEv|K`TN~wayoB~x5XCzfwB876ri(?AXh2(&42o$-N_Ao4$AM;fX?*!-Uq{W
z{<qP12ta3tkJpUe33D4X9@-ErA4xmjG;x;~yl6ZWpriAlDlwzXYAYI#8qmoyq=dYu
zXFfsWApo6Em(Qrs;=KIPcxZ#Ld{|=+om)={*@wnM0Xk-<R4bib5*yKY)PT<FLUrtr
zK=TM14*}@>f1KTSJe6<!Kk%c%sSu)6lB^I#q!Y!VLXwbVlaf8kNLh!BV?~t6R%9e2
zGD7w!TUK@`H0(mk@B91X`g|Xc>-*33xcaYuo{#tYb&dOWpL-m<x^mT8B}59;Q#p*6
zPuy;E=8t#IkU>2ZOy{#DZ)VvK$8De<GNvPYhrlQlU%nI6L%?*dTy!RkJ^DNY>Zu&U
z%cm&1bHU&}r4!Uc!E~lB*Ea_}uj~T#kTD&B4R!Zt4>unI^$;+fXY=$|zX>oZgL*0l
z@$w08PYQ`hGjaykqbQipO(uulWY5e4;Cd7p)1k)9f0t3dVhXND5ilK@gc<U?8~m@p
z^{C1LynO6`i5U!+PaFf+qbQh8-oo5wskpLba6O8Q=@fordZjnkzW}aB5ilK=v^Z(*
zm)<YH^{C2Ec=-s{KKAQ~w0{S#M^P}H5`$CM>Z*7R!1X9HrjyshY<iF>^RPxkUBUcJ
zQaAz8f&V^b4Y_`(x!WSAHbUr_<w&%1V?SO#fu_#Z?VYbC?{QGlu16gdpdvbOJ(=&F
zO;emJFRgvtyM<7jd_^76f&U&1mN#&@>m|ng`D%yJHj2|<W<&?B=ey~H!vFbB#P4HG
zZ^%+Zvr&D0c=<S;61_e2JNdn@IdNjcchDvp(ShrE_eOub=oPi#>ts(TYw#;66GR8j
z=e2_IXVI6E2|A*8pH|gP_i`gTa6JN7xtrOE+XA+wJ$O@F_org27cU>?Et_)Rx6282
zWN76&7ggz`BRX(BrTI=z10IKV$+8#a$r?yAI3PN3J`=JwYY!Q@9{j6V`qn;0HzS7V
z!1XjmmS2<*<Y=xa(h11Ebb@B32QQzZM{e>FjJebo6a!b=Qk$Y;L<g=%lUUirY(Hb7
zAz`8zzk2Bc1<`@?$!E88@k>(6TU@_392N1Bj*RHQ^;}(2d!H6p@~k8#sbQjI=N2NO
z1J|?BZ|3xp>~Nwyv~53Y^tfeXH(JhcJ;F6bH|hdYf6%X&2{&ENYzjwo;CkTe;p&)9
z-bi<c!|+9g!fMSh)wisp%$QDqgTLU6c6LN>S8#;dLgBvlk7)V8edWHY+v7j({|7kX
zn9h^HitSSJ<wf9r33W`TwM%PXw0x^GaF{V2KHbxEJT+cQT?u8RFt#{Cdlz0l6<m!c
zmNl>X0w)~Pc~HW2HPQXbhx`vJ?|1!jx}=Wiz`yHpSRcQ_b16KB#W%Sw(x&7rH=+ZN
zdxErr=GckaQQ(Yr;^iZt>zo)CP~8#kGcb19xXmRA)4A>R{I0u~ebCAKp+h~#l&4HE
z9q(U9796~I>B0Kq#&qf>m)5q_@=IS<-5I~VdQ5V(123O<tQyUmO!VFlKbiF(kgXF-
z!gO36jh9X{%!(@yoOn{Pk<4y_=)n7-e{0^K5XIvT-`qIvXFhscEQsj9^9TOjYN{PC
zAN}#d-lNUQV}1c^HAg1jnx|trG9B$2(~ai&&mxa^m8H@*T3|Z<5q9N#gE1A!Z|qC2
zc+af}VmbjkD4#UDdh&oX)rOakhXEl?P9)0$IO&*<*BdtXs&F2KgJ-mCPmX*yvOsj;
z`SW-4k*Cyz%@$P+pWZA=^<5Xkbgp_0cnt}z1OsQK6)hjQ9(Hl>OsO4oFMv~t>3r;+
z-u2M-pB8Yam=52ghv&<>84DS;gQt38{z<DNI`BSUM9*_<e~EVBt_=zAy$6m2aU(kL
zI<+A;S?rIXSb*c{XbW1-umgVwGYQjarPUjF7xo|=)MJ9_ym4W@lFi`!9XQ;W&h8M-
zRHtcrZQzVH<K^>C``7X3LA))%Ny2orZG`OiMU3_X#{|<E?B}>jSFlOEWmR(W<TV|A
zZcOL0Mr>7`z={s|9_#1_ynGD%w}0Dp!LI-~NtjNjNV_j{;AcMYT~`xKN4{}y%Sx%F
z6>zvQoovG%?)zfbGU;;yk7OI}J2?6tEgyKj``^-zo7DW<Xf1j~@Ob{=+FV2jUZ-yz
zn0Ig(o@H^)?jt|9rupoE=)n8xp9-Cd{yg<^;E*sKjT-|F0>RZMfkVJ_-mSOQ|GnpR
z5uC3!HlgJV=OZ>FexbA=@Dp&Tm`?5eS|8#`g#mEhtBmP54cDh!`LdY;>LFq}H~M>}
z_DUHGfO;Am@$zA|QF*bGy*?h)L&bD*cy6~fzaY4SdXzC8*Y>yJnm1eifqICT&X3I{
zx8~#he}Q@$8}RahpEsvsI`I8k%9zgVm3-M8ohSuxKL8Qa(LC_8v%XZoLO_u$*ftsU
zwXq&AA19ggkE!LOTnPpDE``XD{ivAE?;V4GY&NHI?o+WB;|btdP)2m%eT+&}7>Kv&
zJoatQ{roHOf+%K0hZ%Z92>jj^)Oz6k2Y&AX5wRZF2~&P}Xy-_`xaH=nCT#NQK8<x~
z;|1rlL(I>W<RvHJ&7u&XH0U84j_K??IcofDo7-=2-lBu(z<rIz4n_M8bGrbC1Jkhy
zVR(4<<uM-M^wpx}1J@(5!Q5sXpCbdDXiVqWP(Qhc`%55jbTFN2J-?|fyH&mbhXd0Q
zG@S7jVX&R@HHkSh8Dmn`SA&)hJb%7@NS6&}Gs%ux*r9qON31sq(=iiv&*DytK4*LJ
zenp~p^BxOC2Y&ydW6_iMPPF>H62oW1o&|SkpgQolORJ2_8igG$)}Scaog7J`6-2BD
zcC5@;?M+OR0xmmxZu+!zZhWd5FK1V+YcC@oC7=H{&1bu^oH>+>=)mubvvbj0mh4nu
zXQaDkx8(pYH5}1_`>Nw@-0mo+`au5Ps{iOjMuR%0W8WER?`Rh=tv9-)<?yVM$c*U_
z_T_Dlu>0h(xa*<Keyy9i?Nw+w!+p6oDHXdK=yS);lJ10Yy<ZH+bR;X%6VLR#(2edI
zRXcb6#V2)4N9Lx~fX3p<E0q094}_wEW|<KkCg}KeC?II1s@=i-VqM7W&6zD5Bt!?!
zXMWu^y*}8>{-H>oSD}Qh&`Kp*&hR`e>e%m7E}W}+tzSEJ>f|-2K12tuXHr+t{LP-z
zZb@&O{@i}hP9KfwP{z7f9*^zT+s|+-#G)WWL<iG(!`JpfG5J!Z)g2G_)SV$k9GFfs
z(S^pvO#a93CR<s~{VC7--l63T=kwwE$LX5$ET2DXyt>VhvyT{!>AZjA@@$*mnAoGr
zzsea=!dr9@9r!#-*Mx?6I)v%8u<OjYJMpi1IHCjhMIme{Kk-U1sacwxd#deRggT~k
zm#Hi3=h)ZfS0?tq7TB8_nK7M@0~}@FuU4@on*3X5jF*{cufQ8G%k?{-B(Kx_(|@Z<
z7FN7b7>?<12^5P6+->?7-hQM=MMfk}9n+Z;{^b_$qaDu}d(8Zx@HCYf(=n>~e5OAt
zF0#LFcU)||VQ70fUOtuLXQ^fmpGVDQ@9`XHiZ2VtbfyZ5In35plx~c;EA35={ilxU
zJQmB+;QQ5OvB!&5pqs}elNr-_DxN3VJ?yY${<i1pSxJkJ?PYlRkUd>$V+!<N=m&4|
z^$hv=Djd_vJ2tfz6PTQ%OII|ND(ftyj_Fk18&sUj{7(F4Lub;T^x_*cremSlf3V+l
zm)PG)t?N81<8RvE;^nh^Uhf0nmYY=e=ZR#-TOwNFn2rS9pzC+F#Q0Y#nH|6V2A`-S
zI`DPB-(4$oYEM6w+1QuSQq?~)b0a$Ne#mXX{jz9F|L{jc6)hj8ixs1#X!*d;0c8cq
z9eN~|e%O7*@@(+;o1Kk_4qQ(e$8Wk!!w=WkbyAgYTP+=;B04P4c}r0Co;ntv!VebR
z%xv!EueYMs1NTMuMB?-X(L{#6SX28~=705a5$l2bI%FiIkalHzoaYRGr^U7J6%L3F
zeEy@G!mU1NyN~N_=1+%(lQ;O)5goXmjRcLIKhM5!+dN78n#Ncug&EUf2rAvwCHIiH
z&i{08nO=TpdkNb7fuFMzB){!q@uH7=z}Q{UO>3c%j_AOB>HQXH>AG{+;KAUjj2m1t
zoEDhQ`8yTgH00`5jUCT?dhUKsRS?mE`zq8wVDD5#KVzCToA9oc?g9bPfyX`0)-1D0
zWa3kjrbo9%!m`I`F<Q=WK5t_8&g?K{+D>7Lx-u9P%AADgz<u4^mi(0GYHg%^<nb#5
zwR_uL5gmGHoj%uZy4IxMJmg~=;-b8^CBg#Hf$O={B^tDxp5~!DeKv;Z5UNW?bl`l_
zg)I~$I?iY9TqEzX8PR!3Ky=`JLoelXpWTj4+&7FqvumVJ&`lNLjaSXT-S<uTxV5cg
zN_K?|OsS+JI&eKg=Ee;P+%=syV?Wfa9Ege!$8-qoPsue$sb&fG*=F%ccO_gAoo&##
z=ZrR8?j^B3u;c$uyz^N%o`UGW>%#n^sL^pAy6OCA2j*|BujEV+9eCW03%h?d_f#fa
zT)P*k+2yf`8_|KUYq6MoKV;{T{rDNVW4wix-*M^<+PK5VccZIx#?EUaGv8X-zrRYj
z>sO5FjLzA8n4Vv~ZG7KZke>6{Cn}-?=lsM}J6P-}!$ilQjEA)IIae)k9p}UChgc-3
zPRUP%9%c^-D<eAadcSb>nNwoj9wRlumr@3KGg;h-4m|Ed-QNal#b#`7CP=3)32S?f
z7NU(8?8xu<7^QgZMW|1U+zg3p>)|9!M{x6{3hLheI~(B<&ttOsD@-sQz2x_tKS%E?
zonzt<nHlA0<i>P9@9wtv)gp6;rS8JU7PEr|qXl^RbV&MMzD2yUy+->QlXwtMY7(LY
z?_&>nYlDA2-ei_VzRUUc_B~}Pq5~gyJf-|!3T3CPUun0Wl3XHYx*|I8x;U1ueNyym
z(dhW2dtYtooj7$69eBMT@wj7GtM;{DZ7OQ>8~+ouf`|^B&%w^y?vL-M{0#J^+rllo
z`i>dVf%~eqxhT8mMz2e;RQ6mxu_9*fHQKnt4)utuuEm<k!;g+vea^)`BDW(t@Os~=
zBK(u_vz(pt#zXBhq*d2+L<e4{?Ax1E?@&98r0nIF%B@E3SYSGTXLbmFygYSmHBM8e
zy2|IfAff{wFB;O7zUXyy^c@e1A-`N^6q?IN%Ng#gDB^yr?N8qfF6pwLeR4wgb1|KY
zkh?x+R}M#z-KMubYFvHhfat*UFt@W|U)8RTzZs(aM_(kii|8Oaa9@iaJ&BH;cMr^;
z{WJQi+1!W&)3M^vP*b{FDUdGnPjpdpmAx+yEoXQ>OJ)tuOXjMqCpDD!4F4>YE=F|V
zzJ3q)oj&7OVP~uP&0l3e%-9vtfq%F9AYG;1<kaQk5~Ti0#mM&=ssq>ae#iCN2a;my
z#fKzX1;!~QB*c2)eeCY=c-8f1$2S@3F;_8uev(N<bl~~3<Fr}ghH`0Pf#I<M@3|e4
zbGdlqbvg4k$wYaN)_zO7M5%p7M(v0Wy#LtM`0Op<jZE86O&fm0I=VX@(Sh^X>J{G2
zd()up=UL~`*xQ%BxFS06c&P@fG|4QPSG_!V(=#R1u#bf4luNR-zd0XqTeqbxWxs&W
z;guY;oZ)&tYexLmeOX3d+x|8CtfT$QVoYc2kbcmT;)PxO-%c183Y#{&B0BKCIyrmt
zZ|P8A$?uwg*+!vsJu;>f%u2Fv`@qnkb?whDp7y6AL_`Ok&mp~apOm`4-j29&F2$#+
zjdku7TF&tN>DztIS2MjlZeTu``!r|xw@O3@9<O7vR*`a@7HRpf5|8cEYW_ySbPP)7
zW_YWc<)?>|0z4W6n#qU`1N8S`#os2@*sQ!`DHj@IyF&l%)<JaOzGA&vYGQsqnSA=r
zQoo_~_D>E>XVgmdTjM&{Dejv-p$<o<eEYJ|#tW{e*k)DtXxmal)`jwgTbH#xq7fZ<
z|B?JuTikwt>m|dzx1)cv{0=)HI`I6tad03`=~Ptw<!h>|I$etU$cPTySGUoTyG!~i
zymyAi(%!P2$tGYr+r2*yy*cc}Ho?Ti*|JYsv+^Zg&L?x;bUErhG$t2|wwQV!mZxAk
zpVBOu?lP$rx?4yknr%D(n2hP@>h6x3`#=?8qxy)Ak2d=fFdfmWdF`i;2$n1IlEp{g
zD9%=9;pKC=v3E|0!}|@mPmhA=Y=_pVMEJ48RlP^PM#>z`nxPRi3P*I{{dtAXVc+4t
z;dc9i>4KeUA)Gph4m=Ov_pv^|FXG{vBE0I&5a+_ff$0>pXRmJXm$nzUu+C7oHQM)O
z;^k~g`fx1b`lh}knilg1&$v>f5gj<6&th8T*9IP~q!Mj?vwyN2F+p_Te0(?f{i61Y
zO<0F5zorR)n8%Ij*yp@<JC+{&hS%;?-=oKJX`>l<`Rq*&ldO97N#T!>^yJ(})r=%W
z2fi;wX0N@=*|KfkN?DyjPFKIGH6l82K0|fZGQ0)%nS98m4@a5S9#9b-_`9X)|7z{d
zS0(hh*|}B!iV)sGL3H48e{)_lL2C6xRy%*8)K9~fUCM|KAGA(CXs6$e89#hZW}@6(
zt}N&+>bS$l3oZ9?>J(L7G2qcF1}z1r<~hWA;GFlB&@Aa43O4*hRlVNE_}e`f(^;m8
zq2BK>U7OfR^3sg&Hgv#rM$9b^8^-NvHPMuvt=^j)AcpCbIZ!2{_FL>WHGki#f1XU7
zOUGLm*1Il_j51n@xqVc)(PKw?mW%0(Wil_kI`ge^CDfclcSYul1E#}Fvs>$L=TQ}#
z&A*5BI2yIZFdgFe`mwsGxBJ6Ge7wUHZL8;A;N|n&)=vNF!R*_XMu#gp0>?h&VmgnX
zCeG6tFp;ih{IuHq>Ha?lOox4$8rfL&>dF1^Dyfr^4MZ_a$6xYkf643cb2AD8!)(R3
zbmr3V^6}_;ADP-?a@~1ZoKoN9o1cs6%n1$VRq6k&+W+g5W$V+_1_w;XOtqJm`+Nz(
z{M;BVX*JbS4ATjp|Ce)}KK#6X<@I3p7)igmRJ45H>o#e3&z?GZuu{wahV@PQ`gB4&
zq66<^gt-f0j?O{V=WoWHjz1_}ACBpKoZ6(E=qP=C@%+@+SYJ0&bxdcaTiSEsmaua<
ztv<zkXwL~|Os7Hftq9w)3iplKEkoB{8auQ<N6Q(`XN<{gma93Q!F*J%k$cJCDjd_H
z@AH;c?3^;A|1Hv_<{z1)j_APG`4jK9C)z1QhF$pdWvii*+dDF%10R>;UhiG=`r}_I
z`{VtW{ZI5wiHHuI&ml?5Lz5pBUriHiSOvJ`8ylaY<qY=~FvII_61P}(Qm5ohM&IYa
zVnhe-Yms&Hh3#JkVqZMT8TfN0zM6vQz<qhug#8V^u%(F*Y`ezyL&S!R={Q{WTnJ%{
zIx1(p`SQfvZf^pj1LyNrdVBp&&)lgo-!YbpW*SCwDQG#v=RfvA9U|TBjx5h)id@yx
zCH7PzI`H}7f&#yO)zh;~Z51Cc{5|V<s~FLNbJo0HDg8WqK*5qx{z{}<NvkWSv*U)l
zC&ypL!tS6;1{c?D9+428L(qBV1CiLz1x?MPhu<3<4ZN2=EQmN>a9`8JT8eJp=ZpvD
zTd(~YnY5iktOs_srsim#?3lO*o+C>~bl~giFBUhgF*CV+4D57a|Ml<0UQ`FJr%}m&
z=XAV+QRFaRzn1Jsj|E~qurqQ|e^l_WX#Y#D_;bX!qYQ$W&a~VUjb{GQRbh(6hH&;B
z<Edn{bpanwMXHq&cZwW;a?AdejM{=-S0kbW_w})Zsr<;6&B1cMeYCTi=8sS@9omVn
z%v*&D{BDF_e;X|{pstMQ!1MXGVa<F(fK&4+2g%a>c`Y5(bpiLKmwjDdllW=bH+qoy
zQ(xfZ3SvF5qrA;MVvo$VoAkY$ohe+8e-&doCH7KJD|<XtU(`SGEcU*s>x$^W_wA$w
zGml3a*cj%W@2Td@D<e@59r(BtmC(d#+se~&wzS24SoN<w>UhEP&^0WO>!-k;S}p&&
z0@_=gcLg!)>FL}?cgDe8gT~#ko%Q0h>s%7rx`4;a`Fy&W-EJ~(dr{6Q;lQ&Gb1@zG
zIbR1%XDs7nwQ$T6n-mKx9qIv#UNKAuetvl_5icKcg7e3?`<^=B{pz`x&SX=}3GV3r
z5#TsrI?rbLYh%R(TETPBVwg^T-&S=oO}0Gnz1q11ynGtlJyZmrXG?*4axtC14#(dT
zf2&ITmk*{RoUhwH{z)<pIAWO2Z%U)PUHi*>DVn#V(~G-D=Hk)vf%lE}rb`{IZf|=*
zKE;R*yiUb5<Qx|RoIis1v$<kAUDn=&7PaaY;E*t#mherxyI!&HFzBR~NBC0`SK`p}
zf%|gbkk}+W5z42}k#_B($%FY~OsCMV)+&xQ=EK{%#aJ(+DSuZ)2Oh6IIpV?@+~Uo^
zA!9o4SpNN>SqyP);0)KT3_lf2M0DVM{2osn9nt$72I^^yMavoP%Vn&)$3;}I5X{4H
zL<g?tA5plA;bP)_P>(vI1K0CQr)pH??yxFwI53^R98wYbzNDSN8GVYE&mFIppPXl7
zoPd*#>BL#86_m19@&LyH)7gCH$8y(-+5fInL<b%(rgQJ(`=!lv!MLx)pydNQ;^epz
zg_NZ;ps!*?2Of7v2fI2>I+`uOp<p`FTl@QH(#j74M;X%@+I5nXr13fpILw$%M)>5+
zX!GwX;PgeK<qYQ&r^x>$Q=D}H?9WMv4m@7T=7nl!S4Fu&Jtl|_T#o^hiLt;0O|Q*i
z4&gJN8BBtR4tzgAhuA)|s+1EkQRZ%&bc{c{5)d7@p7oF=#*17%v5^^UD}PM=7aO0T
z<qYQ|;?L9RHY9L&j*e+Wy!Oy;DyDO!pv<gMX!l{@C}TRml^k4x=l^N|hluI$?_Cxt
z+*IrioW>};d=iM_Eq&5iHNc@_I>+Nwt@FkwYk{MT>5yKOUl-iVcojHAOh@QInnxsK
zjy-T1ALHfowI|%Tzg+u&^TBj}av9!^iV`*j^(bRHNi`V>$|dT(z#(EfFW#LD`TSez
zFK`+k;pOw!z2({PoQ^1PsF==ba9N<|{J0fxlrf!7A&0~*Qm2T(A!0gXwwn{Izg|@Z
zPGclqKAqRDi>0U<83Bii>FlMgHKV0b%)GgFx;SjJ{1IhLCn~09K~z10J!_;~V(FH1
z7!lKvPujVeW5eJxa2g}<@^LJ3^2syObt(JS$HO+EaEprRm{wNM^70j}0!JCsImu8E
z6*gykGpm6&E$EB#DiP6vk6#~UxVj5M9=o@%E_ks$+w`gZAzD7LvnBRhS6`m)$MURa
z1eNmWr_qQGd_8J5_oG>$+0Q#&+YNb`!=|iU5gqt=n$xJ0w~~0n6y!rfbl|?40|z3n
z`7PIhd<eMCq+k^J@WpV@S7SI@&TwCr)$yXMT_e9iUsOZ~?kn^LRVZ0jFAMagj_F9I
zGZK#|M9zc0I1nAUuk9`WQrC$BDxj~vFtmK&zF3+^J-m+pwgP=6VLI!byR|v5jU57g
zSs*%aUw65Rman}o8v=a^B06wi&*ab7U$ox+-#naqfR~Svv`45@{1s2oS23ak_eD@A
zxo11+xP!i25goX%m%2{^dQLkkfbk+@I#nLeeLf|&uz>xCi0Huk&k5_0d((M-yda;c
zP_&%kd^Wf~8*WMwtp@p|BRX(C29;$L3rCg>kdFhVQze#5+PmbP2l62yI&eOD+5+oL
zw3h$7-Vq%*pGUHeiWRRuM1g$zLeO%C^D&csyz3V6L=VU(3DbG-w6@r*=|GrTnM?h2
zPEDT$ro&WyVdCS@`6@7f#1I`gA6x5@XQ_kq<shHAV7z?Z(FO0c&(RzK`4nS1QpyFV
z<)*Fng84&1bl~|ja<THlLY}7)$j1cHf%BO;c~7r3p=Sc*!;R>`^GB0LZOBmYjv>fr
zDhMy<_Q!!`QT3t(&{r;^1NT*VZSZLI^yP1$F9$>i?o0Q+kYw0km@nvygy~G@#J5Mq
zrH_NY2#5~c*FjO~j}kVjLg#6%cYS!c!>KY5Eoa!VQ4&h;O9|`;`A`rYIG+tVy9M{H
zC;dP^%9sw%!xw`(G_)%;ekFb+dsbU!Oy{8W?~vYivQG8$f*<ml_s#TC@$yM_usC?b
zmR>fWxph}o&45ZYrt_Q5t2*_aTQnGV9ZbjIxB8*gh59T3Aw>srT%SG%rn4n+J|*n_
z0Hc-AZ{d%G#2bA9c===-vc#{Qc_;<uPc)(f&mRZ=U$Md}hgiV;F~M}!bUV*4C_4{>
zdIT|@N}7Qodzb5Lpq@E@w0z*csD9l`Dc?$egK;lLbl`QGn@}Bh^zXI-(3dNs1K0DK
z`Ow+0vy4YTUt~<@%C9@aXU_7Nfb~U0bl|?av&%p1-1=Dq<kRSfmNV?cm^GR3du+`G
z`A`uZIG^X~fiHIEm3#yFsAD=d!fUYyZ0DjtUmS=I+}Balo96%0d&NLseZFY<z<qUm
zZT5WaU(o{kO2Tv`JYE)QUY|Pv`m#WD;J*IcVx)g?zPpIfe@xf5Bk8mtq67E!w?RHh
zNUr_b{<r|U#)6Hix%+7O!1d^5+uZn~X_p0@TukT2zMj-j`(h*DIAA&zmT7d`L^U4)
zM-0=UD7>q^emZ9XICDOD`CJ~??@uXJ$OTR=rc<KlrPOm`zdmprFrC}ns`2AWryc`G
z4AY6@yf%0*XIuj~bKZFQoE$sXbHc1T2{^f!&iOHm?>~H5D}dvG>5yi=#^)!+@c>5*
z)6s96U6Zbt?*q;p1uq|3BbE*Af#=(RlZ)wWL>Ab3Wla45jsvFCdayM1$dpPnaKtbj
z-nja%e^Dg2=u_L6Z#Q;7ne#%+2j0idXMah5s%$j@oMKEz_xsU`2Rr1HfJ4D_7T7%l
zZW${d0gf`JvyCz{KC__f0~}^dr{gZOVer?QB;fRU;^iEjE4uh8#5fT+NtjN!mV{_&
z=;m7BSYSFnM>1EWI@FqhBZldSFp<^2TDQalXT<|ApT^(4|0adMn**m3(@~U=s{5&I
za0xh6Os7PkNTamm=1btHV>%<Rz4*d-Czyf5f$4~NTIP`Dub%?Ws5@TH$?ScFP4^q<
zfRm2tl-;wG4%jSW02~KQXXPT_Oz<Q@W^011WSDmQVG^PPpGV!@?)JfD`g;3HHCKB4
zmZg9dH?(|UCuiel>ce4a!=L|5FWhV^zE_Otu=*vsZJEgu0gfxCbM@Hp!_wX72;jaH
z5~gE8H@#JjLG(-E$%40z2Pr#O?&0O5mhw4CDkHG~IK`OGa^&*RvkoZ&a9lB+IlC8X
zT}jWIfkVP{KHtlGN~`KP1e}$-c=^;s{N#Spaxw!r#h4DKZ&b`9=i8~kam94x)r$N?
z$_jgdL&9`iMK5lnJ$_mOI4iDr`P|pJ_;X&(jRrWyn2uh3UU12cE-m1=Vmc}!qo<xN
z>=_0Q3DdE(T)nIJqn8diD|hhn;mFJ5OUe7`1)O3`r|I~;gvz=Nd*HZYIww7zX6qJy
z{RbQprgMVR#Q))zD-pn1aly-nuK3Di8okX^9rHfZz(iL{F`@&X_kM{DrguB-ehN4g
zOy^BbIAL}7l?>o0V>%vc1$=F7H&ubdjOh#<9bTnLQ=11)pEFv{a6WZm)`}gHvV6cv
z!gQ{i_t>f|_2mP{0@E2b<GgNoM~)UaVwjGPQME^0$DJ_XtT^H2b75-mX-%$aDsU<>
z9qA8EChUAS{>zz)=}?jjm5!@TQ$RiHm=3A#p1E|{gF)bMU^@I=28{u?H9rAo)DbUd
zq4mt@_(t_dz)8n+WX%2PO88vg0>=T<*{Dv+$gAdN0S*b%Io0*d=)(oqba0;@0nvfa
zSIg<{Ek;P3n+HziZM2+W$1_?>vTcDz1vnH;M|aBVj;S}tfA^h|F&(~W_2-k$A8kQB
z1Wf0>a9+w`ws$*#Q+W$7pAAjUIjz^9|I3+z>0IOVcP!$HIRfe-V>;r?@*WIlTrUEL
zfa#Ej_x<{F_dytNDjo3hx&MB_?(n-AX5dgTow>iQtCvpgz6=~Prt{^U*!|z~hK0Z(
zU^@4GJ*veV2i^jw(jG6L&?^TA!`*(}0uBY!iM*q8^sb%vR^X5^oq}2o=|^iZuYg0q
zbgaLICuiIA)q?wkEA8;|`S9m;oZtA@)5hkrW0|3hvJ_0`>7e9dPt6INYc@(e?H+3$
zWK1Wn!9C?gR%14B2$)X%u}G_{R=yqJzU4|=ynGUT&+f^xsB!@g1=C?5E00+Q(FlY4
zmdTh-n`p!FlSOAw0*8R<oQ};88oTG$kTUm+th-;rrP2m3AGXJ-{AE(zCxJu3baw5o
zSo5E2JbvJ=LB4;XNi-SLVWeL=F(+`U1~>#vr&Pn$PRX}iT-WN~xr$esdn&E*@>#JS
z@-CHE;|C4})8Xto>25r@>0&c=dy&$mnME?D1AoVvfa$>R2dK2d%Ljh0pMvSkI@yiz
zOWrXD&qb0k9VP|3OLFIX^TBu#FddVJGIL*N*}Q>MX^EGQ>c)xG5uxnIz@cC|3@2<G
zc9&Sb1r8b0F_AyI;$g-t3mgKbb2WeIUA`B)JDAUv7I^tYcKrRP=6`_+)I-5^1ZGTy
zdTNLNf_li94&Q!{gdHy&>OnmOOvkhKtX<45(?H-<n&aj3=0XK;TjrT`&=&>Mkw1EQ
z^K8YLyPzI2rgL8Y)}MvtUvj`9U^+1koo*@LdhUVy1}ksk<#VD{zv0)Qz*pc<FrApu
zNg1kXOjE!71-b(ru|Z@^=hk3(%3O-Fgwp;KKBsS~o+4m6H5!{GQjTxV)ax$f68kC9
zUTKDxkGbu3%OCH2ML}N_Oy|#PN~qc=0pqh$JO^_umutwF4*$bzG~wT#n1j9un9h}z
z7CNp7(H1ZdD{tWCqY}zG*CaP+2OJ8f!y*>1tHq*K0vs}?v&(#EkSp_ruVB0gm`>hC
zB{O}P05hnk@;Y8V8>xgJTt%KPz@cC|23q6aY>O)UGug(6_Uy|FAR{{P_0@o#`rD@2
z_RxX9zlewqeBH+CHOW+N)8Hg<8cp%?QQdUuBWHf47jUSUj^Ng9Z|=n(^9PPHrc;tM
z7x6QXwHr7@OlPCb>Udtb9Sd+8ui@px{Zru9p&*eTz@cI~&1{mMJVuAgfTN7*FtRMV
zkFq>V1`ZL^>7EX15ppSx1Wuy~UOrM8X#}&BAC17FVmkgBd=i^3D5?WT8PnkkRo=R%
zyNVGwL`<iJzS79Sqtp;MjmCKSlw6ca@{>RL5ja##=QOXMgXy$Y7I2g?9d_pvo&Q`%
zCxAo5blQ_Im3|pviv!nx8jbMsNy`2s!%SN>4UVT&Ovinw&EhJ9%At3UrstKEQ!Xka
zI`I1s;lEEwnE43O?XXP`>$La~Twh{fPrbf^SPy)>P}6?9Ja;K=-6tU70o%`kLzRdQ
ze7wjlxqSEf8ckB-$Dd`oQz}^$L<fGaY^3ew6^}xjBIeq22N+ND%{m}Da9<i?r38Da
zL+2K5t(L8^I|Pyt9k{QI%`bH1Y305GXT=b29!^d6@?V)yT_O>>cEt<R=@w%;ku|;d
z2VO_MfBW^y&w&P}gRYp)J6hl3F01Y5r7cbe1SR-rlQ11wd1+Q#-=4ATdxPyG$^A<!
z26*}KC`RUv_qq0Jd{@p4T4)(7Ms(o!2}d*MlykkUa=9@*A{wBXP(Vd=;O7vfRmNqF
z!VVW}P?YRWjwI1qAUg2;VHn@rw7Jc=hJB{KJnTp5LqS9bp3nL(f;!5?+C3JWuNtZ*
z-oHJkkCrq1UZbUdsg*}X>k34a)H3+reDY~Tbl{woO+>f9`szE@@%mZgXx^KgXha9j
z$2N2Og#?bw(yIo}{(D&x<#aF|nxu15ibS_SiGfhMdG{n44nzn3j#!O%IH#|ItwKiP
znaR*viw^`u2Ock0V$A5_7;zsO$Mh(dQQ~-`9@==p&Tl^Je)>d#U)KIz*F4Ln;=(bV
zQyV6SUmO;o<vBMS@TgVdunwjpu;;Rju8Urdm8hNB`^NM>ZbS#3KTJaWX{_5qGVHw0
zw0!JnV42g!%ZEwvpmb}Q_#4Gngt*&GUvrBQ9e7<>-#a@>_xZee%8z;W$bv4{a6|_l
zuR_xo>F@Kk-F_VXH}{6yi>QO>!1V-Ghqh{*KJ3%e_?|zh_vsxmL<e49ulMeM|5fSy
zp7aQb?-J8pL3282Im3?IJj0>17!s-JXnVR+&a1FoL<b)CNnJtnH+xRICB1F>bNfL%
zJq6K$>#1a(;;mg|>$0uLoeP&qA&?Orc)S<{x}6TH$%IH~(AqhRD02}J9k{O#*FR3z
zoM-v`S>x4hhMaxGzN>gSTXX%m)X{aNLPCyNZePWxq-aD3?u+v2--bnK$e!EAbcJk+
zY&T619k{RlY}u!BYnD2pCpK%?q(}9LAv*B!^wtB?UCuA>M!#LqOk8u%uwq7Z;J(uS
z7<lAP4u4qN%2*om{AFC9Hd@YbU(*S9O1RT|>spT<+$QnX%^@Apf!ArK<LiGa`=?DP
z7i?1FmWm=Nhz?v2`(pKlS_5m@_f3X1t&=}k)iE9aGr{ApV}`z;%zK(szW(48H=+aQ
zESi(1awxfZQumQXawG%a>eLmqoZ)rK-uEM8GPy5N_w$E-e@>^ybWG>IT8COiguC=7
zS#__U{7c*xm`-f9=Q7*<nQ^^_`&X)I+5QM(I`H@Cr?l|$fxrKrj_E{b94Rk7lOKPh
zv#Y-ToyijmOegP-=-a*W1NZv3ZYZgR9cmTCbiQAwQREKcr_t*A>S-MG#bN3)T0Zc)
zpg-rv-utBP>^)M4L%VtE(_%yi-hX60Cgh8D4=T#9UD)(HHncDr(Shf)zDjQS2|;$_
zwEI5m$AwxsbugXhL@)cA9ao4Z@p_t_1r66ZFr9ZLKO@v+nePN1d`_7tf85`viIy|m
zS1bK`n_!ayS%&_G{HVC)<7iB0eqQycbZJfG%nQGApD{&d9ZaX^QQnQZfZ{~Iuig^R
zvRmJAAUg2;fxjm{rGb}EQ*l>dgA)@`_BySxgD#0S9n;xXv|nnqOlfU9&#k9hCM$U@
zFrD8AJ2v>ec=~*9-D4q#@JI+^IueRM<7yAIWzy0~6-m8dPMK22%cpW`k(PYL>FM4e
z-3OHyzRjm&I{T(0?{vGCev9DXT;$q*RM7&{F?*~X8qsG~;OfEGOmk(Qm>{A9AK!g)
z&$vk#{Zg4Wy4CkcmtT#5=)mji|9n^a5?;>#=eyFF&NjYX$COK*_8fhvJ~*VE$VSF=
ztYiD;G8sI+?r6!Qmp`7}Lcny^^8}yECZ}Z^^{0hgip}q-RKv^1oV7`(o%egYRL^;`
z;oEUq3Z?^pf0>NwsQoHeHFmg6J!-c}((ApHBmvWbzrS305ig%jDS`Fg4_{i09%6q$
zHosLz!E|n=UmClX#S#_OUpJ7)+4Y``=_r5mAcq~gQoqfNMe&^YA1(r>bG0RvWH@|_
zTVbo%z&?vxk(H`=`K(X>@q2QLYOrSa=>A$SuO<c4X|MAQ7kKi;Ya?1~a9OT=gpBCG
z=i#4UzOZc(3s+n}rCa(u>eUhv(Si3L`1{L^7x3~KP29hYBWJPu`sQtIeq3x7R7@xF
zN_T6sX4I2Ilxs_mp3QnGBRcT$J<jks<z??)t?>9l7ssYcBo0Ie&bd>F@`uB$@`|!j
zteT6?vz$>Cw0s2N@3kper#Zc26Qm!i__fXS&w3wXJ@9xv^kU!lBCP&q(mzS6-~!X*
zXha9jC-7zHE8e~}?&E7GB`+x3^I9M}a6Z`=zkkXm%$*Uuc*m1e-V!8+=)irkJf^)X
z=4qbEpmuD+ud?;e9AeH4P|lCjv?Av-GSAGsn2TYqAcYb!>&aekJHBTo{YhL*atP^@
zUtS|(J#aqX_Njk&P4Zl8a}7#-_=RyH9MOUExv=nhTK-=4`oRh1Se>G_d38hwK5w~q
ziu(PjxLb(H+<1M*JC?VChz?v&^F+_=CV?c<S*F#ppH(y=Q|Hmv1?=QJQ+r%`m-F0(
zsmMol+o}$yBRX)-N^87FZY-W$H0!W@AU5Sb>450K>tf_wux*N8kcHpfzjAz|!bCEn
z1NSw2n!adug|gqFt8<8cfnT10=)isP6mUgJFnC*yaox1b{LY)usEn8Mo{f(;<mjUk
z(|Wwu@=6lpsE7`n4_|lwYsZzDm8%S|+X#V2#B>lHIG^KF+xC)~&mDbj99HVt%PYu%
z>9B_#@&3nncC&|PhR6+fp}amNw0z*4$xkEC-WrZe=~{aswA(mZE(y_r`wDIRVD|l!
z&&SgZhr5Kyb%iFF&eD|UrHb!cjh!!URjSSjvg5{d#MiIo>Kxzp;PbKrtHKwfOQVWt
z`M~>zYZ%XIp}I`*ZI7+e0u}VH79%=vKEGPWf_zNrnV*=Bnf>Z$9dpHWcB;ld@+%L$
zLK=@Qb7V8KCSf`k{)j1)dBp8xkFMVuxh;8j<s4c*@Va=;x0~x6^~3ZwRc93!8G>db
zq66piEz?byF^LivQeVH;rIqu9is{@cY;*|{P+pkMk}SH|ebZYR(SiG_J^w&h`&abt
z#HT$y$9y6Q9Ec9w7Zc6pgEAlX#V-a2-s&x$I@xy?Eoa!t;pu%nsro~Z>eawRi2Fy0
zMs(o58uOQ`?w@jMO^y6yd{c@qzyi^M>#^+ZOb}yWs8=p6%lhGG(=LeVkV#LrGkcm|
z@ADy@i^$x1Zt4tLK5$=*_a0WV?T8nTIrWfeR9bMa7}0_IGLfSQzdZ6F@wfoP99^dS
zfGeiM{G6VWb>>H>rex=x+lz~}Bt!@PE^y5*{SDHg!~fb}Oa;B;WfVho;Jzet4}PPb
z(I#|uyj<r9AuO&apydo7FU}?r^k>H#g-xnIQ9LJVu2y0?v?>`_q82>M#C2m%q#mg_
zMn!bszDVou7FtA{bs7#Iqis*R$)=3yP^`;Xb!#7OOZc`=Bg#KUg^20MREgCj3I#BJ
zIUs*5@89ytMtQWH;l8xYGR}5nS15K(Yb~#yJ9vbO>F7QmTk-qTY+29yJhvlv<C-#}
z1K$TyedXJ^pZP?=zI$JGZzgT_6GL?1zPxWrm(5?VkSUzDSS<U!CO$_-%Ll$Mu8nzQ
zxG(W=N#MACenyb9-zcI3*Q4b=PMxBvD+WAz#h|6&)SQIrEYrkL?{}E4P3$CjX~uUO
znqWF3<`#zy<My<gXv)r3?@bQi#&q`VYA}6W&-_yG+GEYcJQl}MIkcSNeKqhZqqn)5
z=#}M2n*1^|#oM`<&R8b%!mBgiDpx|yIdoTKzEBVyc)XZtc5D6ZJgQ=|`S-9MN24|w
z(;<GZAFGRcyFWa{$2&~Xwwi$HjBMZKT(Ph9MAxaodm5jY-c-t><qUu4`iW~1Nw4M`
z-?^Ag2EkXpR5T(wa6XG6jBQDb`r4ujYM=78hn`U}9R?1;u$Hs!I@^zy8>=K-ex;1*
zbVnHfTp?u<>hhw39gkAnh?tHbzdBiwlfn>J%OserH9g#T8ZBoyp9YH9&F%lrwC8_W
zW8F=ud_hHY;Qhz<#At$(K$8s9@C&s!bi&%Mhz?wj<WzHeP3W~vV%oawZ;K+<Nr(;+
zy8cr%s+LeFTTN%5pMBynufj_)L<g=%ep1mT;eI7GWu)hm!SRgBxl?#Kf1KK+oaiWh
zeewL%*H~XS(_BnP$XkaYyIFNf?6%`jph^5*2TbSh>4yDbyzZKv=4mf>#zb|9VLD?>
zX0u$)@eJmpa*f<e{#J7`c=-ex?MaDw%o0{L&vMB`c6K@!(<#uuT{CdrE{#rApCYlO
zec1ui$#DHGRkC~8+Dfief2>wPRt(XB@8^%<QGLtJlaz5&zM*2njbDo!Gv`It%@?+R
z8Hj!HBxm5ymH6sW#CqWQToV6`b^UMoTH8y8&Yu_J|L0Cvyz!#*Z+n?L-k(`2^GZcX
zV?MzI)9E|ZH>pOZHSX$n&J8-{6U2?_yj1WU-LY3P(A%{v^U;le&7;zIeHo2EK4s+m
zC7I*8p*wwQ>9ZtEXWZPQIpFDZsb2}Zsfd~siwU9wpKp{5*C|K6+I;A3u^Q*4ms$Q|
zhz>mNDLrE5{Ka;8KYtF5IQAagI(HH;A4i(Surm2^Y34z*;xDaUv$=>4d>!faCfXs%
zZLRFT4m=jFGpWg;B06wi?yf!$rmyX4p3{#PIox2htc>X-JbBi7x9!rhjrNpTfmCrK
z5z&GB8Ve#m)bE@W-{ToY8e!7iJ4(XK`4eqm-*INu1zG_Y#gU%B*OD-u#fQK67n$`p
z38*Vuq;0QdF+p_T<0)gSqSt{z#$T6)YK~g0#%SvxI`DYyzVDi5nV(VgXYYg3r5b)&
z4ortPZCA9OFx#+M2j5&)?UNgQC(v?+@B8|yEhe_C8UCE_o6!2L3aU*pq67EkLXE0E
zb;)^xRQ+Yv=p#>)E2dLKbF;VpM%FpIiRXMHdRkNxq66<6{-H`wk8ki_lev1yzinWI
zhKT6EeG%^-GI@4^5FQn)Tt0Z$hS(^DmNV=)9oHuB{-M?MfFPs(=$_gF71L>ou3M~~
zx_MdCrQ?@Vp`Vp9rX!efJ<FkuHu6Httej~B<ueh{fpb0|5-2|MNi)UFm!{#khTVt0
z<9PYxd(c_GK6~hOK3QJY|AV!CG^TSo_;Y<~e?w?b9g{-zj|5{KL<e5)KPqVzcs(CP
z9-y}qQU1OuMIF(B$K5$xIW33pOe&L?)p+*KKbM&?9XG>cMQ1{Yv!=J&Qnhn=X4@t4
zaz4k^|K<!Qy?DT*j6H)nteWAN&apm0Wx}ZN`)gljXQcm9D%24jc>fu58)}b@-%9&V
z%kbDIli^!phz^{yr_;YE<|R3+gkd%ZFO{a|ISIUc9A}^L@%kBu?X9ppt&whVF&EK+
zua9-^;Zrj)$)}xR@f#U!>E(+?bl|?MCW(EgzLZ*O`%Rk!m56HUU^?$zuar5iN)-ML
zWLfyz7t6(g=)iroDO4)F_um<7N4==hv~{N%0nvf`8Xu33jq3AVi<cgiEXvxQRCx?<
zylzU@(QM0_Z45W14O;t<5>LT&;P+XPF&+4QRs>8Z_^;1F&36wDu{0iia)s*ISt*W}
z&sfIEYT=kCHYpZXI@ALey%bF6snPB*M<=JSo@*k+$mgj&WK4%kH`RZOPU{!o5HKA^
z|4Qy#M>JKE1>)xH*Huz0#qjc}s>o7{yB1Xj-Wx{2boA`vHv2w#W&|8Erju5GKrF)P
z_)XvtFrDif>CD4Fl?<Yeu2G!zE0Zga;^p&;an{b|#x-j3kVDP3v+vJQFdaJ%>gkCI
zo?UP27Gu4Pru@l>4*Yu)#hh7m(YD3?!FIOe68GymiHHuo|8!Y<6I#@&Te=d;NMUSo
zgvKLy`4qouk2$oMEtUD>euCNAhBPXs^C;!{juY0>M?pTyhz^|3(5{o5B#qZ;z+uL8
z(mcPsA4_c*1WunQT0U?+Vj6Oeivi9bLC#5t4m@5Dej6Mc%R2ED)MJ9^!1aie<4P1#
zmd*f25Yy48i@(Erkxv#lb0T>8I6BzXanjLj0ZuWdGf}w2YLIh<0qh$TL<i0}*}PEg
z?5Zd?sE3T`z&Zb0wl3^#_Fw}0GZE2&>$%L+_?Lwvlnk84!)Q6fP9d9ol%8$256Fj#
z=@7%5>cvEaM!Ko}KbW?^5mLr<qIN#n+dO{y38;sN>F@~#*t!hAa{^AIFkU_rmcC7V
zepyGwyTi1Nyta-}F`atJrL`@!{L+_IcgAn89+OnYbl$OQG;cD|dq4bS)_*{@PK=1@
zxH=jyoo1L7R~|U=q+%nPy-^4)A9z0Bc6xr--OE1c<o(d0o@2^W;fM}A5B*#7{)8wV
zclhSUaX<6X+hTQ0$IVtEt;VT}yZ6Y`&&+p9-Y{c27B@K=*#h3ygZpXQ1<~?>`-)TK
z|B@-rx&Ze1a7;&>;QTS}zNe16|7FQS(;#bgOvfgj?asHR&IPb8m@%EdA)2$hxi(dS
zdfE@+<<pkDNat_ZdJ)tUj_JHQv3Hcua;rDk57jZ9__G%W&Y0i%1NvgdbS`=K1ux7#
zkp+FV3*hCmx35QaA@D#jaKbSij+SSyel`270!JOw;jTR?-(H|`=f8X~oxu1<2HVc}
zT7cteJ3m@J@cu*WZqFfCi->`~q7fZ<ofahin2)=?O%ymfm`=j>3!QrojUEIJ2d0w|
zJ~=bm{JRR|)5nLGPw1^1Uk;=gT?6$bAv$nAG?Q+Rs6l_O0>=c?(I@TjzUBS-6L7dO
z9b$J$i*b>EDsV=5(ei=&dXgVZTh%kE1DqsGr_MNIQvSe+D&Ux4I(kk=v!eao0&3hW
zn4+Johj1f0@VbDX+nVCR%Ll$6DIL?96B^8`(*Ikv|JNtW)~Bfr7MKov--RHiLsYFc
zFrJYP+AkeBBDE)aV(K7XK2eeaIg36oZpuFCUV6Sm=Sw=G1CQ5j&xKgVnJ-^Mn-!bY
z8E@=!Ky={wOrcT^1oFkMgZIITAv$n9w#vG{(zQmj!TYgSxbgC_?b^qbpK4SCoMKET
z)7v2+Ji^Khd~e+q)8Q^LGbIs)w}5&`n9h9jNw*I%=?*T(x%hYOw5?k?fR+#ZJ5dCo
zT2}w`Wy8dxo7}&d1I{)gI`DXX&Qi&Ds5Sq-V__pJ`f4L*IHCjJuSM(CP1DBD@#W_m
z^;&9Mx)KG^VTSIrDot(GG$Tfs-MhH2pKRX}RgCDszk{gmu|8_F`;sD97tx3gye_iY
z_WWTz@yA+B?)9mRZELS}5FPk;{J<TjmyU)M8^v>S2;M32*Ahc?;O7wG_jxKKI&fdN
zOQo5bIxE>#eq>w8>rD(25gmB`94ueWeK>c2?slDP%htHa&Fx%h^BH!;7*Bf!if_Fa
z{(IH%D6MN@G@=9N+)~0!-|ZRd<D&a`?ip9lr~{${=VNqnKkq}z4qgrYzq{7C3WLND
z9k`xzmsTi;{^xI%lI;&;KB@Xph=>k6pS85i;|Vc~K3<$1j|vsomZ$ck<qX$j#?{`r
z9Q^GNqf2ng*4KJNm52^p&xL`_mMri1rx^BcE)gb3J0u}G@VH;LeskHh<Vi(_kl-$>
zD9t?<hz`8}G!SIZoZ$Ajn!hv8|25N(y*h}_acKW}|NMcJ*ljv1@cz|e#PNdXk36fw
zL_6K)HQ=~nI_WbS`_Bw0GSo4}zmGboW=TSHwnKf<ro61TOD{jY<*P`esZOAbGNJ?b
zRr36U+niliLr$%f8C$Y+66$=0=i&aqM>|G)79M3t?(?}a{6b?CalGJqW<QG$N^^|e
z(72=Kf8&T^8|plSosh{#E)u-PK}T5+rBT{%E}0<K1NX(D&8W6iN0sLhRU8qj*`G>6
zbl`gSMTtJ=a$fUu(cQgg=*y$`E1YQS9d;rZRsWf6HH!yMF{X1qx##>4wdH!P5^qkH
zU+gbeL<c@^DSso?Be2?CC9U6aiP+kbs*LEseH~a<iy5<cD|;#NUZmMprk6xa2Y&Bv
z<37Bc>v$WtJIbj(kiWO;KRS`oK*e-+TUt8q6>b<)8L~{WOWd@ejOmP9x`r}1z8n2L
zFWB&HM~EU3(SgUSDY{|5V!VW5bMm@OlsaKg-(I|YBu6621B`(m{%s^a3tT_$5sm3s
z6uiB3x{S8oa)&YZtlYg}9YhB{?i^<}^3c#dHnjEOkbR$Cw>dYW1J6ThEGfq<E6U)}
z@6bucF75WwJ!tvB^~_iV5d4dxPZsMH^w$~9Y)eOU;Pb;s>%lueq>d$}p8w4zvLnp8
z648P0OEJ41*1x-La^UX2DaqGu89Au+!1L#VO{i3KIAwn1V(RNtE8K@&5$l0-ezmkz
zS`ldffH>^)cCW~U4++x=qP|Soe!FjPW@XHSO$ud)S2)nd3$DlEmh$|wU$?dta5&q>
z5OdxYBRcT$qIUCqaki%3kG?WLrKMxj>*0tFJYLCh4uf}=#ovX9X|P7D9v^l^bl`ay
zmE+iE93~TTKcSd%a6KTGjOf7UV@!H{;p*NAsa2ts??0Y#_Yy;N;Cil~Iv?%&HSU$O
zoZs51@&vV&-FV|A7`VB5t27stp;h)({mF-$iZLDDs$}AeiCxcsiC$#dr?Tt4E2dNZ
z$oss?!7j>d{S(2QkB@yxhz`8IA_%P0Cq;R^e^?yMU8s+*Cn7rVJQR~O_@=q<gz5zv
zQU6k%Lgvw3XgR~<^+tbm*+X#tA@^8Z-7Y_`(sV=zt|zlhMKpH#WZw3MLjk1lp`8>&
z2d+moK{ROk&z&Bhp+B0|j^ZK8hz^|dywsAks>3Dm^_9DYH}A3yb09kKzTw-#Ew2|g
zD3ciVlrgzW#HWuPEoZo%H@8D+j_lmTDyulr_EW$nCmqp&>sd{m=AcpcpbaTuUgNNl
zylsK$=;nHRrvKDstzc<doZxj^7esX6zC1?UY1t<SS?F^Dk7OI}JGjDzm(S`+U%6n*
zyEedS#B}Ov_f4sM^Hc&(G^XRV=$E}uAz2(a7MRXa8+Er8+vh&OAz?acE5hPTZU>`*
zL&S6<wq|qZWFH&^PTx+v@e*GfkP7+OP619jrt`Z_otKvLkP2{IF&#fOW2GAZ6=C2g
zV>*d~eIvu;j{ktef$2nqKOZSJP!|Bs6f0iN?rd7#y$<?kfm4j>aHma9&ZkvM0Edd{
z90}0-+>n3sIdF6^oz$KBXMcRP=>v`+rW3U*jP|VE_Zz@jVZqC}$IT*nbT+jFIE|Rj
zy|0sY@(IlYz=_6m82pmSx6)*^fn$N`NVZC=C3l^j01gS$Sv$4Ac|HI9U*Hfioy!vr
zdmD>OyMfckj5l6SiFpDqg6Q>ulaA>q_g_Dw7&`plzTt}LSP8s)TF<hr9@L|Z=?Hi^
zaq5*MdjN+6(}{|{SeV`R#t1l5JMeObe_t*}bl~$A&R<b)cim8ZXTPO?ImCrg#1+wj
z&o|Eh+G`(GaEfzjW}u9F?_n!tL<g?No1OD(@BOO}Lo(W!>UMAIC1N`C%7@P@u#!m+
z3~xnkzo&A%kqIqlF6esiApzz`WNnw{PwnalKM%25I$+kr$^Uju>yW=Pq2SnP{4)Us
zF+>MG4|k5_J$RzMm(liemfBm7Thc3teZda9@DjUDi(?AS`vT6beb#p>F&+4QGE_td
z9(Vef6Ou``ja~ur`@YW@Ofo2AI`Df}h?oxi-jzm1wD|+~l~;63UqMWepV+<7@kLl?
z4;9xL_F?e7MpK+_>-hEePOhiQn2tx+`^eNDlk3jQ;*|O(-+Usb1K&^5$bgrRnQAXB
z_xTcn`MEJ#(rT(D71M#=!=Q}m2tV6X=+&9^$;s1C{U3AXZ6cxruP<hIvcl2YHzOjO
zlhgd&>UOqoN6QD^SG#|GjVk-wuYJSmaaTHhOhXc)1K0ClgXZ3u$!A+_uIi*LQ}Zn>
zFdg{*UNJ-mUKcc@RbO{LUA|>5cl+@TE6L2cZD{$xeFa)@(hA5txEwYhUz;zYU{s9g
z!1a_k|2gBX)Z(S5#7_{qTSxDT=_D!pZ9cWbFb>>@M#6O9=M+}9qU8hk1wTJnjOj!v
zoGwob5=#g7_qt*_bz1!`Jf&Y(fkVP{eqWeU=20481<nc)FQ0|ls1t@d2Tg!ejOlFI
z|8b<ZOZ?A16?-wB0G<U`L<gSF%|dxE1(@sJgL=q_4m|EAIp^<vdO9)-<{<&o`FT9|
zg4^W!fvvWk>o2=6>s8XD<qY@rf1Yzebl|@J&vP!A4*WbU5!3lS=gIUU)oB@wS0f!-
zK5$>xW7Jbpm=eQ|n7(2t`}6Q271PmI*>3Qtb2%B@AFhn)5I$ZIS_yEmlFQ!+FQvbl
zLd0}>NkZo5yw{EHo)avcH{n@qq(#dIzE7s3PI8?;(B5HOokH4(%Bx97bl{xx_d2Ye
zkCi?pzvq(j<vNj17MRY9x#T@ft#vsMEKXIq6z<w8i0Mo=#hl=d?jHf;HMIpTAGoh)
zv;4KOVgjvTy{BV3|A@j}3>OpcgZths5FL2E!|xvxLv-N2;P-~jZN|&zU)@zbL0hx$
z$qrui@&$%5xtNaG`&=H=xJ_@scsXD?TiTaJEYrQdf_*~_)A<~3e9Y+v%T6%vbDQw;
zfu9G-MReeChoAR!MReeC50zfAHhgp>7W75JbY@Pj@U5OxZvoB<4PHJUwuJD7a(mPP
zrx?@mYJGl`pZ4l4;J9KsLXQ;$GFVC7z#(BejVF3<>$I)S180SRm(Pnc_uIGRONRod
z7}K#T-ftdPYIX`Zu9%Mhi@;5RtRKvPL&9{tjB<``XSmD=oRy9BjsO1-x=i$c{tM6N
z$M5cW?B4!Y9XQ39PDaqX{ku0!{sN9GrqkYZsiW2HZ7*<0m`;bqYLpJe_9bvu{^8{V
zKmS#X>Fm1svH5ft(;TSB71M#AlOka{vrcv+{E~OfK|L#f@$!M6BP+&qq@?+5KCo5k
zf_hvr9r$@G5~h>5SZH%IFQx|6v$BqtkF~)F+YyuNIlw8#bl~@#xMDi+^Livq$9D8p
zwmuL0UFz8pk?4eTGAn=Z@)3Gz{_F6!rT^Z0P>ksWHT>G*G`{7(=k;7Moop&gT1D*i
zHgNt!!gSuWnb0@0uq%RbUs=P;r+qn;LBy}q06h0sjOf7UKPeT%#~zp&#P@auN2o0n
z?xP?&@bSXR`0$-x*&mO=b5dkXM{p*~X>iZscHj^&ovfQ%JteI@oWS*s%2l+S;d~P3
z?RPy)RNCeHIJhwPLcnn<q61$Sh2KM^gXq9H!_NV6U^;?yJ8aX#IxRi~*OwUBQ?K`}
z;N_#XxpMRAn>FHzM{f0RJr$szgy_KcuR7HE@%P!Sune-!uw|;rzAHv_;O}}o_d6q!
ztkC}dIJ@tEEdT$1{E9LfRzvol#c5_0in2pxuc(Z|N%qK!jEqobHrdX~9@$dJ4%sP*
z><VRk-@hEs&*l4g{qndx`~la?{dPOXc^r@PaGXq>EZ1#6N2%+=I^c6?2b|bM_jw5y
z9;Fsaaf)(rMnld6{{KY*#W4-;-fJ@{S2_>p5>1-H_Hz=rLi_9bOx56e4DYFh!_1wB
zwgiYEw>$W}=wk-%kA&#@H?>dfACuNOn$AP!0v**H+CSub>Q890G$!RYq?LLh9dLU^
znGZK5haGT<nmmzn&E!}vtOKsM5W7+yU=K9vogV71WnW8iCqT{vZZD3;qW!RytMw&!
zeVNj^{1h7@9q@Q>5!~Z+{I2>&txo#-puLI+?EV9ue?t0RdQ5e4f6BMmYa5w1c&HCK
z4>hp=5D{J4&i+koSo!{7B0l?adjg~b_N?Y}@>6HjD6cNR>NhXHpdEKe2YgQW#PssX
zjJUlH<CsDXty+6AYe)w?PT8u(LR;%PM@<Hl@4FHW+RH;a;O|6iFbXp5+@5^B$NaeS
zTyhb)GNc1;ce+8IT0>+1=l8|tca8VQ80jFL<G}XP7rLBxpcJp0|9i&Ck*+@mHW%0r
z=kdJ$-=arGX49vsE_#QT!OjD2_cN3o=1N>=GETAU2K%N~7jJFCeO`e5C{3R5%1PjD
zJxHS2-(X+3*#YS=0sS<atR34@)H_FA5_u+e!JZU$|6v3i-|cbcwo^-&^d=rUI*;D^
z3VU7!KbP<O>_vYwOm4#d-wO7;0XllwG-CrM0<;Ihsl#--nS%Ww_aD$v(`RJXd$Gl;
z5dL(7;q_Nz*!>6GUJcdDF`5^t+(Oy1{l3;e8>K>=r&M-OaQ;edS3whFtPK6Z)LzK#
z4(2i!v2N$Pdhm&b=J^Xw={L%wA)Ws@uPU(Lnu-aOiZTcwM3{Aj=|ei;@#XMMvi!z%
zj>xR{Lw&7H#lLWn4wx(Wh{Ce6wvJPiy5!_Fqi4RWf8dTU&>68~vN=tt8Aw0BIwaV7
zfsz2}fVsFbhTcn;t`wWI3)XitDb9sJI^h1ZRrw-4dA&A|C#-mbQmr*cAJPGH(Pw@>
zvT^@{Wzgc>zrd34EILHTA}>s=Pfc(7XN8S$<Vm0Ek>6-ND<29d{w_-+N^LkfXVI#`
zp8)BA=P~d(5J|*br-p_(4>GegWW|aP)a8(NY(dTg_WVEJzau)}`*Ph89q@ZkNkm7v
zgWV*a`SgG5;ak7Zw)^Bi8;*|G=bvEf09A+%_&vTmqVqq`Cm=fD^AcMdX#Ly_(`58l
z7y9vEKZp+ZyOG666NW5oox~l{0l%-5M09rX;<aR(>Y~{9Xj|)O{p7}J{CG2a#2s7T
zs6uqW_xrgcI%iJd|H;Uf)?nL964AMnwa%<v=;QcbKWk|HfbV~<LUh1&Y<EN_;i6EG
zK-r@SESDsr!{KNDS}1VXWrIbUg;DjW#nviZKj7yn_&iAmqywJkafhsvvQOP~$BwTM
zL<f9tp)#TaeqTU_=z#AV>{x;88SF>)&5g$k`ERqZ<01snk?38~*HPph#~fuuhwO-g
zkYD6SRqTE5WQb1bC)@4cazr06r(+qdAMks$5JV@1dR_A{8{Qe4M;XxppC=(hbTaJ@
zjszU_3c`+yjwQ5yK3{GZ%4v_K!Ors`h|YM(CyRo1yFzRoTN%;;?{^H%LUf7f3F+88
zRFDpMT!8OG>-~w=54av4jp%^u;aZ3esqoXTVVBxRnOV2|8v^krRFDqX^BEN)f#BW)
z_f_!3L!+$pGb4*|{ebI`&3CC?3d&j{8okCsE8kVs%|klieH`DtGwr`39{!rry+nQ~
zO`EI{(gEMk7Nz`@hjwa6*oIio{DeYYz!szf_TyE~WcR*_YlH3K_oTYGb#B;saKO6F
zy{@yPqLp!j2g-sjO|*B*Z9#4?aQ!(^frPT3$8dmmtb(luKUx9nfc+Hc@m!csB6TR}
zyAk=L_1jAv<naa0<2)Y2!zx<;s5QXW-u!!@H>?BRR~jkm)^9F*6S>kJydIhQ+MpM5
z9&p`H?5B^^QguVc)=s73X=92a0;B`(hvaih8YjLuL?!tTXqqo@NWh*CK_`z(<HM~O
zyVUn0k%>2|G(*iH=K+tenUti|$Z#2!O$B}CFO2y<cu40uupb_xG7};{QgC&@XDT~!
z>)=cy<mWQD-g_?4Fiz6?xzp|{iPv4X_M&-62keL3E>2i^?nuDrt_pX<N+nI$dBE$;
z#qtll*EC}2rMkurGZ#k&L?h0VlR8JmJnmqyY4%{>Mom1#8qxv3AAH}^$N!C#>m<*;
zyRRzk-5>iwI^a70Qw~S5T89;B*V{J_uAgOa2!V9K@4tk91@!p7XjB#?38#7P6@3hk
z=mbfpWX!EuvkOL*$h;sm`lk=+fS=1PrQz$MuWBe)eS{^#?_B4hLv-ScE-a<J_MM@-
zb0)E#D&fKi;&l|bj+B7tfa^&5hz_`pM2F~XY5ViH`6!xU*M}pJ=M8Xsf&X8SfasXa
zzdfPPSat@xe%42HC=N!((r>Z8z#KY6$9M^6-7Y>9_+LMepUYrBlrlRn+C#4#z?=j`
zXUpl~I1^R-f6t5RBRX}*R<?hXy8ZVY5gnp4-kD{ca>#lg%LRLV2=?Ql{4YA=e(_Q4
zzA^#wdJJ^H`(=GZ=ds06F~KtHLfW&8hR2uvQ|S<$#liJ(%}YnOjofUh#Yr7YM;73&
zpTX<Qy6+k4vn>zC71o}!yvc1DO^0;Ae!%}9G)HtER&a+m6d7=1_g}1t4)}c3^bfdx
zz+CsHgW@i;wJl-uq$4^NYHvAu3NGhijya+OzK5I@(gC;o2}9?Pq9$);a}*AarKLt#
z&d<a3170V9pI@tx&j0jm6D}}XBF`Ps|CFM7lx&cI=zz~_;UOKcpDXQi?Du+G>K>Bs
z`iZoLX-GmkU_a&ijOFJ~1suH{U0HKH`W?GGqyt_@6}@s|d@b>E_ScR^zvZ74dtOKf
zyzXVUkjfPaSKT~J)60Ea^1VC}qyy$^NIM}I5>;y?`j@`EwNIOs4AS8O?hC?%n7A@r
zMH|}nbp!Mjeh<R#hv5BS`C8nNn*UyLQ3qSAuF_v=SO>g*{_t{tu_5vt%NeUpex~f~
zdLqc<3%oD*+4}F6T6ssb-4xf*+Y8B=y@>sUhtQN)uButwerI`0<Tm3O0^~e2K+l5d
zr~5LuhHrA4@#=U!x2oQPbWQ=zk=y>4l=U<(<z4&WIX>R50DGPX_ro(+7hfwCe2<^t
z6vyMAn8Zs$p65ZQF`}2N{CthrIVVd6Pg0ksRFDpMUnwfmoc^;hC(&K_X*+SU*Hzeg
zz~fZZ#Mh&YF|&Gf{pH$5@sa@S=NI@Kny#?zqoRy{nRg2l!`GT$ilg=%GfNvt+i?8*
zjanO><;MG+u(`nVVL;x|uAZDTw`7CUj3Z(n>JUNpd>Yt)#`jG<3l&J0ju^BU(2ChV
z#zQ*b@vccGC-|I>e(LAFnN#@68;P(Exc+mw=WvEZm+BqO!;)GDeR>{JL0*p?19BOZ
zH~A<Q(q^a=+sx;AE85^79dQ4dxES)@dPMx>xzJ;lm;cqChP^%n&(Fe_5(W6|+Zg^y
zSlo(yY%RtLIS+UqV<0~;n$*8;_FGtBN_^=`>MG>+0{5SA&cw*xcUNB87Cm7xRTKJD
z1?hm>T{_}y9jW0T`oFZK>nxS}Ct)2?V0%%xX7ZVy6WrNaYH1|7@BfVq@jj)#seyCt
zZ2J35$$M)`LlJ=;kUfLfKdG$w-EPZ_iK=y;t<A%>Ss{oHxGtfL=z!}0WQdN)>=9En
z39%gP{;LCWyMz6J-@k_-I&Otw8g>z9l(Bh~5uMG9kJS?`zZkIp>nB5W#P+hE$Pw>W
zV@?O;=Q7w2@9>?%*WB|f731L#S@;|ELJ*z5W+(2?C~{F@jxwS%THad1C;uIf^-PB7
zfX@+iKwd|I{e%}#J0~fB{eb<BY6zkO{@<uFq62=fM~3Kt>wX>I;qK$WesqQ$`4#yD
zzhUcIA&3sRKBkQ5tjI7WSq;v(VCz3*hz|HWm>qLy{rt~!4u}r;UJ+$P2Yeq08KMLJ
z?rq06w0^+fy$ykM!0Uwn`Mp|52i%{*^(ZPtr!#1bHl5^?#>0#Rdbcg>jNY$k{lxpU
zy)Jp}l7ZdtL?b#8e2xs7KHiVlnOA?QetS8lh3N44x9{ks*EgOn*TFNM%ITqkbinOZ
z)#PMva*eVhjwO29<e!J_$Shhv9Yw7oFDqNZ7>3iLbsrV}NI-Ok?bWQMvrl<UEsBR8
zPh*nMM|5c0WvI^AgsqT@ZRu%#W?G;_bWAyL?4*m@)!2D#<O^Cq6^!vQ3*^rKJ(rt+
z=z!m+=p#Dd_ZM`C4zs(-(F<-x?PnElJslpsBR4XG)=#C^e*9IJ^FJ{s0ny>;h%>xd
z?bdzy00ZN__O3X6L}w&M%+v2U<1@^mLv%#*zE{aFIR#_R$TV6%NeA{!h<TRjFed@g
z5qMwOlpL9rg*p0&4o`1dOFGld8qA?Xbjnzgwgsfm2w~316k0!VcMYoP?jM)IoCHKC
z#-5-##O7XrIr@kWUuTJUtX|(~%%MYctQpfj|I&~@i#a2cX#KQA`Scww)(ym*1Vkr%
zinRP-auYe`=p#DP4PL1fHJ#F!Lx<>)G_{Zaq}OT3oRJB%e(rCw%zAv-?!lY{M5js3
zAR@0SzY25o5uH03Jlu|kt3;SXhv;ZfsE?NoKR$ptBjafOESg+pkFG2A$D9O2XCtP@
zNyPHWCg$iPIvmy4wQ{;I+{7F@M8{iEl6h;<qY-mP#?boddz|-<az!bm_d$lTMWwA|
z0-}>-c=0AF{|*u6=p#Dj>m2b$Wo7-CLx<=jW@*h`xEI@lIU}FZ`qBL26mCv3Ac8pw
zh)ztLsOI@v8z#)rM|7UBD1URXos+>FIz*?e=`*FsHWex6jEti7W9ZbOCpIA9z*=a@
zsk&dSmw@Pew$d4RZ*YtebMz4%>S8XlC6PdV%%MYc^a^ZpXxBd_V$R42T0hpJMV4%D
z)hRG10ns^O`i5dT=*tt#(MNQ=aog`EE`A8Y96CfNP{47BsV0jVb4G^I`uTjEtCXX>
zfD&^O5S?FT&6iUt?S(N%AJH*R-K1vXebt3Ibcjy3*04^9yVHHl8To|PkB*Iy?FhHY
z2<9XpIufMXi8t)sqA*7v(ZLUR#ps6224D^yq9f(e8NIP&wvIU?Lumal2H&&qaFXxF
zoCHKCvFX(1v+Jg^*Znp_US0a;t&iwD5;?-=`t+{2fn4M>W>cPVIz)$os{dc&sl-1{
zg9=ho61+JhgJ}KSWw0V}{<(UI^M?Pea_NgI35X8QU14I6HST8@Z=Sx8|I7EHKBA-C
z{^Etf@`oH>JMpV+ahKca5FK2vb<z~u@M3EP`SyHiN%P16T0e(R6k1YsClnr4sJ_<d
z?szZ((FyfsUm%@sS^epWTTjZ{P}fIvX#Gc3wnj6X8_4ec(@@l7q(gKLZ!FxmN+DgV
z{eE+K?A>v;k$$v(^bea{cq2v#PTaN@+1n%hN<ehdPHEcuHj4R3rxn;wEPPVZM|2pC
zW*+=u%E&gmeRo$l=(rsnq7&_9%X#{OU>)|mt|NVD{pcRN6(-_ebx5a8)=5SE|6ZK}
z>44vNU;ZP1eZ_R#;&lR^YVl)<oHe8au0IF2?K+Cokbb}TH}uo1V<Y{%h>n?C8>wK5
zjjh68wS$|<5#{r}X#K1Te<iFk^qtsF(UECx3iz3a=-7Kpr_!!D2!3IiW@9w;jIxGw
zz@F7@Qut3?d8EjFZtB^Po7X!@M90{fAtS>K-@2ywZ@Q$*%9IS!0k>DL@#*iWJNZAS
zJj&~q4;qVf^uYBD{vVJ4p-yN*aELC3j&Xzeh|rZhNC%u}(fZy2a@o;r5qVp^Tcraw
z)`(6FrOR}9S4@tRYWP(`;bs{xqC?^rw6^l=?#E2EcgX`0d#C3=!u12@O13*CH+(rr
z1N%MAJVb}`R!KJ7*TXBC608H?*wXy15uIfnJhy27-HB<QlacaPj%~b%PR`k(g}mG9
znYq;Gk}iIGmNnmv){odVBcUsToSm^ULWK(lcun&Voj%KjU^}+oc<enn)`*VLBl&RW
zG;fjf+>{|MN7>%<B06Q<Yi(*hciI%IvUG?oi_+%1(E3SV9(?h#TyAm1bM7>;Bymt4
zqN8&9i*%L2i(6jyUd?}E_$jRsorv3+sh*kyqR?5R*ZE;CLA;30m91u4y4jvlnXmQU
za&=*~^POn@d?OL_An<Q*Von~S(~O@~r^(y?fjQQQj>S^`{f*@Ikl(QfUf12Z;>3&S
zxK;Zpq*${(Q%XE&9DZ}|?feI{ek>b(F2{;I;kvy-GI6WO44;SSkZ(B+aS4_wH?2`$
zGrzd<!y3_1&$t)zF8bs{DgElp`6FLKc@dq*&g2erKIBhoWJ*-|wAWJS-^29-etyl)
zZj)4d^LY5X*A>Lw-s|dsbinicU|?GJCE;sKwN;vo*NO^*Ll7O&gfHdlUV7RBAB=@U
zJ@Y1&5gk9SnTnB*Pd7Oi`F0%NhTJDZbc~(eza{@Bv>!<%qZQ|=x!%zM*E4wiBQ7en
zC9m}I(W8WMs?Q^#-x3fVj|*2sd$dYCEgXAtbP4P$)`$+DXqTxL`C!5Vb<osw_b{g<
zqyujEv1xgl8zQgg?L#zF-;>j7ZoPx+2XvV3>^fBEkWga3PgDizfX^q`;{J@jlpyXa
zI59hMhN1AWAEI;o(&1}zD#Nc0Z1<Gjmgt;OhIGJOaV-3jJzpxGV!6m59Wa-T2x+2;
zPE;_KtG6AlXV5u%-tOJ$YMWXtR|2F1=IT1TvuY;tt_jPf59xsOr013XHp^WR#B#AB
zItoJ9iC5lU_P}z@x54!T=8CnuzU5PXzmlp|iRIV@&Xqh!2h7D-aB@P*Zm#HbhEOgS
ze*ZEa(gEk`rjoY*eLp$#pyq~E+|SZf9Haxz6Lvr3$M1@%m~1Dq0I9~UqODf6ej=%8
zFDd=F$F^)r&Z+w5*_kRt=ZDv!H8FlEJSX9AORn>FhdZKE@bZaBX^qlBr%S0#Z~p2C
zN+LQ22d(B@=2?yopViJ|eyt+B)q>Vf+G_ePztds-y5n};-;?;zDny6P(XQi}ZdwrL
zxFb6EdJnvP6R&p?b0iTR4}Kr@C6b5Dn6uT4*3axutGi}8CmZQnH(rESWpPv?I#CfX
znJPVSZN_OkQ+6qro!t?gM#@A}$_lNmdyVI=<s?4YmPB-{mHZDoXB-^)J3=D)ee7EL
zRufu3ZF`(ckMiiPb^ULXs~i62se*LC<2|0Cx&05H```vGs}$>cn1LUp1D=28%|yzc
zyZK8CNj+e==VmS|kLV~hhV#(h^nOLxedLHyo=q1Kq7zja{KV{vX2914^^O+eH`a}f
za6N<lB<$SUdBT^&a`Dia*#}Ql_(C8Zu%9&H0QtwPF}1AeqtaVeO@qpaPHK+FO?Ibm
z_W8c{<16ZKu9HDJV6HoA4Bvfr_V3Pbw!eLITG*qv0j?h~m-sM!rd(|Ne%OuIig|<G
z-qDE8+TDwDO@;U6%dd9~P*1EM)`E1vT!x)&-+6!Cxl)?3){@H;&q)XAfVpmdI<=&I
zwx+YO+0De|#V4APw{ZP{^9Yq3I!J4Lf_k#!r@UsUqj)-`1I|OTn;IcfL2C6aB8Oz@
zD7Te4qyx?~<}T17<>qyXf1$iKWuu^x7t#Ue;b^Jb`)74-pQYB`w>R-b)_gr&KcI6%
zW%%XEOWa8!Zm#4~V&RAKARRE5VZ@WmrCLVwELYk-z5c(2L_DMe&J$VZQoR4EU1U=`
zgsuOV<sTfP(|BC3k*s)0UhOAOX9uh7=xQBYKVYu3a?_WBSLXG;G5^kuWvD+>1?hmf
z^ulwa40dmYdG1Bd8u=v8x+6NbnKUao%5|TA-P?N5m#h0r649wWf7tUAqnMAje;9|l
zn0>`oEm}YIAvQ0M9J|Qx?x!qtUVeML5z+zsnIov5IU?~VET-yfQFB)013yG3B<xQZ
zdwq|uMn$Xe)mU9yc|?chNkER7f99D_$4l>3N-gvdK|0|6bHw?@Se0+77B!n-^JZlD
zOh*k|&tO0H33CnfgTzcqwr^F$>i>v^AUb^YciPpfM1Q|%E8efv)}2yDbS9JkzMq##
z@@ylsuQAKsJ4^=Yfc<<RT2dj7q<D0zjFOAQVQ9a%8m%AiR$o``mUDXHNpH<!#VRgE
zBRbkg(ljD)tOS0KgF1_5Kijk*9Wa+-LjRjLnkho-<#%N>FY)rwK|0`e|3i69*@-K8
zi{ioy6*jj`%aJO$e!z9Dxa;p5TgC81>$)l3N*-M4d5{h`kN%0{`AYf+p1hzt^xpc7
zyn{8Q1NNh)*8e<hEbCToK|)mIBkyJ$qyx_L^l5-pj+if#?N+YQmuGJsS1aNA0iCnr
zRepLG=$I`lEVy6C9!e)bI$*AkF6qHnH6QB=au=0m^J%fWLptC*{*9SY#(kT+32x4D
zTICl^B@vyk*@>0=VO2aIw=chH&3b9QRRPxzn9EMu!6OSF(IGs`qtLwc{(2*%1Lo4Y
z&u&HW@?D?7zcbv;BHG=4h)!yK*Gq<QslK@Hf(i?<B{K4m4wy^FElPgz-6zTSPkfX0
zdCwdmgLJ@LqBn`;e+&d>oqlI7*)CS--cb(MGw56w=$hEm7_a$pQ8Z;f;G}2>qyy%v
zGZ--SDoO~^iZ7Hr*QfPY3(^7S83@xzUJ|`c@=EiiDRqKO6&0f6oU6VeTb?O2(Ui<Q
z5EtChTL#w;m@7xg_@{XWTd>pmu~u!7Ihh1V2h4T*PwLddvU^dG#X_z%fl*E$(aHVb
zxxvVkXzQ98kk;|~U_TwC1LpES-{mLMnlr859R6WGW&Ysw8@PVJTrJ-YmiKHN)H;6a
zj_&rA8P9Y?=gR9JL9c1WYrgD^PwxLzd}a>mfVl=r{siikG;Dq!@HrJl+ab#f>43TR
zh^+tA(O<Fad{A~yy>W?o{xw=Z%^l&nU%rrjbUz<Mdy~V~B@fa8b18-&b{0FX)oU|a
zI7nnO=!b`Nz+62(i6mxup$#|6Kc?I_2v5f$I!hwuL(E_2sri4nyS)vJ-CcbJ*AJL$
zdoPc-ks>Z+^n+uSUZn1^Do6*+71JHaw?@At9g@{aw7HY*>W=7~Bz|>C`kqg)WW4SL
zd;R5~l8_FVYvAIy7v0mU&l{$e?(c_>P7*;nV6JIWlNFuRL&qQ8!b?aUI?LBcfa@7_
zwz*vzLR9e_eGv@!XW6$6{U9AMSIQ24*D~JCyl1a|U0JumUK!E>=h@kLcsnz0qMA4G
zV?Ui8?jISX1J1)XSEDF-^xyD^#R7@8_{QPhQnY@q$jMkmyBP=`ZoKd}a$;^Z8qry%
zyp+2BFSaM2qDQySiz`$M(gAbDFFG^53Swl}y5m`(QmR5v2kC%4%U<i2RVg^`<*+<R
zm*x@CGg5-q56R6gA+jNU<zC|xL`F_GXcHhEFxSTv<z@N0`cDDAOwr0D#ZSy39Wd8V
zdrt0R{jb75q*GLO_~+_a5uLAj_gF8Nj2@PFdB*Ly&f62y#c=(AxjY4e>6`lVHV4D%
z1qrh>sd<nNn2UbrvGQ}b-*zm6r*C|@nz(O`==|0)3ecAvBwZV<CoG4@_wYhGV6Lk=
za;~94=hY5IuSqub4t-xOg6jv&b#CT^s+eI?%-M?BlAfzEX#_-vUB-!w<fU8sw$Q8l
z0YM-A@Q@Ce%b>yK;-|fjj+R&T6f}AEdnF+qFxTy?ek4EdQ69Y<wMBDFWn*ru5Un3Y
zvgOsno6mk0k0#?+uU9cvAv)HsL+AgPFtnLAGd;*>pmlafbo9G<%6?pJiy@mj{h;E7
z_>d%|1NL0Ul)xGFut3rv<$#RZ3+W&tNC)is=%a%+-xj(&y}ymDZ`U1v)mVVmv)$Xt
zpX)EzryS~ux#Leh+wp^Rz+4ZG#-~MWs(;pBY*6`SeA`|b(gAbTtk=D1UYba=ee6^;
zHsv8hhUmN}k#_lF*^+qq{&HsZR2*|hK3qRwuAZ%-1l2goUX$okXXp>l(L_T!V6GTT
z|AH@xull{?W(=q**>|)Moxi40c#)2R?^#a#2QISKE>b}{V6J<?#B=&qG<9n+pC%dK
z$1jfL!Sw^?n$h+<)T%9d{M?N_&#H{#yaYriXh3G&tkq)f6>Ug>L{i+eKBNQYx*=-a
zJfoU;%CoS>`G>yOJ61>s%ys#l)oewueoC@SVG=n_zUlN!w0=h4Etf0^QB`XgH4zLS
z2t7)NbiiDt->!vFY?fu<xPw!wmeO*pAssN6iJd9mMLMmnlOiL+zsCQ1@gh2=Ri3F*
zSJPL@m%kLh?J(w=&xPv;%w=cWa>md)mTiINmvPt?`XK_O1LjKTewDtcJ$bzG1dmUr
z=<rWGqNBH)^4ZIDv1}aAM_2GHf)WSmfVo1B1jRVS(Qh7QpgN{;nM-~v2d*D5*D~!R
zW{KuGS(1!r>%ql!->VRvAF^*{mKKQn#;)t%w0}Gq?hfgIxdw;CYT5t(+};stIX#)N
z{zV?r0dpyGNt71|_PqIcD=f_V&=D6RL`O+nq$`XkfBOE3tFB6Sr#u?7;d%yh(ap~q
zsQ3x8?Hp^}cpF}*7y{{lxkf1!c^_8{+c=Pn{(j<m?5r}R1AbrdKkr$BbijGM3Jx3(
zR2<=LZF$>%7?-&-k_Fcf=uCbOp7<nWxk9-xUU7kof{*~|fIS-+5x>!mw|RV`aP)5R
zwUu0RNC%wf9Q}nU)3uKRQuf1b``$@YtcXrqrYmu_2{lez(m8!-sXAyn6RsaH*V@f}
zi4L{|J=xm7V%MFg9P=O@FxM$gry!|+{MM&UbRI6B_2jTdbX<OPx)EeI)}Bjz>!`Ie
zljKEoWCnE(?)s>U8i*Cg?vDw*o6kV&=cm-ZT0^G2jEYlCpyuI|1q4V3?B_Rq;-51u
z2aJW1LP9qey~pv0&hR$r2!ZabkjkTa)2|~9);LH9-0uBqTFxixMz=p*(;zaBT+7``
zhwBH-6?i&`daQa;?8Oc4ZK;6Dk}5=Jo$q5f0oU=dMELH&i;ZR<cSr}!bvxin%F9q`
zue-F0SC$=F4#-0~V6MW4_P-~o$OVR}IhV<HI|Ydlo#oAv0Pz}cr@((aijqUEw;I#n
zdIob{%FkP0Kd;3n6UN)JH-4WX1kwR>X_scP)3XFDNDaoEe%bJ`S{c!C<mWx5zn}1x
z&-iB1q^(mD8KeW|vcxejs>nNOH?-B48W3)K_ol-21Lo2(_jdlAJ|5lebuy{7?<iR`
zqEo4Oma;i;gKs*=d@fM<+;1&N2h3$08he6{vEOcg#WOdJ$n*{!qyy#(BBEEA88{b~
z`RDoH&m@<xkGw$Zr}h~2`F)%1Y<6M(@?dZB2MLf4m`nZF6HQ(Dn370oy{G-Or84G_
z4w&mgr9WpxOMjvnQCa17KkNVf0ux%ULGrlgA3gW@jSfEeoO^S8eL4ls0dqC}N;aQ(
zeTe?wTy@Wf0)eVLNaufY)eY=4+&C_@Ed9~t<Grg%)`-rd0frYho(5-*_{3ILtk}@;
zLONisq-MKMw2b%lX4o1Um_BTLT}_7T2h8PGZE7oic(0mSY`JVq#EY4L=nUKDGPKPa
zi)!kIFUVZ#rolrxV6Ku(QQOY;GZxk>t@38}9WIiP4w!3a>SRrcP3rp7>$Jod=e>Sz
zC86~rQ|J3x-I6*t`N>(&<9{EFR6#mmu7S?NuRVY4E<R0ocsHFXIo=P_0dpNTi^lO4
zrBHZBBuC2o@khxcI?q&7eA^$NFo?QHee-;Tyblqi1Lo4(e*R#L*XxBXi>Q4;>C%yo
zM6{kWm}UJ*2g33@<#mE+b@+-xARTa?h%UO)@!QPtQJGo}#4A7FXhAw)&sTkU7FKK9
zD>pfo86ux*9;QNc#*|;(S>&d@{;vIO!hxMP<-G}T{eZayzecWye1CqSd`V;^I^#iq
z0;B`xiZm(vLB9Pq@};<lx=Di{vp%A8Svyy*SM2H=j)0%-yIbZObdV01%hs3ELSUtK
zH+hx!U*q9t-=^c?`T=uYOa7*MIHCC3ztWxbshy_YbVvuBN5Ce}*G6xTip7HN95E+L
zw>6{#&J(tdA9HXvD=5EV$@Az^WEwA`lR=tV74dmqB;SjO$FWNO;QVvAe!yJ#&x!8J
zqU!MzpWaWj=E}AbARRCl$2T<vB8w-3GhFqD4fXn)@rcfnPAPkLrDO5+rXItSuRR)Y
zkPev3pSsu42=|xmu=v%#BuCZ#x1PcE1LoRr2#{S}{-p2gQ|&33NE26u=xpAtQ5$?T
z@>z_&D)K1ZuQ7K>2h3G4c<#loRPWZJ(8Mo0-faHzkPet@FNi<>hJLWw`~j0sOgSBa
zM2ODP0rSvB`xG;ke744!ON|kYad16@xqK}3X#4gPRmQfbV%Ko|3n7pWm`nIn1^vE|
zcz&T}9=Fbpv#~Ow(>M8dH%#i}KWe`>D!ehp@??+>m@Dr*?h6CCikB?oOoPz$`?cO!
zxPHJ~{B+ZPdrloI-wuS3%7s+)M<Y7FOaACcFAVQQsBbP4xRv;{ARRDQ*w7719(G(Q
z<z0)>c{S$KbdV01ODTkHEh|2Ai}9PhlKkm2XGdbt`uXnvt9o+CHJUu+wX678Nmc@+
z1Lk^LR4C=;_4DV8&$>5Pv|f9eLportAFuB$wcqHA_YP;zSxPx>z>4S`)%6i|;Y?)K
zj&5#Jn_$?SehSwQn5(GqUSzw1=<xy{UhQ43bFcCs9Wa-A7w3(*dlbD9C8~j1`oj0D
z5uMP#nxs0brKCGM3wOIOrDXC#I$$o7&Qm4}?%t1$bs1gho7Nt#M#J?3<~lKc-gjiH
zys5bzUn5^*kWWB#x^&bYUe3G4KHQro8WSy^iidQ-T+7~~e~BZMllVmM+k|e+s!2jR
zV6KOLgYnrc-2Dvd@0dT(7j$k#q4l%zn5E86_RQ1B^&g{`L+VVcARRCl)1~&NXB|pe
zH9K~nf}|PR{U9AMSJIosyG)y^t~MG~;xWVP)AERpCGma-bxkertl>o&Z`qTgM2L>r
zp*vZEe`^CQX<Tf^b+ZVKk#IeO{d9U!6TAP>Jha6_*x#xZmkfb)z<zG%$eap06cl;2
zci@EmQIbk!MCXF<`N7u3fvY}0r~7t4>-;5ybiiEJs+RNRM%u0=^U0c}a^_jR5pey0
zxegy+Im1NL?Qx#0=(b4eW1VP3hbU;6Nn*10aCX;r$?m0H4lP8-q^k4*-4~xU9bcw{
zam;c{RFDqXkKc<mp|l^GZ>n0oSmgtbrH(v7>qkJ`MvRw6mCkZJk#=oFbtM7Oso;5X
zWBnw}(C2y!9-9ndQGG}U%%!uIP^HmsbwlThf<tQP;W}1G2i)$y74ElcYOLPvE`|2~
zU5e(N4oB;!VckGcN8;(AIi2|gW71EbbVvuxwd-8|O!)Y8w<g~7X~_ZJkJgY5m@B_n
z|6_%VT3|2VM43u*_z7M_=bzr_Lpev;!9`u>_@c(nYx7}n{eZb79z_00YdPmEUtC~N
z+}-O*fONoIZyS<!Qr7~50=(aUd+BC<6OZT|qA7KB5LeXYG!>fQWfd&LK{{ZrDw?)B
zyp4LmFP1jnRjm%Ktx&jrz+As+t1ZULIolPJY}NhR+wN5%I#-Wnd6I2DFxDn|Md?*l
zr0WjpfVo2R{>FC3<b27aiB@T<3!0LLbiiDu9&XHk-M*5qkx(99cyqLs2+{%PaZoVi
z)M_B#J8K@zX>vQ|N=FD<&#UDnB#$L_e>0>wYNSv`Er%dFQ%UC~2xMm>4J`yd6|V&S
zREBiGTz{Izcbh&IjXb5}J=I|}*+vEFfIaKd^|w5y_<G7i#!_fTr1(egW3+z4pV-8;
z(%KFayL=UYLUL*$8qxuCxeTY!S#q2Xs?JIrxfHi+st@Uax#HLFPdB;llncDJ>pjWw
zT$m2g5&in8nrM!c!<aAI{HKGf;7BlBKVU978Lm*_?O3*{in+$@!S392NC(VSvvHG3
zE4{&>>-GoARzV#_b3}*Xz~<3~v){QI&gxL`e)Gs;g>=ANG!IU*Sj%*EEBU|3z^&7y
z%?H8t1LiuKgCCG{qrfSJ25@pYC{X7iI`Lli?}ZPC@TR5~i?eSqty)7mV6J0&9=g#3
zROO#W`uMgP;<9j%4w%bPWvU^PKVRt9-*A)J(f91DkI?$z$)h`E!!P>p&RgTOPrCZ@
z1V{(W<+^CE@S)e>4h{X08rRuZaqf@~n9HFp%rP&-ocP#G(glynssTwz2b|{)+iA1@
z)Jhxjnh+NGz4js^NC%v!pu;B0J#9fTExykZ=U*Y(7>L%hZMB*^2YqqLccb2k3&A0r
zeu$1VM-}mBTIoj@Y@CO8?=ifVM|4u<k2%LY7aCKpD^QTUGdN0w=r~jN<A0Bo*<Abl
zIy_j|s-rOgtslcEvwnq0+^qiQY1URR&SpPE$LnjO#$UqmJ$=QUZ8;qeNqIzvBg}h4
zSy{&zx8Y)y%KWj02+?6Z`l~tq_&@f`xT>e4qHKnZ{%HL?uTEOKW0W-CQ+CX`9Dj`2
z57FUzu4Fmir~4%}-`BONt>~~kqGNa~)7*{G>;6@7dbwlPXNHInovlUdPNljTQ#lIx
zMp{GRu|_|%ehy4GeWy+O?Pw+E^z62+Sb-m;1D-cRtr-t-%S2v}8dGR}efE;6GNc2Z
zH>zF!UG~1(?Q3|Ii-^yojg$=00e>I1!xya|oVMJ9jmIv71F3bAQ72M}LJ*ylD_nC0
z!Zhocqm1a}Jbh_@(LnV>ZQDk&ujza+8KeVlugFbfk(t8t-!Z56AzVM8!;-n<B2Rlj
z0CN%$o%4#Uj}Ja!ros9#hjhUGXW*VcQMYDuH|DS+I=K($KFs928^>}@`=Ir6i)%Rc
zUXBepgQ^3L{W1G`9->otm;9mFJs)Sx!6P~+HU6sStouY^jwGVf7p=$mypN~G{ITdu
zQx>@eB1i|^UNucoU-=C!6(bsmpV7xkiZpt|^$a?8(<Q}5>?b`!6sOK6q$<hyAv&+=
z@!KlN(y|I?t|?z{JNsE4(aGK`_#$QM{4&WS=CeYA@^vCa=k}>_s$mza6-NCt!sKtt
zs2aV{`iW_NM0Pfmb9ar#kxixCrQ8qEdHSb0;InS2_wYb?jOKbdgFK?6IHfZChw^q8
z<`5w|-@E3?V=fwhkxg0*>CHP;-sp+ekH+I83~g7e>#=$K5FN$=DQ~m!gBo2SM=Gyg
zTiB3Cbf%xnR9<!Xqk+9|nF!JW&(Fp;W*6-$8%MGCEq8dp^#eMr)psl;$@odIT+xsY
zc$`M=AMm{VEsOlVo_^-<kk{5)kPbLc_-+83PD3OQb%#*=&5(!vbdU}>&pn%Pfzc9q
z?uh=U6xE|-gCp*6{eaG<Ux&ASZ;@xFj#ENj)zDM|qyy#x-$!kZ=wvTMO|O2?dLLYR
z!&{)m--{R0p(pzP|IwT*aX+>7!s(~MEmm(j9vK3pL;C+`h>U(}@BREoJ#1jvp1GWQ
zE;Jp|u>zc0$7ZR3q?Ncw^<jC&jbCS@A<r8UfTN?>%ePHytm@nxc<-l7i_;e5`S}>&
zus`yCm;T0X>G=k$r+?xuDIMhJAPL~O6;8i5HV6{E>GSa1R99ciD&#yz0q0q;kWK>r
z@b2qQ)eoosIA0@!oCo~BEuEp0#$jK-b_YHF+ama_)@lTD9`LyEv6R;d)M=1D&dX7U
zlb}A9fashW8s<F6%+`<<D?U({L)xK_=xkDs|GQ6|!-!q~&_O!jaq82s{$uLncTR)r
zG$97w4iVFk`ytrROukeze`5UoOlw>H5Ekp<bVO&}wJL+p(u4WZ>gG(kv&)z{qO<q=
zUiomB&+!cIlvRfv)f`qtC-yN*>Y^ddKg^ki{QLs@$!%xB#W;)Kjmb4)@)RF>oQ~-1
z;>BypHq}MFgRhH~TZG*+M|6xNDg7P&zkJ5#VMTP5GD*_eNm2-yGmZH9m9@gvnvCQA
zh&kzqPS}-}7fBo;Cosnx(a|1z+(a7L!uaXdS+dydoKLKX&P|F6%24VtJmyS8eqMn4
zPfR;5#G@=?9CKhlcR*)xZDPhfXGsThU_X~Z2RAhTkg9Ts4s%!$b1Ca;CI%LK`hq#r
zZfMsntdD-)zu+O8j5+Cuj%MlcKYw3Hf504bM5p@?lh$16JyFbIMRZC(*>3-qBl>Ti
zX;-v<oX=VA3Z95m!RARvbp9yx#VYtvr(=#eqT?DurAh9YOochDh|Zr2R9|ueji@na
z+6Aqjb4FuyE;jQ1n3Im^Z2GEKMuy4jVU9VXbNO=XpvSMdLd;=BbjXe<2>C^RRK=WW
zXS9B-q>pHS{`HN3Iq8T_vFh1&sff4om}8FUP#lbmrT@SGuEQKwM5pKL_MOQ?o6(pv
z{Q#{Wf6=W18G%ptF()0-@uaYbc(Fxu7IVx|ouN<ch932kn8S+bn9RRDq0d-$26LvJ
z(E9O_cxQcwtj!d2(ovn<e++#WVvk^sIihn_SE%!+LB)T^J1e52waUoX<xjng%`@$Y
z)=!e@>8J<J&QX|?j_CMR@dx}?%lUu%52CYI<MxN`48=M&4=bYc#^v(ABcFwWFlQQ%
z)=$oidCk_Ulq}|?BRbL4Vk{MjdwrN=j_AnLe$B(heE5IYhlq|1$B^vlyZk4yd8QrE
z`WfiB*goH~poTf=h)!E59Wx1wUmoU|BRWPx-}8ps=ZG+e713ebeZ-(4YLSgO)Anfn
ze3o?yy&`JQjXCLvj?kL*OfdV72<Dh0Izi@DSJngCw`NZ(><N6Y_F{!}!25Rw)x_3w
zEfUJMu@q4$G}FK5?cn+W*Ga^U?1ojYSd{ZC|M<*Qd0o2-(gA;$^DplsC9(sD-r6{p
z`!Q<KGbcbgM}YO8c^A0~rsPXEAM7bvMB>j5<v}{&x|XQ+kMJno_cv_nIM#ip^Ts<M
z9dKO>TwhIxbin&2aDCMr(gC+SxW3AZ=rD2~9!Zl(I?h1!OgRx3C%$?gZvO#uQI?hz
zTI{mguU1HnGRms<5g;8f*S{;aqA|<qiP-P8xkEbOJl(0I6MEGq4>3m)(GjeU-6X!v
zXM;Ig_t5&0<&Qk&v@fEKIaP>GMxN%pF7tzWfeWdB8e5znx<fi(&wtKE4W1QslW!oq
z_fJDnk5L}c8TxL1k4X6A@Njk>$G5|uu9HDJ;PGzxUj4)A&FvP4IBFLQ1FbeXNC(W7
z_rT<Gd)Slx#BFPly*<LOX<M}I^<<V~c)wGy$|;NdS<2+MkaR@HoJwI{>swV}+BoBf
zbr}^-b4Uj~KZkv_2yOoA>u7fS?yhjqaXTEO10EN#^Wh!8yK;{nseD@0c<CeEstsH}
z;5?>*{O(P@&((w^-hPO@Wt!E9=rI2+$gpe}Rj4j6uY7jssA4pv1Lm6l!^M>J#W?)^
z<AtM>uZ~S>Av#m>Jw9)UUma?*WLbTz<!?)c=&1jxqWAA3C2g}Jy_fJ|C#%;Qu4gdU
ztc`ob(FYCFn`^x97Ac=xiH3B*?G^LG>*Rd?rSEzLG3pE)Eb``v&bM*0(W?(c^53NU
z-|DwjWWhl?V6NcIJCfQLeYJCJRn%(9%s#GKq4kp^u4nkh{ej}Lf$!MqjPQ5@q;nX!
z-WW?P`cPyV8O?aEfhoWwr!WE10dwsN^^`atC&^1UqkWd2EjFkR>44W8R<Zf2cR%q<
zI$8-Si&puk;2<6Fd{}u~zA|H<CECp@<lp3&>(<s?w4UeB7*+?nI1fK9^s+j8xS6dA
z(Giim<=i}a$n}kJZYiBZ*{VCDQ(TdC%5SIl-j_?p6)#0gen}!aC-mY;i(<`KSCWH@
z@0BQ$ZQViZ=hm2Ocg64LT~Q^T9s8n{_$ow)NOhB+=Gf|;F5%nHr0+8dxg$DW(S}1V
z=A9mrZ%?nMX-I@hB0A+#T=gBDrx%~TQe|een^D=i4c8C2KObalKlzcT#`T7q9S1>(
za-bK|0gtcF2tGGnVdFrKkEBG*tF4ct5gnqKw-VXQ9-B{MshaX$$qZ>BIy9^NKkZ8I
zDC}_@5`4iKAVr1f9NU-s8~u&nE|w|$<D*)${9a4Ap22=3B!{#Qx_(ak$+KE#MG@d1
zjpz^whzPIUlDeqka@sN`G5@C)qyv8L7^xEK&-0!%%MA?J5$F5J$O`Fzxl#$9tZJS$
z@da{>N@d}ydeatg{eb7gY%*Vm7RsAs<}VC&`pe!~=0Q5(JTXKxKcvoa_%B(r5!TyZ
zv|B?u;BgVjKPf?}63F%KpZih`P5BXdM8`6XHRMl_sqIbW-55rGs%kn&2i#t>oR1$E
z{1W{n@0!umw0>f0{uWx#()W#W(yR-4CT@69vK^@^AwW7{&mT#5dU)Sol9wU9tuQTY
z^9+yZSUr%X&@+yeqbp>%geTAL#34Gn>l2k)&rWu^yRK#@S()aqn#1)2=88>hc=R{*
zdV=h=2Z44B){F#1r$^4C^RIw7-G>wOKE_<(ckz%8c>VL^r`!yG!5?{JhfDp|ex<(p
zkPeuuZ0_TQDq6iC1IkY2I+9#CI!FiH4|^pj4UM(ZIj@iK{WyFlgLB>tt!LY*opN2-
zuIQ+~Bbz;zYPETYj@Ed3&9(%y5L<X{l;Mv;WotxdMt`z-JAT7%`22~LIkJ_{yoipE
zkl|}LB{9#h+e%b7g;MX&o5J-2o`1fC8oia;4LsD@d@eVM^3KmjNC({RI~K=i&oqBE
zw+UsRs;jhi^h0!9A}Vt9-d@gkkE7nRVxCu$M|9TTR6Q1<acl7`plNaC@{b}ybhL*|
zWqe*<6yLNYD|kfv{!60?T+d)XU7AEx!@&~2V<hZ7cdj-J_#ry20$Y9-F^8hXl%tkw
zjPCHuBRZ^$)3%q@J~G6K4E%ccb6boE(TP(a_fk>OzF0g>b~VF9bg9u8tsjrj*?(VE
zQ|5*U;w2_tA<z8~9sl9v<yT`4tJ1pl88IXz5%P#mXl#R=?_AKZ1jW}+=N(o0h!7pl
z;V7@sqLGr>u9Qx~6k(&$2(6#l$MG9m3bSPg5AQkrlV1(=gLJ_2Di@6|URchP(1{y=
z>1HN9q6O)I`*YRF;_ZE|n%**3nuQRG4hJek=P2o<hIFv#(7OLY**R{H550zH{qU`*
zU*{*A;u9_$ueT%@ppHg#I;a(`l;}8p%5EBqeCLq%&_Z<lr^D7#uZ3#V)S2G7=4^13
z3eo|$m#C8bSrLm%CW=*AI>eSmY10O1{lt8sbe!%!n|6(>l3CmS*!y%y2b?G9X)&+v
z!<c_3#f(-5ul;VqLptE+&UF?C79qMN=af-7$|mFHC}l_o+z-RAa<jhrp?o$=v(ICK
zd-g6FqT_e3j>e!hjv{rDLHl`dqH2deTF*a-c&-jND_!|j6yZ=Ze|9Pa(YblKiG`lB
zH}|b8lj09NgMl)lQx@N1QAKv*3rAS|mltKX`pFQTt;!ea$?LUwJYmHflxnRp9eQZ}
zaIYVImUW}qLhQBz+wkf09wCU1u~gII1nWb>_2>uZvyv}{DMLEo{h<B_>DUN*hU{NT
z@^ziUUA|P14!9p$<b{d#sp(DstgsP|Jn2*2tBcl;ao*z~6*8BAO;<KPv8rzIXhi4t
zfy9u&K8wF!X(fGiUJRLNAv#l5)&eFeXFi(iTwH0U&v;CQ=ujOvePg#@NcBGP=A<EA
zhi>mpw0_8bw$HRZuVspU65t<o#jZIT(aE;6H%ekFcCs-Qc-t2`)2W5%w3LRgi@vI%
zT=fx_2)}ckhYHb&FS@Xl_S$!b?#`LSda8sAy*JSMDa74fuD;UJr0;DXas6EyLo}i@
zIDb$%?SZuAhRXc+<VRi>T8Pfpko5n32g~nLf5^zsYU0d!DnzI2oxjIS3nTe{rTo^m
zkC9F9b+mqFj^9~f?s{?5YFe&?^;fWMG@?@%^5${PwJ%LAL2)rLPb<r`5S=n3r<O4l
z``p9oMt-8dbgxq(I*DI)Jsmv~WHa3chE<uQ_j+~E`q`i%Ry#5`mi#ilbnM^F7tPU#
zPD3bOj{Vo<T3g1+6EDBTv1uVXP8GPC%lVGf>Z@WNU$!6cQXx8<s}GOA%yIsW{U1lK
zHd;U6|I0)pI!3BTjN|%$XJG%wp@ryx|1U#@==@nG*1B#adp`s3+pbV%lGv+-)(`l9
z>(Pi#ij8Jj&B;b~?EluaARX}YowZd;p|?!i4eOZ>(g8o;o8@0WB0hJ#Zs~XU!2`ON
zJ4dd;^#eYS)Ejk-O+h2!IOc32I-;i2eWOK+54(0Nx|jax>7eF{IsIJu>Mn(olwb!#
zXd>4TY%Z{$_s=dn9{NpqPM?6^aDDjHDFHGU=p<0x{5F4a`M{I*nCIoYgFgC@4i)fy
zu5L^J?J=HNtM04`mQ~BxThWjXIM2GUC-scS9maUa3>Ed-oJK832iy<8WV7{@ZWR7G
zly1Tvzgo^u2kB4(xvm9<$Nfp1n0lG~Ycxs6janJfVF#S%;O0*zg&F%&AweIF;=CSF
zK^_<2{h-UgP)V*gFPi!<@eJ{6WcEx$&I2A7-|HxJcrLKKURIxYCAxXsp9pfE<3O%T
zij%K54|iV2jtgE$hXHUrNLHVne(`7^UCZI_m(@0fDo6)hSD!x8I$`?tcgmF!dt-?=
zcdF7M9q@ixNx0-*I8~I47{lDv>f1rL+#wxWAeSdana1qspB*{FL#6p0JEI+t4!A$_
zjra!2l4nuz29hvP7oUC#d!7g9>7QIqe%WpwFyP_k!sBxM{50e|;BnfL!jT+v)9h{*
zweeWI^=(hop2@rzZuNCFxsS8w?~>NuvW4v#oQGI%_#K1Xl@~X0Hu{QmrkRq6xvGyQ
zhd+>r44vt#ysWYO`OX&P@deJ~JIZJ!^?Iu{(5*<6B7PHB1?i9h`;W0`-b$puo$<nZ
zqSSYlXUhnX4mi&~b8$WMwpx<hyo{G@+W9~{qVu4Df=i1$GU);F^NCBr2WN1Q4!A#a
zD~NA0O*F5B#tZl=xn_EAX~KQJgSnK`?9cwlef0jx^z-zY`O14$kPbP}bMm7(^})`k
zt6^8Iq|NJUU11$C*JS$0`JnM>1!?O9Wt(^BMg1V>0dwV_ARj(YJaSB7U@hhr{)3x5
zqVvU)<>|Wt!QZ%@s&jW;ez_ANI)WSLXDc&Z1G&i$@lulJwKi(NZ7;B&f}WJiA``@6
zMJ%(NmD^G)A&?H(4_;0-rziUz&Lrn9tLJyd_sWQl_D;P)qWZs{Tbe9iNEDqJ$Pk^-
z*np!n8?PT6%8}jV6-wOeP>1UW%=IPn0H+(VEZ1Orv4zi*=*kd8N07SEFKoorBtZ6^
z>X2egt1_bV+~6a*iI%yj8uMgndalW3GDIhsRG0R>>lO16hk=gwMmrQ8YH0mr;j#!}
z%$n(M@-p*(nO%Pwg6LdjdH(mixP+ajL65qm&2=wjL`UwfZRBB_#$46!bys)4AFv`r
zbT~@n&PAUWlxaQ7cTaz=v8Y28t)F{Lw+2JVPNWT2R(3gl@DK<=bnbec${SA3(Z1qN
z+y48I8Lu*;b9x{wHzMko_cyKQ>eRJ^;be%;yH{5q$Y*7juZZv8xPIaiX@?40Ka-l9
zU3$NjM#<`vH56pT>O&Bn_e#GGMYoVR+g`Q~56?UCPZ`m%wC-ebHd|PEsp{Re^L#jj
z4AHqyn@jWP-HkiWdU6)C^qZa?%5eRF=V#qYpQEl9hNLkk8qs-Fo*!iRX=NI7^bwr~
z8ttxw=7t|8<5z;mF1F!VAsz6%>i)p&*M*}i!pdXk<KOOQoSeRj)=%)qSO1<|5yvlj
z(FGR7)mG&}I^aCudnT<Bo!a30yVMfT&2pwGdSv4xN_Y_+nl~~x-}%lCYR+Xfg#Rjx
zoWBCs511=vJIm@AC*zwNPpu|yyKgJxAv&e{iCv)#&lsF|Zbmt9AN93{bin=DN%4zD
z&ttC4--;6PJi_PS;vgL`*Vpo2G{&Vjk7DmRSye*ohb+pu9e0**YA9rM>G+WfJ_4cx
zu8ZOk9TIlSI^nB)0xvgHk|T~8e8C|)*$=b>zR#J?)P%k;FDr>BT~$QuhbD3%P(bAP
z_V&5(Z{2|cUkHd!!1KC^r+@F>$f$6rx#_>Ug-3L1pW0+<i0sE;4i3@jIvvK(`|E2M
z=B!>u>xbWb{|euMf>O*OAUcav5%CS<6{47fM|8Lz9QrhPAX^%9aEMNyU)Z1$Rmm%C
zJ$&^NT0iL(6nTBdL#~)ZKy-wOTn1ADAL?W4*my(-To1<~I=c%uW|U<1)v$S170~(t
z-)BWYbnbj0uv?@Ytia~MBRV&(R&|Hi1d(A54$(PP__zM=({%yNS(QiYr_iL3`{WqW
z1<WBJI^P0h)C0{9rC<&o(Q&9Zx9z%S{NMY>aEOj8#rqZQ!gX$Jo>e)tes-Vetej>(
z*n~L*M8~2$n`e58f(LW(h|ah7iRW1pMyD_bhv<Osom;(#)=$D%=~F>H7fS4VPXeOz
z^~lEO^{tT}%)ui%C;qf&%q6wwVh#?`@lgI3opHbTDCVqQK<fv8D|9aD!dN2a5D=a6
zhLSD|SzA`j!6Q0yDp}-{l&rm&gF|!-<muat?P4}CXH^!hA6>@-l=yeSdYD5%bn>pK
zCB1x+KZiMZMCX~;+3)=E97&jiLv-ry;g4l$S=C|Astj5`7rL(|#J#?2i#Y^DM`ZSh
zshWgX4(8wy9b7RDW$aFk1m@rn9g^PPXaDb~z`tY8sx(?ZDe>G-c*Ob{F^7QYJag4r
zn5-fF@A(ZpqEq3$B0)ydoq^4RLv(%(i2m@U)3V2$RVlQ7Bzjl$brgBWF^7QYXx(u9
zl(dnkg*kXc=kRKxH(?~e8*^}o&g&6!Eu7AYSD3RZiPq1}kAhsU@fH8=&jdt=f<^A+
zj_>!s*gSYdhi$grO?oL{6mxKhPK?y-`AX}(V$4}RkJe9kpNhkNp6LkY5D*=l?n2aT
zxNSG);1M0`Hb0*}^N0VvFBgaCaJ(nb=XbDO!RA?&K<g)6$mD?!`+YOaAs{;cvM(NW
zJO7akbMT0c+?0XdnV_LNn1e%fZWyI)bWzw9V$P~KT0bc}vA%n<%l{px1VqPUwX6Rj
ziFyz=4<6B(3o`$8VvCjrb8v``voUiolV#lv%vlvf>t|x6AwhuX)jZ}95FOiuXKy@K
z7}PKakLc)RKNHG)p8wx<9S+f9zBhTZpHU?Sn`c!Nt)H+T&sCJB=R`4wfat8ZK0j}w
z&t{G}ctl6`&5g$k`ERo@2Z!jevlJJu>gB$~oK+FDekP9X9};gm`wnvmh)&R){q`>1
z&3??mBRZ4+Y&bezpMQcmI7A10o_19jt)Im{-Hycu#cS9+1VkqylPGbs;r(UI!6Q0z
zPe{eC|J~!k92}za{L+Q`+%Q}o=B(n-`U#5Bx-0bf?JnjJ5S?r(yFX>_toJbokLWxk
zsc#y&LG|B#HxAKZnD3gVd~EE2&9f?m)(`!-LhiG~EC28Q0@2C8)^F7|<1dfRgGY3B
zReH{eo|^dYJ{O1RoH>R6CnH;0gUz!lh}I8Zk<}l8#b5vZ4gvwu@iM#n(!t<1F*Xk#
z(HVbsbNfo!nlt9$5FMxco&~!H&z-}Z)pKb5yloTs%;w$Of;j|4ho<ywWGL@SIOgCH
zovBnm52lvI|IUXvM2DXGl#AO*2NP_b)w5{*jFz{S@X3G2V-5k)S$g?^hv^gzALif@
z9h|RQN94xVf9sGqM5ldggS|)o0uGyJRRFD@F1}Yq+*EBJFo%HXG#Bz2iApoaVh$eB
zkxchepwQ;a#~d7@qfI<`n{;qZ6LVJi(fTnGkdA#eappPZ5D*==!Y~cHh%?HVgGY2W
z)#jDiua5n{`wK+pSa2h&qo9r|HqR;_T0c}dB6`eEpLSvn0nur@G1|>u^L-n0@QBXd
zZAv3%{_p?YH{lSSh#FOaXxh2|oK;@5eoVex5}#7n{qHy>AUZ4*iYa3xuTuZ(2hjn4
zR|tpb6o*jfzD@o?fz7kZgVv8yyQJEJRen?Ua^g^+q2Y4^qys*ek{5VkQ|rYwa?Ei@
zbY{ou>z^Iy3dJ0GM8|d^x-*`Q{Q~BYAv%$B3hj(Xbb~Rcmm98Uu%DRhqPm!`pE)om
z0nr(vPA0xRRvL~u=7<jW;tpqzcV`3U@FF^o`<5A*6T0!3v&x0m5B(X}VB?uJ9?Ypi
zbkxohj(q+yC5t(Jh|YEQQFr>NyrY<-jOa{CI9D#|4pm_e6`}(^XEnkJ*E9IsSBg*e
z_1sRWB<#7b1VqO@rR6I@!-D~H^bwu$&MfPcL)QD4Lx<>4kG=Z*N?T+Sb4EDO`f21K
zzo4nMUxhgdhz|Y8C-wDEmT=6`M|29;q(mG}*(zWT9isD&DCK+VQ(-#H8DU53=h!)(
z45C84b<9aXbc%u~>qk0<%rHkE(Q%y_`s8|!w;Xfm5FHJ{6tZw?Nq@{4VMFWZV($OP
z*?q@j{rzzRCxwKJa4B@Dh-{IWkv&3Lm!xPBvNKaQ*-~60GeX&9q@ogKWV<NYl93To
z)_vc9e0(4G`TcVq$AA8LKHleb&SzfdoR7PZW_;{N%poE=-wRZ9<SU~bFo%HXr0&z{
zWIsO4jX5|(hj%K-)r_LCA9F}}w0ywt>k$zh?+$Sdj?`b(SUm(pXU*mAH%^9+i<pB$
zbP`^u$JF?AoWvZ`VYGZAUE*IaSZ&N<4iV7-zpF?<boR?_Jo$KEogAwNhv;NFN5ye4
zkn3U&i3=^CTDtkaKZ`sFm_tN#1oxdyKVld77jp=RPP%3=h5UYt6wJXPI_zqeAw@53
z9WjT*iI&g4XF@UGX=sBnhluD{w0y4+O77*r90H<qMPjdVxuEGU%)uc#iKP*H>U$@4
z`klmqmQTe2<%A2j3Iecth=>k-tNeyfWz7)g5D=Z;k)s7w!p$O>gF|$lDR{lvZ}@v>
zK0oOYT0Z3Md;N<919$2nB06@v3JYFSKTyNkML={Eg(+7$U9BHt4i3@Tzk931%uqN4
zb4Ul#@(FKT-R(BEduJRH5uNID)$9WLlA%~V1Vm?UoIS)STayBFaEK01Vj)lQ^HnL#
zA+e+7(>c<csOrlii#bF@r^jPfSL*A%Nz5T2IzRK*eDw%wmY9P>bfRR}>?|G%Cu0r?
zhn5e?M|k_+s>ja#7!lD~P`KTroU5&c)k8pZh_y{m?D|C#Fb9X|h+X)^+wJ^DA9F}-
zX!(#`e1HE;%rOtlAtE{t4Sq?v6ipgp4gt{--DC6kDXXz3=HL*WV&*GkT9x5D=M54o
zT0X3w6y1O1pPs?$AtE}sMI%O5*L^aWLqK$1ezBx#VPsLq92}xEFUR@Vx_jg{=8#y>
z@(DC-{eCt>@(AV-5gmQv9^FLUQy(ygfan~qJbt@OV|3>}6Nl(LHmgZi<F4Lm7wG_6
zKI0bFR^Q0w|9iebbUwL!%KdmuTV*F7M90Oh_T_?5>CSlrhv@8OO_zJ%<J^bULt;kD
zr)2M@alVDhE6gDxIzEyPtnAWf_hSwL(Fs1W>!;ZP>vhb*Av!J>Y@U=~dYg_pBqp?c
zcrM-MNqxvKhB-t;hq+Ixr%n67&Uu4?==fXV4n<Xo?Yw8hAvz(?Db%g|yXvrZkr>hP
z!Cg*tt=~RffH_1&XR4mhX!Y@rD$F4uI>Q4TtofU+jhKT&bT()d*({&?1z`?}0WF``
zn<{PxbPn9d93r9<{7d1sj;iKv%po8;yup$u{_0RZ#~d7@)3y3FJ?`Oie#{~5N6W`5
zq+=}lm*vj;a3Z23dg&PBa*2c^Ru2Ku5tu)*Z&E@>9CL7pj?$GUy;20RQOqIHqva!8
z#QfLw#-TOLAtE~AWPiBaScp6K;RHly%*7^pOf6t1XB?t4@>iSZ9B<3ceI|(xEgzFN
z=JkJUOn0u!L`284^I}_ooSQ0^GXc>la<36j(ko`e92}y<w0b4<H)-Sw=8$O7^7)eS
zn=-_r?JVXH5gmPhQpD1Hq5|d+5S?F=#mQ<GE<62>Lv$p6Jq?y&mjCbg+J}};^X|xF
zQFz}5tX)JzN6<2MSagc}zxy9VN8hVp%Oks90ILUw=qSh7uZ(o;IgU9b8nk@ua}RjT
zeCqt~_b)_;w~;gxZE+|ItA~K-Bv1{m-iy|;!yFu<^YzDV)xH-uc8*ihUbK8pNrq+5
zvtHbJjw2#E_u8I{@a!>l#@a<dbmnW~aABemJeY$+bod{g;mu=`?!g=qHCjH0@Zy<A
zg3evS93rCAB-Q6a`0{V(cPj#-GyZ8&{g#f#f7dTWM@reOvENI<6l)iW3N0VKh7ZNn
z@;uU*Lqv3*sRXv~E|rbK90H<~HP7=QS(LX8b8v``6}RU4-bji6o=+*!@}c;dw(|4b
zxzAWVL_}xNQT6JsNNsD(As{+&GzZ+ATJ57T2Z!k3JKFTyKho~J&m`?Z%STdw>)Usa
zqk~vIL_~*C<wN}9qVUdrF9Fe^o*0)?dY&qb)q_KH^1|P8vhA8!#T?RZw0zn>>36jG
zyxJLuL`0{<=5GSQ@74>f9s;5hP)6|Kpp?CiIXFZ|PU3FATASd1&tDX1`D`jT@s`Pa
z+<9ImB09-wq-WHjE*e<72#Aik^nQP5|Iq==!67>HZVp2{5*|CpJ82hMK2grsCJ$#`
zvcl>iB03s`NQXVQLVsWm0nsVqzpi(fRe2e6aEMOktzD!5TAyIdA(5ly^O7U+!Sr6Y
z|L&g=o#)~g{d`yNg<|y(5FIDxivjKVkvsj4Lv*^1j??w*{jhVqlgQBW(a>4ov9riK
zg|&-_=vX>+l!f_O`C|?N(Gig%J%7oYI*vIwL`Ns)!yjJRiDt|pZLe?tzdvAG=KuK@
zoS!L0ymxk%@eCQ}5D}eq#umP<duj(Uhk)pqh0`;u&o%7A92}x^!6AhrC^2j2zL&Ix
zmXC!APXpNv{s62VBBIk}z{vDeJ^a7tQ$$CCkyf9wSCAE}2Z!jiyIA2FO-g=a4rvoD
zA6#l?oeh6d1?CVDol~;M?3)kNn_&(C(TQ`j{{5cakc2rnM5p0$-h}dDsd~&IZJ^~t
zk!?bEWO365bBKse+V2Yc8zo8aF^7QYJiCFrqR_gw^Lq*o(XlMj@*a3RG>_FoT1U&r
zudCH{^`_0vI3yxE4tl~pX`z32-b)Y=oeUl=5?3|_7uGHuqGNY)=zy^0)gsIx{X@$q
zed@v@x%Zi!`A9@W=Ut2jbNKE(y;wa2M91^if@%-TO$p4wAv$SF37g*-%U)v+=`UJ7
z?zZ{4;<+w6?-PiK&PBKKx7?RZys&x*h>q!qgYOxyft}yuaEMOcNpdH{Jh2U|9?}|G
zJ_}atVd*r#<uHec=&<$`yb3z=WdU;th)&a!=$zxj5#5-BLv+X|d>)2{umAV{=MP#w
z?_TaLJjX=;9jk|k=yYr*z3VynvqShwA#Lq?TpR(>32Kmk!)GbHf;l)u=dwATJio?h
z5_3qaX!(p6Tz{0d{R4+NL_`NqF&epLttN{(1Vra*l0jxBeOe6W;1C@a66et$M_Rlv
zhqQv0k5SI(0Q>xG0p<`9o#zh~*@cY0F=Gw^(TO8v+zBXOJB2woL}%#^Kc(1bdnU{w
zEu-bLt9g;{<KRF9<`5AbGjn6Fy^57Sm_tBx%7rvdO{hcvVh#?`@!A-uaH|~d#~jjc
zw0vADR*O&6|J=qLBBIl8Cfe6Mc3%y12#C(t0$C|Movb?M;1HeWd!p1tMdet`AuXZh
zvv}O)%%|pBYRn-bI&8LW!<s*7hA@YK=;SL})^&eRmctwzq7%VzZdUu`>vYT^Eu!T!
zOlQopqF+^sIYdN9V(V$7BE@Dk<`58_<Y^W8U+M9WFb9X|c#TdAO$!(=y!;k%_wb22
zQ_=!jK7CG2r?UE^<S>Vb=<M$6u3deLKZiL4M2A)Tt>jCJ5_inOAv(1BU;ETwMyFv8
zX&x;foN}>zYjSN5<`5B`gWoJ3U-+ZBj5!2EhtQ&)rNNZojX5|(N9*l|ZaZh<Jm!#o
zq2)7eX<r#xdENtah=>kf-}UFEyi+^%5D*=XUkf>^DOC<wJvc<?=sGS#(30a9=8)#l
z^5GUG+jAsvOBr*Bh)$PZa>=C{z5&c3AUbxc&!~^nYd2yJ4$<-4XZA7TVCN~!A<d%Y
zbJIf9KGs9#f^wWfq3(-cy+lOE=1Z2RlE$-YZWW_jGDEYM2#^lAFT}$%4&QonT?)*>
zBRV%4*?()@&<MqxsTsI@z<Lbg@#bn%)?d~ybS-^-yERn|>45LCUqwi;3aRd&#T+L@
z$Nl7_+@SAse0}4<%ipI+S4ANmuwD1BnuUcYiZ)`-+B8}|Pkj%K+i_o5#hf}sr+J)D
z$d_u`2Xn#@oi8)z-JTDg_Qo6oM5p(5Uu%@dt|H9AAv&-2eV4r@ePj}IhJT{v?9%m)
z?mL6ndCbX0bUKaxT+hBA`v7yC5S^p`8_5GM&zdnu8r2~vo^BM$d4f4)h)(TLO~zi%
z!DE=yG=-M))iV>XvdZ$LF(($$$yD?(my;9NIZg?Pj@#3f{Nu)430OUNM5nZIT8`&x
z;?8k8^#d&*$%i+63trWmVf7RvI={vmk5DbX#$k>pqVpx<r?s6=(G|>5LUc?|4swi}
zd&yxAHKH^7)ZKF;f|(t2+9%O+e(;)de|AygLChf{I>Sdb<8xVUE?|x&q7!GQkV9oW
ze3kNJ)|PCKup}R(16~K6Bbgo^Iq+BvbEYQX@&TRhn~uajGRq0f$whQN$5UH*mWgs=
zjt!#I!*S*9$0YJ6&zLin)YPp+_z<1hSu(j%HuoTRvquYAT)o3n<8b-x0e(qe6Z7LT
z;GBC{Swl}rr>xl4gy<MBJiTH<z|%8Vwq7QgNGRt*I#fVCF51I^R6pZ)GrMV#oHMDI
ziI5Hj;P7~-HU`r%O)-i@tCtgwOxr*@;P_DycV;H6{*}iZK1Ao+tD|?bmh8+7t9}j>
zjBCD5jluO7ct6Ja>tgPTPFxlCo%CWz2mGEmeX;x7%iL-U=lD&uPri%`%Y}5nocq3B
zrQzMxqb@!ppPl@ma^4ft0dv;ccZeu!MBO55-l0$3)|xF1>45b}dWohz(Z`SIr+LR;
z-%J038qt|MXkYWGV&kCqR`i&;Z}J#v6t2I(<7-~gicxPmS?O!^;i|k&h7(ng4wz4`
zy6JF<-c$R*w`LP~+H)$NkPbM01h{AU8u``kxb0S}+v6j|sRZeO_2gYyZ~yT}`nJH4
z-)o##oxRB*9k8AZYi4=JP@2}@XGcd=o$KhEM&NP=ojaY|dOkl$R<w`xA7#&OWyC@{
zV7o@1v{fkGKD*KRH2*1%O82q>qyyGtV{}dG<tWLVy&<DrgJFva2kC(IM6mnBA8?^L
zDl(ifVa6+DOBzPYN9)E*+%C5EpEqNioP@nDQKln06pc$PUwmpQc=<fjnAlR}Y#<%*
zJik)FHJT*wNvgmwZo+YDAcX+w>;}&BuWH%7;;4ecO%pVa<@i0;5QTKWoTFRgt)?is
zbO+fCb{pO03tt$5%NacX(3l1C+3W7}3Hf$Ip=5CPt2#&rtmp1?QD5EV&FJ3*T(r2k
zkc%Ir1D=1*EB^^H6Y-|Uu3wgr4p`6ma;o#^>w0dO?!JUqi7EJwM|AAYB+-2IeiO3y
z_=neWE2G21-_df;y}MD*G`(FvPWenOjj=hP7}06Ssk8ac7JYF`R$yR&BR9Yg(gE|?
zFQ4%v#+l6(yS^(SI>}K1q)Miyk6mKz4NG4_{*fU%Ck}>X4aSYny9w#F*?&z9uNy?m
z`KgD$)e0#*9=lJ7g>=AtERIxMP-w{<)0$~$ep`OV+W^u5$1}sIRlD`)wD-3rA9EVZ
zJbWq&>45cYng2?>ckJTDabuE?W68@a3*X@K0UhJgzzrtF`-T=aUMCKR{k>j{=v1B-
ze&7GGu|)V%gGicDw6PPSBhI^=!)xtj&Ks3|t8{<9pD3bp&c|_Hv3cHHW`b+6dw0vj
zg|Be=fagQm8!QFOOJoA3QF$8)U1>^nkPevh>zmBsc5`t=CdnH~Z{~!j{U9Cix;%73
zKKnrc%QftNOcT-p>q$Bt!7$l%hXT7FqegT}4wDa^_U(y?rQa_<W<+h-Gys<~cpY5h
z30%4LEB)R6!e<^o5)V|RLpor)I5i#$2_Dw8zS4A-T$OlkmnEVzwKt8R+h5@unV!;A
zy+OYZkLbkpU+b-(cG~#eG4ryh%|T$eA1)uTUGm|cQ>WUNUWKU+2@+G)<kArxJF7=5
z6Q6^!yw4kbWsaRPv4nKMaR`35oe$Ch+qL9gmBD}2i|fq7pOJL8+h3<hX!$f>SL07N
zIL&D+d9S=J_mF2UqBCt+VUQq2Q{P*|!}QF;<Dd<q^Md*`H!qWfTE|=WzpXDQ`}h!@
znP2SjnlgVp#0jVA6h!r{r~1(H=^I(mkG8(^a5L=T;rYY-uX7QdsNAZ#`0IT8ACvIR
zp4avc+CVzs_^HRIv^_dMOP=t0ercg3&P5c`0mlznw+{bWsJpFV>2_=lm1*WeFJeB@
z{MKsz8<)J)_-Ym{kNhr%binI-M}x!$&wWRyF#|v8?Szu|v5*efuAl3gy;PYKcn$))
z*xs^o1_MNAn6z~{qAt_wsPY?z#Eh*w42aH8>YJ~YdJ=9w_Ifa&Ow=@N??KDCj)R%O
zM2L3C+tTzL<MGnmSVU(jL9upBmd5$r-Y<`Cl@Nms5S@-#Q;vj=<29C{C!bw9tT@ep
z=rEPZ88_Y=>(-mhdK<C)Ji5IbEuYeZPJgwMW#yIG^)(F}1P5Xfoo5Rf?4Q~iilS}g
z>)k6@_ZlENw}uM~%#W~mVb>i7L?`qLt%Pv7&2wf!jtlg^{8QVz(DIq-UW(8=L;Kg<
z!<JE!%DE^O(gDvuwLda+$KJbsQ(jCsT$b~`p8)BA$EnY)lR59*>hXQTk4G6is$b#|
z9fm!p&U&+r9m3A@q)xPa3cOr+BTKJc!5ku@GoC1Hn&G{#7ke*CKy;GoSycp=F3B7E
z{Rt~MGjRup=rDhjW00x|pQn;oGu0d5oF;Xk<s<*q_=gJT^sc3&3hFHqdLcwa=fU4B
zYr10`Wkzw<gV#L&DiaW$B0^Hj{X>rqxg0l+apa}Fhl6y$@$8~HdiF~wPv(m1sl?-A
zQg4Ra(eioYDYEcs=)lO4R9x@wtDp9yBRWG|c_)5a@UjRmTh(74BWPP9IuGc#H3y4n
z{aiGDyxy%&`vQ;XxCI^LP&+eQUO_ea`gc5=&+r$xe8A^HQkdb3=I=9ab{{x%Bt)=N
zy%^E~&l_j9!pOyr&5Skj%iJjPpOklkbijUp%XF?~m*s`e-xKFUzA7|`N<%teJ)W+Y
zmrv8qi)nt9N_?}O!Lrr{mk(G^NL$Hzq`IWjj1Mj_|KY2uI!Fhs$E8&_;7!bfLp~Oi
z<&v(eqJD@@O?}Mxi3?X%qux?HIv6i4u7v2cTq!XR8B#B!raGv?EUqj^hUlyZQV4~O
zz2)8P)3i5g7+9@qMay|bSuFan-WJDu9~*jN;znc`qyvs;9r5R}gYIH0bS4o~y-8cL
z1Vo4a45hxJR$r-^?Uve`!t?BWkPg`I(zTprdPyt1En)jAHT0){Pqo1113IT}a?9GE
znBqO8?I?OA^vF^!qyvs;me{miBDd__ZO1KdsDC+Z>ICV4^&E>cZK7YsnR*^j`Q;FN
zHb@lG0pF9@-HZ_EFI3`<>WrhQ?x*gihIGJs?5CE46IzQH5+@A}@Lg(&P0eUI-@l?D
zJSWue`s3$0i#Oi~?ZXfq-bo&6Qr3IpysnmWTk4j!nvf2d&&Z!{n~6PQ%q@qG9w%wU
zvEd;d@Hx($R#b*7+H=PB**Dkxp+yBUNC&KELoJi|!zV>7<>=m;?Vn|Zq|b0UQv$ye
zNw1Z8Q~ixw9QkV{o>9?6RR`&S{eI{`zF@jYX}~+5L6xmRdl5fGha|rha(Z@SM&Eo<
zZ~p4cMI}T>P-&(&w=u{jImG3P%k95>WQdOYtRwOGU>g}W52WrBT+U!VjT6ygz13Xm
zf_G=LpGBF(`9V5he~pM0JIXh6h0rQj>(_ZY@3Mh(!1Is$gr{|2Yv_R6@<jJL^=fKS
zNC#{e%kqj%9?NT&i8NI^?Szbmg(kFo6peE~9o;vt`9b#G+{N^Z6vc=Rd0?w4-IYPU
zZ<k{DG+M%Bogf|X`o(c*z*Ab*mQq!Ng{w%la#9J>0rP2PkabwGPtM$>_uKm6Y*8v1
zqyzTXe$il0>3fPN{Ta`MYJBrmXljJZ8FZ*eKgC7pJZ4&Q{#*Nx#p!-5qyx6g>VDoG
zG4|}em}7wGWR>xR8_vl7!5jue=c~fJC`|(G*Pc9)CEEC~iT00h`GD;rla{{NTEO*r
z)?0Mxaqe&3SVU*Ake}PnZPCt3TjBazfapI1L`S^5PSI&?k^_5QW<Ycb52^<U?b82F
z|L8Wo@yTR`_6D?kn36m@1BX+@yyjIcHZ-{dVj&%H90onOza=(ITfNHAfL}><7$-nF
zV1M1<!%IKCI%5->7jRJY8NLGt>45c2T^27-@bH%vk#Rj_=V2*7`~fW=i8r}vD!tFl
zh+V^aYFD2Pq$4_v0er8V7rmr?=dP3fEIP_sB03Mh{IcC@w@@nx3Vt;DK*<=7=!oBA
z`*yhK!HZgZ*6qFFbccuE!{r0!d@4ZA@416E`IEUB<<dj)0=bY5*zeE%%tlf<%=8!b
zXFVmCu$8kxbc)Yp{Z--dtvoDuG~JX{+=CC&0q5;Vq~DtLDEKRVzCqqaOV=kG2kC(A
zQr_R4pf3I_Dxg(yTAFLG0O=iE&Y)AbI&H|m8T8```!Ka<J^5uKq_ZEmKOAN2u~}`E
z^I&Yy+1`DfySxd~0qd!CEfENL|FZOJ+hzY3T&xCRhz`vZ&nLBq<7M-F{}Klmd2BQh
z9p1V7?KO{C2PEG39gA~h>!(I^{K!4Ncf>Fre6!&x5W2hNNmD&qe>F$(d+>=}3_RLK
zMaH%8Av6rpX*+UU?aY(dsV4=>-8lmcgPMrW!|IRL2TA9{S7WuNj6R1Qr$%&MBvC5m
z;~G_C7MLeHXiqpb)uH7RMlx5NKax^L&QoUf_Rz$qFhu83|LAqXN1>LDF6*oa5vvkS
zL}$AIm-c<DyT7?hi1TMD<85k0r%OA?$uY$gzwVr<<Yn4<zv(SnKCYj6^Ji;sh@Hq%
zl!{Pr&<R6yUiJ3oFZ0k3iiN*neseajQ4`VupL21&+uhLxqeqW>*w7isYEke(I^cQ3
zg_L9H*Wb?do|CWiu8@l0)El&X@;=^Nt9y{>rrDJvxp$5fk&Eb5J_u~P^(!ckOSbkG
zNs&L$2GJ?*Y&=xY+Oe4@)GzWZtzD20(Yg0nCid9k7l->fS-aWHW;v!_!{x&Ooafz+
z>bqae<j)=(BXC9g*j3>n>jAItzG7j&Y=%^n<(w<NtP6J?f~^O9&h1qs%CuUK{7f`n
z>pkjhFxL**E^z$Zkc+LUZX42iC+n_UMrG<3i|ClwZJNDrHT$mP$h(W?gKnS!qI2M;
zq2Gg7C(ML@vCxjU=`}JSIzilmmjsUZw8eAPaCggIR%ow<>vu38zjOA@WK*Z>uPc7m
zw6;7g5R2&4uh00p9k|@YuOvfaa3>iUKsw;~v1g^-l06pro;%`I8?6|T90%zz0pt0`
z87k*@@k$Y+hlja2E_laSLONhRGq~MM-e!EHJ?}R!U%~Yi;vpUIeS)_PZ_&Ro`r314
z2?@O|<gN>^;Q9-6Bsp0hibOE(tM5}$>Yd>>t3z~x0&3ls6aR*u3SCbTE`D(#7SaLp
zDc9#K5gWI}iE~F9c5ewO8bCT=zh6~Mjje2UO_Ta0<$KhuR1gR0fc0b_^|g9n*)Tp3
zd-=?6LYNw<1}<l?o?*UkIa(GWUrt>MwlQD{;!THiz<Nk*YC-37U#EOsjKH7fh@G)S
zbi@^G;}tt?a!L!+#19#@%-|87(fj6aWHtl$G`|zddA$Gn>~J+)K47~{KMClTIQ%Mp
z&2&AhI6_%19nt}Felz*`B^8cseN)BR^j)cKq79@2)<f?0`FQ!8AEUCwj;9JP<9qoK
zosAN{rwSQ41(*7BBK4C?d#9?<@-f?QGHtykRPFh0^MVD%Ww%^JM~(m9zgNEUCYkaD
zd#`yD=xh)jnWC3nt{37iD^&@#Uhx-D=0kJ_a&FRl(d$**u{o7?okr`?R3%zIojw&M
zcl!71=$*oMO>n3A=OQ{32i1)tZ<jh<xsvYe^I9&z2GRk?p;vL^YW9Z_<s3$##|jgV
zvP2;ra2!^#6#U)hscA2FXPOS9X>we6iIz{ap7~GDOSgTTK74zb6nk@}7}5dT^)!dJ
z=Xy)rektDlVYg|yKY2nrV7s0lQOLjkO~mV?&rdr~-m6p6h)!9$RQ>61Y>jT5k1O@7
zNk`Wz(DI?yrmiqK$#Po1Ipy=6PjXIGh|YAp21ky`oR+!njm}^p2Srar=k#8|#D=O7
zmCB@M#yke)ZD~ZuT7aYXJ7;fYt+{Y|mH_eQS~*%i!ry)0Qr|z_PAyQ^RB)FdRt4#R
z<HzXESlCpUfqLk}LRzCUZY_S04mf^R$dkeXJFfg2XO_Nq{z;F85~4F?Z6jcj!ro?i
zUSa;-!HiHcM2Gnn{ml^3^-gJ3S~d!PW}3P(xSYX!#$QTp-?kEKdBSDPKfhv{6b9*l
z_jM!r3`>P7Gj(fG);O~@xk&<~1Ln*?&StdPDWYvp@#p&mT$2e7(XmxsRJjw-efsR|
zlf>bbw5z02w0u}r!s46i3ljrl>rctVH&UlVI$*nQX1E3zy`+DAuX(_AkG8FzC8ATL
z<`f&=ILl~Kc)fTdgy$e0(gFL6k#R1UE`Z*1-ztd^ciO0Fp#&};(6R04`J%_<aCiCc
zXobs4+`c+U2h1neIpuq-yHCBsbG})w&a@~$M5lXdmu8x)?A6~|Q$Lb}e6A=VI@+ZY
zCd>zap13zZc7@GJs+|ncxwCz8m+W}dF>_pw)mh8v#kyj+oWXp`&0XGq)pE$8)HU}z
zxol$Shv@ufqR`nl`8D}jV$s)i<0tQw5S<$xo2>YnQ(0^U7W-E(w0$6hbinb$${cZa
zhP$2nb^%H0sU7)fdl6hd;Caj>M6C9`9^De=5D^{!qObv@#Ng+QK^YD4_SLGEkPg^i
zCx7#e>%REZ5F7Ay#PISLcRZrQ+kNb;3a&_~r#pG-^Eb!$!-a79fc1dulF|_!a9xrm
zq65x*$0Iu6y!YV(xO~9z1I~NTg>=B2!FlgCh>pAVmj?2`X*aQXO?-$B`EdOY=Ep0}
z)`~8VuGvcDPrX3P=e`Zc9$vX<!<etiA4&z!Tq=fiz<jE2udCeAXuWqqgNKaYtAWZ1
z(Gd~!J@$xmfgy$Dr6)BrULlI;+}6sy?!cyWw7s%O{=|LNxP|9%`GD=BSpRC4D!1f-
z%^xd9binmQPKXY;zDX3(`P8SgSL3M%12&&+As;OtaNSlhqC;WPDC#xsV1Uhwb3$~$
z^;V*Y&Tjk-kx{J&TuK1~-AxaA;}`PK^2vKuaQAFsPG5*2N66I}`a{Kt4!GXa3DE)9
zJBT7W%-Sb@(TyrP+}@5eQIY=ZxsZ#NkLWo?*WaPHySq|rrDG1HkQF03gRC+f(&x%@
zUN!tqzISOV#0k;?uNQf-6Vt;jf9f$u8qop28%PG}fajlx%>eH6Z=;VhHi;w}hu!V0
zdxn<tNS@5Q6G@5onKrhBu){Weeu$3$$+dhrfnNJwD?#e`r`f$qh)(M&r@>^A-AT+L
zLv+CJ^ws5{<pX|4)eq6pQgZW&$i8{;PKcpI#g%Y7B}6Cs&qeW(=TbkgaYzQ~faAF$
z_=9Z<Q&KbLG-bo(13I#M`$^<EuemWN7SV}nYQ8=@@P8lR8wI*fC^b|NARX|y@a_5>
zpWSPD_4bOG-^Wiur8q<f{BAPoDO^5aJ&C0ed+K{92s__%L3G?ldV1Z3_;$W)MnH7_
z=X<`04*30dQWjc118qbt!p1LYZ2S-*9dI0GSXbz&{uRPwjwPbg@g6^a?dwNv%;7_H
z!0+@eWTNF`VDL4N;(W)>_Zf>39ltQY!}pIRZ{!~s8)QH9Jk$x&0du~kX||ecG+cnK
zOOl3kz~f?Z*HwlVIaQ+Y&m3AoT;tER47hy2c{`qaMhmZ$=gXQdMGZQuILDA69k8CI
z9^s%myR(Pq*%NG)_g&l|LOPtl@Aw6BYG>cw&Kq5JF5c6$u*w3P512D}eJ4ZA`BcO5
zD=(sF>Yb&3SA@-IzSKds3(Q%XVJyB@_lQFY%Ws$W!Xv8bkPi6%hp0h@zswP)^E)y0
z)&5p|rW2$C<})Yzx%COzytM2d^BL0Z=n!d02W(fNP0+9KoI<;3n{SeeW6ykXkPf)M
zNxe()f~4Fbc9Rzloi5zRBNo!(#xvNi-(&s6q3Nyk4<(!?Zb6hZRgeyt^ACl0*(8mt
z|GI`4Gk^4S&4xibU_EtW<F#v#S55~opRD>_HfL)9>3}&WPC8zW>L2eU%>?n?=@@)3
z3h99JtaR?a(UYaS))oEImu+-%tsV#IfXBPAdw}*A4l1`-GQ;`mmyb}8($M;g9q*(`
z*6AX(yW0Id?OYvwI-<iQP<LGLTi(QCJf40iC1lnH(NP%rMmIF^^v(sF94l&iBW_Vh
z2b>>1NqWadW)$aU>t7~xCGdw09@3!)&WGSSAWcXI9EV)}6ZfC77?F0?-9S2EzkBy9
zDp9nrFk?=8DqO#V&RZ_U^S$H6G!`NbdC5TqRI!i_*e>sr5A34VDBCfIfarvJt3BI1
zzk8=1JfgFPGxIN6zS4`;GxY>6AFy5JS#7^Kz7V-Erx?*m&J@>7uH_oQ98W}t*{U~p
z&eFOTbCeLB3DLTPuS?h-x;>-IQutTvK#l0Us+#C8`2Fv_Y+Am<;B>EAdkS36;5Zx=
ziO!j2-AJn6h<i9QcStQ3(qROS(~Cz}muB)G`)4Flc*T>4F{0KJD_m8#*R_u0WHh_l
z`0~UYY&~GRs<U#;su<SkF7w~>jWpb^Z2;LW&~do2hbz9<_={ZaaZ?LXCQb%K=S{qf
zfVrX3OLFZ;ee8j@i|xs1{bj_qulj|1L&4fg!2ym3TL!U+&SLoQ6DLpq_$1rHHQF4_
z!)$=)jO`P`JupmL*CXILU(7jMF+e)t{m&9th(h9w3r$g+=UrX?#*L}RX!)49QS8l2
zpqrg%$g=-OHg_%;(MgmsA)WJ(_X!Se*7~k0&t`+@yv2*8PX3E5ZqRh5O{cA-<wJD9
zb#_xpX!$rKFGlZssA^@-<?Q~VS~oKn(V;6(eK^~3;-bm*!P(5%ln@(4r>I!4w4JLX
z<D7Z$Bc_uBI((20IRE)W(!bgJEB+(;W>?(3dS41UK|0`lrqlaCF%KIZ?dj`09ctZX
zl?IRwc>jFm$(@mLgZ@aRRksf*EEDl~NC&(QmZqtES6#B7@Qi;rM45NCcZvwt?_fQY
zyACf{W>rpxhJ2UTDmD_Uf^@+1p`;oE-Rir{lMGHy6?o!+u_vShwoA4sz%1!=O{0CC
z!mHSFBSj@h2kbBUK$&lWSHI*k-QoE8W18v(9?}8psbcvYdDmT0$me1kSwrpSzo|sH
zoWb*0PQE|CS*2h1r(52izGkK$se^RD{_1)Ev&$skm3G%_3hT=n#vHMb4%lBkY6_lG
zn&f;6|L*se(2+U~5S^bPCf%3L+-2hx8hX^@;nT=~=tKk=N&nju_;$#vqW0IWi{kAG
za5;nR0_T~>B0Ataa|1-jP$|@`JMVmTNi%m`3tQer21F+?PFNFPL031F@v-&Q&!I={
zkI?e*I+rkZ@l|k%i*|%Y@$*0Bv4~E`YR2fF@o#TBSk-tBJV~-JKy)Z-tS>Rh<_4<C
zX1Nc%3zA_#bmGmlBD@2FhA^l7AzD6r?{Sd3M{<cDAFmW)^Vz_~B03YZ>KcDSu4*5*
z;0fcoQEqPl>HP2c=l`Eaje~T+;{yC0gcOgK&*LiVjB{sGd?;S{9*~<P#Sjsl!v`g5
z9*F9ab4I-pc4)@25fB}4UM>#N0q5nC9-!p|&dVhtIy#l-$*YPIpWkXWwELjCVnIN3
zXoAh1Ju7prjMd`BQoqV4;t(BhJ}oH@EuZ;BzV_>lH^+aeklsapi(MolI<z>xm{!$x
z!akALm$g$33kish@`Sp3YG7Sh=1}jzMajH69HJAZBF4h5;(SU_Wpnqk@RTMg7A>C<
z`s?#tEl+5zhZURf%OSQzL<gMbNkDYKd7d~#2i*6Y6oZxzIRB7{=z#MR2#5~2e<lvm
z0r%%8MWf{d?yFBkbin;Q36KtWzY2aYfDh6EuV3Ik|5H(D`GEVG=OQ|Nz<%a7kPi5q
z0`6z73F(0O+;2)LNFizov(zMZw%?R0qegT{7dDkIShqdH_LXglM9Uf6$2APm0rzp$
zgml3BC~%%I1Ed4y49*j7kATYutOwlBoCxWF^?>`+5)d75e_9-*1GWqN?!a(3Ts~mC
z!1>SVhz>X(+Y-?M_ua)KI^cIAhVP^01AZqW9nt~&3)~Oi2GRlh3)~N%57Dtb8}&v(
z+auSFmj06I*Yx*OVQBg6Df^VB7H%FE=iP5^@z%2`7t#Uq@!|?>=U!1$T)JfW>>0l`
zmlLD|=96d_x860!@VK2viSpLP9&1rV=kh#Vs+d63eL|b`Z#@Qjy@gP;d=gYY$Q+4z
zS*3fer`*=GVxbt)0rSZ?^;55W@lf)=@zA>p-bJ~dkPev7siMytURmdBdITHSuIGlN
zNFzFjX;f3b?k-8q;7wU@+|bTm3qi|gYsIdjuf>-hbE*)X!<ENxmuZat#pdaGB06pt
zx!O6e)*4~;NFzEG2b2>o+$spb>RAg$%g4p8_T_?5sXpdZAv#iq2UD~LC=;-Gah{M4
zI1a&i)Jlj>iaO6^z8KRIHb0yi(gDXaIM2K(2rcL8bJgqu`jVko&S8iSZqbO5)pef?
z=4c{1%-`fLoT@bI#rlgH(gFL+FYSrR4bP9npBogl$IKp|Xb*(T2XtPrH-!rfp0>su
zBBEozPbDVpfovY;SRy(zHg@ED<@=wCE7_V_6?NU@gLJ_0vt4Ffyt3;9?y<7U6V-Bw
z&8YyieAZ*HG@JB%j%xSH&56*z(^!n?fb%>(5uHDj_ugf{^&xicvpB*KGi9p;>45p%
zeaRc~_J!HbKK5jYPFQfya^_6UAFQ4_f4H2%dX5{cTPdCLCt~~I`$0P3c*a*>zamY2
zVmCGqRuj?z>-n?)+qykPHV0M@HKYU9qd3<<Ip!H3iPh8YhnA1e71Ns>F{@r!J+Y7u
zSWoWqQOn2G%<5P@1V{(W=cMn8%JWwj4rBd}Lv#|JJ?m0b$-ranBHe?_2W*$!gfQj(
z5byZ$u5YwP*>QvEkPi61W%sNPi>go?_v>n&(o*l!_naV|eZagOaGtOqqyy#*eosLO
z(YZK$FDz8>^*-&n0$b$^<KM_29WZDA+OX-R_APdo2G7>LDe)9dchUN5%1LWf?9`nX
zSUs_b&hgo)@V<^pH>@54qGPH&*y>twy*O6NIF329NgEI8fbXM->(B2LZ#LywW<NS~
zsE?7G4AKGT)Ap%IeBa~nz-B<~h(zaB;_Q?!T+W~~T%m_M=BfVn%!jujflhTp?T`-G
z@48;E9r?PtW|%8mFOy6pl!=fIIG*!VClXAg-=AT2(;_)%QZW+{9dQ0C4$=YJm3^N(
z<T2rg8aD5A_zqmoV7oT_tW{|x$yhKa9nmRCQzKGr51hpuOGGDFHYH<n(dLM7OrhKp
zD)V(bqQkQ&*Q4*N{K?BCb@!0*pT%JxxO~8ULDyMMz2^IMp?dE18mG%{!&n?-J>dLj
zl1lxbPrdgp{43q)F6}a`p@ww8^YdtNSH=<BKPLIRz0|c=I)B2}1NJ*Oe~bi~59oN0
zjFoN8^xf>epJ`iTd3i4p(%B1KcRru64*QYA7Hh}EeYL6f@^4rNybg}HlRaX6n&6?*
zb+bL)H2s+kWIbTJ=y}}2bf#04XBmp_&&zzy<3n@;abX+%Wrn*;1vcE(?o!B3dBcrE
zupVmL>|JlKSxr20x8Q%K$9yLj)gjQ=4PT3Bj}fPw&tovEuz_^I^G~E<->Tr=#-`By
zKejFJ1f`2YI$*n;1~pHs1)RNhyqErJ&AXQS3tnjXNQ$_#Uia9AcjT-Yi1u}VSd8d^
z`_DTeIzKy84oSuD_kQEnPFH-W(@zxA0q2i>FAATqS>={CTrhQB`)+)i8qvvgNV9)4
zQe?+=kh+yi>o?u7CtA+dudmIOKc##B)@rosftTx^bVvt0PFq+!6<>Ywa$xBcEly;9
z!R!R-fcdQdmf0=C9<!Nam;Q$!p{S$@>457>yyU}a1XeGMP#2!iW3==Ng{=oXE)3aY
z7{gRw2ZZZMM0HV<LZl(<0iB=CfBF3F%wPXvX-f+9+t)}2>3})Ed!@S|EBULMSbd<%
zg_qB?-2<-Q!TT{iF`AUW_G+I`2w80R+t;mBK{{Z6Q8AIG3HtQiwEod$XPet}Vj&&y
zI`~Fc@s1z&JWC(RkN1dxCv`fc1Lh;~{M({LvGzuK<Lln<zba&%ARX{LMnQjydV_Gu
z=h;asPEWt>&!UhHm=9Nn(+q3uLa(HY`_UeXP+w|D2W%Ioc%bI&M->h1eH6(ZuHV6N
zI8-;cD`)@YtmnCPgQBDq+jK|=%;#V-ErCWTdDATrPkHrE*B(nq2W(f8@LH^W_3_AA
zr=OMV(|+GYAsrgveglUKCf(^;J}F?q^7qV_iz?EP4w#S8jgup86<LiA_r||8^`GS;
zLv)0uu3t6@UXfaeTrBC;^a*adjn-dArN-3-YF4$M(|V$|?f>t`+aVqBer%nUE{2s}
z;|gt$D?2}TiwUd)=JQ!(CD&%VTCHYJ%d)+PUKRne9&r53Q+1qZc#&;bYsF!3V<?q`
zgLG(telOIi?lm-y%=Nz8epQ>H&s!AI0qgmneQw?0`U`Xfw*P6;-xM|v#oKymcSrRW
zBRW!CpXoxI6lK*zbN|iJ+*5KwbUI7__EmlRXq<EIyxWBQ`=g?e&LJS@)86^VPAlK5
zqt|78eUEETYaOHm<^#^p^h0#O`I$<H4mcl@4AG&U{W#K)@QO1wGQdAZ{nooWSG4i-
z^p=D9W9|Z%o0kOMble|l_Cs_y3M0s-(_HKE@nVTu-(TEOLUc+h#m&!%^6^mjEOktt
zAh44mIs;<$8&hnfu8HMea*ZCk8P>U=<x}!KfHugAyejvW>yJOoT#x+_odiph^t!I|
z*-qQs!8S)OeN#eo!2M3i5FK!SW}P!yKH)R-Y3G~wU$T7Y)Y>AkDdLCdaK|6j5LP62
zmGLl(zH6q(p@it{J#$<#@)>`mj;g-$vGl<(GDrt}pDFt=w=Ze1In2>Ls+)^4?bEOm
zT0R_9+cLF#jDBh*eKok75-XXG=z#kySwcGC^|UwV8tdNS3m(|-4t$6XIG=XG5iK8Z
zK5a3g1MUmzgy?|3zl$O|Thu4IXwRkvV!wAUIKbrt_Sfg9(WgXRC~dL#qE(O%cpcPj
z_WrsnT3QaP#}m>4>(RGAucYjMu?nk43DN=U0q2jAAv)mvvASDuIfM1w8ZIm_Kf>Y_
zraB}@OjVQfLv+N*Zg-~y-X-kptA^;1Pxw3x3tu<I=3S5>I_IB063I-+`;E>2sk2AR
z$6R{9zq9}709KD5qQhnP-MEuO>j74e5~5S_wy@=jye%Gc$Pk_NrwX(lQf<_jQ)h>k
zPhR+2PPSbWt2_B1I^&-f)o<x&IAV?xqVx5~ZPmUPH`p+T4AGf)a~R^0@UX_5I$N}S
zlw<5yMmqK!#~eRI$K!eU*;`TUnpl4+Av$&!hYko^UM<4vAwzW9xNDMyr?iQjDWMKc
z<=gdjH_`Gb8jvr3Vm+d~*{5l5)G)B>2kC(4XCarZiZ@Rk3+YTErh1dMWHlij@IA?U
z|5*|hWA|yy!67={Z%KLqgBu~^6?kUO`2L(J8@PPHc8!Ujo0>D=8tv<fc%Zjbai|#5
z0nhV?hreWM7nv1cjuWC|9pG=%cU+&gK!Bd?Zm?^mD5BG^ofLNZ;m;G8vtSLE57@3~
zW&a}Q@e$W?(SEw{2G8roh|WbKCGol1zSo1trsJ-6el~PMbXE$uMw0|SNfj8zO*l>s
zq=-T~;QP#Q%P9{77tJm#A8JSk96$fAz9M*1pJU~6=jO3CFfVDpftE9?E%jK*&n|~u
z=2H6O(!c)3B04LFFU{AQrR$zh`HQnNk2NwtbngG7to|V`=dXRHH7@;z)fomv=kW=R
zMTM(3bxcpy)}KtXm~6j}mXBm%BwL`KC$C@so6xDRW_+=T&Mpddhs~pkx3KYSfas(w
z-}yDKV4)#hbUbmG!uA3KqEo)S$#-98IHxqIp@re1^5gbvaQT4aQ09gCvSkm`fki<l
zL2|E>mqbVhJl+?cDSi*q3iz;1<51(`!6`;SbdI@8n=<2tX)GqsRG)d4{t<`h<jHzY
z*-N;~G-w_jyD8o*Ou7n}57@5UOEwm(S-&c<^A8cy0dwZ{@A<8Aq(5*_qUtLB_^u2~
zNC&K^KfK5C+G#7>iE+wxozQ=W@rcfaK4y=7v`3eXQ$A=W6>|>`UqQ<!z|YUAem#0_
z;DLg@lEI0=bVSGBy)pN=w?J`*q;!;Iyl|f-qGR}E;P6QiqbwRNjS-GLV*Bxk&Rk*m
zhTnQ<_ZhjrCuxl@R}EXC<>Pg;=w^7+nH!c-J_eCb^w`r8ofk{zyj-80TYO?S9n`uS
zcG?oraixzBUCO_6xp{QdUstVq9gpZN?wXAG#T{}q@Az0g3w8GMVN0}pzL>-xymmd9
zrkZm1x%XDPoYN7VZLdgy)j4^$qY{aNH+$kTED;?^o{3vNsrG>!@&Thyr2BO7h>kYf
zp%CXilUqT&MVjB*mhFcxqvccf(uu?8xRCOr--+9e10I3thz|9N<(ZoWf9{_R(5%w2
zO!TlsbXa{tGf5_PO7xA!)s?%?hTsvMK+~xBLWl6zw-tl`$-hq38@_~=&q2>*8sGY9
za@sb9!jCd>yV4Pz8{akP-8k6UtHQL`xcE(-EfF2?`$Tv|r>AxIyT^k5=d<D^yK1wk
znuaaV@&VT`rz1Mx`ejQ<2fPk~>zDZ;9q>8`u3w(I2$v6754e807}5dj0oN}(Av)mt
zWl=~6Y!|qGdCeRyAFy5E`sFG_2VB4GiRggqm!%P%-<h8cgF~LtVb5`E7tr!~@Hfkv
z?ifdzQJnSQHP64wRftXzA*tp5p+|>YjvL1~^3vY(gml1ucTpWZ`z4eob4B%3;&Cyl
zH%gEW*zY4rj;~)%C7Byb-Yaj*J>*G-=z!nNsWU^%`Gt^I49(c)K5Rb+KST%IzeNer
z0r%e^Lv+CXH|hv*`GCI<g8OfzLpor;3!jt>4&@iVP5CivOSVT?(h|{;;=Ut0bXwyD
z=HL;XmCDzt{;M>#m@{k&mk-#ksy`=F|MggBV@^7v^NEkhGAZ6MZZvZ@_t!IaGD}29
zax3v#bM5i2MJ8u%t%}<fctj`Ke)-XT0=qZ%{&3g?EuSa>wrM^|Hh0WPM|5z%MbkQz
zTX*WQM0Bj~bSB^Ge^n#@cqXhpm$d?q=t$yZy^ESfr?7Sn8>8hTeCucc+4|@7)RlL<
zC%BY8r6W4r?scte2K=$u_rxs`ox{TIN}a|g>wf3crcGkLTj3F%jn2^i>zPrl+zdgc
zL%BEa3>%^41Md5jj_82<ELkEt;Qmo~L<iijY1j}gpJJzohlhi^<+1B&I-)~#jA^k8
zZVw3#{r6sY;+3@}qI1`x=+jK;V^ey*qqU-^80qkc&i_28oJY$i`k=9okoqXCP0Xq+
z1MdOybVvuh|B0?3>7`Y5=RB*-FHXwo9JWDpxF@}Bxut1qrMk`%S{+BOib6Wzbq8Gk
zzHkmMAFy5E`u8eCXWLg)HTp)>_@<tD+|gSBYJP~$H&-^PhVkr6;VtKmE?s+Ar3vYP
z`LGZ&S4NwKz8n4Njp6Nl!$6JbJaVmP(RW>8u+i7KUM0~S*JJ>fGgwbm5#29uM-3X^
zg@`Xdj?ImRAv$M5m{aQ-uHH>0YbkNk+H+15(FrDvg|~eAx3r!hD-!!H;374mQ&eOS
zG4DK(^5ziR)5memF-`ht`S4eKbBt|1ziZi(=4**ZVM7?A!(HWgj;8w7jlQ>cncS{Y
zYHK1oL2;438lUE+9n4LeN?u)LqDFLB`ExqwRm$VA^G}l=Tt47^ICX)Ei^z|a6|(qc
zGUu~YoVkz=c)YLp&?}rdLkPgmV@{9`_<Lo>sklX3^Mz>I6`#hM?4uc)kPdiUl#KKi
zChHZY<(!T$crl9?qlR?AbvJqMCH6NcmEPkY(=AxwO<P<z3zsuEAHc`{pRqD|fVhuJ
zpoaFX+WU2o4w#R!30>Kvm<t8(J;+Fn8RHB@NC(VkrhK3<Eyrfu_UH20fbrQE1V{%Q
zKNqg&$MwI<zEiCsf6LLPD_R=T0mqL=Cz;^;*f^<PtCR1`K5Vy<K{{Z&Bt{7*3hKLS
za8B#<A6M8O)ak<Y7r6dnVGVzvN89)Qs!*iz$`>a}SO=_UDF0Gip4{@=@*`wxjC1F|
z`9anLI<#UZlMe_ImKmZ~`S*=w;*}sBaNSKaM>|C}x7+2mQ)v>y+Z=3~kPbMW|50q8
z&^+TYb&zo%b&UwWHxAMP+eN~05uElP@W$?2NIG!+1s<orD(YMJ`XqjnNp84qNNPV?
z2kC(I#8^+JJ{8^mty?P_c%+7Emmi{2pC8umIB~XQ?Cqh|kY9VwDj_->a`@b~v$O$W
zESJQB8=47Zh|Vsq$5#Ef`#C*?YrSry`j6IW!{rR-!*X^(CHpd2%}@+yW_(kpsUM;<
z&)&x*W8j2i82Gj*sAqXf3DE(+YfpygfZw&R(?ZJ!e1GVN=vX)&vQ4PNCu!{6^X{Iz
zsj?EHlfHiPc<cwc%@7^;2InHqHZnxVAWD<OI1=>oZ(8AlUAK*b>NL^v!3S{+*RJM^
zV$X4Yh>q_ON1w;0O4~nNG+eE2x3VZ9I*V^JXRkf@b^_nt9PV7dPk;>3@%+a;o0hsU
zBX4id`=h5pv`zypA8<alAEGn={HyldONJ!ROYgdR!bp`$h>pzHAfENb(<j(?7n))&
z?;a&XbSQk*>Dy<7t3&r!M{~I02J6((^3gi{H{e-G5xF_j6^&wRn;t(zr<}a@QN~w~
z%dfW>T$<=!J1Rjs`+;?KmgC0k6jTv^<=ZA*RwO*Mogf|Xe#3T&KvO!nPex?_yw{!&
z)CXZ5aG#U8sUO|6=kE9rH=V0LHAw1MLe>MW@6K}!=d?7AeyO%t^hU<Co(Z-d@V?G#
znWG_*>y4JFZGgDP#v-jWWIf<@XGwf@?zXR3wf%!fJ@+h5x~!?8jUVTh#M%h@41?bq
z=b9cr<_oJrbZ(Z!%N(d^IT^g(9KR~{<bx-oGfh<~l6j>!@95vY#}^qsy_AM@z?@^1
zPR?rXii{VX>awb`oX{qNbikaG7t$Q>Y^r|t!YK$X$T$bqslw$9J{K_MoAl`gO&GIG
zD|_GfOc_W=bllSTJ7`B}HF+8mx6QJ?eDs5Kz~jPBHc4mOE7s9=jhTv}yiCps(gE*#
z-z2GMGTvb@r!spY7hO>vs)XpYZNGc*)j-hjZ*^x!!{%*D21p0Yxmq%O;?CvKA?!F^
zP=V_&HsCx~KNut_WM$d!*dFAbH26u+60#m@z|rp1t-rpMMybnyA3P*6mrsCnz<r-C
z?5~<AvS1jB@4sEI&BwYK3+aIMyi}jnEqO+6H1w!E{*}MAaTugS2efPYqtG4!$5*H4
zqw0g=`V-1>Asw*4M1N|H-)@hzVxwQ<2y~;n0$UF_4)->&?Z2rvn?X2c(s<d>mIpRx
z@Vv2X<glC)>E7zRZ~dj>p>q%LknIAmgS9fU>@(VT4>WulDKAw1&}0DVfc=#mFH$_E
zq=#c-+T$#;`_^$yNC*7>si3~f@<4v9@n<)EGP2r1N7$Ufdg=?QHNKZ>rE@gC|I{Fu
zR{?we0rx#HQ6~3IElbnEu7gC#c7fw(xy_K6Q6h3)l#%$a>h8L_C!_=3Z%F9IOW$}J
zMW&~qbabIZ@C>X2){~lECey?cI<sZ+@m@*0IUVdc1f8%;y<xPk7^W-L)ea4rXlO`7
zwhMHY2A6_l7ArrmRYxdHwD&y1K{{YQX&U2o<sUtoc}le}wog|q!a86*?h)Ln96>36
zcJ5ms&(Gj-s{U#T@0db)q+GY~{BzsejCGI>_?~1nbD>(lVQQbA)sjC>B$Aj5>44w&
zd{`(&<uBAT9;I__w3xxS8}_;bp2x18Tp;z2Z;WiaG?BEUZgIf23(TiE>7)2QzJ&6H
z*z<qI``+Y-LADF5$MIB_`VC24i3<jg_TZfFClVkXaQyts@OI-;QrdU?ywm<aBWDX?
z9q{}Ez6UUXtOvZW1K$HMAUfcCr1mp#_Zwh6;CrN4L}xv*)IRM+tA5|g?MRa&z03xP
zj#BpzTbYGJVeNf(^sKEL{S1f>_&%y#87&|1eN-%>1HO+kKy)msb*0~pNL!T=_u=nf
zvyEXubSAm3oxP@a>LN2y(x&0Mfn>W9T0WeX+rdkAgCD$uYy~`abDGB@I?E5s-e#Vu
z6c`XLq$_0I_+x<Rh%`O2P;6Yhvak5G182bR0R}_|eBaxyh?b9@$g6*87CLdF*~4AO
z{c~@{B05UWTLyROeXjCdaK9-uGf`@Q=m__*UC%o|?m=&Hab%Yyt2hIq^Ig}Q$DH5J
z#LL7(pEh9qR=WaPJ}aXsf}cgRM-)$nhRIPGdB!3-;Cn3tMCXzEp)VOZ!VWou;Zgg@
zHnJHIosO;>)8^?CrCXe@T0b+cTC|^r%LlxkQjUBV&Cq<B%2?#kJTaJ&L4<U`^Zb(i
z>cu8)+2IrHx9t0vl;;VE&e%P=0$;i4n8<`ZXV+=vy>W<+B$=z-d(Xtl&G51)D(ggM
zk~~~KV7vI)DpeA;c(2pO?ql1&kk&~=bjYk;gjl@9y?>!Fb@jVG(>MXqaViPQu8e9*
z`V~G*)5ZGx9}dz1e_#G!u<>utoqJpIBAT@fhjDur<k0dd&+AjRf6QEUo|rb|@h^Y7
z7}2rHYnmJ-2)4M66_UM_eeU3d=u~}hjOO9;F(RI)s(d#5R7(`m@oyZIpTd9q;PFnC
zc=-ys(Sj^mJ`zLE<&O<d>@U8~!@OpDOS~A-8NN6-RqI2fsWLAc(&(-ac0zROIvro1
z?T{(b!HIRR-9Hr|is)n~Y1s~}`b6>5G96~~=9^rQfy)QH5ARqL82u9zY%*dw`tx>;
z#h*Gz2Rx76{$0%fh*)cKE>?WM6=h3F7^DLp?_;n0dgNZj%TMv%R9oXKyQYcg&^9TP
zm8O<QUG=r3OxKCMLk;PG?K&6KslI+!EFW8s)-DZ~GuW<V4`p2+Gm1!TJz6ZH6LGU_
zHS6T|uVx#^K)yPbRs%%G>+*_c3C(&i^|6c#rkzX842X_RrAkJ1_Nf$;9QTg8<w(_b
zDYSgLZ>IBb#o6u=kI;E~kRd@M7SU0e-pCS|rMJW8Q5zsS<V}|v+S|PhIF3%_wprbD
zWI%Mr?aWo4?h@P|J$qF6%HA~U_ETv2=yVs1@7butC6AXHM&*SE#v(e0-xZ}Qv;;re
z?;a8r5<U@Yfaq-I`cy0k-f#YWqU4P%`Q!rzL<d}V(=LgY&kR@eWS`@l%Q*9(#%|w*
z!dOHHT-RoR=z!0I42TZ+JlHOQmXAk8s`o#d+v3=HJ{Hkw|4wIF>r&Q<9q$H+j<h3N
zS<cf{XA4fQo(DudX9h%Ptl-r18p?3S9<sUC1M4RY+fTyf1D@wk8IWXmlQBqUg=?g5
zO_ls4LOS4ieszrNs^Ysatq18H!sAiI?*vE(tY<-1=$2`P+fOMOF6JDKhd=O$j#N-a
zci%y|v&WVW%(Q<=p_&p$%V)k&ZLy4+jA+*;P4>Q6pHPhG42djXrf>e2e9<y3FfXm4
z&lAyE?m0cwQADb_wC_k=Us=6?5~3p>k$iUsuk<>uJ-J>`BX*7&(P=wwweh;w|La^@
z_mAP3cgNbr;Bp4vV>g!si@&Ihj8LTHNLZlRS6>Y2fa6C+C-uOh*!%Z7Usi*ETPR%i
zgml2?lt1*l{CVXqVvleqbJIsl7#Ki0U_E*(YOn6_rzbo<@`qnR<GvLR(gBaJF|F)>
zCtdGlOPpf$63KDKkwoEg2J3Mhc_(=8u!^VyubgeDfY5k4qI1(fncF4&%lGnDQliKr
z^IscC2W*$;QI|g_>B%fkOO4WWp04=H2kC(Q#dGM>;U^mMT2x0r+i)<=dyqjoU_M$C
z=G>c)N|S6N`D$;(U9xTxLCblU(W#feg*S4$^EX`!TkB88B05yg0$Ii*Bf-W3-yIJY
z7D^Bx9WWn>wx!kz&m~jrx+4ndfc-VCFuVP_>aN-4GWlWYP0Mo&!f^S3$9uGtl}lkw
ztqdW7C`7XPsNN3gfc0ob7d<#UtfNp*UEy~`+SoW2(gE|~+c-CNH!HMG<N@u~=2%Ws
z8%PIyt{jZeO?Kb?El=U!-6&$lx{@@a^I4tWk@o9ao5B5C)8~G@%%X;L!13JEX>oS4
z+tvPN<%ENL9bvj%2(G`t`7InDPVtuSS~QQoxnFp%c8Po)qyyID_w8Lv#Os_u$$ImN
z(MuGiVTev9uWYJB*C*l0>}@XbAoVZ<NC)iqHYZWdvSIzk)+d{+TeyH3K1c^_SIOZ+
zd^HmET0iCJU(&mF2rmf2<qSH7vkgqEY}>VE14>o+%GIk?kPg_c-o_J(D*rkjk^2uP
z)~+%O#zHz^J>dQ=1V{%wPTvJ@YCh}JeJ{LptaI7!q$v*30e{yc3BctH)&u@dL_~D9
z$WQYt_BR|IQOZ!umL~cW5FPOO9f#<Ezo(E+pyl(hncr6=>#Yzqox@~J{#+Xo(fM}6
z<fe6rdV_3K{vREWsn-NV=gjLPigc+W2eIoH4$%SUKa=>;@&Wh9CL%iEemew2XRBPX
zswJ+4t!K7z!8b@N8i(kB^Pfq4X!(He4~dA*!inB}cc-*gI9Xf-Bpm2F2#5~29v_G3
zfbS(p$I<cu*Yy(-9q|1R0nq{1_2Up7@I4ZV7cC#~JrWVo0rx#1AUfcCY#gGqn`w07
zmgR+Pmrc61nTt3%5)WKH;B|Scocc*c`=D@al@b?Ua_`Ud|HH051y>erjRKC{vCWQc
z8y(xWosQE<I%dbVZ9D1MwrzCK@$GZ&+y8Xyf4sF`CdSx%RIRU8?KSsY^Z&8V|9lRb
zQ3h>kLRzagy~(Nn9iYcI{9o1yt0!tcg6R6F|C^PhbyERB{J*U8KaRx$Q$PR^00aO5
zKmZT`1ONd*01yBK00BS%5C8-K0YCr{00aO5KmZT`1ONd*01yBK00BS%5C8-K0YCr{
z00aO5KmZT`1ONd*01yBK00BS%5C8-K0YCr{00aO5KmZT`1ONd*01yBK00BS%5C8-K
z0YCr{00aO5KmZT`1ONd*01yBK00BS%5C8-K0YCr{00aO5KmZT`1ONd*01yBK00BS%
z5C8-K0YCr{00aO5KmZT`1ONd*01yBK00BS%5C8-K0YCr{00aO5KmZT`1ONd*01yBK
z00BS%5C8-K0YCr{00aO5KmZT`1ONd*01yBK00BS%5C8-K0YCr{00aO5KmZT`1ONd*
z01yBK00BS%5C8-K0YCr{00aO5KmZT`1ONd*01yBK00BS%5C8-K0YCr{00aO5KmZT`
z1ONd*01yBK00BS%5C8-K0YCr{00aO5KmZT`1ONd*01yBK00BS%5C8-K0YCr{00aO5
zKmZT`1ONd*01yBK00BS%5C8-K0YCr{00aO5KmZT`1ONd*01yBK00BS%5C8-K0YCr{
z00aO5KmZT`1ONd*01yBK00BS%5C8-K0YCr{00aO5KmZT`1ONd*01yBK00BS%5C8-K
z0YCr{00aO5KmZT`1ONd*01yBK0D=Ec1kN78&QLwp7PE9*);W+RN<O6)2IGk?7e-s>
zTkY-T@A?C%q(tNbX<*ire)xJek?Y7_3{qCU&BYZ&aB-2>^@2eRAf;%yYdns1k4i)~
z&{|1!xf40`3pX$Q3|=U4r%~aMb;d(Di|r>r%z03Nid?_A8dyH;=+nZMtwf2Ni&WIK
zSzv2n;f)hi7nu&6HLH&h#L2q|MoDACIyUIv79kRU@=jqbyG+aW)vhsp6t<329FIL0
z<Sv(|#?^XAGOXY!vXoj3eHh*ggHn3JGca>k%LdD>lx?L^puy967Srxi^Hg3P8N+JX
zjIX#WtdC2Ywl!}1Z_-l-zt8(n@?qF2Q=%oTzsHNVQ-(j-u-cSwzg(co(ey#hlf3#2
zi_+kCO@(9FYeH2+4$0Z)q`|2km=sJqwjtdL#Ei5goRld`Qiu#look`Lb75RPEO9a-
z3ey&@eJOW;uY2sEJ9RFT>d%-xb5ms@dcv|Dd29+MrxlA^WXOanTIOVAXyIu}p%h4H
zxWOu6f}c<}OP#n>Ac|iG1*Hq}qvXJGK+5yvWr|oizL<h^hVUi)->g~9<VaLaI5~JP
zd+wctALtJ5l^UPPq7azBH4{tx86s=)Jv_*wB8Pk_Te|^BE0j&4>3@@@L+q>=bymdS
zhHRPk4`yU2qRLgmJ4v}JLEuoO=Q}ANjHL4O7&S1cp!yJWhJPviBT6mug>2;c(1gTG
z^I2-yv9n=oNu|NcTqICT!8*gv3Tq>XQFg?8Lo)qfb4kY};5eMF(m)uDDWVoCNi889
zQM4*aM`;2jK(LJds7=uR8(_qh1!Hn>`jDPLD59vjOs)+wB%r`2993vYfpBBI>o=qe
zj?ckh^}YI`@Te(r<*QnVe}h9G;3pGOQzcV0iqdQ-a}?t8kJvj8(}INE1);eLuAiWh
zg7LtpHJj^3LCo!!>Z=M2^4Cym+U=yV{7*diz8mF+#xYB7`rk}?`T$8EgDpt3H1+4v
zF+bUk8aXKobqySDKZ)v!<!Du4pua}IIJuWZZv~SGBl*7sm_8&!#t9B+4e4?}6Vja3
zzamdEgT87r$Tu`gZv@xuKZZNfaSsS$xQTbvZob#y|BH{2)BaHt7VWJVX_99DPYqS^
z_mh^nD2-t7e?xXVTRFnpf7jt(Ug{2NWXC~(oJ(_d1lJ5V#R{e_&aF1e%eyp@ix<}^
z0r9qKh>HTX&brc?ebmb;di<R0FB=@!YsV*r&;+&dzMBE+C6a!+?|g}rfq(_o8C4c&
zCg;PtV}{)p-+wno%z`fxG8ui8ENt964uS~wpUeRdn#(Bd&k>L$C56)MaIWKo-Tr^$
zXmJ)=x|0CqZG_NYeQV~eOhRT0CW}_-=Q#f<92NEPm|w^>sc5qu+D*darYMzehdC}f
zvEs@lZ0J@fk-QJ4X+O#fp*nn|r7!{I@j;TyQ+_X>p|UgQ)RPD)gbu%;F0)0#bZlCi
zv=?wy$V{r(D5F<3m)l+XBVuY^M1mTZWrG9pgF06vz3R+AT<8;Bk>r8H>`y+yEXp?h
zz62;nJ$n%Z9ODNylSl|J4%GpL^Bz%w3T#@@#uM68ClWZ6>Ni%85q5io0e?`n`cvis
z!eX;tf12<`UF{@d%5og0T<P-AtzfN#Z%!joa^Yl9>fv#NR3e(A-uqm}LP@F+QNpdh
zXbMT(whlxSi#+B#Cw!dfsaawurPCvQph@-NJgwqP`1sKAfjYwf4X`f+us`ABYf@7P
zyQMpx&r##Mg*c(X8qh)?9c0=HB2izmWbJ;R$a3^|wa%Mq)T(O68Z92gfhaFR9G0_{
z=*kI%gs3U9-w>-58>$$DgeW&_U?y<fgn)-p9anc8dZ5%2LM(z@E-(e{vtH#3^Ve}0
z01KRD*<uw6dT3J6lHwUubUfoP{Gn;(ijAWxm=X#>Q|uRC+}<*ODu{|6qc6s?+JXzc
zv;<3-IF%r_yBZZic(<l&4MK&@Ug9l};iz_%7+$0@CF36=ygtA>SeMMA@;SPiAdFTl
zS{>_Op|TdalOFDwhb5lkp`GYPd)e1m6%$ygq8se)_T)#TJEL>RQ|~zoGr>@E;VFpV
zwT$$socu!o;q^N|UF_-`cl~MALII~$d|2dsl45b-J9{bb(5a_WQ`e$}dEW#J6_oBz
z8zXn7mmfIap$IV&S`K9e1jik}R${9$4GXb+DE9=XWfV>DL3K%wr`+XbnC#%_qkrx~
zQ5U?PV6P=an7(l*<V2YY@*kcB5>s6r9ZI%Q{hURdY5g!hB(l1%MvS+Ri!yy=v)V4i
zzsIXRXK{CAQ&pR&{xvmjJA}A=!!yPDwKBu``$;>2x8u2Ws6c{X1`>?I_Qp%1#v`}h
z=xEB_{ObnPWPL&<m*(@}^S2S<S=o<6p33EDRwK62&NAa8?3RjU+m%kFKqB&n5ERpT
z(6s7vQyjr>jp&j)g<cu5nesT_<T>S!oM^CXR<g1J2p?Mnz%c2rHML%1?TMGx+ltCK
zF=Ev6&k7;YCPyEazy>*u%i$DkB=Vg)Ky@?tOeJyeANe%1r&LKMcSY86JoZlc4K;=I
zU=R?>i9k!7tbLi-Y6&6nhpTiz2c52U3>_T_5MYov(naE!NHBgv#8zO_`8WnU@^kig
zPk+GVBs5?L57^{QY^y07cT%!1`~BhKe5!4mb77@Q`?77izkA)16FNE?{lbV4nDni{
zYpl~CFN#KZfMs&#?P$9kHLC}=)O7K7{O@s3=7c!Dg1GDYt;@5_%I@&qCt-+q&imG&
z2k&V8d0YCaXPYsquw=RuR;gU3r}3KUjVE(6rIzNmM}x23Znnj&f4SF25!B<SO#d>d
zB^*9@RPo8C)}L8XK0dF<U#@=p_*#@Ld?di0F^D+qjC47*aih$i*0S4K^fawN3c>$W
zbr4(Zue;2)*?ACs605>l9sI-h+pdB$dv(zd?{B9H39QwFKPWM`qx8Eldnn)cI#a79
zAuQ1t=s?z~F?&E><7uWKKp)r<JFi7IvkGn_XX0dyS1oUxUPc&yE1*jF<(xfhMU0%Q
zp!7(?aSw=X<-0ADn#7WH!1q~fTp8csbdn%cqjb8=wk<Ou77-6SBLuq$UH^vh8D>2Z
z=$9A%A{rQBJ2Nb{Ie>S7BW4+OP9D+!3F=)<<Xp7}K1lGN<(8KF9v523^iwR;3SCN`
zs8=fM=skH?;j6?jw(!R7QZsSZ^Ft0fICJDcK9;nLsC%ZSm+q3XTD<<s`;EOHr2u->
zsS9(@51*Hnc4K*s13%=iDo5~fp#^C>;u)V)Z>AS)C45E+TBu=6atqM}PcP4rcr87_
zpDe?pcWj1rL<d&$P68#<e4fbMPy52#W}haK>Psqa(fMp1-G<_491dP?!!9+qx4U>Y
z7&YNKVVWMk573c!*8;jbO1STjgJ(3j7x{}M*6UB@42qCLw%#_L6$i%Ad5)$<n=%?}
zg{2Dvs$Nn$!defx?de#RHj^P(c8t;8v87Lnk=1JMtI&4$;IfO*f;LS<&zC4oo3Px5
z+|k~Ih0lNg*bHT<A00zlB=AM2dDwL}C7X=9ZPUB6%TGDLf2VW2mc}K;{+iHOFrGoK
zCM)LY)eV9LORL0*V({Lme#Cs0N46b8)bKmjbN0l$SlrSjEv25u)UTrl!YZ-&BBtfz
zJPZjk)*-&xpf*!s3@nD#;ZN7li~5eag)45FbDc%^&i-zGszL>AIrzB!PDuPz$G7Uc
z)4d4Fh1y+Tsr?lqk2IpAK|f8=h-zClKBS-hR(^D!Pv5k*GEY{LFRo7TjwrewVD*;D
z<ZezfHYczYWD6^Q^?WOq+}=KFW7N^cwm?bvfdQx2UvQx~yxMOvIpjEj=9F~uRd>VX
zL8#5Er(;c4X03t~DN?c4<7>OY;-|euztgyl2xgw2u<U-)vWS{0WQiwR%>I|6U_n}N
zq{Keq?`<Zb_mU1Bg5OhVPo3R~1u?Of+IJjBpM2alKR@;lr~mH4yBz-gtz)I`VZ?IO
z)0Ow~#!dBur?w-Vxnk&wE9c-CJZI>xsIty|%)s=x;8P#d+wz#j_q6IRT@Y^ZA$VK_
zGH&=DS;;dCQ-niABy3P9*Nc%q_>S&`+L*z|3yvQpK?S{@37*O{N=m9Owb>0_CYBl2
zldX7IlbiWBwsm{aaM&A4EM2b@_%;|qmVEy3U$q-ck+9in*Oh)SL>#3f6|b1oVY2Lb
z7ph^}qJtAvpBhIIr2NgAZz4#jr`+3t8mv!$W+=0c+LJg?oou8;bfm;Sq!sEX#OD$c
zQB--FgG|*Oz2d1d9Z`nVe~nO)%8_}YvOgVmB7gryH~;INoYBZscze{dcYwPrcA<(q
zjMWG<99LR(ZW9r8??N_M>|g^d!&1@;A1a7E(xxKtRH^YNDfrz8F8Um3PXua_l{qY&
zlg5==gIA*sXrztTZ88_eb_G`)U)pM5zMKg(T;23SMP-s$-k1G|Gv0-7r*P6o$9#3*
zMPdE^>j9+ZTBe}VDDr3q6VC98(n#wO+)`}`^L$w-QxlUz{gJd0Y{Z27>U8yn>S4<x
zV9CUCa7{H4&WSqpme-@xE}x5-m`w&#n8{dzjfVs%jJh=q2OBNH;_hE%G{ZC=mNn_p
zz{lK}*B;)#B*U7?+eZg`g!}#!hfqkaMef+Np=-;LZKI(39rJ`cPIv2~;}eonGK1UE
zxyB5Aavw<HVv-h8Z&FD+&(Mb9r`Oh=9#jTtqStmxCu>_9DeoTUgQ?l8e5Kt~aG5-r
z%u&{1tfbUM;Z$H=_j{YZfgrgtg@v{VF<xuH_@_aMR@k318@lAbZZvMGE^80Z6p=6Z
z!AewA!&oKh!-e0AF`39#Lr2^}8I7bf6p@&xv|kkI;Wfcn;lh6w(#TG+UcuWK{-$d=
zWRH7IpVHRV`->)zq;kY^?8nvsBJtW8d;@uSRQLs(cWok{427|tdlAGeaSC+|L8_sh
z2e}CH6z(?O+{sUhTLW{&JpM>mF5!2bsf$Yu>S0?FMYR49qck<B7w%?ViU1M!<TzRi
zx$r?kHmqecO*PYd@gl{PGq-ZkXp~MM886Q*$0Wtnp2ru@+L`j~tkjXCObE=*N@?rZ
z#+(it0iG_;jc66)g%0A4rd6M0#p&a#BLwLSn0CC9rc!Tjwa|g-5?1yyEX<n&U3snU
zo#akNIU}VXDLF5u8JSEFR-fACAt%4gSIgnOa@nD?U59QsB#F=XPBD=mtS8d5hf*bt
z=<1x|{TG^lWL=g_-FfK9Bj47ZsD%u2;)r?WvV3@D@SpgvEmoQ6@)eovi8{;Vn`PEz
zUY>@JF?%r^CJ>$*kkMo`5(WDSE8Kst4C1R>+ro`1wP>^>J)^GbYU=anIbC1f#X?aa
zRTC!s(2;+Jg?C<4>QLEq&CO8Zc^UoIq2sP0k>2X*&RM|b^$=(75Smr0@mtq|+iSd4
ziSL&5O+&&agOzFbevcv8I-x96TcSSQf}u7HTgfV@oH6;g*cz6!F}VsP1vAeIQj!R#
z%1dy5Dm{sa(gfR&JSuaGfPc+dk0v@9tYN87&#nkq;^55+@uSU`iI_8CErbV;Iy&?G
zPDM=7C+sm}s_950P^)`mBZQU{5hK|}uRNyW_%3YhM0>`>ArEe7X_Lww_#)=y+rgRM
zMxSYaH0@xM!ZY|m=9I_az0~v9J*Oy+dts*u7du0Il{N#an6@KE{9(FD#9?NY&wrng
z0TFeYSajdz;yCzb$kVBa|HpR{8$XkjF%g=0+#8YbB>;zVCi1v0uVuf`D~}JPOP?;b
z&5|*DShfvo+T`c)&-t6+JCGosUA~YzG)F>FSU9fOJOs#p-@bxB1RXgO@%XjYu1W0Q
z%YY7(R}T*<B6XP!IwI@vgdk*|-{C=wmmCpy_pcxLQvYwFz7S{K`LADkj%)u<uf7@w
z*Y&S|vno_)BpiW?#VuQlgl0*+8U*jsW^*H!&)EsE#l=Q(?)D%Sl{2717Fof93sQUv
z1|uQ&%M*ghGN3~ilEVBKqWKp(kY*N=npCDj5u-(yhCo3WL`y3V*$bB~5}g({EhdVf
ztT&Msr3n`aCw9(PBprbrb3xWxh#@}vHwpVq6#`Sv3Mbwl7Hu3y98sW19(6&54qL$g
zFC^t>{Hs<Z!{e(<lN=SAlr!2G#N1{OOTceVW?4f>c|LTZ5Hz^pxxFBfJP7VQMJhFU
zDs<^|G<e9l<9{JBW@bf8Gg&GOSwb{v$oUaIv?L5}$42e1$#4{DutkBV<|1W=+DX_n
zt%eln@Fm)?gZ<w$_UedVk`(DO!~PR8^<<!<{YuzcOaTSYXbXD?R<2{*I+aTa3n>~Q
zZQMJRM+Zy7+tEoLa)%y0I;@A`ny9MNKRi(XaXM*oUh?_mvi|zhb589WxI^N{(Z0Ii
zd(}t&b$zji8^(*!$AW2A=$)TNQo}Y3h19I!n(?34lVUZ~mb~Fkg9g<bGOK2y61d~4
zowcYsvcL9+J`Z^(t;^E}8?Ep3Zz<gJ$tA+8B^m9O3O(ZQ3z6P_rxxX16%;1f>AVF`
z*B9~!1+fRT)ooeV!EQ+ex<jZRq}MoGlkPe_l#_{vySj+zo79YIZ(9`ehlq$xXZacU
zs+YC4x<qXrTnPP6rqo8H%FXo?CUS0f4q`78340%#&IHE|FBQ;nE`m#3o6}|8s+|~4
zj*$*^;DkLCluc{J+v$IDACjOu@VYCkFZAdu=+}GZyN_4Zm=jrx80UO$bhym2ii%W!
z*=(56{%xN!zixo*4;j>JuXIn9Lg2pqx1<aikGpz4YyW&79?!WQz&e6*CbTTln#B$7
zKM&oz?mTe+xY<78e;#Ku*lB%r3TcnZuJleFVX1!=rKh|;uWfO+y;(!D41gw1<LE}C
z#<xg&PPm@5^3k*7<mH{NEe>y-m#u63T>88yessmzg2r$|Al`iR)g-U5Xj5A^xPQ$4
z4AG*kZC+pOP=+S`B&%{8w60Mr!dhv^4Q|G33_Q*9^!YJ7O-(Q+6Md?aAWN1(5s*6i
z>~+B=Q1ww`u?u?6V0NE*G<^3XM>XB_c75?L&hSU?8|>q)Taif~hretn5As^ST~Flt
z*6&RVme;M2iaposuWe%`&D{ZVVilG8ya-&;-d*QP!PV;C8V+AJo{Kl$ki24(FTw5j
zn?_q-eUaiTNK<g34d`Lpz@M2lheW->MTgbm5J(fjhvd(vg$X#SEW=2@Y7m^?y;v8Z
zq6o_jSzPvr+!8xiC}V~mY2A26&f~tKbYj^)4o3yNmM?IJJVtMgsPp<gWx?`}!}!u=
zwPaj{6IgQZYc-`3rJ`0hh|q>LWZy%HpGf{RaN{qoLS-0je9!&FVSBC_XsEdEkT;WX
z8#i&*a$8uyTEZ{3*JL8J*n2P(eOM7le61g_t8;DcY?*3)Qa90ev)EcX?+~YyDhPw_
zw;KEC920qrA>xJL{asF|GkJd=>qzCmsZ0DlrP7`>bdgM@L1*`cOQ9hj!gjl8`L5)A
z7p(pThF`7hqrHJZ;a8bt<n`-R>X#4WpY91QTbk|a30F-oomt`8A4>E>C=bkjVo%(j
zLmJIz{B*(l2$DEI<tv*Td8R0zpA`uYHP0uq?yy#KF>VjA6Bg*PJ{sz<J%*Zke{30?
z^7`gE)FC$WP9Cy#lh=b{m22%T^%BB2uRHKr##JDAd0Q*02x4mZ_WAMH?y#xD8;o10
zR}PsUdK4jOEQcSQq)m7-Y-I37%S=msw#`Z7wxW67R-#Sy(W~}!zuO$)8Ms(Js{Q);
zq48a85pO%hT>GiT<ZSEBo_>CeNTJl{!Au)HsfJ@mQMLOeqC8T)`<;NNc=3~~_=Uir
z*hsr)o(p#8@|;x)WbEB1mD3Sb=s^dI0lrqIeLJ<6JHSvb^CcgmW6>%aC7qJ^B&2mN
zpitC5da#77G6?(>S$%Dt9OnE*{9h9xo+7?d#b7is!xNHs^t+2W$QwcIa#X-1>X8}y
z!J;~fo2SIlHmAOwD)d`wy|>IQq)8Hw|2QO_8$?Q^_AiJMxfH3u`8_O{03&3TVaHji
zV#K}rU4+EFgI{2xM)(>F#=0D>{)Ql=QQ9%^9m$G_;Gd`ippGmy!VFhdOYz998BKKP
z0v7ZL!TZmM6Q7_*+lqaKU$VhH)&>&{95R^D2b&xq>aql50}9o?V#tx}b#&=+Ptl7S
zW~{Whu9pz~s$M6TE=8|m92pUKI`*DoFZ`DIJEKsZ>XDAtCu{3Rhq(;Q@j>C398~<s
z;j5&G;NW!<Tc~&l)MJsFIBoi^n$!5hJ;NugktTPAkj&u)If8q$Py<D%a*Z#DF!JOs
z_?tq$#SP-jIFnA=NHQ!Bimt=8|1(jD_Z)ftWA7n80eE|2T!AKI>C09q(@D2uxkS@9
zDpX?S2OPDA%)b0_(_`diO7l8haf5CF--UIZoiQHt@<u4}4d0H3XTR*4Akh0Jl2S8{
zztmwX*7TAIKb9w_7tLs894gl|oQ^Uy5eV0mQJ}NYtewn~8Eif%nbxzLJ-uxkX(?4S
zvywF?G&nsIhHqz4Kfaugeh@W#7%716(Es&&45V|tdUo}Q;DBaZU>Dq8wg3J`bZH51
zjcu4I(Fks*Kl+PWk6z%LWE<V`F#0kYUrf-p2QKWjvhNapC=u4U+e1V>zWNlAsn(U*
z>z?<a$76jb0R*Dq%_){3l1_N=F=+7@kF`xb9q)23^!Fp8aQ__>rFExnm0^=htLe^z
z0_-H}7T7+SAMZh7>ZNuA;!+;B5V12&-|IOtvIxM;6Z%a5;BN)O5(b@}nS;fxwRwAh
zIk!F)$|HMX#>gUI?Za}g5mT#}I*i<6i@Fl+!p2M|Xw>YQKX!H}IQSQum})n-fPEbr
z@e5}{NNO$HTAR`OO^NNBYy64fb=K>y=fc*Pa3E5{DZ2k8xZbl7Dw(S(5Evo%As?$d
zJCsM*B6mUNo5_Zbbma)c6GHw|P)OuZ9)w2OeOHnZ5n@KCH+X?)u0YAh@n9*oEdXoY
zOK!da`?O4DUc%^2M-Hc3fX4oM)DJu!op>9p+KQy7A_i+_fExF1X87=R-<uV)ShQ}4
zO7~%@L%5<Ms>Ei0S!3qsNb?9+D{o`*R~Eh7R!8FZ=MFaYsK0Izf^mGp3xnQf-AIP>
zkBk954yiECBw_jF2fe@V7GygLuC}FgZvt@)N=PwMgX)>;JjFFsuplo}!fof#T8MTS
zgp@<S|7M&I&z%uVM0rL|1{DlYriNQHfjNeW;EfOap(lgtRDBNJ>fE5z^8IhD5HW)_
zYHNHPhVKrU;<O`fL`sP$nfBP=4H=`aq-wD|dc@GN)fbdZ($-q~J8vW2k-8M*b%uo>
z<k2DC=HuxMaZ_^?8zmTU^?R4aS`kp8PnrEb9wW@(w^+aMZiyu@=A{-4e~*R_SFm1;
zh!l+JH19_u-PmZDIRh(W<@X(+5j@oOyQLUl&s{cS_1>J}xJBczm}!6S6(fNlA^#lG
z0L{J@=Ir&ZZMscoZFJ?j3mIh=-Ga(&Cy%3(%te(PC=r|A;X<<ltEMF|l@95#@m4Ka
zPNsy6i-u>Zt*#yh4;y!Pr0|BW0hRmkzQjUhA_PU!JPC8a9j65Ew9<5yV*e5-a0<f7
z^Ck6I(E<*0QKVXu7M;L4`I>8{U)lY_=o1}z?EvIp#!Sf?-QC(=!4~(FTEMBz)PeX5
zYnzdoGC5vuR;Xd<`ThQ%V`k|5O{HyTDaSARZ<|e^4J+BuK`GZ4+K*FPYzuD;d?{7Y
z+mby3hGL}{RYA0AdNS4?spH6t5!O$QG%7(M<OEt9u)U-jTZd8WIi!x~y;)X9$ZHOY
za}rLk0c^3IrqEs%QK>N0!GYQO90}f_t<sPch$obGtlrroBh;0ZXxF}ttXPVFVpH>F
zqe>cXZwNH`g~+9eg@&MQhFpADLxh<NkRM_TM7Aa}b+{3(>@Z3{#RWoqQG;d-f?qar
z=7(N2JSX&j!4G<J$j;5EEFGf1QL?@UqKp>#pS5N^OGeJ_AJcLzmuKLZUxjwc()cV{
zLcC}+(dW-t@|0%~nAI8wWi$MpnHxNu)a-(|m(^?2{L5%=KbDfn`BMi!K_kx08tzAP
zh_29m*_~70jX@<o)~^BY*;d1yHkj|yc?wAp@F6+OPSg<5k&t`F570kuT|B?0jP*Cc
zMaG^NI_Ht<*4nq}B5X<h@TkO(Nia(@Y<lN<brQg-w5uVkEn(7z7*_{rmiUt$%-xCC
zf?5hGi?=||8q$`o&2&uI%Ll^9#8n;?jblV>AV0NS)VpD6lLhwaIl*dgL;JOC^lJSa
zBO|QWzs927&Sa2=;=zf=eD$_CRyPTKf}qJpmmUAETwNv;<)Gp2xUhrYy}g1dewDL^
zLw`lJl9|x*R@MFc+`LYeS9x>#`DMHFE{rWAyJKK`eBYEh%TvcuQ|p=$Y+0;OC1+^u
zo^5d9MISwFp<>6%0F7Rq>&05Do!B^q6SI1d2vMBNFaqV%93@fDG$v6pb56UEA2K1r
za>id#XEu2{XZux=D_XM!K6PKj0w0Cv?L8}w)C>O_xf((_L3~PO0gIPz7XM&N<c!~0
zICEf8e*Uv1m1cJ>i;!ZDWk~zeuP{%iMxCh_+N-H!FJ&9xuF>$Jp5MR24$-#rZX$xR
z3pqayCU`U6x1eh}2)!2|yqlQ`u;gj=q?l?^WR1V5iJIv0>fxFYoF@swRh<^K)h%}a
zR%|?%CgT-KP{%N=F!h}=^Y{#GCm?w>vAxB@EG!qv0Q*&aY5VV;gFUl`M4qk(g<C>h
zMv$hbMHC|FvVy2~3QQ})D2k;6NS!;B<#abl)fR^TAAV5nS~CCMSJ1F7JR$f;Fl0YU
zf6NQ;nRq=Av2AdnzXTxKHy@vmo$ozz*B=gx8K3J9Tc62Y4?PsuZ`W*0MfY0#4qa&9
z)b6O`d#FcQr#{}0yo0X8SM*NcJ=P|*bu`Yn(DnbsQgz)~Ht}Sk#E`ZB{u7TuY>C;G
z263NhAZUdO=OJyi7SZWw_xNOHv904M*p6QnO7{KRWD14ewt~LH1iYa~R4<OaK8R`5
z&S?aR^&yeuM2o*sFszv=MnRC?FRZgJ(fFH4t7-RM1EH`?Meq|Tw?1M`T2Hd%nnnW#
ziLjNfj9WCO)0*E?#Cap#Xf=B-(?l>_{2%Xvf7em83rgX?A^tpotYZ+vkluuQtwbqE
zsfx$Z5e_-ZL!axQ^&8b_U0S@GjmV;W!^4)4n8OL%jVkoz&2-7soqgl8OJ-0q)-R&l
zi5LtbJl@PywX0fL#uop>AMt30JFFOYPqer@pPgK^%A4Hma@RI0&n~yrJ(;r1u7RXd
zJD34e`rzwoH)k7WXV_Dv90ElLX<T#P9Z=oc+!cB+T)8cMS5sK*>N{t@lK@w0KtzQu
zHI@2LF=id={jejc7aP*e=-J3Mq%yM=w7D$u5{hV5pmo-uP${unrIy(0jUOMMA)d$^
z+)-w}`{EYWqP_XhGLWmE+f`|UgG$X$Z!Z^aZhlc8g@pZ)-4b-pRwq}_Ew4?`amOo@
zl8>_|9(;K+dh6?LSXG;gYy-@PvXmlcDxBO$WP<uyP>=BG$8T}`VNe#Cu~@Utl6K78
zq(k(PN=PZz!QV+<D9>wAOfL4!cn(723k~Irl(L#_nZK6N4)H)iOd)DK=?`x4!7ZT@
zq)i%!-Xe1Sgw=`EF)gmX81H+LBm9)<gI)IS)?L(R;IhRO;S3>(8Ze;848!iCl1sV4
z=xdvm@@LgSNk`SHORB^}zng^U8c)DhHy9C?)i2n>{9TEVSH#t~_H`nmn2w@|NpxiZ
zIi7-4cn7ab&aaWZtN%o=ggnGHbt<l~p|kZa=STM^S}aijy9})Ju_dSmic8Hx$4m92
zpKQ-mx8LFQE+`%4B(^--ai~WHir7!D<n<sbQgVu?(q<b)D4G*#PRz_If^$FcqzpEv
zOae_DwVHcOrifz4X1-c{0t#B6IWR+;qv#mzl2K$5o|~Kib?`rF(|*VdcAD1Nrwz69
z;LX-XAz{$RO#9ahQAXy7M#buXRSf50rVrHAM+^`TIE~D||LTESD?r_^Gge2nE!7CI
zLGxuAXqVKQLSdN-{E?zDs+sA~%bCrABJt3#MrxKO=;0v_5$u|1PaX;zDvWU4O+dI%
zk!HS-X>9(Q`mU%n_7`t1FlX{p6{X!0ru<}t!St5{^DaxhbdOSA(mG;bJ?|K$q}pPi
z24t>X@``%6yXSTx+^}8Xb0VTOG+oz3ssff`W}Shx+o`byO*MvFvkSFyS@@jzI$v67
zZ5F7U7V29)pQ2dZCG!aN>@wL|BD8a6o^*iy<0{gYe8Eyyn6J6^W|VdNOa<aq3ALQ$
zuytN+l;$(n(Z)h0lt_tsgLn#;O@KAm9#ZeTbW}pR=&b^?o_M3Y@k`Lx+^LBTD8lLB
zGCG+UtkvOi;?ViNC@;+-ONWGtsvr$43v+9DW{LB^Gwjf(a<aXghDumOye6?J0<ilx
zd6^zf-NJhpCEXGx=-aiz7Dd0jLq}|R#chtcHWlwabVz7km#%kJ<NG<Sc__^DLRDyT
zmTB|`XA0~rJT^cxHYmS*zfNer&|M!2^NPyy9r|J{VquYwvh;oUK=R6hBU8xsyi$D_
zdkm_@OL5=7E1A7Atzr|WhH*BEyK_@g1Pu`zh8qbYuUB}_;uCzqeJ?>)SUf|88NyCl
z%q=aNCoaKO*NxPm*3FluURw~F=GAwOn+cVEkQ@2dnG{4~Rx5QvWV7?bkLD}s0iDOM
zf-Rr;5US<jQ{iuvqDc`8tqBv|-H%mmP7g4l?E_9MW>|5#2`1I+d=ZomYxe95LL1&w
zmdbaPDm$NV5-b@w%hXyI0$v=ezV{b8-$s<&bl}?ciLZ0qbtyx5s@&lDo?YW`hqGM2
z5@o~9j1hY`UHz4rankrJ>8(!8?lAoU{lq!Dya4_J>akW7E2r|42{~l=2Ly!>H&_ut
zCi6ZzZ<YRck*E<N)bvWK53ht%C0>4y)q$(mTe=IYZ{z7x=rVY2KeL`np7at$TO|fO
zYIqF8iX8+MSHyheWV_6>6lY@6k+u@!Cmo4dxF5HXLlS23$@e8{`ft7=iLhHjBqV(y
zu7wCR{^EW!t?UrlkqL(e-EjmHr-xog#mvyT<G$?UT(Pc(9=Y&-)0?cmKy{$Lm{L!&
zjXuqo^Hk3bvbz?RXu}Tw)6}N16KtU)=m1qEj<W<_xBb|O4d=}+Vk3pt>2a78d~ddX
zBN{42N!KX6HM3sQyw<|R?fVrG#BI?)IavO`tB;Q9g9{Ww7e9@~cWbPY7K;q2C)VMY
zl}He}?BWFf@a2|57i;WzVwmFp<&dbB8E1=Hq~vuz01Jl8OA><mZD8}hvS>U4qlDxy
zU&yf2Ohr`Skpu^0^*J$Uohe;KvrVq)(4(>DJeac?eEIJB078?+aJ0cjn;#5}1835E
zhb#?=Gp&UE?dScf^4qw@9^7tkS=l*d7mF0X0Enx&jlwEHJ;cA~ak5QpJ`;LK!{>+y
z{0quL7E`#XhC53Nque04XzQB##6``vHb!bR7Dqy@4@r>Y3m<=@L!QiZ4Q79FcP1Pv
zw}2yymnOf8iqAozsjfexUL@)LzT@>(KQb34s`QUD4Mt<J_py{vV^(RgCLhlqOau`_
z@eRaNWMhQ~w_cROI|Eg57bt3USZNDzCQ_UtNDB8Sl3OF<f~One9Pbj|Eh-dEJDTK9
z-?Y;8mERsd(Ul6MluHdQ{Ur7+z73K60!L%h34{ZAo`G;83yZ3inm1;&9Er3w%r3nB
z%{^{t=%rp@0d@@D(4h0($I-j+!3>GnW7J-4-S?6%l})nm;n~;Rp<ASi)o(85uis3m
zL{32mQMHoGxzrW3Eys?_!Xx+)``>Gr%TNXD4{F@kK5h0#Y|nSa%aE~G9UZyQSd<3`
z)j<RYNb83+ai~1VSIwW4B(K@DICs<(58yI_JIQ{=t@0M_<;~PFi!<s^x7W1p!|rdG
zFy3vyd{W9TFK?t=tq1Nmpj=;7RbDL{l_^(UhsE=-?sp%4r?u5Mybjwwh&d@bGDRx?
z`r-&PDr@lY4y!a<R(nh5*`M}+|EYd#IvVM3PPY^6)cC+5z16|t@hb_fh|wf@szoLh
zul91~IQSRAu4W>g;G(UYLbZCDle&KCf*|bQD+Q5?EHN{&zQrJ(>91XO9EgiX?dHPH
zX2y;!I37h?Ly1SVf{QEeSW>So!*KT#A0VDbLN1NSAOE(5x>Rlcvn90nfr2F3FDWIJ
z{LM(GzVWnMm;36=9~h+75SrHq7h=6UY4EfKX&91ym#f>ZV{G+V^75~9F=+ozN%b5x
zBOPhNj(K2$t4ZJJl_{n}O&6k?MWnHS;R*Desjn!G{DlMy78;^J4ANGIr-3&;44~0x
zzcCXOP!51BZYvxnU_dW!m?%PpxUvbXVlzYzoj=qRqftgn`#Zn0dpw`w+6CJ096*+A
zfdMCOPO6Z>FMlCPg>TZ`4Xs1S+Ry%TeJ04X<|!))0ZpV`gkjkcj)t6P`^^2l%7#w<
zvb(dv=(Iv!KIf~}TSh3OF%FcONoMH$pHDtfq<kGiRL66SSvp9<OdZQJ!k7`Z)n5x;
z$3I*v;Nn=NsL|ToviD;7`fRHp=3IBsDdVBO+xn%rq|5fQ>2vYgW*KQa_IH&H9$DQ6
zcqNPeK1uaZ*(gB%yOLkW>f?pD-n6B?*?{a1wPL~>eNLXgEl{)Zo!-C=6p5kTa*2I5
zw_RhJWe3-mk`uv{my0vsA#D6eO<Q6n)0A5Bh9exR-7BA+h3aVyGiY{T*LK#Ux#`Dz
zP58MFlqBQvzk^Y$?jvW(v3XOi$AXba19|UVYHH)(Ox`7PyH&YV_@-s|V`RGbp{rwv
zRJxn9TaKJ0)TnPZBlTfTpT3@8-C@Cb-dSES5C8k!7)&v6So`m$U{C^AfTT!8#J9+=
z?d6;L)t!d*R6lGwj5bRQz#`?)isA4(L_}_S-?Ll}@C^*ns`8KEL!~NPGfX>I`QF=I
zQv8ns<GAS2h(&7ek0Wz8N_uRR?a5GHYBlecS@csntm9@-rJn3Cr*_fszv?p~=A|<!
z3w?tdvmjX_=(AuNMCUH_w5I%S;#eO=HPF!UD(R@xqp6BRPd3}N73#4mNx4pDp>gQh
zbX;qqHftUZ`r{nRlf6g_TiXn3J#m@all`X~waIq`M5z!vW*WLxFBuk_@$;!J0t3-R
zBNILu8<`;}s)iv)dA#&>Cl2GZrlV`+bcZ$q2a{AImrH(885shW5F8Fl7#UlP18no9
zjZW|GfP-Yhc9+%$s0{cgP)qR;(2<`%)SbN@xdsi8u0y9a{;cKPkD$pE=ShjY-m%EJ
zk}DC)&P!>Kyh3lX%_WTN>RY8pQ9N%$8R4GD>^KduO~Rwcu5$6yOz-bGqg;=z-744|
zf9l~Z(AkCM!c^(EmclJI5rtlNJZVGLL%+B1Te1d+vsp?86e286sk@{K`G1FrS#WeV
z(v&lTgIr^7l@4nET{*-Q40eglM{Vp=r!8k9Lb8@;SSG&ptlltlY$LfN1N)9?%noYT
z`5h!cxmO^Utm$?Qw3Kz_+DaXKW(Wz)(r^&``m6U1+$ZxpILu;YL>@77MdtpG&4*_C
z-3OFJdWZgN!N;7)SLmC)2qjL2Gx3gJ5s3#a(|BIzGsjPtZ;*5m@Ju0S;s0)>O|^CB
zH74Y&50vhaR7qk)H_BE5;xD7)F~~aqwm9&toN^5eOq_`r<o846hZ%9BA9dCB2~vZU
zxH&k)*x2Z<Bulj{*t$T6ZIcqDBP@3U+$pG4O;_RVXU>HBn)>XR*yJ-)omoD)onH)}
z3)_CtK*<*#8p~M<^dbJR$7J_g?vkqBoal(_>8pp!f*)y}X}kQ~v1;ETEnB6tNv13<
zE{wA<5_@&9jQ<$idA$0N;pl?WIKb8WR@xPz7JnMSC#Uoa%NAy_9_%hpV}F9pcxU&|
zBkh~{*Zf^?yT5j;JE3+roE$upK8b&_AWAX|Q(~xx;z4z)T>1$Qg?PDGVV_v`$J_oy
z{*dE)#L+yY#j=faa6Co0oBa5_zCBo6#k-D)t$JsBW8qmf%_rLO^_HoJs6d21xb9-s
z?;+YI+gCNZZYMKWU3=(5Ev`B*Y9*H^%}2MyT0kTz*fBh!pUh=Htnx%nLpHvo4-Onp
z<BQow^FpKx{SWKJLBglrg+FVmmbCMKw?{9eAKXQz$qBrrd5%d=lUb_u4~HSRRIZ5N
z$K=QFbX6Q56q$q2_EoXmYQBRG%%`Xwo-(_ds^eGbby)-<f$nIHUN!Puf>CvDFK3#X
zY9~_lzvNk<-4cj5xf&c5=iEY&=&0;Ro(PGKopD!E51(&hxEU0&b53%7g4E&LD3@Dw
z!~MG%()Bd<xUl`FKgj0UsP!Xq2d>U0avSz1<mBl=JMPEHbN6eu$%WwMssF7Oog8v8
z<BxskIThB3aboRLI9vAO3swi|%}y>}u6P69Gy<tis5>xxrDhZf`h&VR;2suN7s20_
zKlz4F(1iWai$IS8gGUjzPg`~=LL0aZVu-S<cOgOf``(1IDZ78=2r@t%{`mD`_;C0<
znESbZ{O?8RCg<M2<Eczqzbi07{BChd3dBy-=^>blhqA7&(Z*vAmTm4Ia(RA^JGnx7
zen%q>%*HCq{ndR&a=X#@mVvi_y^9A*Y+@y3ENEB;-s{U#65jcBA=Zticaw+J2V-Yq
znk8K}tTU`&5u^tRH`6SV92wqV2KHqyG-^CM86x^C+w5{7(#Kb+Qu|$EjDgsUMH&oF
zbT$c%QOJx-^H7F)u17&1zb+g(DtK_j%=5*#Om?_?!SM&jlWHC@4U*`uhpSInQI&u8
z`IXaP5cXxi2aL)~6eKlCcNLvQ8R4i=wPF=2iGc^0^|NTKD#d1=`(5D_iONRK^S);o
z5Pe9{<S)lzv9{B#QRWD?<t#+<teGypJ}<)`?p)e2#ifYI-iM|>kCI1&;?I=zgauiP
ze{t(<Nt_awz8~D(*Ty*fwdGr`aGM`#FS3eYdCr_D7eNr6^%ac4IN;^($j~nzCPMAB
z5VX>D&I`t1+{E!W<I{(Rgx$>#R>qM90<76Q%g}byQ0S?9`c;hw?zwG#sN>rS1yr6g
zYLILD#R;{^%Nw`iYxqu-(44qC+I1?eMCbrmlH`3ZzR}p;oP;^pLL2i&3#ERmul;O&
zIS&~Dk)b>ig*Ns2+|JIH9|YNcSIqOVE(LhVjrv1RUvLoiE_9C=MFepLV!sd_<G=W<
zaUBlKjhd9A^~Xl6?rn{xJP=rm^B*>W%^czHdSzz}DV|H54utFnfBWN)xW(<pLWfyU
zD~P)uD7b0K7P%KT%T@XZaj4%IAzE@TB!yw(uM=~Ya<K-xPn#j1*{|YxH?$gK=H)#|
zp_)G5O;|+N*9Y^BydjU4+oQMLrfr|&DUUzBX+0noG&!5|Sn|bm(G7V~HQzXYu`G2m
z7vwvcaNe4%b+YG#YV9vk<;&o*+sBkxUx#oyFxp6}OZ<84w`d>>=`Mj%u(P#$xXC^1
zvHyaa{}i&cZ`2%2mez+N``lUEcVy)X4#n-ECa|fPmD%2XwrOY-pod|@smVEf^-_h$
zGj^&izbWK|sK#&=a*83lq$ZAGQc-NjU%ZB8b@27cKcjQhx?)Ag0mtFPerRIzfY3F;
zjA^7V$-Z9J&DpvsgU-Y#pz2?&GQ%W#!!#|%*()i7PSgpp$}z#LSc6GR14Av!E;yq+
z%^5D8nAvyI=RE<J6tVLc5_VtL3$?tUaf}t_GpJdHLEDyKWG{}~R0;_aWH?s-Q!G!r
z7L338F`*jKSpsRk#N7S&BCGpcjZABV>C4lu77Gg$f4)Gw=<gx!&Tlaay!!)zJ@iXc
zf9<CjS#2$ha`~d@7r#pkb9Xt~TR7JEH%yJ!U_bWvPwvdbJp1W@DIyoail@A&5phCY
zwdhqWI1e;MY?w5ur+LdR(KM{-SLMq@FVfUaC|7}vPb|>XPDmUHwNQZfS<%h-3ow|U
zl`>a`_}Zd;nKXg7uqM#qQ`ukHTWpM`uS~PDosFV1fj2kB)?p&+NbGmiF<*VI0S^`6
zJX(y4<S#8VxIl@<FhR1i#ql0#&##l@aE<2AO|!qaorp4twfLI#)cFb0Kh}>`6#<ru
z`|mHEo{dY!2x`@9Y!nE;fOhi*RmbDeOVWl<9y0EzCXA_2eU`xwBl3F|e%2B#-m<m3
zG3OK3&G~Dq-i|hb4*mBLuPryftQ@ne`+M!etI@+t_vxuEW6Fua&W4+Lx~P(6&z@s9
z2QlLQB&l)u7qV&kPpS=vyOK8_WuI3f2T>0r*_HY$Wx<Ki!6&S`<iBU-G39RcnnS|f
z_b$wYnCRNsZg+OC(d1_yn`L3*xKL?_8(s8b!W%hH31+(Qo0AD?VOb8dEO@R16KH?L
zKh%8`2Bgi&GgTP2>s9K)-h@2-vP)Kv+C{LFMWqH9k`H1AExD6yu)X8+%?!xPU`lS~
zzgnzb+;@KV<S-f>w>)K|q5o*1{IkK&SVJ%Pz}U&2$FGVdYImKd|16wd8?cV;Xo2*X
z<LM8RA(=aqsXJ2J0xX9;i2aRYcbN1{1NoFQ#~HRLf0-iQNunXknrz-zZ0iaUyT%d)
zWXqc8?^DFR_OM)GDJ~rP5V(;LK9l0OIYq$+X8Thl8{b8vqnR0sD7RaKD@-Rs<ZdSE
znv$bidYhWk<OD?h31C-*vZ>F`)1echAk!GYyWvM}^%7Un@Ek{L5yL%jgZ+j=^mdnK
zM^buroV#KNg09{4oz7dQSKgX>WqVhPH=;?^;U}PCSbZ^%g2t`M+?Ue>!>2KmD_YVn
z%d8QX&o?ni#->xsPKq<uY+cMs9>?5BC>WdQw6q^m62hgb5~#kJe-zvdV@CEiYp&_O
zo2$RtmG`KcdMYIy1~+L@A{k-E^ixf2SE>uMM-fFvR8j4cn^|c-h)}~<XRHSr51(gY
z<_yf%%PK|~(4Uh=MPwGeakwPx*|hzWReo1OZPehL4bGyk7Fl-5N%_X$<+(Q+$kd_a
zsG_*7hFp(&u|?s2S5FY|(YA~~`s@htL@FRxLIgKU?X#gr^E))qwc_GaRLM&RoHLNS
zxXw<ZvZj0EL;akJ$AtMdMQMwB`|ZacZ}IKI`8^Lj3>twJ8y-4s?M-pqAy4rrDrnWc
z%D7ovHeTinOpGPpol$sb5$62jwrQDNvMsYnK90&{tzS1?;6GWzzF_!&0mb*E1Q{+v
z0*Tit6Rc8^*4QMLHr~x1&AIy{pyYgeXMigc3VWw75~Z#ad?0d>dI33^6zMc*bEsx$
z7sX75GFREeyp%fG4_7syVauD!=oOqZDk_M}*Yf+1fSiziafWDQ<<Ib_#ly<lc5IiS
zby1h)0pu@j1-EQCMc%1O?QS@Sgwzd8>UjKWvlA?_=EGT1=5%<%(#<KZpko;RQ@9Qp
z8d4@wWv&}DV{AiQB06^%Q6PGa;X9Va5H1-vGpw_17Eg_T37)9YWc6R{j6}MyF#Xh(
zK;_bSdLy}GvD0C7*fdw9zKjSFi0JJ1UR}WEZ|{57<20fmjz>-kZO3McsbQo1mW;jb
zB4yIq!*@~BbYYq(g_Qim7V2TmN-B$BZe*@pz#UPiw}(HkrU?66I|BzAbt5DS34}HZ
zviY02NP(92&c_!8&}_HvZEn3Ik2kL&dX+i?*-Uqqz!-7bF!ZO)&eWXzQM#J1)5Lyk
zqy=rGnj6?e$LdU;Xzvs%Dfn`R&kyb~I&IH5u8{Snw*@N*={Xc+_5P9@7z=PMvPmbF
z+3FsS0q2oe5{|QD(dMU+8oYnVUf>QeV!<lGj{dd9!=D(x@v3cTJZC%K`Zrl8;bG_d
zai5^~M~Yc&jJl3CL3tta&!#X5H{T$_!XW7@w<{CSyT}YP+PY#mHO4m#h;~Jl&(mZk
zPc$P@377Pi%0cM6RAh7D6WU}G4#7~hw{<NMB{h8~qLa+8r<rZIf0A@RKa)W?*)vf1
zDukdeavy2K3D}E8!P$Vo+wj|g3h7$vI8?sq&#`Yn*a?QO{e+)jww8?<mWj3!{A+a*
zTbEzz7A~&WbUIt<1G-UdWf8TO&B!DJr&6MYYfPwb5zaQF;j(JQ<CyrnyB}3$g?Dnq
zAa&F7K5gh3PmyB)iio1kW@fWg+W~!ulc}1@+X#K+hucSMI_yvP{UM*{b`FfDza1fw
z8mJtL<UgCyA^-Rfl)i|gParAAC0=5}9Z*{Pyb!`bn(;x^8PJs%6KNmKBSB{;bH2>n
z^#u?P^oMc`qSSJlquDGh8KPmmidG9<u|Tab6RH((fl)GWwFsyx?%+fCbchDCf*x21
zAW6bH_G1wHG|%@-U^cEv;w_+OYW7_(mHr}(gIIG!j$Na6gc^`tv?2-F@vqR|w5p`^
zT^-%q4X0&U3fHoMnmR~5A&BO1AZJsa#FV<K#Ca`XQYPQSiGEj-;!Yf}8os4U#Rw%)
z@AZcK6;(V=m22SGa>^nt5%$zbUn^@;YqW0oy^2pQUr4t$RXOuf5!t|PX-ogfT#?f_
zqvYKC3zS;B{l7tI5(T3{%XXvWRVE4T@ZuJ&KQvEC>|fY|#-JIjV_8~^DgQ_lfqg$!
zj|#RSQ2V9wON3jtVNe>3%W$$LB$Z8pL=1w?FG5>og2RQ$9}9-3()mM+d8cWlkWgYj
zeCuQai0ig%KMHey?Kmj^Q0D5<q;tB%c~Y)0jk03I>L_sSz@ni%Oy?~tFbzJ=(#=K6
z<rge2MEZ-e`OE-$8zfvh<xU+2!{l-~OACo=;!_%<PYqLeKSw}|ihY^9wUz9cxA`4U
zks`&~{x>v<yxDKNnK1V>vgt71<F&>t&gGTovZ@cQhF}7dyz8blHPq`J&b{k{KJ=FY
zd5$g}6gk2-OIUY3p0vIYXDEjbgGRhD+@13+Yb+lkiw}rov8Oy7qp^#QA>7uC92IIq
ztWNju3S)c^=Mrmkk@MH*IOB&mMpbaL_d>H5p6J<@ULtsu*aHP6?UED(MUN9Y`4rN_
z+&P=Pe;%K1QY^G0*<d?8(;k~Q*fhfpsX#X~c7!2p+P+zvu`n^2pYt<%N8ze(Hx(sF
zV==Ia@SQ!}nQ|@oUnu;(LzZQ4za-$;^RN{7zSLD_s=B^YQ1xry#fy-P%w@9Ns<#vy
zHvnh3ns#uXoay+$<Co^31W5Z>mv-v#ux5^O&XA)K-xWu$wD`qsbl*4Cpc01tR|(hA
z!*rXGS1b6Wn5clEC*h*;1>|j4#`D1hIu>_2WoD=8LxpEgQJqZeFh7B(S^ED2TR^10
z6?P-K)Ru}XZL@yx46pSYpD4LdbKR>S?NI5T!1Qm|%;D*u&>p<>&XauoA1eC^@GPC0
zu?m%xCV(eDY8LV2H0^2a^ct7YR6DBQDILtMfCt>C!-kY8<(~rSYu#L!YFDS2?(dGO
znR^;E*i%YAkJ=W1b1UW{x}T4KH6cqb*1Q}wwaiB#RXl8X^ENU3p$$g;)DPf#G=vXH
ztB#jSIw4XS)EzVNg!FXMNJy0WJYnin^<h;4dIALW{&0*b9sMJ#iiHX|^_^)7Wv6K+
zKEqDPwoNhB2F!pBs2gtJaS~yiY<pNLP9m1AHLm&QU=@B?`>Pn5BU@85aL3~(Hs6|q
z7M+Td7&=cl8tCJ(kpSEB-tnrKNdRVQhWU8xEPxKl@yodsyev2>*4Sj8HIDM|D3*_5
z+Aw(M)>I;UMnqO~;|GtOl%vi@Nq7qIL*2Q+<0-?^iK@w{VkQHasUPj<v62I<?6u@o
ztmFVI#2q<2UY3C6yo)+2j+Q_Xe>DHb<7B1rGc`}8-~$;K4+r5*C9f4wS{+V0^0;_0
z=i*&lQ}OWv@NqaH!{g(Xp}<D2@)a@3`Y}kHqv7?6u2$9)I*Joc=XT-8gX)!-wePiX
zvf`iUiL77J*&D`rQvRCtQ*U6M6f7rRNg!jrho&7Y(=1s(jJxi--u68=b}U{t5VZ*H
zkt8TzbkRPORBe$={<Rm7wl?qkknbQpc>U<Q`8_BXxR&$KKo0FgIXHnIMZ>j<OfP=e
zPyRo%w)@3%i?5TwUWve#httKCT~9vfeD{R&!JzoA0c=He;pdM|*(BuCtG<^6HyV1K
z<P8?M5Mm}RU`OySecK@Hw4+FR%fDUu=}e@9rVI>;%D<f~%6A^M|B?SwPZkWvBF>v{
zjUJ*I!rexcc0to}q!&CFQ8+I=TB=0fNc=WWg+H(OEEn+$c$HKgYWb?CQQ4gO*Hln;
zO1CSlhC)=Hn6yN9l)Q?u-A`WYnQY~6a!zQl9>1u0!;mFDVHu8iU8K&S_+hdT^)rfU
zpIM@~YmDx&>hJj}VrI&@7s^PCT63mXw;7642=meVl;!N=k@fviq~a{{mzmMJ+%Yx^
zt-3Fey4~#)c0xXhRmbm#JO2G}RAgX-J?HWnLa2`Ne!o6$*0Xse%%8FznR9&VTJ&L>
zS`Ilk_$k&TBcp+&J~CGA-+ZA9S4|UwGU0G#zVXQ>yS}aePce}7yEuOTYKnBpJ{^UB
zKwOQ&iO9pb=>EO=@W=SFGQRv?3$=^N&@MubNiO+Gwp13}Dxv%zkMVP{zTX0;6L{Ly
zoojQVNEC)^|B)z&e2m6qotkm8N#?TqrHg1MA*0}MNzDBE1=J`Pp@DO{&sM5ZXd>^^
zr!Ty8A8d9zo4?M(Nnku(%(-v$uJ69HLGbQsy-nmU!pIK!(pq|qZ$s`b=ixjY>rCI+
z;j^aQ#J}(O)0(^C{trgz{p7B>`@?1yzt?Bh%niL8+wp_(jEyyuO{ejH{=pLEAA!m0
z)RVIenby1ccqbJboue4#D5kS{xciv|KQAuF|NQ&*X?^#V=?l;2x)XAL82Yvo2Ij(B
zt@t7wPSdjPboGRM{51xDiNS~b<WDCBJN!Ksj|(=RBqh5NDw)YN{l<4*<JYqo<x8|H
zgvIow9ooi~!&l4wJG){T6K}n?r-Ee~CC7H?`J>tXKzHLZ1gsaI5Dc}vBCLExP+}fE
zahLnfBGCHRyQ3T1x7X;QzNXMBwEohI9#)*iZJ94M>oR>cO<o+>t%RLD*o&W__^>TS
zSvlZaPy3=Q1dC#%L)9L!AHM7N?;DQZ-rLeyW83Ff?uGwE6LAo?<U!nAGj#pGe5z=q
z0yjzrFtUg;FTL#n&2P5v*e=x=^6kdgdT9{9*{g^X#?+_rFQR<$sn-VKaWDlmzXtr?
z=Tz%hg+1*+YV0jVT<1}NmP}Mt8R(9%sq0Be$6n-S$9Mf^6$P|tzdv)I-}rp#EaHDA
z8r+rh$U|q%N1yix*in5E#5~@is~ig6MDI1UlY0#XR-_ZB#OqWi&i`8jP&LfLFiRe7
zx5|53``h@f^4_P2oywHZmQ*iQT@J9G+o~Y1Uqs5#FRlvc*_kap8~fx0!81$GvRi{d
zR(ehDd~ucf+Q#++&f-|E9XI(9dvn5PTv20_E_*;|<R<#CYfMNEuG*^Qpu(7$@zYNx
zBVof=Cj%6=vofgRLTPXUN|-@IXlB`|TlC<G$N@&MQVuGNd8dgQL@_a-5Y~vHU8-ty
zQ#*pLBB^<#cS39(LA8y{G6H^66p({#j8$^D&9O=utf`bPvfx%?14*cg6p_>uMM+wq
z)puNc!mqbFEyxNxtA*F?DrLbcEjQPKTWdmMP}No~26Yv!RxuvqTEdSUXluwUf8w_X
z0XfJPQ6&c!MzMs_xOk2mdQ7@1XdO0Fg{n$H)xpNw$WwzFQ$*!fb|A3^!NxLCJ<0t7
z@>WDtGO0mG$<kyC+%deVF3<>2wMKzj;O4^eOAIs+HBf}=tPLaq`)l<=k)By7!fH*z
z%HYkZUKzYS)l0%RsIu%MNh5{0G<@aOOM`{FJaY=Q`!tY*3ayA_E~LRHp;c^S_k31*
zKJ%Q3FwfjY?22dZ6o2fNva19~8$bS><37z&`a(&E*(K9qaov9s3|?<nSA$^l#W9%i
zEAm2a#U$zf1*3cKK0P?T6`ur@F1H*>4l%QeHOxI#K@g2p;IfNX<Ph`g8Z-ej)AsZb
zOQ)x4VjgE=>G9<z2WbLkCf?{FmS1d#WqEsQNvrOV$c44q@ed0bcw}fxTr<7kmOD|%
zs0Ny#aV_APS^H>~1+S24IasVWR@_KJ$6if;_4%(4Kid%`=M+`aWSo~-Foh~9RD~mJ
z^;FX2U7d24jDb^1Q|i@}6CG`tQk0wnQ_hkxTS{pJCovR2m9AN+j8&Dhqrp{X;>;4e
zAs?*7uPF^#xi#w=tASiM_P7p>Oa2f&B}Y&c?W`C)N@E`;2|-C9S~)Oyl$Q1j38anp
zLO|(aypV7jyDkKdc9shXq>bM~K<Q|<u!y=iEqEpXn}rG0-eaLswKrG@SY6!J8JrR7
zRja}Gb!z?OYd$_6CQjFO)AS2q)QA*V)AkR_ZPjw$(geQ{4S3<<_}W&x`=FJ4;69-m
ze`Ql^vGQEb9=t6OLiIIV3WDGzQwB?e3zJ-&`j#!qb0x}C_C=*oBkh@QUxA}+V8aOD
zHuOUf#Mcy>L8GtofMbVk9BK*y-(*^r<4+O|smHhWB4mN{n``DYIlhYz58Q(lcj1VE
zn~y|vghtbZUI@Nr9%O;iNUwdyB>kNpAD7fSfrz9$N}{RBZd6I3DjWhii;`%B(i3H}
z)Mp~fq7hFzlu1;RUnmPjB$ZGmOMTX$ESg3Mf>NPMr&m?Rs&R^<bS}|sMEPK%iHEYt
z#B&Ur5;aPI+;3fUyWbP(V99PXdn9$r%pAd?9ZecRzJp=PqP2f21(%CV$UdwcLB12S
zN0shi|0we14Ix#=)FM)ZJDNtSbO#$rk*{DZZ_79Sqkx&Wngru{#(a_{&Dqf`YnSIZ
z5KyxQm10;6mK7nM3&FY2ldVPSb1)&6R@#Eqr)4UmtIX7-MMWiCwfUUN=p-%Swr8u$
z`cy|Jnh2_vurfDP9a??5s9LtV3{rJ;lCv2)K#Jy>D#KKeYSEDsEU670R4hSN9jR!}
zDg@z+AYpDtIr*L46$Bj}G9l|4C>U8N`i)JM$%IOA@PqV*mw!qEQI2VNlaRkkfmOlP
z?@dzvD-`cmd53D5h__YV%~XJs$mQIU>XJ$e0oGAlmf~G~_id6A`L4dxO2bu{H~UVj
zgUUyT>y}N}f8%yWv4j^GnpV#`qtSGG$`}i)`(wTMWUZg=J&z_~=MIyvH{m<;e3taW
zmE%4k?=~x2aNzQ{<99WirB!XD+dLiWI5{3ikB{6RIRQ&?TYY-Ci2T6w_n$5O=<p%^
z&y;#NN&kJoy~p??GXcF}R`2kBan1Iyw28SLEk?bb-^Ep$8g}ujcMZi*t=nc(fo7(U
zmNxmN?`?wJ>4$UgGJZANpXgM-I6&7*!)cd27zH2?v|lA!tyZZ56;5a$N0b6q??fnH
z5-6ZGTlF<8SC`INO_C{Z%W3<g0@y@ek5z}kIE3MHwx>8{JU&QYg1AZ8*SBMB$)=y#
z^epcnmNJ&y=Z~Yy<aa#aSn11j&m0qf^S-lfWFn~B=|P-i>$iaQ_KzG$lROB*_X9z@
zp6d{i)OD<u^JdV!rO1!pX*zm<cC~vcSi5H3Q{<#8SnKccg(~^)vG%NXWE9^L55pcb
z*`Q9|WxN3uw%-Otf#2m#MV-`R!AC-1Pc)S7A+%+fiaXq7_8L+o0y<@rW^$r95zmz}
zPjjWL>|C7%nHkWFPuH0(H_Jr~Ff&DEfo01hfe{K?cAAYCV1DeNh?kk>p$1qwK|~Sq
zII%;GE;kWF5ic_zK@G6{7SDoB)q~<Jy?r4T(JCWP7PZVnS%ArepsXbxomyba?L1mU
zUj!j@sr9nEKm4TH`D}8ixwZcQ%SPFW`>g_m9(dZ#UD<Nt$P$hFM;1aXk6=Ta9^38q
z(rwR+LO_9Kqs3bA^7U5>i)_fMIw|aXBPKiygYs16$*d(SD`j6@EYB~J<Jg+_E<|J<
z{kZ;XoAH}(9EGVrNm3^f)6qrJZ`j7s<>s4<B>SpqH^plhH3!+B)fZM0JPF@A4m{5p
zn7(+)zWa|&VHA%SvI`l88HsS=OoZ(uNffW1Ti(SzI~TwEygARXred7V3;0Rdo^~$l
zOeEzqPrZ}={l70iz3W@MISC?R&b-7r$sfu;^#^t-VT;yhpt)?cV+gHNpant5g*$=Z
zx;fmrGl>E&-hhLbOdhy+LkQ0(?CxA755e@<SuD7yKk!~&I+5_Xc&E70TsjF`sUy65
zSB^gyT)dwciDm&PW+Kz*gbn%+26|M2hQeXH{uv7~Nh7x1oHG!wlPI0A`*?v5rZ>?W
z7ws3;zs3r#zX&EzT+B<{Id0N$!M4-iINq)A@O65{u$fywc4q7zUgJId`{435dV}NL
zyJ9ir;<-3pFNz#CgO3abdvWZ}+2hO;qlel5o^bIN47?YIzi9Iq8tuDvywJycSZh=Z
z7<iFz*mxnnqN%fBd*;B!Y<r0?doc>UMG&VEdr*sU0*?cq-^GM6^=5#H>!<8Krg$HR
zbq4MwgT`S{Yrpn_ckxFQq-?xb2(Ojnjb>c1H@tHre=1(Nc<&s%Y+J#>i`(`-C@XZL
zI5YUZWgEt2{<)vdGKh{F+rkTzx7E|szPVf`=R#aRYi+-6x6Xw(E(Q3GC#EX_n$Ne&
z&`YCim;K^qTj4aZg)<kCJ&v4-Sjl_WZjfOVo4+&HbCcL;mV$$E94tgqN+abM-AFvA
zZX{wm5s{b8m`M;7kKE<Yn9Hlh(2T=#*RrkWG)P1@3G5=|6kkc2XB-u7|HoP6V@<zd
zcW#24;;HTP{S&)B&?*$BM9@)W)7}QwT6W2gRai{<St+X%Ms7a7mcl+SBV}FO)A$lC
zK9YIRWD)qqSl;iJ9%S|+kMN!H$JTN2xA?4su=P<j!bk5^NZ(Od+y1;N<tfZCB>icK
z=b|%??gTaQ!fs{)iR&x|&)L&!5K|vSYgVFgn)}DJqQ`}qHhM8ixM6`BlFn~b%iH=O
zib;(^=z`sl&SVrwPtX5WIM$gn77Lh=zKUf_wt14v)wNQM&=aMj6MYy}yorJs0zJ_R
zGEqR9f#tR3mP-L-Kr~K4vz5lKsBVlPvz2#)wy&RHSEOMvsw-!x5zAv?6wC$K7ij>D
z0=Wc1?m2VQ9ip)6It_!dWe1GbdX+pP#I`4azZ6l@97cinIB3qYe^n$yONQ;($Xqgv
z;h99TN1^mJ1xHEAfhq+tQ_mxkpdan$GqmY0-1G;12<4G12V-|^xAb?uYXG;F{>gSf
zg61hbKc+wyFo@*Pm;&*Ep-J<kn1Twy{z#99DUb-XTG^Q}g^_?Aksbt7AWMK4z0+R`
z=@p&M<ww30%p2zGvUU4@Uw_B@Av;JW`q40<etd`oA>C=Tpar824mq7PI?7>EcCtas
zJ<;t$BM6(f{;v>5&|jJC9zpTeCXGj>vSg<SbXUAua!GqlRbo4eGYGQ9CJ<4O`!msY
zQ*TAfkg966Mr;j~POX(Idt#nFn!bwQ=3o)y<UZFCOKGQhp$wmme6*>}dzDa=Ub@p#
zQ6je^B#+4E7ztr&Oe+)zbEUe50UUa0Mrvkfu+Wq*l<L0KRT{QrD?>Kbx>AZg50<bS
zTDNt?k~%;J)?I5hn(kEii9L&)xtDz~%u)W|!_|LQRxy^o6Maf(;Q5fH=R=C+2C25C
za*CF1!bp-^4W&n(r|<yQvT8`BRM7gP655h3tLfG%OtRekGlEww?Ni&2TlH)WK%F?s
zW$rcWxK=!@EmwLbN_HYd>b#AqW^;5ZQ%xIKk?$t?Fx3+)jq*Bi5*LoMwU_k-Q(n}$
zR?3ye%*h6K^ivc*ZRKU0cEF`jWuL+$wBsm;F8audR8IFyIeg2`5NNr7m2zdr2DDt=
zOoMDXv$BmXzJ2a$n@cr{EHjlZ;Qo6O;F!k+h5p;klc(FJ*ZS+eXG2RE1ryuL2lIv%
zO_pLZDhJA|$saK(O|_7A6A3ZU*4u8!R!!(ZSs}{PZ<4Vdlp6xw15+UE+Qf$ds>~>Q
z`bM$caq~=}ufMt9<Q4$~cb`M^3_r;2GiY`pn)_&Wor>f>5{mnL$jKx77-B==3?vuF
z5Et0>L<Phy8EgNLF>$QVMD<9G$H9rd!>O-v5MFn};2BTOIe~Zv?}aKbc8T6HBcu8R
zpt=%)<xxF=Xizx<$-{udgYJD<1;!q|DPkcyiW}<th|bj`!b^tu+$6JKlAj^O59@xh
z0*TtqY}F?7nIW=6-3hbuEZ_%+8%8AQ2ktxix3Co$RMcRd3?$>^6rDvFSsSMi2by+E
zGI5Hp8no}HD<CNM*q(jLs2Jg<Dl;KcK_lE$^>5TGFo?a(nrE4MexjBtyJSgN>Q8*4
zmDmo+z)x%-XVe%_0FgAr$^qjaRYcS{y3H0)QJgmlRm?xQ3&>29hqFrnT5mytLX6j&
z+ZQtRpP?%n`PE;-56-X=TgyO6GR|0JXqTc;pb%teZ350QHL1;r)X_OZM?mom1<Iaz
zZO<ev)6|9Hkf{<9;;r*8z}bOwBjSQZH|I?50*^xJRxVK>5bm%UWo0D)V(3R|q@;d+
zVeWv}T2bH-Vfq{OBJUElQ(0jH!cH&os14&#=MrB=>err8U=UWikuPK5H)f?ewnOUZ
zH?AZ7dO0hMD}9SnmaZTS>Iz?$$*3mPb;X$FfO0=8lxw^<GE&IiT;t^Hml9fG+`#0+
zd8{{#QJr^&euFDazZTL8;}$2Mbu|44Sf}fhTp`H$gLj8@B7O%>TbzXHJJ9>p_x1J}
zz`p=7T7_bW-uw%?jj}f+H@Z>Pmc1L}<}J1zWj;siBuKJ<${dVBN_*<Y;lg=ai?~r{
z$Cn}o&k`Y8scZF<DIIJXvWd#cmLU$9+Eb~`z$0x8rkn_6C}@mkoPDVL!0W|C|MYxY
zN<r3%3CKew-;dXWsX9Bf=feZ^^h)CrOZIzM?rkl()aW=xqcJme9>f$lTCA4Y;L#|K
zG!)}`4ytfr){;vpT%0Qt`UlT&TY<VvpZs4&qySyAb}EHX-c~k?$qdv^q&-W5g423}
zDI1w7v*9~KC+S5|@PamZh8;xcSjh~wl3BfEf;pPczB)#hbz-jHiH})S%q}Pmz3~f9
znR_@@-jul(o(qeGwgb|f!hQRI2aL^IofF&#l+Aj@Iv$h*Oy_qh;>5+LefLh|VzPsu
z^|<&JU%&jY0)v{BDm!l(xh{D1r0z=hv8AG*om23H=T$yJTT_{5@gRsu9#HmKfwG6`
z-6KjF*N@=bQc34xlC7>+!^-t|!sA0Sf8*g0eyv?}TY*80*qf6R8PQKL(VN^b9?=U%
zG*#*tBqa+5CE9h#6&Uobr}b&5jFbfsSJ;~@#-qk#_zI_nl*bqwfdcLdls(k!9C69W
z@j#EM3|l-}d<HF?5|KXcFYtM?j}2k>IvGJexGvcytnv5=7$ca}d`U(E1|!<<0Z?F2
zIkjttmoXB6E>cNh<53dgF2Xv_4)N4lH1j;f_}HAy$@mC?`D9-z8;_J{1}U6cPtP1u
zVrZIw#z@&5{>eyrMhi$)6X$r0M0j>DCjmXe=6Cpo8w!{`H<~sVkYt2JI3e5AHXb1{
zhY-BLSB%di`mZBVV369YCcg2smtYgIhMkcbOc?og&<j=+IMkxGiXpS@1PsjG)T>mN
z;zK{Ha$SlW_7F{&Nr5fi#~cP3At_p|;9~|JkCr7P^N(AiZ^@Vhkk|DnV5klFcGQuv
zvji8gm1I92GcUNq3^{2`FSx_#ztKp6K~b{Jm6K8O0#b5Yx7y|_V|I}nFv-d*#0v7>
zCj|f%In;@RyrL6+H7Als$s6t^tm;&6xR<~M!ryqWbW*YM2D(Wlx0A=oJH(0Hc1c3s
zIfTrxmvOv<n!B%;k9Mzqla;n;!&-l5$4Rz@_WCXR@F49>1N&jn_pP-iX%w&CEq1=Y
zf?8`_{IYm^R_nO<xhaAf3(h!N1i_Q@Ae^Z|z5=bg`Hks|m+WVw{JnM3A7)5qHnyE@
zgf~MWo<_O+JomED)HV+^`>9cA^4y7@L^K#=zd0C8HCI#uq*7e#qv9$+ofS~G1X|_R
zWM6OF`5CptL|uPhLEUukpi)=d98~63KU=Z%!RDr4J!u)S=5^@!kET7yoS{-9c#mVp
z*$?$(l|{+Aqs*uCZ{mJx4~(P2#d9I?heFu00fH)w*$Tou@uKxB+~!~G*FsT8c2Klu
z-<$i42V3Xu7kl2o#j0~===OL%yfYu2Ur#OT)V7>Owq~-%!K;{>{oqwK?n-(q>`LuJ
z-Q;etu=!W<St+=#!{^sFrn7KoB5^&@Ia_`B&NdywNF?q3eTX5;%!UN3NZnWsR$pxY
zjpVI)^A-vn>;Gcg$Oa4%xs%vv_Jh=)t}P_~-<xeYCYEnp_<w25s@ClPjdF@pNL6cU
zd&j~}%riHs_{KLe?|IG_bgo#<trv5}%^$0{@55jJR3+xxYGv9Q`3G1~$x5o$Y_lbz
zD2T4afmVH$g~ov-?kX}DxIZ&J|7}?|zkHw-XY$-v=$T^8xO(E)mT10ssGU6|B4<&3
zYAG**Yr0-YKC9P8!yG%YFpli0J9m?K_3X18w=>HorLmJovIuaY>~67IZrXOaCA>IB
zDk*lWl@!N&LN-U)w_iW$nxT`JmrkOZbUFS%$yz`*%v_3zS(H33J;h0qsN2i_xZ^Yt
zhut7HMzb2j*koP6rBliHJ=6dZCthL|5!IRl?Z=Jy<{da+vIj3za`QpO1)!!CepKXP
zsjimSsw-H3w%!c&<>uy~Ju2S%Qj;rfFU-xcd7b?keA~LFnT<dX=26d|FT^TiUrc|L
z3-DevPxH&h@mH_rN>%5@`wz<9YAO1ic32IXeDm5ge{IY65VhL>9EPerk${8RKyd;1
zumR8YvHQ1L)*d|_HsD$w0p>FQ3l_r65T*x;19;k%kzr55Fc600KibxIgO7F$oe2|}
ziumPH%L$W}&bDIo*V_$ZG!lU<yKUFo^WJ+0lOoNF&4W##aH&n`V0A}TJgq(<3>%{*
zC?SoGNTr&>@t)7#>J_d_XHclTaN8@jtMdV$J-%P5@(!rf25IHc#LkGy*+lBPM(M(6
zXtc`xfpFUJA!Pk$pMbV>$KoM{o|ucqrz}yTAtTY`Jd*HT5CgMyCASK+rEObai}L~v
z3ognj5c{!aXpA;tl(ml$S}PWq6`PR-PM-YThcI>;q*hH;BXrf-_c*xl6Y=4<VLk&+
zKYsSjqXA?=mRSfmnZp@O+W#r+>&TB(7>n@wrXA+nt{1}x@*=KRF}nmN>RL;(K}qgW
zc5V}()+t9zA2R>VAPmMW<fdh?j<?ec|6d_9(u4Dk!6vd3@c4db@7AE7&Hha?S?e{j
zw2R&QUuU}(FxcyxxmLr=`PHRbDRH#Yj=LBh;wEF^mL)bPldD7I=-QkLT}FqXbX>pL
zqp@E%%1HpwtO4m1c-qZeSySUU5U%}4@$Ebk2yA8vGn>rpu=ApF90d%%kmUgL>sN=J
z3(J-q;o2$+a#-KjYPDLeRtvD0-EHRuxWku)^Kfwoku$nk{sdO>p4xeUAMfzQ0rofY
z%8v>VtznAcbmD<Oz~b(bHg!l_VQViBP!XjM1ZB)o43oel*%}o1J%*#nYLC<^gj+SY
z5PT^k1i2`qiO<?^=S^*mQC_AYE&~kLGlF3PWAttJ2^D){14dvN6nqIE5&~L%;o$5U
zrXK$ypIR|Y$)`iHrSMf3n{xwGh@$WUJ(M39oy#mqg2DNmJcv+nKBND@xeCMn{+`2c
z0Sb~yR;KGCQu|w67N>n|;<S<=^m7!Ym>aDP40|4gD7%7jltdUJzbFx+1QpEozA*k0
zOaY4s=d9tXd|=Y7xqi$sk&>w85f;&JxIR%<!J(cnt|tHfdi|0te*ino5VST4cCIKE
zeKolT9QZ(rdnGB@Z0gG;$F$;1*61RAh~WeU;WNa2JA8E{L@|=|Iv(hvHyrvj1h_=2
zY!ela+8O+H1{g<$Y)c~_ISRw%f<D4Hhp57Gq_MdB9B~W;3)~ao$ba|6(9n}=*iJ?9
z8dnkiFk8#0PRZ*@x!I7}OgaOT9KTnszW^Ce#1_N|Etr*i0<Twpd*b#eP_=vx!M6?K
z67Kn0msq=TiB)Jhet`I(k;uW;L$|JdYV~v@Lx3@=N8d1b!zfJ^8u|2h48i$rvr<7=
zvl2FeH~_(hv;<UJ(#_q2=5bWu9vGH+fRP3X1k4=dkQ_FUJ54x27{Z)LQ5=l$J#A=h
z7xA@K<nzb@&P$nLIK~-ZR#+@r=JZJvMAmozd-k0*+XE24uYu`fL?Xd<3T0y6&Tv?>
z?+C&_nFA9oU}2Ker5;B?Jbf|Yix|3|M<$;~GXbI(X6Y6pY+s`+p-*`B)$<QKaeqd?
ziC@c67J`IEE2cA}V>Gol<iR@Rxfh2#2kw=GOf2AG-oyobsyfVNI{QWJUd~rnexX0s
zaV&Nav$UB)!@yQV%+wpn;9I_*de5&00F2RFl~GLiMFX;io1l!bcUAqZ-mB6TpeD3X
z@Y;)v#VaDCC99stRI<bf21y^Y72xmph)2^|vjtb{mq-Y{<Z)&574k&CT&qM#K6ULJ
z!soL=_qNdnEM?jx(zB@cPGaI-Mow83?c6)EbFxDa%~U1q+NiyqQMVx*cIzk*_hDX$
zwhB%dXDM_p*>Co`2KD-bispgg%k6%GmfdjYcBkf=%5qUJzIWWx_}41<r(0nqrkge<
zHfFLt5s&ttDjbr%5wrcJWCuES{WbGkwx4G(i~D`A)NlDbLyiBh+WcyAoRUnxl=Rrv
z6S1~_srBYGGbr7c78>Ha7{~a$e2mB+$|<oTH%1plk%gC8T3}^e%BfPGNlBAOJ1ZXX
zxK~k;$HDsr`DRIT5G_1j^{fn&a)znuw|H??2t=CKtA3$~ab_qo1n<W%r8jG!<WFQH
z1L1ryM{0aho>I(asIf_SGBKB_<TahYmoVO_Omfp!>P#zvxED&Eam?HmJ;cz;^T986
z@-!<<-YXiFr|Vew8yuo3?GPnmnl^uE%KJmP)v}+%5Q(un)T;X|+D^M!j-xDfzp_8v
zf7|T%>o(dz93`-rcIx6uB6LvQ%m`uy>z6!NYv3rt2kkip6mDV2GwO!52>&5(Qk>0L
z^iOm*-X->?^}fG>+@`w)7o#A;g->4xI79xddSR#Vt)YYe9|6a7#(+m+;;mBlIH2mX
zG)sQgojR$0^UKPm%&mLxEHXDFjW4@*7BT&npEx~tngV9qP;d`&dodA{rNAV!PZIHr
z<$2m83lV`rwEba|($CWEvjc6pFu*=Du$E(S<TtZ2yF9@#IV!`%2#7~LZ$IS9Q%cR^
zeo}by>g^5|1<Lj0d%B-vgw-qZAWh-gTk^j)eP3aYTaNZ+Bc$#V2cFJ9SiSc7d>sPt
z2@yxwx{Zb-a|ziJqrv!m!gn2K!7x4K`FwNwG9=qqG$5Nb$=-&fyLwNDq??yR8j7`m
zn*r(UixOu;@=fCc4#_vqwuADqV$K2imN1D1<-@^{zQws9t;0bHUxR4K3GZBHah48C
zNUQG#B_#3bfP^kFQXCCwHSUkJ2sT4Hn!3<tNXokYe>h72?-CaD(*ZfhR~hC%gOK`h
zl@0alv}hZxA)ljjSc<MGH7Aw77bf8DB+G(7T!`>Q7fe1F*i4u{w6eT#qI3=4oEiQ7
zH0AI18j?HL@XtDK7M^y<9d`H{?;dmzpIjMn!C@}3-ws_e|LQiM){@Q(bFi}8au+nD
z*!p%xF*W5LrKZRSVQsubz%8+L!?-L9oF)63J9Vl$JLT@OQz}HkXPn#^KOZ52mvK-Q
zu=ChvrC1Dcn!u8?`Sqf!fR4vjs*`xFSTxcpy^sl75<MWnnqqzn&O0j$r!T6qZmv2(
zZ<Q6WdFTYaQ3ib&cY#`WnL6rq7iztHDI?F$L>Ae>)27qBSRPkZ;8-w0O#I%%wOALc
zsMDk5Dp~h#cOp=ja0NQ_&k9|0Zi5w!J32RKNA0cE>&Hh|UQ~dz9*uc{K}$f$BSDrt
z-e;@l#Y=k_X+=pcXc@P+^fy5quSh^6XbwAtwP|wQ1|Ws6`|G#jfET`zk!H73#_ar(
zwSLMXMMA@3jGz|3GKgnMJuwW)dj&k|uZdVoev^Q3&LnOLy2rN!mA4%JX|z4%_tblE
zv#5iHH58QHysFMAb~oP@uROY8iHZ!JA<e87ho>HvWp$Z^d^C=;>^XRZ!P+ob&@>Ow
zGeqb1|Cn)1&x`({H`#_{^(kw85;hd6bBRb8D#tj)za`k+m*tnr^mOuY>HQSN)}J@c
z%;9ur*mS{+$?^vHEnxf1?sT7J_SYChC_@W);AI-yyDRoM>#lpr9E%0BjXwMTw)<ZW
zpJNz=(LAQC1J}=);vrd+>I4NXogCBJ@n}`zLsh5U;l>Th%6xo$gL+;hvN1<<^GGT1
zXvTQymYvNYFDO9x7$`R*flf%KkOuYdiVU?n7HU4bp{xu3+7c)7VTEX$ahx=6y4Gww
z*78L6o%<D<EK{yQesViESXB~E1-ZwN7}dRbVv$Ld?%cEw$j*uVi<r{|w%+`I`g|t>
z7^4NmB}%CrTH^%kIzz)Op9lYN=cLehD5IB3>`KgqChWTWh%oPpnCd0|Fg-fmRV|U2
z;HXx~;9u+tJqaQ4HT0X^J^bpz@kjkMu}kD?zZ{lO-8Pp{eGrT3r+&l*05B16b(qMm
zx=D}49o8@DL)=#=>Gb}z21zU4SEP4!qIE=C0coX>RzO+{q!o}>`{)GZ^*mY;S;dZ4
zL{^id6_HilXhmdoHF^<g<%~|msy0S1B&&YW3d!qRG(*w~7R`{fMnxxNU4^0*v#K-E
znr)~nNpynl3paG49+YNi3K%~YU+g2rtz=?-CUwfNfKwB`G*(sU3A5el8;PCLVIpm^
zUts4pT2jZtQ8-shc5YK0!jQNB0R&}~=fy$w3wYYiS=(~rI1sJ<BaAQL$Cx-XYz-uv
z+sy2XO4uUNU`vi9lQ3VuE!h~DV6Y8IZKVRnxX<Z6YN=ZS-A+g2>GFphps5<kfpfWd
za8mC({f#Uu6FfpGjs)-9G|i?e7{c9qz98&Q34+t{R26?CxwyCte*XLVcY61LoQMnJ
zP(_5N1g1(3BAz59Qda*;@N^7cV8umng+hN0H;{g`#0o424RMS!xFzirXZ8eV<Deg*
z>H!bAGNDny;AphM1^4M<N`%|{a`zqCa>ZOC1Q%96)Nd0aC4M5|bUBeIuxIe^Bg<19
zMLf-DLXdentmFtVC;~6L0S7-(;H<X&4*HiU?1f=3uw(QWTI)GGtmkl!lVpaY#p$AY
z;hQ2XHqQD6=UxyJdc@qWRP*1<YQBI7`$}6OY3PSzrnnJxG+lyP`;@g4s!i<#dEcl4
zx2;}=g(T>es%Og=L}r+wZPY>__Wu=VB%iK+*uU`g!gIeO7sz>JFG=K6ki!ggB}`yF
zA_(WbEGD>PqIu0VgTOW9emF4CS)_8Th>juXBdd2)-7!P!AUng#zQL;e=o<L`wFqrS
zUg5?^z`G-!ruY*WhEyVwW@@#efxPN}Mf;Zn`w1*#GRvO~SPV%8qANioMLDzVM=Ed2
z&jtOS^s?uvaxXQ8zJdj;04&&LuZ|gl80f*K47dXqSvsU!%$`WVa~2mlM&2?}0u_t#
zyY<ZEO95cr=<6V#&j}<_!ubL}6C7Ke04gC%>#!ycN4vNc$N+g0lFkYMhEo!k05$eI
zf^Xq?F!G>2ol%$~E5Dc)Sw1sp$0gMhN$EM0N2;lb{(uC5;0cRJQ!6LU6Gf4>g?gAY
zHFFJ_9&R+#<K5KG({>;U;-WBbWvKEDs#-f)hT0H5z#0Uc2BE2`zX|dgCv(Iz!W!Dz
zUO}s#HLF?w^+n-&+u#QpYsTLiK5im@rAgC4@#mBzv39npfhLGJldTMBOjs*}HWC>F
z(?T6E@M0q9l58efj1@*XgQ?rX$}(0*lkg8S-&hfrr^e<-yXC~$Sx%-!(Jj_K*Q|QQ
zbz|sZCSZZC!yZX{d7E6>GMi8rxi2|a#E0eFR4O^V=ceP3n_Gu?`#jqT#0@CB&N_tv
zP`i$AusXVI>f4^of<DT4=%N7-E}?o4$2xs4*s5$k2W8=2e{Wf%Tq>R#9w#GYagd=f
zuCO%W9wy*-H-PY5iP^Lvz^69^YsPUm#&?<3kZy8_E=o8f-2*J_-H~}U*K5{kH`e1p
z)>E#U>I%v4JXG1<Oh#vVF!^8t_Q$NP%g#UDLG38be3<Qu;v{_Ola~_HRR?5%$4<!R
zI>u!O#s=A3L+AZICYpVd&)N>fpjq<xI(fF&%4XT~*c5$NB=<_U6O&xw_VXUKtX<G%
z@5_R2wE#6KU>>SwA?#)A>em6RUH7-9bT_AGS4R_T%FAMFAO<m&S%Oz<dv(m-olus`
zdW7iy7=m-Bu&4)kZZH!Yq;Sp5`!zor;EmoLw3~aAvaZ)2_P8Qil4xvd`0zG*BoWLA
zQ|q_SYp_IVuJ#|hwBGZ2Q7$AGWl#Fv&ad{=`XFPouiewT&J3XGvAmH%wF#et$+&@A
z-mY8g`^AJYvg@@jERKRY0GeiKtYfSIH$w=wHgT3`Y!fUNM1<#M90};vK9kYEBgy;`
zC;6wcx_5b2oJM~ZW7$1?2;H7s1iBO4k8qNdaE{*XJ2&uhGTxze#q18k^PHm&O{qS5
z+SxUb@u5>_8<xbia#$(hU%(5U<%*m)oxDq~F1h-+4BkqC9Zk=grDYUn#Vp79w8+Ob
zb<^XSZq~eO^EOpm3T;j-caDt1O;UG0b{?8z=i(%*i%8}Nvs-c|na$y{Wf}Lr(UdBA
z*737?4=g4^YPrvy7)+}3B*yW{FIB3bLrm3~3)dIH^XxMV*LnxnjPG!VrhkfrRr^~7
zv&H9@eCxK_Mt_pH=OZb14+l6-&o>juS*5A=EFbE(*5<qu&$z82{{vr>l`4TBu?BeB
z#aG*M+At8E{t>>DM<9^WX$Vt7llDa;j7(J9k}Jtc>DPB<%iIEvxuki)XsvV3YImiT
z(YMj_?MU^cx9E(B@LD&M2js{lvszisLX~4h=EITd+Q@2+SC)|ilZ#xcNa_t(M=XrR
zQ#>Zj>+v+jeTR`3uzf=BDbl7Aku+1w3n>LtN$v$9@3)}#f-oXzC@uGXnUOITIPLPB
z&9@}oagxhzMH!%dqF#oD1b@38vaGTG-_4_l2&<KF9^)s1=hjICtI!%W(hlxfv?YjC
zupmV_3p5vHkgBc^i~mj~ozaA<WdLN7r=*^%Ou?GNMV3EE$R9dO$PixXfZ0~zFXEXN
z#0i?|;K>URdppE)5>ZC=;C%9u+wd%#5dqZ|+6wPxL@gUaO4$?C5)@a#+<+BIv{)of
zv!pS`E-@(%1-BccoDvl=gvCNOhPlQ;u%X<9><An{kb(_-1dfmxNxEQI<)S&x+wfCC
zh8qL@5~$OPcm(ljjBKxSSLz;*tyJ~9#@MTEtP+^2reM3Z>+~_fsy2Hec>=tuK`sa+
z_yhuXvxpHF=ot%&=QM20;Oz+>!U@HVw}fpfMk*}M<tU-Bj$Mw&eH5!+RW!5q&1$44
z$DQl$kDo7J(#aILAw)QU0~6<o3a-u5j7xqH-`jnPc2{&C51LQ)_g-6rIh9$0mxdsE
zlb|bbNDdJk+yDG97m^DT;n%pURe#lOdfg&k&-7;nVbL1=Ucu@R9sy+7z%75<t;!B>
z+SUE!R-ep$7@tSklYx63Pu<jipnqXXCU|I0eQ!7?Ol?TiM+7t+=>K0=H<03#9qK^p
z<dj}l>4uqBk*-@TVj}u|m~uIlswQewE*~x<HGxiq({mFuJh0#V@}}b76_4$T=y4`h
z|09$;z#4vpvOi@KN96xX+iK}_X7mivjhd}iVh<|%b*=9f@5yo@P7<@k#o*ETh3{hD
z`;0s=^U!%Fq4S-DM&6YwRqh0SDn%`*P)+5RTdz1RT$$nO>iiqk?iUBH2M3TzJ+d8v
z<1-w_2jJvQXWa?Rb`e?~;urX|vrVfkzV2$iCI11J(}CHQFSrPJ+Pzp?ciKh}KK)1N
zvH~6fE2(;7;>Jzm_GQmX3?NI|mG=^d{`%}i!r0*=74VCYR{G|fnVp>r_{;qJ?Oe_T
zT21D_(ct6#Hynr!^#-+~nN&o=BALsnkG;X&c4aR0Qiy|^$l#91<`GF&07WxaRU{55
zJnOaJ@L3EY{HVD%_>e=n_?wgpu1poi`f^1M?Xb1yX_u|<VO0Tr?Yg0RQO7|Ebcbyp
zU*nmYLk0_=8MK_+1)nXQ05Qb-B%qpbVPFUwmGu2oEtkNfOmV^Z|H6)PfuXA9ra{N}
zi1tGxB&RDaW{9I(s8T0@k_r}9KnJil$kvb*I3q%K$3Q6nrzOjZ9vJ<EiIiOQ#H1WZ
zUmhU5-1Nk(I8${`jD7;z6T=BzK~IdLg!iz=h8H$#-7%J;AI8f{CKLxu_^La|IRT{N
z-96`3s+2j-=>mRq2Khv?3YR2>vd4k&UC^mq6Vjfj#vk2Ll9Rjy-p}nJsnUF<m=Zm4
z8KF3ZRZe^2Y?Nchu~c>0-MX-~ZVhD(-T4sVoNNpqhZ;!tyo73i0>9++&cKn~Jt4Wu
zWKV5<KVwu!iUQoM^h-Xz=>pcq*otJFnH#4^R{?>?K}gJ&_)I}#dtA1W@gTx()yLMK
z-BP++MV*9Vax?ws-{(K7`>#067>6LM>ai|-GACvH<ik@-x!GSYZGG275%!a%{Y8J-
zlE27BU6M@$N7vO@f96#F%om<lyL+r(H1x~k$|H=XoMf)<@6rEO?8Qf^?G0?B6U}UM
z5rAz@k`5h4^t!_c%@IjVJWNMT+Z5a|*GG-;xMZv#YarS@tKTi*1@Ji5?=Hp{X}))+
z9Q~>E8Oa&F8mUb^{%ck=c_z8MGG)t{>)@3rG1oIi25+pmGui*TR=lBX8~OJPk)b)7
z1-xrmUfZ?6IpZ#$tv);ikK}U^q2DngrEc9LT^)2bjPC8vIUDHKckBvdJs&g@`wv0h
z;KdV7?fMn`;w>{;Hku#*P%{NO>wnq`-`Nq=Xzr?u{_M>bAbc^3Z4EfWa?TdmS{Io?
zJXv07S3@ByiKb@WyKMY_G$Ysho;arH;(CmkK3c8Q%&a?}=u4g|xqBRDcqWG7P4P9X
zqHp<sT13rR=Gr#jM#}J0E`gIW6g8m@>buqCATG$O`XKh{ICiwuYNtB=9TWg3RSxg<
z*CEE+)41oHxUp2{9qS_Bg(^zSP#5b*!!_$a4-RxQ*KXG-*G60GhC-#rz+^5Db$qNA
z$PVl1i@83=@vmyN#NBr1YV<ue_!>Hx=2uUMCtCNm(L7AG01iuZW3Tq!*>_m36M4jP
z8<uhVXW+yB4%<fhX)%dy!N&=e%sh(8RN_Yu$KD{<OV|hz=Vsg8B)%OHi|1kUf5b)0
zv`dEPi#+1D^BdBW6ix2dZ48jgF#QCvqfr~4;RCZNc-qZfYggh*(_QaB0&;<T6h(&_
zZzEpkOI8RC1VaKzQ1sWoNdQGDx~sb4;aTe}k2+@WU9~%XOQmsdx|c5(sqbE9$Eh_s
zx)h03JL^5TM*0?6S^O-b%dBm?)>#rSX03FQ<o}Nbm&cbck7+BvD*xA(+sNKpvm}VJ
zAR6VrsMlQQ_H8E0Yl=TPPK}qF@YG0W7lGwk^F^EqCyU(@KW*K{x8*mVzp8a|)c<oi
z;{1&`Q!Ho6cX^%scNNK-H01i4uGLOFUwqY9igR2u&8FG5xTpND!`Oe;)#X&9%N~d%
zcoAQf)$1qaZ@bZKksV54T6Z_On|ayzi?MaLZk>rJ7wI1*qs3H2hm+a(kQroR`c0<Y
z&3|_q9Za0@A#Ug9sIP90gEqn~eL(V>Me;7<!NJs-8+AtB0>3Bk+RJ)bvhcIR%Y%|v
zH_N6MCn6X{hfJa^Q`ss+cA~}fVDehZJLEWy(!-hT$kOK&>AOw5;Bfjr<PE&c`!@R4
z>!*PT2kE6Z6^CnpeVN1cdSP*Xo1Dk-?0-PwzI&uQorMRJ=PTRbh36-+mcG=jLg7H>
zv0Yf)9Ud%wW2w7$DR2JFmKVr!*D7*%(0gMd9p&m}?|0x?*0XX9x$rW7d@y~HG=;UI
zZ#i%VQ)wSvD^hsi$<|V>@GeTdp*WbrH)Sh)7zbe$`uZw;%|hR^$iOA%o=t>a82E=5
zXL?z-vx#t&|1Rh+vi|{j`}R1FlEiyEoV?G4+|E+Ta9hPv>9Fp8^e^8VUt`ty4xK*9
z49j58uxf5KBE|j=##pt&ZZr_f1Ez5<Q@HA+Z^TS^RSYA~%1-*)OGNZVA*ilyzb4+y
z?dN~(rsW{VCwk0H-@kWJ+>qrp2TH@1y4_`CKAIY<W#e5GRkU!_6WQ3;X%qu~(QCBx
zi%t)hM03BsvQxWV%qkh~_0(C42KYasZttS!*bBqM%WI8R+uZ4H11uIk?edaCsk9{)
z*UgQ`l}+54BB93!4X3;$8;dk}7lUul6w-r<b`-bvVSDe5xOzPi`G^(xSrA9x_x_Cg
zAiY`t^8q{YpWM5uLSHCdSDNMKfyl=3;Gq4{RJpc1Y>Qk-UG4>=$jcVV;f9+RW&SD|
z4);r|*Y5JUd6N2Zk%i;5X`VdanN#~Ac+YR+SrYs1w73r%W^d+2owlh&Y@B5k0i9O_
zWE>S^VHHT$aU8}`WmwaxR}GeZ5@-2;Xt2$iV;4`k1j$?S8sHH|_%<@x>|LBysfC1b
zXK%)4Z_TJVzu&Jmd%s1^`Mp-eX4Q%)`G6V_yNVi+E#mcpZ<qV~%+cX4PTPGo>CU3l
zsb<Z&&0XKe{e2edR8`Be&E9ZPH?32_LKZ{2Gb%g0%9w3VgVeG({S$(8r@L_2RW>Nv
z-Td;3XSPXAY+K@PI$%h5UF8<yU|50tR#RWIO>U7Iaz%Nz@C}){D}rGKcRQR4HaoV-
zZFHWi*~7qa0}YH>8iiur9gBWsLu6Y^i`1JiDkCtY`?_mJ$=5cmLyEPcNsohXV%+kv
zZQ4Dod$)*M)$9<pJ*9+i*>16)_#rrVW|*xiis812`}ihZL5<tC(|uwereC_Y&FT|x
z;fi_=pLjPhHWLp+TRa^;5c5~!0p4I%LEko~AT}z-^X+ZgG2ss4l?QIK2E?geHNC}z
zFs0@f^KCOf6U}AR=xx)6gpRqA?fq@?DKX}X<{S~hWOljXHu0R0Y<Bs_HgQTNu4)Cb
zAoS17=N{X%FT{pb(eiXjO*5wkbDQ{$7%!u=a!vbk0nVRmvqj`*3ooA`cXPT%9_RJP
zZ_0;CX7P~NEatT9AGe=7bn0f7cdB77)-93N4+egS%?L$Q34^oRlFS#LU{Fmlon>!s
zoVc6l_^ieH-?(0N4nLno8Cx}3EcY|YHOIc7ej<zI4N{J4|4km{eAQ&K>{~6J*0{F|
zsXK|7FM@n=>}DdF26;anCwnhh(K$0Ap4}iHK39LZe#)@tLD@~Od>p;~ge?EDScQf;
zWAWS63Zh6Ptsr&FZ$40uq|dk|&mOJyRJC{vUiNclA-VkW0Uk)fSJTfh7>X>Iiq`r1
z8#&~&8qx@Z%s4MLI%Ggo9FUy@<>R>=E5>2fYdKi^EfY$>IS#P7#*>4kc(CKKr%<-Q
zr>z?)EO^CX<t-yS4P#G%_D0BA9EbbC9#tdz4Lo01mpEJ{W#0k}|LqgE0s`|oT%<os
zv8iMDNseYdQjL3JrerA}?Ltq^XC9(#qv+@@*U8&rT>O|GwHNNB;dbh^d|DT~1xUK)
zsn=A8QnZfxY2NJ@bNk{!{b%FZAT(46jidFx`t#9A`|027?`iMOHH%7}=0FU+MVK{D
z*8gAsyn(j#p^f1*vra^RF)F^>06J(u;w*PVaI8Gz<LLEcKN>0ejDo4D`xl<0-Eys&
zm!zVo1k1mc-*0fbSRA-5{ZU<Rw}l^1g=TxY<iW%C+>k&u{pk@%qz2uhfnbO3Ro5Hs
zc&Ta669XIeMlpS~zD^%4X!<CH`p}kN`lSMqVYP?sqog+XQ6R9z1NA+e|Lkj;JYu24
zHa}A^HEjv;98zbdSRB}#SarF1w8&yjZxRkTY|RS+Qq!4NG=<cdB@zbq<()O~D~xG0
z@I9km5*r4VL6*aYi9-QX*szr;Y$w8d)=Z(pLI)dn<48GqK8}lx)P-_fZnOzdaQaS^
z0Ujq_ra5(LoUzd1^!=e=YPRchJcrbu3oH(7&Xwx&P2M%_xnbhN2Hn$8H7$Ceut-gM
z#3R8r{ZmexPBh2X26g^e?9}WHbU^9MG;I-h4yh?aEDmhRSbgJtR<n^^d1j%*cTG&e
z)HG*?=a8B+$Kt@|q@)2*!=D!}0c_Db5mwJ7qoLoOfVvGE4XCNOi6oFUDx-x00b7)z
zoW+>hHNzW<4w^z5<tY*dj#IheW_OmENFu%a#`wd7hg;tj2~^XaYXXVXpTB4z*dgVX
zn{^sQUZ`o%JqsQ7=N|=A(;nJ1CjSMHS>+Cwaq_0y@COWRIICkkqGnD5EQ7SYPjD!3
zV-MAxS(s`L;zrB?hfPTdkeaS!XbPz<3nUEe%PV0xB>VEt0SA3CYxpimmNm1E#R1c1
zDtEIQr<xs%Y3oD7DN}ADnV)YMkky`Wz+t_=2#|WWp4mlHNE^{_Bn;e!lsiX_u5KH;
z(uamU>7fBN9l1pkNd34&fxvDkH;IgMp}7fQ{$pUnet76kLeq~vl0fQ*j{<@HQ0@*H
zr*Wd`$C!Z)`w`+1H4T|!8KjOxI272Dnfmq`YC4kYL&Ju=q5(DiSRx6ecD$iLKsPJ{
z->K+@Xqi|BS&Wv2LxF=-ZWo!KZ&^_rou!-@S^BRuZ8+L^4rvyTu{dxZm0MEA#}N$V
zH2z{>gEy~rjz`qA<pRqfHRTeA0$ZZohcYkX7tIy1)#HG}raTZJHC=f`Q%G%jLc+kl
zs5YRit=CD(zIdGe4E9A3AT@m%qA8@ljF2#}F9D(l{CJg`Y)r^Phn<-K!azO0Q7|>F
znd3R6-XvHY*qn?ql#<PPWub%S*fn+Ez0h3m*#-j}R@=lQ>NO<0g=LU6Biq5DfQ`sj
z&c}@FMW2+m4jxf6ZKqfUY1+<kC~(@8n_0$<&|H_<=L~Gvl50GorX_!|3{p#Oa44`P
z>LU0Xku7u|zS<8wc-R=_j!*0AMI=cu(43Rnf=dAF4v4Utt!hG|kv6So0u<c7l$$~3
zbrQU2`ZVK!!yaV>NKJnhXbPz}FGv{JmnCBaQ`pk1k#2guEH>)|5?LOb4Kxs#$)<Ae
zsnrwVaC3};Mmn2Z0<fhwmHR#R_CY3O)g2x@thq}9)ofY62_({%^#=_Ew=8v`b#E~f
znvWKm*DQ3{pIZv1ragCf4yil$SRB|K<qnXwb=)G^oIdfM*UY6)qLHR^K!AcXs@%JA
z3WR$v)GeWH25bhn*-xpsns!Ar9;sh31q(K8j_BXKEYN&CvYGMVVXKxTP)(oS2qaRI
z-qApyL#-OClL9l?GAWpP32a$-4q5(MHWmj?pL(b1HhI%)-7WR>tLQ6Z)&@iCm_Q;;
z<Ov!G&ZKhl$-0YzSaX-5)n%c>&HRFbscFw8o<r)+6&43JM_nGiebye?om(C}Y|kSJ
zRMVd)0*Tb1e`p}sA=Z;VIDvge-v%QN@ras!jIaz+GsZX+*a_w4nyJ6iZ%sMiuqkr_
zq^2tgnnG$ziiClES&)WPvNKB_Jm`(1+`?++y+ZNX40@s+lZg+jZqZQn8kOTvSY++W
zQP(v+j737atDI8`re+4t@Ep?ke_?UJ8_W5PxcuWlTyhh=V4=h2{H0)OnsbBakebuO
z;=typ_rjivQ(-mDd1Rr(=6Lw~8V*^xWo6vyzMbU^8Q5^R6Fj13OMJ#MNZVnELxC+(
zZc8=qgCtw%z98z%nfS0Z3mU4XJueg%sYS1NB-o}m)<CE*sY^c;j!JP}0R`9;;AQyt
z^P;WY^P-zy&-QM9JuJF=xp!kNo)t&x4aCwaKWAjpS^c#BB-UKgjVjiyvq*JvdB?>E
z6Zu3$)w`$ukyvDh$8b-UHNTuJo4J!Zc(SZlrwpWeN%0zZ4p}$j8CV>!lkwE=P#i_P
zKy568G|VOr1rAcVII;7KxpAsDh)?1$^jHs5y<-B2G@mDEAULJ!>csNXuo<DAVHu=x
z{=%WaLH<T0DdWcZhd?3?^&AZZN2}c3c2?JO1HPj1NMpXHV8LN4mxis?^_@8@>K=(k
z8uTpz3XWM>OVMCP`+y{n#`%Z>fg}8<J|JSwjL{>ED$+RnXdpON#Hq*8fEld7b4X(y
zVsYS5$LhnOd7V>$B#;I<L4m*#s$Um6_7dLfx84-bA&oP_;=rLQ%YmEa<;<2lr?5!F
zP4Gx?z!~Dm!jSij+FRf`q`|&mao|vwh|9|lEn$TEhUbum`i{i`L+#hlLyb&Dzm9}~
zMJShnty3>MN|N}Mlk&bvqLIdH5uo6h)h9llvG!{FEhK?7P6q`7N2q*nt#PRq&_;p4
z0+h={<C3=;=y$LT(il&1C~%O<HDdW8QH&V7NCIhyzfmA?gvzC%d6n>n+5QEZLK@{I
z5(bX*8gVt#%fDy}X`DAm7&uPl3h?vex)`C}QCOtW-s6$rfYryNUyH;S5w9<LqOeE<
z{)b0`16H4sb;gU;M-oWG9H2np2$d^A`<y>t84*aNk&e+oaJ1?r;W=-v@{A;qMj4_&
z;0Po2wY(M^BMGDt&QKt5gou+Yf@s0|6uy3n=a9ykVR7J4)sMl;%b9bAR|<<X+$A0f
z4)`58)7FjES1#|I^@zaBso$XS$g=7i6f7{WzNLQaIpp0kzKy1k2HQl!z;UV{F&0-d
zy;ZK{jNX_vyY-K;4ANAd;85U9s%tg#i<yZ$!*fUj{e{JWLsi#m_ChaZ9TVvP!E;DM
zJ;&m}p(@vP&GK@luU8ZnX}H&TBsgI80<V|xiUIr{nnD`tEfNNf^B(icBlmuNAdpC7
zeMAGn(W*bE;x-6*=fU_MVJMLX+eZVz!K$AtUdIbw)r>Fj9MV{aSR6Q1<?^oecOlY@
z`2wLIkZ7a<PY6(O%%S=q74`z$pAtx<@kVGMI9m1DLp?DKSh3F06w*i&Bn%v9hM0S?
zN~HY-mO&cj3l0Sia*3FCh0HPM4bLGB^c{->hB~O>M;w`qK^=<&%P{bDqSV^vfz7}M
z>zW70lp+cwW|vm2K+eKB6CYN6O({7bYwoeoVZ~3B$^o)spHvD=h9C0a;fzcu^<8Ai
zQx-a`c#ba9BFoM6p<%7>tiD1aSJYXp8B{Eqq)KzL<P%~+EScbpO8}?k54xz8toTwN
z8rFJCC{HD;ec*t@dX)!S<TH-Vw>y&u;qe+QENO&)1A&~u2?HBeJ0rbHKo*?x;9<?L
z)E5HCvftSZpz>jjSPe%NJ~X%lux@-s8(DE1{dkrP-O-1J)9{D#pp`85l7$W{zNI}c
zC2M|Q;=`(yy?Q(G{C%H=JM{D$D=bH#YhK9t8|y>ES|d{R3R&-*2M=prpleXbdYAgp
zpw>|h{XCwkb!6y6!&;m8B3ZK76I!Jo8UKul4`<{Ltz3_+`jUwctG=a{XpnV3uo+<G
zs*b!_bmY(Fn>bKcKJpkX7*;ew*Hn{}IMIiOway6D(PXtL2OQS>N~m%s>wV{dgL=m`
zLJbgA@7Umg!+L48JY>af(sMVY=2ODsEwbV+2OQRWg?~&%mV3j%hSlCvo;Q*8KC#eY
z#n=-_!SP`1^X>px(uh({Ku+R>g$^s85vu~oqEjvbtox1E!zfe-4SX3Q8QWrDgUJXS
zN<AT2?<uMLi45Q6!NVE3pcFBYC1119Va4kHcfC`grTB@34lDLqtq#T<QOZThS(vcU
zVZ}3A)hAhV%EX6NzY<C}$&%kW;Go`#`rP1;<)4n^Nt1~Wt4358uAV7rX&$lA0mT>6
zBjzlz%#z}SfQIXwh%lHIXUv(CIEYpkr^1z7T~5QwQ|ju5>qg?$9eQEd&vUvCXZ3Q|
z-s_EEI{U=v?n{{;M=v7D%+n;Eu8-PlZHUS%JLWL|Cz@ij6uj2CdfF{3xLS)Fojw{9
z@9NpMez{gIA@;3)yc7eY9WPgZ@!h&c_EsJ!-dP<PxLdc?t_%0)Wo!<R#K<tPGIp%8
z<5@B3v#(~Kb3aH)u{n2>PY@+)#{Z3))<{Gm3H-Efwu^c8c`y`NFcs<HrLAuIMmNGp
z`N5`R=7x>UVmtM~ZP*mcSz>nbFaKpLu0pOv?_c+`n^qkS+t@uC)^s-=%=*VKN5i)A
znTD9ovbX#nm^5Ebp#3?T&!nM<!271GAFbQPcvODt_7}sUNY?G*ntHtN{-bsCzY@cI
zye+<#->)fNltYl!9f&B~*8mNFI&<=IJ`23CGrtj?hM4b4UXOQkHCdVErkA?@*elY|
z-IKUgs@IDK)xor#l?PI+&k0r)Xq%}I2J8O;8d#lFxjvK(c-qxjTX&;25I+4!#vm?_
z!6sd|wKpfXP5UxO#<Ig25Rrs)`Sl$M?8FJ!kmRJ>lLUkCe4pl`8EFFNliB7*1~5}2
z={e)|m6N$Yk|(gNLhu+e8Vf%3mo!c1G+xhC=;EtOzGnG_5{zb(nW}z9a(yxm|NiIx
zkL=<KoR|ydB#H@F37RPB#XL<}tgPXw;MoLUP{jq}`4AYmOTkzaEb%31u^KnDJn-p)
z7C0pBj28Bk7UqQy)=+6dkY*zOBv)MH&PKD%Y%|p}BCC@b6J+rF#SgIMV{WI37PS?)
ze<cbPum%MclEHnVZmmEtS<oC_q7I@cv^Ve@{Ni>R$<^tN{gZxQyW|@XoCc5W4U2;W
ztzy2ovrjl2Koq?-&Q{0ym+9z64~pfB*UGuf48Mo~Px4a4OgcP|ne!blp>_FxQ{wZ(
z_-DT`PT?1|PM_dC;`jKgH47)u#n+Q?NT9lGzZC$HX%bi9j&Zqa@-|^YaA6H2{V`=y
z(iMv^G9-j{fPWrXE}ALkS&^g+%(tW2$e6<ew0jk0uXGJ98}@Td=-k7L#1alehz8F<
z2E|S?4BL=Iukb?W3_>#7mq$1WCi3Pw@@k|WvFCqQ?9oFjGiXdN*BEAl#yD$Pl(+`V
zJXR%DOk;;bum)$l5kuv`P(3=Aj|HnAiCLp$#IuY>cFyi`?1K#ciseisv9t`)85J}O
zd6_TvD4nykl#%6VgQZEn0)zau>~_lXFJ|1cFvj8nnwOl7pk%@3<;tMM;4YA3!~8K-
zG|J1YB?|3jrpQ>!>ANt33gnrP^(3?gni0dljMaNNmpwTHO?j0kJbw?P96}SBQ&4rQ
zGY44q8Qz|VRhh9I7i%IR=Q*pTy+&zb%3CFFo$33qTrL^by_EAcy=8P^y$ircc9s?D
zv6g;nv6W6QnWsT;u^4j&fT=yUoT<)QW0oeFsZ)qI7c{QaX+&ZVh0rznu1v5{0}5qH
zuJdm#(j<gwV@qy%RjHp-!C;vK6|0Vd!3)6+6$xD=aW_$)X7gkPwUt^dBvqz%T=jlL
zk9C*PPk^PLrd?%xBZ7YDDi9a}?Se`Imxt9HuT&{<eu0kmAUMJMWL_#}9xdxMNzrY3
zR1#j+ZZ|gu^`?0u_40a-B1}b=H8z8jyeO-3<U$pz#6)Rz-vQMx1a6jEVMo&5oTsO@
zET#zoa#wQ20^Bs1<S6}1Zpx#49;zsh8i(u~hcp?dhO!@<SEk`JiaQ4~D~VG~5@ckq
z=DvpY#>ZgYgXyys*#CA6m>f!yt+*%9q1GMV=WO>Y#H20~>Fc?P9uJ%aW^Zzuuyhek
zDi7%m-lg6dg_gn{nwbpD`2&8to>SbdL<HLs;ph_4sXEjIi=G7i3T;htu(%qnyKB+v
zKGsu{-W9y&S@u-sn8jKZTJ}_^=k}mxS@l$>gV|a&TJ?3&+iclQsoSF|!nt5s(s%y1
ze|`kkj<X`b;-M0nMt4JYw?*ygfunwIoquw3G;@Y}kJKBtZwz(tYb#ma{g{dcb+W*{
z?4*-NScE=lIauCEaX?3u>yd_A!a(&QIGToANH%>)x@5=}o`*g>#}iiz%Tq6Hx+IfE
zqUphaBO>0gxH<-t^Z1&@W~cX}ui<BO%^)jPTX$?K2hfqj1>bN?OLe$)*S<;FwZOb(
ziu*;Dd#Basq-wil@S-=ypt@{(GIyWQ8}smwysI}>&4I(gmVD@x`|Yl$_IBCzn|9d@
zLf6@sFY9($q}zJ+d9<^`$ezQzJ%>@*8WmsFdD)$_ckP#+2X!|th1{Ky-^vBMMu2Ye
z)D(>j?%V*HDY_$rYBRpvE|DYCa`&g@6pXF)jL_L6(M6yt1ra`f0CBQ~G$ynLS2-pZ
zsh3v$KZ9p=>%f{)v1THAKks(@1#d9ss`~waI(V8-56AEa4c0JmGU8atKML7a&Rt$8
zEF$iA^YNNkcXB^f8GFXnf1rxlVs14t=XW^PM(ED+cK*-F#QJf|1RJHal$gp*W_#P7
z2(8-#jbpM9ypUDma%X&uPail_J9}s9Z4>!l+p`i{*rWmT6nNUjT-$cqIuKpwk79fQ
z9z!6fq(D=Wv}s<nj1h^0Z?WYx>DM1!Y%s)QNe=FLp+Ky?XGWvZjL;M<r;FG5f?Q<w
z<M{%o_SwHTKarWeN5deFx9$^m*9$T-k#ROFKO0tp@s^IGf3T5F;w_Ghv%6@G)69!g
zES@)R+4pld-QsjIp%4CpPQ=xlymU@+8FfxEBVALN=h3=zj`4fvrZO+%v~!Mm+`X;l
zdG~X^h`Z-l;!Woqx9NN59Cumg!OA+%N!&TfB+A3iNv2^EbWU=EL%(|x;&vWTtlRgb
zbMLax=@74TmQm_@-Rp7@2XXWlSfY${&yu>NdyCCoFYP?I*w=1~yPubvJi(nWO8Yi-
z{qAS~F7p3^C;xoH-6z}5I40xnQwnGDMsV7>%^Vu}iSPXdnl$&iH`-m4xtq>ipwGhp
z7I&^re~dS79(2!h?UJV(oOI1IxWU2ZZ)5>OM)boC@(!2^A~W!bIrGWs&>V_Jm&s`W
zZGVj;Vo%xYX%Gj2zrn;0@nBZGDR2Q;%O!+uUp+KDr|<k#POxDlZkl1_M-fij4UOsh
zrlD(>xO}K{>EmFXS-#%$1NJ-$a{`Y!Fj()vU^Y(Ect=-Dn30h5nJ#|xNXJ{q9tE+t
zHF`q7-#&TrqXOaeJ~PfxJ&^fGcf2)T<&W&|qc!5H7^YC;E{fa`uf@>q`FQl};rCT|
zbB8Q;AZ2bsVvpHa_HJ~E1W<+bLYbB6W6xsG4O){;mC2Z64Ca`)GoR(GE%~mr_zaT~
zE~q(+h|-R=H`Fre@P@t=>1;c~2Q@yga2!K8&O+U7CI^(60q}A7ipTen&8f;2%^kHZ
zhAA-esEX1@br?2(l*cl|xMuH1`DTODfuA89Cgi;sjhaG|g)HU`MlZ!Lxu0SbP)F1m
z*e?erbk9X`6ll>7%F#?+^ve9P82$&c9F1q;-f|Rch|JLS42wJ07zcjHLLRfiidD57
zuNDcvC8;qiB*+jQ6#9`%ig?!?DUBY*UzcPG1BPttL4KG7;$gOKVG}KHxKr%63;vP$
zbU^9Yx0%g19j4}f_qk_)=Ib)JG_z#x({1x5j|m=<81XzJTLMO9oCjn*G`Nj<mXYm8
zkH+Y8G|cOTqjyTt|KX;-8<EaPSU|H_KvQ4<?R~Im^5wwY*+F7q+k8oj_fo7ulKK%T
z!KyPUQ?W+)Mz*8CWud*X+X&C#4u!AcomTXXAK*iy)8&NQ$<441<=%mvR%qsGheRU3
z`UF#URvUQA{fonJtMt*~ilrOP88^^(_DI!A03;v2<Rgo8bU_wSp2IU+hp_XTtnbA^
zfIVXLrV)v!^bag952+Pmv<tX`Rb_qA(D^axp&JJ@>CM2^>8M5i%)F>&3pHtRD|L>S
zUoG;<)j28|sGEsc+ER(*B|?*_O8(wX_U1Ch3*t!lkSmr*#k*@fTRd-H@K^p`iDjSD
zy6uahlF880M<siPwK9~oVqvrrI2Cp2>FJ_mHCP){nN6k*%yFS?G0pO{Bp7QE3^~Cx
z@`)D7MA=eOEnrh!YLQ4afr-AT64jL-r)4{sAhreV(naODnQGzdok^4&SISc((*d^A
zm6jfD&N@n_uUgv3ECy>d)8bLn2xeP0u=VguHE@=BU%kz|Fd5QKn)q%od7&dqf?Fj5
z!=NQMEmAz<$B`kJ<~ea!e&CaLUCsw}rJ8qYkU>(a+lQsPU013%LowODcb6#}>KR~l
z+FK@1>Y3W{v0zKWu>ORMKP1Y#@*V|!%R%~UKT87ly+nAEA(Z!g0DzvM?t@BalYl4o
zObs5jd=X-@)tIC?9E3m6%1L%Lf@%O)J)m}59Z;7f|7vCMhld-A6f>=KS3&{q486H@
z4V8CZpe1lGL#X@!3}LLa(z_<7fHn2>Qb?I&z(g-{lNOhi0CSj^(y&zA41@r_%K-Kl
zGa!g&1a>HNa5db9VH6h15bY16Z^*k|WoSOjv@LEkL#hU9Ax~a}0Wr^v<ntM1+F2ck
zRg_y^+d;Cwd`5N<HB}N_qs9W6h?<e4^%aEws*W$MuON;$bq>Ya2Vk<Uq_bUI7Y5dn
z^-H=IXIMLSTd3*Q!$I=gHkq{4b_dl!)u@VQK&<?xqZSY?Pc{jn5eAw=jd<9YpFvJ0
z4TnW%2qd3Q+>_>afROe=Dx_#F0fe+0e+joyCDycaSX<v=n;Z#rSUZ)bGv$3{$P}r1
z@ghr=f!T6~^4ZE8GA?H+9WR<=fbspW(u8YwcNBv7A+>XPml{G?%Mhwp7a@>X26AvM
z5kmQ+V2|R;E&wrbr1mIpeM1P}qzL7WZV2H)s>bfFE(D<*?|FJz`IT2K)(@Vfo-10e
zAo()sj^FGs!!J@Rmp9rW1cmURTp$1eVi-uxB)Z0+lOjI6Z;iKiR_Ofn{~*Ii(%3^G
zi+w#i^<J?z6?M?k`++@i&c&f_Q;a9dVfUkug$Q@bo+LlUt@EUx${UIlAKXmtRXJLn
z6oa(Cv`i;CEUvTNgBF4QEyaRH@dk(UanB!F@GXwU<l5@yWLohG2i>x&HPdJSUldTi
zyKw~BHvLk(wBeu+lify%<Ma9&*i$QVbX~)#+(2rh!SRm(4yu$6CzV_@4eUj43fsK1
zpj4@7C98@4ZeO~4h@O04_i$&@JYv_61wlxUS;haK01a0T?$R^_jI!>l!og?Ily9x1
z2cJbBJTzXKLsy!FAPmiHq_H{&vXNCHoy=K-n%=E6XDeEvA%Ij4AR4v-fb~*!s`XrG
zefKF`$llmgfDJ?4vp+mnT9bMvz}M|TK|y7Q`MYLd;23`+1t@#T0f0vtK&2ZIfOz_%
z=(KwFe){?uSjgf}zSQHc<2=$%pnd5!P|k!VZX+x&W<Ivg!E^O2E#CL@ttaTST6mTh
z)4;?%Z{!mv){36oTe*SDW=z<up&CfhgISL=Rp>2p4tt9#y{Wr2Y3IH4t4f2+QIF~X
zwQ6Q^ygbc#M@}1QJvRsn$&R+^LZE4V+m3OT<dH{mm*92J;LTKM{|zdCd}6o$_Z9Gj
zeuSGW?R6R_*;KS<F5)r$G?f)n{VdK?4`())z@D(zWexGfjPP&4uA-1#s}SoE{lAp@
z-mDbZPUfumJd5J=f_sXI<4w8OEfx3A`mjJXqXm14H?;U>ul#)>4M7dHgjj97ps=#U
zEt+4mm*#^b(+?A1WY9cvu%T|ga#?_@9gd~KS~v7*3n6N8c(U0~u%bcu=y%u(S96Vp
z-$*K&lZSjTXN?nF3i_y{Czshc+xRJ+jnzBBdfFN$R~MC-2f<lBNgQJexK7`TqgR{~
z>oSeQa?dP@_{fR1p?_)@)eJ|R@|69GyR(GK>NyJ0yOdTXM3+aLO{I9D`Qzoi`Rsn%
zI`$W2Q~hGkUd3;CZI0qMp!#P`m)3;7OhgxcP4Aq6(ZSUd1wlScffFa}ywLf^{{fB%
z_WvPOgD_7G@vj<Ir$zJp_3oRGK`lRw)SueVSih~sYS{f&)(Q`tO7j(aCO^Lxgu5Sk
zxvTsK9i#j`zfP$Oc-pmEZFizL6h8Zp1On*CV(qN6)9#$wIi1-rIY^^Yc{4<9=htr%
zKtUng;F&KDb@JTjzJ_}f@$>xYFwO1t-4mhq=*!|2Tlr@)$$Xj<oHP2wo|tE1v<f4F
z9{9(M|MeFZF!5j4P%8?Veek0_F^r`jZ1c#^H~3?*nR(6-ASrQAQvlE|^yXjSRh0T{
z<hc^tVxloB)(XSqlE*ID(gDu5kS!Rs5^{vEwpqF*iN<<q1$_NDCk*GAf1*&kheHvz
zIJ9mB5P}BKT&j2Y*$p*}H?rKXaTsS&&Ly~&jRj<TckliB@Ax%d{J<zkDX~^Dv+o5&
zJb80$OZ<r`A7MC|k6ljYeKG=L`*y`<XtPZ>J{`(tYOx7N&J#A2%+ewobFv3fdPC`u
ze%#VD8p@_YHo?ZI%o1=~{?j0oIoVm&_9+R^<q1X9HySXew%I^27Zokjz6U1qyk-y(
z(J%;#sT%~uTpDDmVPz@R?12Fq=D;AAn%Qd9sqSjJK_Lz8prA|r#()gsh1%d!K~SUI
zYF5EP1GyS`1cx;p(grg|$4$rxUlS0+3Uhq^6NEweHq6SE@D6GZLs;k5DNL9)hPR3^
z3_4?$+;Q5VfLARHblD8TP;SE}O#LGaH*VSmc8ED@5(X(x+BX=~yygTeY}zeg4f1h9
zK14M7td#x?lXc~wgsgoQ9wc!ARrb25>I18O{TQ;1;Zji%36=$p86{+}s7XT<cLMQa
zDNLhTMOw{jpY+OOr#@QFU=A(<W`CET^0`maIHSClD^U#{t;2KlVCC6kXk&Y~PZ^o8
zv~WT`eo0^C!}+U%Nvo-L^_pq`L(MVnRWru>vn~fIh1Pv^sq!!<8D1CNnj}R(C>8dx
z;I9G<b&xStNe`klAu#F1T6-!#<#WZL9c1t<17K(bxgHKxfDNqxpVb`}U=!=kvC#1g
zKyc-s${Lk_Ot60%+75G%1?q3-9S(7WG&vB;&;w0lvBE|7+aD-)Uc=wmFfy73IQ9dY
zn!<QO{b+_(d})mw9vi)B6+qF5PR*C9;8@_`T&O!RJWIs}Vv-$jZwlgU!fjz855SJY
zO6dp`e1*H+`!LTU|Fh<Br2p1|9ti*#8X;{&KowM^_sTixJ1nNQ)`nV=snmCXQ{W$}
zVi!oSmq(NS5%rm5RQG*(ccZc$m86mMj{eb9KS?cboO<u*jl0tZnDlM>4oiGr?R!bX
z_nRSMUG|7JtGEsk{;n2&-gt+(W!t|CcPC1x((O`<Qx=&SZtbnXX>6$-$_Uw(5~5r5
z>ME2Nrq)S#t7Zuxk<|6o>9+J{(Os6OFw2_^t>*7w=fAq9?_dg^#kVR)Z&I$yc{yCS
zqQ!32jls^Dbse|ANo<$Ndw8YDCau-t<1HOtr@=><YPFYXt8yPVwVxes`_#x{*;}=$
z_WQOrq1AJM%XB0T_jGRGC4gwIFBYvIep>JTzgx%t8{2*qrGb+({@PzV3;9oVm4A55
zr&!Swo^o6?hP9jL{D76cq{SPePV7#N9j~~;;?%rT0O?g3E%<7LvDS|S>J;$XhB^v(
zd582b?vVD?7#eV8)%b0}HNaVh>o6&O=7sC#1>CMTD)#q%60jkWd{4s)5&|>t3b@uu
zyDN0kZ`~J~?z71oiNaXqYzd5k`gXuW9j#kr%!?sXtvnwC47p7%<f*%yB|COMB;-1b
z`XS5tY#Bu)V1_A%%ekmimQpEiBE`K>zJE=`IEe+Ul<U3XvH#|0{F~g0{mgpwv+`u!
zFzcuPW1e8C5G#Ljq%2}<1HMxj&1RnUUT%MCznD$GoHmrXh)nxvTufo5Pvu<Z?N=+l
zqWoTtZB=tV<Ie-d5lU0~OiBp=0d`Y>6YOc8((2guUgs>k=U}I^wXoj62VQ+=N0$x4
z|6UZ;IQO3e>LhsD)m>?K;yltl^N%oIfRB)nelrJ>Ow#G){h}j`Aa1<1EN7WtKU!>K
zz&2Z1JoGv3Bw*cJ+DoNU2|eFGyiXt4O=2&H4}{vCZ!bTQnS6ydp){foY-A#PEPgeN
zkbIyd#$ib24~&0fBa3{-)Ee{0Ga2*0|AkJ(d(Hs6?92N86_exPOpZ2U=#*sQ#h!J$
zdbI-Qr}tlE7%`1p6kwM|-Ts7p$~R9#7OyVvewlyp<I1uB582rFBiBh7^}?m|B7dBY
zyc*t)e*gc+zk`=oWVsO~<|1H&Azh{c30ZO~a5Z$81}cSNK4F@W`;eVnFdOxo^iXBO
zSg`Pf4zCf(I7$}_LJdcLff%8I7h;yR#y+y<nBm?JOg$Vj4lF;kS+pXdeG>%%&fXjN
zQMAHu1kVlQyZCmB>59<tn12T?Qqe)Q%44~_ncdg5KJ%Tp<`3fLGGfN)V8|cdEM-I+
zZNdU(z3|7mjE(&_D^lLm2oBmLvhU}-&z;R6%Z3kwM(3HZl!jt7gaI{U%#7|6X3vCw
zLqZo2myZYx4z0)0etP~K4zbS>0qZA+eDOV~Qj{ZwIivv~oE&(7@H|EW>z+S=@OTNn
zS-c3}&cKTaS#6H1M&~u06Pkz#tG&^6m$y4i^wKe{bmPBT>Fz?Ubl>zgm2Z0M?tY<_
zZlbp^CwdF>L2vFJsZKg`7|ylwjiOJje76zP%lD;qAT#eGz3pW}^p@u|(%U|#sowlO
zXl|cR=}ar%%bTy6Pj7$tPQSGBy(U_xBWswlNGstuOar}yfAy-m)_o9b?Gx4{iejyV
z)977qD}AJz>+q54)zhpeKh?V2v|dQy=_O=XZ;=W!n@&QT>)LvosXgTHyIL7X6uU$-
zBf%@Jj5nC-)q?Gt$d5wJjIC}~R5FH%=2E4Y>20guXq0N5itVY`sL;&F+&8_9UZ{6+
zwE5RWZ-0D>QoWWMo3Gq7&sKcxrkl~niQcyQlEy@<nqz<W{JGvy?mNYv-jVz@^fb?p
zKi`Pn?IzCX`Fa_Dd&Ji|<~UqK)@+b=ZX>4IM(m6~8KGL6t0R_=ddF7hc}QvWp_fv+
zPiUnSt5(eg%PE=XYNn*AtGAQ9h6!G19q)Q#?Yh#tvg^sUq}~S9yCn;p`g-#zb#%@7
z6s{&OB-YDGs7pe<Wh=E<y=B|yt98b!RBH$A-(jYGQtAIEB?;54UiM#zztC-;94J*t
zvo<uydW_!oI}io@1N&MUaM?evC*JnLWq0*qQv7i__TDV@eBOoIm7t(E$tUZ@)O*K_
zI8XeWyYO6SRiCEsF>~TE7&O}x9;0Xb^_CF(zPBLE3rK&G{c;9w!uWJ{ljl6ZuAyE<
zbK-k}$CnkI@BF)8$grg0?>7JV2!ClP@$98Ac5Vwe7XmgrRr8iY@j#0H660|6fna1R
zPnlUiFuHLXx(vM$KjvkZw#Cz1k*|-4&O41cw?uXUMEF(oxC6Y``MbYSUp4qoHc+*N
z!>`WB=ph(kihi0G2miq6Akk}OLR+R&NSyW!l2&!-HSr<ku_MtRNQsI8VY4)f;h{=^
z07QVKgBm6T10f-aiPkg2t|0Fk1W8aKikc#K#rT8~ql-#?RWKT8)0=#k*@a<7*|&3#
zGo=(S$()aKswEiRVfa;y+{U^~ZjSN|EqPEH_c><QLM;udzY>i2mxs?TRYhvS6zOcQ
zBm*hPcS=Z$Vz_(7$aeu-6JfqzgeNiWwI~AFD?)D~+9&p*g-~Y?pU=>;)aSKl+U!~M
zN#-R-=KKKbSRZBSs1Fe7&e=~Vip8qed5lYoU!GNSIP>(978<^GRz4@QJ3qpjsb%fj
z6FeinUgF~D&qZh-=_P1Iueu2D?N@ja-f7A%!uw1Xm*ABi%oiaZ`w6)Sv2ee=2(jE{
zyacguR=o_d*#5f!vGVM^4D$!}E;52BFUSiq2LZkibC_JDw6ksIi%_e*-%C*Ed!rZO
z&h{%W!CmZfU4neQ@uZi%za$}{o|_nkbmzM9ajJXDUdv#Ogo|fx1=Ku`R_s!o%in6`
zl>BokykSrxqAR%~Lq_L^mv}ReFW<g^@VilLy@ro59GpG!0P&zA$LyjCyb-44oXxr&
zR8vL!Iy)fE4zMkNrSs|I><@7n9JDlgfT3Bi)zlMkPmIDL_9fz3fm*g92Le(WK7lds
zL;ejg<^y>L!xVNTXX3FJunLmFyR0c;7z$7XQ8SD?;qIF};DF3QflUSc8itV2!bWCv
zgb6g$7C~{P$kIOq6xR^)-bGZL$b|)d#^I7o#HLRI3fvVE=gwa6$lvML$dB9=B=VUd
zuyz46Q!F5&Bf|qOKq03jm=Vx?_k@%a!r(DIP|Uu>1nyE26mSldpaTJ_OgGS|;N57D
z_56f^qe9NvYgBpg5FAw=y8%a)M{A%^MVvmPBLej)KYdVKgHKn)TZZSw0jvU+n!11m
zTU{t%Qv}!$xY7j<6k0|@%nD>0!B(JEln1=rwyZsQ>_{GZ1_gIYEd*Zl%nmtC83tX{
zLqxaS1?<T}fNdGQ*MtbC6-dl}-bY|T1z?!Mf<6<McyQ}62|8${tx8nci@{Ol0asAe
z7v5trODSlx8Wdv~6sm|BYuMkEku;BT4hh~J$iw{XjU?WG$$X0`fuu4!!*J=7?3h`*
zTo$D2D#CW#kP7B*<X%wV?l1wyW3YJRzp!{<8dMP;7Z?w?{J@sZIUaENO@Pa90$hF%
z!16s(P&^Tp78X!Ad4U3o%}Q9nFW5FHBE!N0!dZgWv0Z@yQ(y@nplewK)d2<su4TU1
z00p!F7X+n<ov?^vH3W+&B2q#l0*|uFT@Msd`r*MM3I{t-M8M70a$HAPNEy@+7E(o;
zfQ6I}dBBju(+(IC&W2r%90&^uX}vDT#e;>EVd!8XWt=%^ND2-qV{Cvz%D`;EkbuUg
za%eSJNa<_`4GFhPQ;vQH3YmpBgT>4oCqXgQP5~^Yia-X7sX~kaV@gLlSWFcp3>;Iq
zX9HsbZXa&?azkR~L9<{%bI)&3&@Ai~ENJd04hx!v;Q<BBB2$5a7Ez#JQ40rnNYr(3
zBUsoXdJz!p+6%oSwPpSu4&bq+dNKl3A!|JNp~21EDZZU@v6Q<lhi<2AELk>Bl*~OB
zZr!rR@2~518qK|h2ew&TaP+givIH7<P?S9sGGM%?HE=@+v2)-FS#|YY#8}DK;?;<i
zd=t%lE#4DT#n<WuW|f3(-e6Wq*yfd6RfO$c*i^~b>IF)bjIG`;RK?ix-87Yy?Osk(
zN!jkrEj5&FUZhe<+3tN9)s(GXh*3$|?!5+8lx;_+ujFhwJbfi+%Q4L>Ia`h}Ud7pZ
zi1A9&w&P$|k!lFAt7t(3w{AefYVsV|)OW>tC12aBy{TEXH#MvFre@XN)OeS56`=+-
z)YPw`nff&}Q|sk=m6RGZH1h&_gn5BE-PC<SKozToVEu}=oe1t3_Wp^s5>$rxv_kUH
zt&5oHh<G63QtW8)ALEgA7@P<jy8l&&zltz}<K6(=3D{yT0yZce5;z!dZ*FAe7#)}R
zK63decwo$!+Bl_M>UN)9`Ss}EJSE4qZumpQAeNDp$!APlM&@Jw??};hF$#cR0>ONL
z_V3Ijo_aR2|E3Wmdjp_vM<zCrVU;7{e=?(k<CuhV#Iu*>dRtPXBSXliyjRTmDC<#W
zMlmKuq>udXtyp6GlYhGS0~Py)x4kRPgBfFHKB=Cy7GFggy-wM$s_6SNjK=lmLB=n!
z?}}>>uQUg}ADDVLyxLmW4#{%O`H;a$t~CSVh^Kwc^TEb>>TAt|JQ8atquw$g+x@x}
zM)IGYm9+~&H{0KrJMmXqF|`gIoB7G3BwtZ>HvLDgwR(0|ng5)6sabZ3;fnV09LM};
z;w(I$|8(x;k1XBDctUpKd#-v}1hk;lB_qSe4Tk*T%~D3jci%ebd1CPY9W*ixG@kLy
zo3_@>Ki4iL&3EFOKZtu+UdE%YcO8Q7#?-kk*{v&-c^&NJy5ufJ)3_eNMXU(xg+KJj
z>?o1>ckf7DtTf&gN~;iR3-ZE3$orixEJS|8Q@t2T4>ho5R^t-E-nr6YqQ@jXH}ZYr
zGNXG(qd-iFm_>B-iN=Ek{{VTV`ST|#CRj7Tu{p(Y{?+dTXI5o&HM(Q*V@i?)FUeTg
z#L=kxlmCB3hQlJ{MnUZP1j)BW@Axfxhq^Oz7qt3z&yn4frtZqka;nO7O_yShddDO#
zZn`Wbd!N>qn!5f=mYiV-vvm^VFeLMhKRRkV00t~UCAeReMSt+knO619nNA75l3?>L
zOeebvQ*G}^oXrc-`g`zBxa9I=uBz)R9ki)a??W!#|5!1DRNhNDKpPhpFDe-pr!nLg
zP7Y9UCG%eVE~@VfJbiELB1wr}1vywlqMFK8TOsAEBD1LXrTsKDRvvJ1<Or_`apRWV
z5%WL~)n;mTD#ylUjSU3usRYF}j1A!Plfm-~78}6Hso<rn6RY9(jFH`ZjNF-(j!E42
z!ZVUvVl+PDeLkfJGcP16iRj)HsT}skTjZS2-+ad7ja2@%Ho@@1lCT4D1F8&|JvNtw
zWiu5dDxYrFsC#zC?aiKSIPM#9S12tuI!}VJ77<;YmU3M)32Lkx3vKE=b?vDd#+l_K
zmxY|0lqRB4th_i&v)rQ^+GssOtVM1ZKrLR?+ojs@y5n(WfgYZq+m&N~f_NFIfmh{k
zPcqXKvZH8GVnW_BjD+t13ZsxD3Smz_vG(dcN5O~|EdJ+-_O+p2l^>;go&#a3X9lsy
zc|$(rt7mF;-L+O{ry*AffI-(2b3L$9=?;LdbJ^enX82Ahv&0hUK`E;hVHYj2AZidJ
zubu9;zES6_62*x%r%`O(iih|uM~Bl~oeEW|k)=|FvUXG`k;xa{2U8z2@0}POJb%Zb
zOL(7F@HI0;(S7W!`!sm+*tcYsF2!%nknr{2%N^E)YqpGnRI2<sF={4>V=`#$E3?g6
z1OU3dva?@Oz9!x%xbE3aqIc^hv5&t>8S84#m<nlB&X{>t#%$@eW#7oB{Jj~ry{zTo
zOv-t)K-y$&9&J=@8|5=`V-_u;Ln=jcaL?6i@u%9r`rumTC!=^E*LULcvC)wlxByKW
zdCQ%+<Um(fkaHCXBM*p?|D91d02H<5)<3Mt9oPmM3c5cbpAu@LRSX*!^@pq_xr9<H
zwS?Z1q28Q~nlB=&P{*gDmR65dxZh62-B_?!A?xb*&Tf>9awRvnU+ds`u42?iz~;H^
z*kMIM9<Jp$J6eu)h@mK>!uvX8Ukp>ZY5V}weBaBg@%`K^&(-!%)=YQ2Mao9Ix*?D)
zsuJ4WS56jK8J%zNs?5Rprmjj@2qRY|@S+L${dcATsQbI_`FiJb2S|S4$PcKa*6_K}
z=3w}R=M(FWKaN9xJHohe;J_#7)&6IBuzTA#TlXF!_9jQA!?kX&9qHBbxGepjc8JvG
zXqjl$3Q@5ETBds6OVvEznQjn^D=V1Cf&Y?mm;9~VUlom1wbPmnki1vaY)$Zw$9enB
zCWwU5+`!y`UFs6`(6{x_$J#3$SK1DbG&PzeTI9RXR=c~<a{Upixp>`-#txAmulJ#Q
z37@rHl2}pb66=vaM#eoFk87%T+AMT;Q)mmJ+?-dtY%c5YFO0;hq#8{<_MA|%;3I^1
z%HQ+zVAkIAU?mPUQ9kGAzC`+Pe?O7Kozamx3)<XIsGqImDoU2mdMQ;{I;VVWYhE`j
zu<y^XyDCXgHkcnO^<Y!cnkGRrujvJGQ}PqU-oU6khP8EgbZ^0ymZ$1?R{fGOTMZut
zy1g_WrD%H@+?<o*eDU!)X#_3@b~vSw8ua-=ZiGyDcR{7Wu4(f^*!_2QA*RXS{moNO
zj^!qOXqp~Qko$&@rRs4imn$HxOpnh^^W!vO2a;_T$AKMnC#8Q>AKgh#_6jSlN5w#Y
z>L`5ZvDWp`-;+u99(B!KMvikw>2JBC;406H%oC!qS8w`o?6cdIM!a*)e^zOX8;%(I
zW1wAg-{H!RO@f$x9odflL|%B<>{7J(orKF{n*2`cLx+%lLRdck->V5nqg&y&Ubp39
z*yKVhocHVXyCbSMWc2IEM2^d|&d8B^OL;&#PGu>lyxGf^FP+M%-VfxfO8fVihFAg6
zT&RVvoo!vu$TDlhzmlhBM=^WHQS3NfyL$M_L^C=G4!GjrMltyxS2eM9n!N$t7<k&v
zTxoaOI2S(eKf-tcKH`K->D!Q=q)TSL=oniNC*EQi66V*BBrh0>mMdsx&U9KZ(tUJS
z-78r__w&W}k$7lPU6GM<{qo&Oy`S;l$g+wu4^bL~Wj?gyv{+QWN1uMnUvTzNl{iS}
zi>m(bio8s({XhSD`<y;}M^2cR*oiA#dQ}<36&ZzjlHjnihBsxN&gl<9m6w#>7)?02
zZzaaF$%_7nSht3*Zw=8nh=PJXB6b=S_H9t`AI8WUR;(i;d?4d_R^^QD;%c#7Y;W0!
z-1T&UOLy?c!%t+BU1ldS>uTr7`w~}_0c%hMCBf(|uAZz(iAfP;s84k;oB8%D`XBo5
zis*{0ZyxRE;O@n9KOr|rl03AxIGn^(AiQBG8sGYXX0u=A(y}-Dc=r5jq^b3}KMYXU
zz(Foa;;=?=xZbN%DtB>N=A|{9v43tcA;B8YsCf|N+Y|c#2w5H#Q<$ekoM6OT&lXpW
zIH>4rQ#)YT|A~C(tv_ym=%X38m1Sou<Bt%gH+!#e79AUjhxy~4I7cMklp!Wgo>8IQ
z(Z77_PGk%M_o3dh$--(ARG5+WhsYXy?VfNX2Mw#8^KDn)=BvxS$-T<cG?>{LexuLM
zN0|6QiEpxLxjqGBjc{62JCv7*Nh^u7^#`DS5Od?0AkLl?%Smw+)EMqp7UC9|P>@^t
z)ZGTj28+9T%Xm#g2k-3p@tOt?YfM8UF1Hv}Z#jzS?-c<Nm{1p^0hKC3+-;o1D_q4X
z<{ighnr}?3;7((LE5w3%)04WR^*1^lA?!7kZG@MbTHF!pXm;cT4r#B_%DrYi*(d)7
z)nxXV!&n!SshxSvv@C<2G2Al%&KfYh+SH5zU!eT`QRbV%7%qYEXEVHcS|s0C#5BfC
zp)Ag`RXZ6Oz-3UlTQ-{*!{t!81>T;)T?vJwu?w4<Cjr2XYq;vk7_9=JjW}9mF3Anp
z749*$OH3zzW6Uj7dk-u_GlqMEu;?;8?&){SXPOupqrO9#{I)3)BPN@4`<INBmn0Oz
zrKusGyZz0Is;-;(o8E$PGUH+t=v>RwOP-8bLssGBn+g@lrkT1)phbZu$b)-aZOZJT
zglaAu0+B9(V=Y_5x_(>cn=B&dQ#-+&F|`8@SGrUVXRVVXGNg4do>-H{J_z@^3lmPO
zZiLupRM1!|Z0@dEB0viw-kyI^wQW^h2DFUPY+SIBD;qm|$}hN5HgA}Wa1y7qB#VUY
z$8@S(1~h>jEphdRan`gvDL?#Pl;eV?$Q6~n<-L_bftGamEN|X~m3G&m6=xYPQBYMS
zK{W5?#RCEKr{)IgUzaBx0hbE~(4JRC`t3(Ac=wi<jo4Xce=>|ZjDh=y+KQ+2bG)Q{
z)sA7^#0lk*JtZy|7YnZZ!=<QlAu_7`1E>1P2-@5G<i;k&ZR{fVb(2?k(#iN<=#x!F
z%}ShaIWP0czMFrI&ZXZkIe!nxsiI1Wq>fMy+AlVEsP@dd;O)gLF{RF^IH}{DMaJfd
zfy=OX_7Em{)((||+tXz%$Q$aW?iK%=e^wITrzR@mhe?TyaHq5bi64~3V5#p7;Xw9B
zwYHJy$pFdMBiwd9VlG@{v-5(uK}l!b$?YbY5)!Yor<pZKHwg;(Hz`(sJ;Ft*1q6|r
zIdSdjxwBY*BGiS9VqXy>bXb{~=|L4c-NV@Fo{GqqA=Qh%0#Y!I*<o5tsC271NM^4?
z{Mw_ft*~y9N2V}KS79fsJ43x`u8{?%Yh(@1(ACA^3sw870R%EeTCrFcMCh!;DFjHf
zP!*&305oNRDu&TC=zh46ne$NFoPSxDG_&R56TrqCuyMrz>cExV7UCI+v*CK;y~;BJ
zH=t*b^8r_hTaXv1eDqg_TZjbU2#%3sClE;)tT(qf=~<c<%}Mg5>r;_JW}{*$rBGGt
zuaLJ887P!1O;*fH2IWP6`Mrh6p<0o7hM1Ea%8CBUehX1Rw4&u6Vs>72U4(t)Q^F{U
zNs$D*J_V56Wo9ZKXbFXpS&$*jDfQ~_q_hwO%8AT^#GDWSC$LSL7NG(lfHr1YfDL$_
zfNjRKI9sSjWJ(unWDB(|{e7Mm;tjxwO6g)o-XMB0+CgfO-U0k5OiawqJ5(?FTT?B>
z4jj@|mMmuHZ>TlP%uEPlU#RN022F}}S4Mo_f_+BxhaQgpuFQedWOb9RTQ?m?V6&>p
z4psB4eZ2!m6nk|BRZ)8DxGJJUcmn8Lsfao(hXIqlme@LFNwX3aN#aJAy1Eh-L44AM
z(5V<jAfG{eNGnDW#20No^y)bg&H}`Wv?3Bgd<8*B3l$N>JqSWtL5Lt8K@id`Rs`{v
zE`&0@6d_z_j<M<7V(+IENBg~sLzk1yCk|*n=_L?m^NF+4j~nV`UV->sOBY0y-HQNh
zSkzEv_aYn@<P6fZTLdxEW<@t479mYQ%t&)p5d>t{rHf87_i%OH<0w>^d57jU$mG|z
z!gUjRZ>Y??Za3i77|%U}sz{mMM31OwfyaXwLpR~djKS01vpDT4W=7%Zl|_0+Ayy&4
z^sFI+`4N<H5XB+H{6=z>Qn45<ZjK<T?gEQU)g#z$>rq;0rsxqs(ON1H%4__faxL$B
zMuHW%xE}vFkFY2fj3El{GFzE~$Dq8YXO(8UooF&}FpbE@KLL%umnNU{28ZzQnp=ij
z9L{SOz7K!ku)*$5plMr@-~ieqQM}9JfZpYqM$!IVo*;@2-{n!J?+(&=&tY_3Pe{E0
zsHZg#9T(<iTGL3l#;TXY1RfcH?5|hPnsKr;c%@wBLQ4<}y?WV<h0`l(6pVXKZ=J`S
zywQ8<DlvunZ)zM@Y-XH9>TGhFMbN1!y4Tn-r0v0Uzn?`{<X@4taUP|7hBDU(6`Ey-
zfFV54kW-olQ2Ar~EV{zsnjNZ8ITO})rV|OCnQHM)C7{W5Ue$k~!e8mKv!7wim{{rB
zr(SI$Q2H8@W_CHDOy5t+Smu09HUv1%r>Qc{zNg7U{sz_O(<kL{A8;Cj$%0Q8spJ|<
z$62S+r%o8S&02v|VEoe3+NqhY0`T_iv!^0E^6L{uV9L7UJiItSBF<;!hMa5k>cETU
zNZarr8za%WKZ7cG9^s}6P`cFpJ)Tjw64o5Q1yct3r}E5?b_})L_E~dx4VCl7F-H7S
znNujYI+7bAYjVvN$4eabZar!4c$jM(iuDc;#kS9RWmB8)aP~T*UyRP!df}!ddAUDf
zd#VEEE$a&OiZ{1$zG}KuNFs!u={Wn#Dab3x==wbqdC&1GNRlNDIfCw3Iaud`wssIY
zQ$Hd{@$#aI^US;B{~Ty>#1=&!a53BK()dmlhaE*_!(tTIDbA{ci&Z+P{S7V#obnl_
zxo>BTZ2Vr0XhyW9!|=Y+Uv9FF5z*P9{cKjp$R3F?*WEPR9ZzYs_Zbg&TMssgEBi}a
zH6t`pGru>9MmiObTos+)b@~t)$SBOSEiNmET^S``k>V1XIqXWN^Mo>Qq;hB+jb0~7
zp1%Z7IEb2Sn{I>h1(&lkME7e1>kP7y=9Tst>H!t3Ml^P*X_fW$Kr|dDamwBNIgf#n
z!LoU1Ky94qWdS+?jnmLneVyX9K)h$I>{{w#e`<FaBm=6cwf8AKp0ryQHq}Jx5Hw-;
zt+B7fFVV~z@HvwaAZl$MoN{l}Dd&$RmCYQkQ21WgduGY$thM16M6_NG?lHeHWWGMN
zuf=>XO9eB31-TSJXEcZTy@@hxMato}DF>*4l+YYHv<F)Z-=s7*M<hro%lw!28aqc3
z3NChmohP}#?&rz->*kXC>u6S`%*1%2aClW1Rl#Rvt<8p9f@`CCOGTDu&qdccy370>
zN4B58%QN{|{ie~0GxZieG%<}~Xk=?T$NVK@dit0#)v9AJ52(g+ndzIa9vGJ()?lAv
z2)%cohV)7&c|&&ZDNT;Qbi{kfj=R5Nus%a$qvQ0ZjeZwEX<p-yV4Samnv;uWW!!*_
z2|6M5<oym@?XLT5`8Rvz8fUnSLt;5TyD6#lP4ZuH&gLzFe}6d5=BUm<{;zts#TtCi
zB3u%N4V^63>X)Gwu;u#;Il(lG&h;wLYQTvJ<wNm%zJJ+hLe+Osf_-cIu)xyra=pub
z_ta|B#LeY<@*m7xbM5ZG9+}u8O>=Ac$D}b$n){*N)@PCd{{u)ym(PxU#SnPf#amf(
z;y4hl{YUr&9z!4*cEb@M$Lx#BF@iYwiY%C9fBi}_4koc=waHO6l`+QMUtel<w*{Jw
zccU>q&z$wy7!#*;Iln_z_8J?lbQ}A0>ruQMj%m+CMr-<ZXH3~G8`-Hx9}Q#5{?73_
z!ZF={;m~A*<97Z<I<P_<v%7zx??H?4A0?XmuwAV%$#IMYC+>+mhDETyC0Ve;h%srv
z!D>ckGcvQFtD>}+?(NiLqQz^Wv&FPE41NcrXdBW1PHpDY{AP&3<Yu=7j{XGn5rx=W
zvPaMk6T0WOyU&aflCWLl*jeI-?OOP8i8xM&u^uk>zCF)2XZ_yqfB*a)&2NzHCj?uo
zh&p{v#IJf6DCbau8$;k61~(y%u_jQ}rXIm@W4I{<&M+C?472FMv5y;LUPCb30y1mv
zycyJ>^DsC;xj6)`%i$>5`pwl_K-F7p)3CXEH=ua23%nDRyoCU9K#spg%;Gg|uHzjP
z?JfwHP0+G7s={$Z8e|9#;(HUj-tQ%?FiAGvBg=`#o&i$t2{v-i+2)flQn8^SN-&0!
z8o@ednxHs|!L()$n=xE3f)YDk{EF5j*``Ra0n*!9>OpB70S6@t`0fHF66Fbys2v6r
z6E6gkb;4kUX%Io(*L`yUlrSZDhu-Y3pfZfii!jPR)IRKF)FTunD_w$4lJf9lf^edP
zDk_?;A11trsUWH%6E$Q}%NT6Y#~DQ)S#P5vC^YDtXZ|UFnx~*jL)#vuWHx7pZlmrQ
zyAB?<6pN3BaS?<pH2B@jN!V@D2{I%u1lN1c(Av$y3oA=UfrFgqZ9;LECi&XRX7WOf
z*Jh%?>?{&dVP*%iULT#zzjG1baH$LOF<X)#ru!1#$w?=qk5?WmBag~?^DG<WQm6#2
z!nZ#MfAIXX_?Pr&@vnXs-=5<r_)!U*^CV2-pB8~7sFOvIu4N%e(bc_cy?}5zR@Op#
zaBcLi9cl(=T<Mj69y;Vkjnc2+K7w$EwXOw(vR!4HTa5J-$e(r2#b0r)h45YpKto*c
zpFlLIGm>153Dg(*y><aHg=nI*lw6G|M2!YLe1UTf^@_?|a&@jD>VU=r1;PxXh?c?R
z+RUIarayitAm$KtY78b<WDZdTIM^sK7SIS&8B4Cp0_qd}nMnb01JR_`T5?rxKx@Cr
zJf=WW&0tLYT(;Pup0DQbM=4X8(7+1^&x}?FqSE~;zsPNN3r#TE)1(674wPW@ydu}<
z4yup#ysALBhh`Xs#pHVYhN39+kfT(#*2Q}dQ6&nLcBwkzgSeI$#9j06^ZA^T-=S4^
zj$3u7s#Pzs(kpbU_M~Rju32x6Va|Vjac@0&la1^ALXH=PiSIllFL-J7l9zWD8>mfY
zYU_EtSvAwp>S-q~3!byAzJ6M)E9PYo7upc&Qd`FV7f1zV4J?EBTN^^JK9%8IY2(xt
zjxvNX$XLo^P6jd6hNv&IWEeA$8p`@d2C>lhxn^A=L%IcdUA3Fb5bi+;s{K`l02*?X
z!m3$Pv}-2$PBF<>s3Gz@*JDDKV#DCqh<#DQ&{OGs7&p_&0hzEA(#_!9>a8=MvN0GJ
zS)(num~)*IxXOad{il{G%eY`s$0u-=imG1&RVIyQzHEakl0yP%hSpKM_0=!7O!{hb
zN%CUL5w%v%gMIm_NH%^+i9KL{>ag@}cu0}WY}nOb?8n_`!=bP+WZUj<ZtTdt3;tte
zd`c1@MV?O*(;@y2`@`HiGyfL*d0rFT76jvg_Tu`e(q4p`HO%Ynn|O&y#`!|mvStg}
z)$8x8dPvRYP7gt<2huuj<{mBMUI*o|T#oB{e&r~0QMvMN7Glf#%zqYx+uh}?j%)r-
z3e5NBB)+orzs%~`nrGmkSnirLl?jS14gI6YgR(`ka1%@1Ix&r5QYW?BPbm8bHSs#A
zH8K3f#yV`yRA%7dzSeI&;=yOiPi`IGHs`y+VADRWY9(&=o&_m3wEd(?gwb3a-Wp2y
zxBVpMr*rKKl0^IouV<}|>+I6ooU<+I!1IXPz+SP(k7iI(S*##Rzfqo%jxZ)Nx_v&R
zAb43~b2zK5wyk-ri;WIv!+~c4U0<|m(nC$%w<CiG+4Rq-;h2)wy_X(q<K<B9XgY^i
zOPBn3)loP+eGQN}{9pF7wi#TXIf)kQCioih#ANWu4x29lYG36?2#+ig*Fxof>Mn5@
zL_smK9%Yf{(v^@0YVyvCH6#x#YpQr?A17@;Y@-zI53?4h`i6PasaD^uNIepR+gvi2
z5-*?`GkzFipBg5&{*arU@`(!LSLzJ9+z*J84GXRxdoqi)7hP6vCgQ=)kX><pJ!6Un
z14+xE@7D53S(r!5l(ZgA1bLa}Sr@H>vKCFO_%h9TElsgH%2Yc|8LMa;1bCSo*9vUU
z+0#e+M+kz1dgPeAN@d-kGg@LLA5ICYH(m$7uvI1YPPX$hLaumePt%QuwwEFQ(IZeY
zCZ^AtJ!rzrPZ6iM+4A~8-XvkZ=dp(H5b<TSRsmt_`{9*hu$KkAI8xon1QiS#7@>j-
z+zj2&I~ZZ8QLDMfwVIt`yy0b9uY;^GpcY#_19p8nxBM3f`x>G#$Kt+VDTaP+KJ+_X
z%3&d9eggHa!D6=#_33_#9eHGf$>4M?RJr8S4b|m_>amS_v*%j8(@}Tova-!hQW_+&
zI}!g?&!BQ+@)3JJm909jYdn6dETb*ek;TxJrEWGY|G9!f42<f20b<%dD-^vf+eZAi
zr|*BD@}&wKPxa*roEo)nIG?x(@>c}k8~^5nC`0alW~D1b`n?CrVR+ijec5*6I@9+0
z?+A~;VFr>;calzL=wY9D84%#a*u*v&`s#m4w!sEusY;^1ckR8>gjmm`p;RiB%BA4`
z>h|rnxGm0dZ+>!1GOu^}@GEfg&%`Uz7n1Z>VU|b9+*_@aN%8I33Pz`X@c#m6IU8Bd
zsmtA--M-!A!J(3aIY~$sP4e4<K0COqezW?^@P!2L3zCsw5{K)Y^iBsg*6-X44p(FY
zH&|s+Qqam!++kq#9<wkiPSbTVEekqt_wj|3uWlkQ@LtzxL54*d@Mh$L$MlhZ*nZVJ
z9dq)xvwZQx`86ivlW&(vU^(j~nxs<_L{pL!mL286M>GxcBFqYf=e_FrNy_TFCcMba
zp@vyK-l^-bAk!<_CY!eDZu1Rm)2SP{tFTyD)*b!%K;}!zQ2n7ApYji@krR`Ie*2Hu
zyj2)wxjx@!Y%RMIle;hrmn~B7EL|?ck&}@3e@gg&(8d9k9kN^%pC(z|$Ilhvl$*J-
z;dSrgb#A<C<&4K^=r5*P?lLlsCiH=SAw&w4CYu^ZGg3rLGPtfj9B(jHsEo}J6|(()
z%<Y5A57%L|xJOkp(^n_ie9bgjzCoypOBbAa@uOh<U{|Uwm;IFl%XM5ttGLqhdH-OY
zJpOE1DXLxR=hO9UMl!1xr|C<$AmP+P0qnNvYoIa;Uf|x*p}XhZ+&`f8>%Z)&eFj6n
z|2J%JVZ0`qYy$1urrc<J1I+^w?zB*9PPq+p$||Tl1}g@hW6ImqLdgpa0H>a|Ih_Or
z2El7I0gK@`n}G${H%$>J!%cti!Uv}@w-J42AEqzWQ$iiKv3IG&u}=Z}vZGMjVyA@&
zc?r0zsu!|(p%?P`o@P@>F-8+CNW3DMa<P7khi(C^!wNktitPS@PoLol{Tz+gY^`NV
z*}910f@JL5+)L@#TqE)i9QC(sV{k8719puzx`G|pOPrnuhUoTer=t_@nlJ_k=}`6q
z70IS-Ujy&Q1Bqu`KVAp@d=(}Mnf4#be_i&wRX%b~;%FJsq0NQ0yl&L8Yueh|X<OFw
z<>dVI&wuY<mk&>YJ4rLrpORTf*Y^H-^>6iijjw7sxNRo7BQDo+kFVn8XC=&Lr@6b;
z2kw0<LdZCU&2gF>9;ed4+aD}+4fCE<0eiu)wi-E;U^rb?6~ACE18NA;&tZ{fgRAO;
zn~;y9K?yJmotk~Ss~ZZ3SPtIoa*A#<bzoqqb89GIb||wqCFAv+*FEgouO8@EXSOW7
zb5@*vs>x2^Wc&T7%y!zvHi^@O;MmHt-WmVNKi7<sb;@h6Q{JI<suQX$;Fi6S@SAmE
zM93}R-iI$nt$EfZ<rYlJhmY%QoX(<rp(WuVSm<PHz+rJ4!^KTyCW)nO0w$C-Ovq*T
z;4`<sF&>)Rch&B+ErhPvFf#QBVzc3cr`$equQ~_~rP4+*<5zgETHF#m<J%ulpMHaL
z9dMi}(|w0`rb5%iU3mxRQ)`}>Qe{!-ZFUM~>>e9vnjBaYu&UdJtM2{dA4TaI!>I;a
zs+)8g%_5S4D5r1%lDAGQJTo|*dJDz0&w+TyU+#O(n5PDe8+SCvCa*ZFb+TLy=>tU+
z#-mq?Qj;YxGN}O};#q;EaJZT7AlZ9G=;r<78)dozEPK*+i6vu=P|Qkg6H+=upfIZK
zY6Mc^s4N4{b{R0WIdDLmgZ2P+Z3`UW3UjFQa0`s<0mn_<rWK5x+lNYul1(dOdxWvc
zm5GSxC$L$H%0xt`G6O8Wt{Ak0T&;sa*(`9Oo8$ISAt%6GwmLf(DR|9yS3qe{Fxo_t
zkO8RxMw@`rQxQJ5A$+FvuLsnVx{**d?FX=nRW^*GzWoc;BWfE)0i6$<(K{X5HJg3l
zSP8`vH)efU!vySI4eUdOaXTS&8a7axe22E6z>^%#1d)w)`?|Vr0PMQ``Go7c;fZuB
z#+jh%UhxQF*qpXXBXn>tF@%lFZs&Ck%n&#*B5M%osOF>7ch6s*+@=33`b#Un%F;=&
z3@2G?d)efTOv=a-?|$-=Oe#BoVLWDpjFiW1zlBv50A1?`2jUh7;=YA+EyKQAu3{4h
zTp?UI_f(adV203b%mK?D*G9#Y2lxaOPWds=6h06S*)b0%@b<{ZOxTv`y@H2|J`cuy
z(!v$lEW}ZOT`of??2Qc89=$@lfZX9hg%wpg8QpjG;ilH?T-t(bu<vqqi3b&R%S^hH
zvoGNlea3@|DmqshzkT(uri2%stj0WS7+B}XSe*p~&ok+yrlkm22R%nxxT5ODO8v1P
zqoOv3DxQ6WF)3(EVyrD41d!$^m>&YBSCy!!ouCS}A<2y(3#$FDw5L1dFvRKfze;?E
z919q}KhVg>X)~g3rX2aGTtCaJzYFprBeX+j!T)GY`;_W%UF%bjE}ScY9Qx_1h|<LW
z&i|1H!nU=`h>ORe7*lIu<~2L7(lhl7Dr#>J0bdaDC+jRvGhsyfaPtBRdvT~M>fIl6
zKwd}xjH5avowYW#3Zpc?`0YH0-(P(1OW=iZoKC!P`a!17Y5H+^i0tB%D}{~`A^%2L
zc3x1CN(eSO`_OBclCW%JEx*6lZ2Pln+m(of4IkC>;Wg-Rrj%Y3J^}k-9!wTt1}#RF
z+k~pYs+-^B#je;p9#=|h<2@PC<x%LSDO6uTVy6h*?;nlyPA2MiltdBP-ZV>Bd089(
zHa(}monKWoYSwqiP`MLYQr#76)AIh*ng*lmU?i-&LutJ!UBPFAbN2IQT@3lJ>{Xz$
z)>jHz({F1{cS1FjP+>W5Wa4nY9CwBBxZiES?`TxM)sCR8zvr;~Z$;vPUG`cJf7PG4
z?&<}m@=4IIwyS_;@tJlLW-lZ&)s!Zq=|)r@kfSu>0AsZe{#SIHP3*rKr1E9kDlfx7
zTUIJ-=h%x%EiT<l%J2M4QSbJdHmgp3|L0Y&WmmOTSHC})CG&rveh<hc3r{dA==ODC
zTDvh3Hd@8Y!l*JC{8*E`wr>BGLfMdRmCE5M+LYDJ=JSegH}<wrz9?sa-%?|!&HN@W
zj;PtI5!D}}M|}Q>-FW8UHqnXM6g+hT|2irjii|d%XA^jjiUlp}LCS7w)me&LDZJR$
zRH<3RY@Vaad)x9#RX+&QFF_J2CS)2cNfAn6*h3t~Do>SedD$EKtywgWWLcUu0R&38
zZWt9zR_;2=i=ECLAP^38F9zmdmu!I!zim)Sna`!{iX}oChdGs)pq92RfY%K`XJ~N|
zr(qYwVFbFXDz{WOY<pFA=s2Bz(!zaMVQ*Ww?#uor0oDO+WR=fzeX*HgZbu0&Mu+=a
zTCCI>ndH&38kSvB<dbworm`aCLUNKTK3Awccb=*}H+ofj?jlip?vkiIcQsRdPLcOo
zk@r^dx$l|MbId2E_Tc%aT1%K2rS{-8QIiGdCRGzc=QdSDyjzde9=s=N<Lo>vV$}x~
zyXP_cRD19#SCa|%WL>DuDt8pCVvdsaQt`=G#kuOT(@(W0uhVp;_T)|arr4tInQA@1
zXNt3o+lq=$X3?A4lMiGWDLz?*iuGhpaHS``lVqycP2LIpI8l7`oo*b}9zD%S_@egc
zS(quRn(_rQ#YgD|TCuY(q9jz4=+cx>eYBV?6d#QeMFI5g*cp}Dqg3aq$^g}R%8$lj
zuGp-H^@^xTw)YstQ^nEZ-V3!ypAx$5RC|;k0;@h6#fp#qiAbzAT0WhzCyFEMpOQ(s
zRI7r2p2o4Fe(^^i1<BMp%)dUNJEM2CXZc=SO}_kl0Pa00)~fYoT2{3V^w}bss6Lym
zCu;KOGyR>aSuFljl7}<3G468>s@S+X2wv@Bu9;Mks}noLhe<XeiDEUl(owAj?YZc$
z;>M`|Gs=p!qV^x0jPoK36-Rq;RwV#dd-@_Q)FprL{f%T<q^L4C9yqn9Srmt|r7=8D
zi}HW9$E#si9LpiA%TJagvGuqp$ZGf&<x#;r&z4hu495}sbtOx7EhwEWHA=_jugKD?
z5LMbOKTg9U)F@6qR+&ce8C@VXibn-mY7}Sw6pi96^g^RJ3x(1tUMzLSo#)d;6!*%H
z<2aqXXq2BZdq<-@&yJ~6KADmajq-6gCb3TWbQ0>6=TRgY<zI8EFEz@qlOSDT%KMf4
zM4A9xfN~vxgn7#~0G4DqCYc5RQ`{*Epx;ow(M$t@E6`b@fe`b_RA?elYe@s)EzF`2
zSBF8PCu5=y5otpd*{23XeMqkXQ7)?KR2O2M6Ag&^&{hkA>X|f+bs;_r-CD3<LJbI}
zC^Bl8YeHa`{078(6zj-EMkXYBBRYLi<^eBsAedmz<8-VEk%U^($sn*6WCNneh)ylI
z>YPRs3`F%YtdHk4F!(NnB<rOH2G^b}8dDzwH`SULaf-8UniyE=7&c98<nFNg7%f*Z
zdY3h9EC!lm%Q1LmG%>I`aJW_GGZvtrfx&m3aik?<Y*f)(pa#Z@z3Hckk;l=5XkrxW
zRjh-NNAn~s)|n1Qb;E?#oa0MNmaZ{#-|kiVG|$rsR!}z}R4G%d`ZLx6;rC@^A<n$7
zLAYvPv-1@V5UvlyEDJxiLD(UtHV8Z3)CIx1P}(5u^i&t5ycb0i1nbdhf#}Yiaz~8x
z?d*WeP<Cny1nZ^Q0VyU6T@b9IZ-HcCGAFtqSXJKwStntptqR^3k$z1+HN~D=CAt%^
zw9qt#t+bCaJ<V3`{57?G=^Tv`t(tJtgde$TfRs*l&5kYm6lq0oK$tzCy8?0$T^-9o
zbk$>N-spBL14+o6eogqDU<N?6bSwwKTGK5MT^-BJSlSkxgQEsvKgSW>F`*>ZY8u06
z{aB%l>B!(6{xwSD`Zx^~ZV%%Xlhv|i*}g{?WgKA_(<VwrRwOL+QCOUgE{d7nUGuma
z4V2O%<`*|=pzw7g=W#~*D4P9J4G(s2YBkrxF^f;cpxD(sB3bmt7NXU<(10m7KyjMm
zoCh^bbsWi5rcR?~X-3$T#u^LuuG<cEwpYV!PCszRb2SY2spMsL3JsWY_rY_<<Qgzs
zc<TiL57WE>6a(WlRwfN6e2r7@<9QsJE)JDKtOL8osm>wstEJOC`l7ZbNhUh&YS`eo
zVRu`rltzWzowHuF8^~>Go^^uOJ?^g3!0LB*=jawa_{{*Tu)dUA2dK{3rQ0-K+{EzH
zpZrLd&XEE)YIPtMUq)N^D<hFwYY%Rcc)OB>Hr)4+(0j#Jz|^$PIi`ce&TshM2yNPV
zdrAo_mtJ#E&N>V2!10>v+IGSqko>0ek`#+{ianOK{hesR5Wk`H+Y3{zRy3f>iBioP
zT)<2VsvNp7j>236YI~f9H~0NL`9x3TeJJ!y_V*k%=siULfXc&8!Dc8O;qS!+lMFd^
z`nB7!-tK7#e81@s;@zK)p9xMN28XsM*l`@}F3K9QUiR=n&Ct7Lr*~k7THStufOD;S
zN>X#7SP=fU$({znOm??^?;x4ei9XK4$qOkIu@9yeV9L5q&~CrHJ6ZVN$hx3ftUq2y
zG2MbRivGU3y^`f{$?c%GT8*yCEHRA?E~}O31_O5y<_q@=`>`lrGXxR3V!|uM98CR5
z8pm`xS@uPiF6%r@tI=>qe`Ru*K`Z5%s}z4hkG&-5lj;MkD*mzh=c-D$9Yz_&5_Fb$
z2JpeI5>na4r*krnlm(>D;UT_Sz0D8?T)dr=Y^lr<Za6G8l5yZNhp^>b@NL{vxr<Zg
z8*lk6RX+C4je9|VU|4Kb7N&^3i{vDmV`v-*jb&Yw+MgvN!?3v^HmAXMkzn{d5TD=R
z<8PH?D18uRzd>2P;)>zygE+kgXUDyUos5I-)b><ooaD;5!#1u`ON7~)p)DCIGQuvi
z?W8<Wq-5Ee`q%7kur$W-oT_#vJAC)9Su6mC<_tnJ<TO`Fgc_`K)t;j!vxlC-BLIu#
za+*zwbqwEyY%-NuJ}~p?LUn9d7^8c`ldi!Va0y}A<UqqPeSt7p4sQ@$=lT1}7``ir
zKC*{*&HcxYa>_CMUsXks@;i4Ss!zWGI0lr1=hDUyT?2?bO7tByn{I&3>AHiZljs&e
zWZ9JIzIJD0*uDeU`kV|m!|s6H_rStvFhoCOTCd8ff>C=v0F4;3MsNonrWN<V?s{Yn
zLk!UaMB3b%3E!|spuAx%$tNJsuP8?C+I~VbIqSa#hUFK?eq|bap|w8z2Jy9TuYj}t
z0o%&TceZ!({s-n&y1BiRGdO(hNtr&?>hlc65Byr3FC<<848K8(L&-bB2d{U+BJ_B=
zHH?=eg!bV;a^+TM?~Nfl(g90fh;=DUU@nE43f7MezA1>WSM%Zg7X;Th^v-7n;<IZ$
z>>OJ_=v=IXL=cvtmT)}FcXI5lD2z$-44YB(2TL@HX~YZ6o5ZR3X&le*h+&K&j6Qxk
zEkP~g0$2IUZc>!dk$?w{O(_gh3Knv-l2}2g`kV^ad#^xMtK~z@Fl1QcItP!|=7JC?
zRRNcI&UM0~BQS((nGWPxl`$%C4W3Qdh3O4EK0L1}hUy(Wo1Su1n?6*D*jb!+&C+gR
zXg=Y#dc8G3JJkOI9O{$}Gmq>ZWT&;gniEQ6$!5>?PDaq=u`S5(Th={`0l(%U;FxBB
zPA>=dRkj)olj;GcU3^--GCM6&E7+jZ%i%+vDFH(TJh&{Ey_-!G6Nb`<9OJkT^aqBe
z4>~MjELc0m9)LAbkFR`<JC0$5@T0`Rmhh&Ee!>u+fYuPYejwdj_9<uvP@;SOZX<^3
z4BDp0jG&0lL8|I!^#%!sX#@#W>HjQq?O}*iPyH;bj*O?qi{<=`^7~DsJcjoY#oPP2
zd4Cl{`UO1eES_2ZjK5KYVY~t}9=y;TM*3CiT7Yf88>YdN47yHGjsb`GIEUQD30j`F
z9!@(1DJQOZkuD{B4BJ#~xUh~Tdm<fue!B-|fM5<(Ytt5#3&x%zdk$>{09~jXLadQE
zQ@2N5EXQ1(W5_s8ST+j`(E?&zGp5rpBRIi`fNi>D$u%%U&ww^LjETAAu<jT81=y@B
zmhJ;X6a$IS6KV-0x+Tb+T_RucK<aeZh6b(Ryd_xwgq^|-h7BKjH?jhb6E+UUepM$L
zltj4AN2box=R5^U>~g4n&<X3Y3*abW!)@#}pjjSc;wtYue~}5p_XcbjHZaCkb)eem
z%6&?{qt=WM=w|dXPRAIcPnpi!Tw#Mzd!L}KE^7vMk^Kwpuv?s)!11Jk=;xTT2IowA
ziUB%aZ6M!D<KD{CR1EeX>5|DW*26%n?&DbCEx$<mf#pO+?Bkrd)CGS2iRzt9KBjSw
znON>nDuoxA8oQU$8iUS@8_4(48egGm90=cDEHAFU;dgl;f~8!r0P<An2my3oqyl)6
zW|+=-lXv<If$Q1Q3SSe9o$P&+0z;1W8^AxMg3Yd<#ULL99>kmI!}9WTU@YRGg|8xp
z%&aLl!;lyAwnFGlr9H&1^2PK}DqSRCd&36wUj^u5vOqxlzFZX77#a7^rNDRVF$Va%
z6qxQDFu?ywEr{}*6N9ZT-j>be8+;zJ6>)zdHFoPe6)`Qzr4xwV9F0Kkf06b-Ffyot
z{UDt|{0d(TwCd2NEAKRdY?Q(#hjI!7E1(sknzc@4piD<lba_w{vXl!LvQR3n^);QC
z(TQc~+lx0b@b3yT3ksdvVh<dt%);EK4d@eTwaW{9G1%AAYQuuM8qmL_)h_Q6#$c=3
z!ThD(Q<n1%F_8yEx_CWipP1^eq-q&CgNA+SF=llQF$R1j6&8NPi-EpVfQBTIXh2JL
zW8M|JzyV<e4;6*5;n3!O?Aq|o5h6K^q$2r*+Px18so+#sQX{}mAQ@2lBl-ifRonK?
z>A^OzfX8~vQ(Um?ln{e`3U5M$X~G$VXTW(NJD@GmIfQ7)h+rF{Ez=0W1lb>LnJyqq
zmdmMl#=x^MjuCv9;FiJ8m$pn_z+wS9VA>L0ft$pGWD!hXL4)ORD)1rGmhKyfu2<5r
zB=ZQaYYZ1?v%2NFfpY;jW?QaXuo8sWM_V3=(|{!jd!mbWmNOuPGXD<hGrMXC){MLZ
zPbt_j;FjqJnCXdK#(-eDhf5vM*xzzJfLjGK6}L=}V5UDTj~asMNtKC3!Fm@+mY<3&
z?NHQ`4iQJcCH|#I%o9Rzx;vDj{Vh`zgOf44Q*eSY`F_J>oHqmJn%Fkv4@4gPGJ79_
z=06CHWmP<&9D!T1j^qJeV0k=w0E<@#rVi*g3FM6#mQl4%?}Q~UJ*{(>qVp1McQs*8
zx@U!{hXyowYuV#rV6fn<?NE(n^T>k*K@3{Rfb<S$n>#=et(Yis`Q>FU?s*8v^tGj#
zN)Ni7lLRyBQ+W=wGrE7k_z<VkbC^Dd9=&3~e<}ni#waJE-~f<hSz38-M(iUpVeRRA
za42PMK7|R=fC&;P5~d+cQiqODg$XH7D|se{WQrT|cX{qhjGPizL6nxu5CbiZW*VNS
zMfpDlUixmzpu|S?H<2a^vvIip$-{wOamcVaWcAo2Lhnq8G*ZAnr&B+~oEeg(JQfQl
zGH(i%MvCK18Y(cj2#XV{Jl`?s(jzJR8smkYeUam$dgF&YCL>DL7%Ollok4vLjhaL=
z*d!XVIRrbe+fJdGbPCy*s4;z!<D$k?dSc;UW954;ojvv~rZ495h}!SjcZ`ynOP8O1
znfDG8Ej9lk2PfGCl2ES!E}cNb3LG_s=D>BxI_Ljhv5OuNvuG}zMb0fsq0gnOkc|_Z
zHwBSI_58w@2Oq^Kox2#xgTJs-e<6*Ca39Dr!XQguF?JpnnB&z2#8Jghy%2)Em`VGb
zjV4Y~q_XYZf!+XXKug7Y@MBH#0vF>FS@KA=MU3i`XrLf1m<b=r*Pw?2Whh72D)Ch~
zWfI9_0w1Fo6(kvfz5cLQiMMkonkk42vVY`L=pnA!0)>`Np+1L3)%)2}c&R^}V8-=u
z9?Ff&v^+@U={vzmUI#4_;6d04zegP*KF`wN%YNnG#`KmvZ6_>vVGAwT0I;ys@?C^J
zHHj8cGDr0P3w-i|l8<hCKZY}bF09xxExW^*{OgG2YDaX|5-zN#5%PpM0e2Vnd_7f~
z=R92kex9fB=74gMY@4&{9(}9FF2ngO2u=i6;6Nf|Y}6})2$j@30|~Xonc_5u<fPk@
z<=unRuf_&3FgaMjuvyRxh50gkTxa8S76A-~L5lzwUITuid)u5fxZ|+l6mRmuKU;*D
zS@{N+;foX-`S}j+FxcVmmgxh+<TEC~tDjq%Px*Rzm0%)3KEXW&izVMS;V*&-k|T#R
z-JVgdo80c|u0h>hmOT!0V)X)UrmaT37KYc2v5B<qLOB?g&#pW7`NJ7|+Ap7`|Eb+1
zI^EnPI%M{0l;zc>t_p|4mOV|^<Cp}54&u}rp7Y;E?3emJ(P2V9ieOA_>|U=-zyPS*
zqEWX2uiMSK_}{7COQU*2Dgfy}>OSbe_K!TU<;F$1V)I7D5TiPXsu~RHs<^Bw{~NW)
z186-Kdi6N!NWC=bc6<S^D))9Hs~4+~y?gDkRqDWi;x6e9jDC6Q>fqUKiAQyC$TDP3
zgCtGJa#eh4;toZ)!FyCJ^uWDIOu|eL!;ccWloWa(!x<G6eiOPT&WcH#37m8l@Mk)4
zs^!?OJqCWhp3R~UaRHt-gqPUn4&i}$9Yv-*h>nqz(V|XF62RkwC=a;2h|4tdR@mFT
z6>h!?H%y}Ddv9exF6}3l^S;#sd9TZe@iv>eb|Fh%h;0Jeg#;O4BA$7bmf9qL-?X(V
z=ykJg?JTFVv!>CUsw!aVc4d9({*V^E+`QA6uP9zHOS2$auHp)#uYl3^$yj!n2SvT>
ztY8KTBb27GlaO~<iH7i~7AZvuR%VcsB4|(zRl22p6-1+LhmZJowS~92@80S~bd{r>
zx{65|HjP1H6~LDs@;`8uhsWSO-^Ta`!MI=D)0JQn)1_&;h3FbWx8-MR&yS!>b-Dq+
zKzOS)l}wW}YMPA73bWfyGG;X4ZMPwN!8=&c!LJ*uREd#BC9EF#2<bR8W~)D9pC9PQ
zx<+hK0M+GsW2<e&Ku`^jkE?gafAY^Drtb}=on`h)*mNgd<zB@0`UAe>r(N|t8uBli
zVyaXDF~35Ctseg+m}Th_#2RwiA3|P0FtuefV|pWeT<5UIK=m1eyP-cV^Rd@?+3Vjy
zw37xcbX#d`;!QOw0os&+YDIKvWmp}|M0GK*59SRjb35t(+bSUCa-mm`<B4XZSuw-X
z`P`@u#<5^*z+N;fa=a0Xb!%pL$d+C8F|SmTt!Xu=7t4Py9;r?(jwc%{t!fz-j8|c0
z%u7YS<#Lb7Qyk>^my-8}t$~T*wMrM|>pCq6t;VXhG1<32*q3D_5(p=EY6ZgG$<4;@
zS+6KIZ<^6PMngjU+w`1%Rrj1|Q!*tPnR(~@C;u!Z;?=1vtg>%>UfIlYgCMBfyOVUa
z-8u`Qc&u373pTx6zU1AXM)@iZKV{|pVv&(>np@jeTh=50jwj9%&JSm{ENGj@>pA<R
zO5;FjI;P>_SKU9k$CBrAyAthUCTa3UvckQfJGj#Iy1A@o<g#s@n1E$Z;6<Ffuuvo@
zT@>vYk|vM9DO$G0gSEvAwwKf>a5!}JxUKwWt1Nn>6KHTXB}s9Te3nAb&i=TJ)ql6F
zvvppi%a)jRlazht0sE}qPVA-7nmWOpSEu_{@3k@`oeD=(UERe(s}H=tqE6Yo%XyDj
zG+6a0R7!)87h!_;{i##oTRlJu5B9$Ip`o@$()<Nov6#+exf)WPS43evdbP=G4SS^u
zE3DX!48cDolT?_5Tik7TdceXaKPux2+bm7W(s6sQxWOjX($1AuErGX=pf<MY^AxDe
zO=^DoH_J<)!n)%5;&|t<7X@XBQAFOiZW4AB!v4^A&tIP0rT;7XOV{32mQI2t>mJ*E
zpieZmW$f4d<a8Z8J3)P(!9em(9)G-^@#rX~m(JE%F1)FrQ{JQ*l`GrfB#zVf&R5sP
zG}6o~_DL?DYj#g#u8DMj?W%zaD|ISW>DzEmA&6Y}c3t%;Y@2cGhR5NxCYWtZgOuLR
z;=2ldeE{W^2T&j##pb@tX1xkeb%O8JC-?xh+e|2>LS;-74w)w8FUG6TG6i!YS5wbc
zu&b%4qB^9dY<YgAuD1n*!aP%j70$8`z*Gg*&9S74O?W4jP+K}K9#mM-ffA;u2OX)h
z>$)RLSSh*P*m*ye5cf$cF<p0Ki3jGl7Ot?m#<lgn5$2fG)&u%9e@jk*0;jMU348oH
z+S#`|#<jImmUv2%J$>!yDNb8eaXQ^^4zhjgLqS$J6VFjI@oEQOMkZv+k`G(GyUk|=
zC-82NzU*!gBV6^xApNe3LBvdJxe|=?4r|Y~RP~1tL9WIxpxV;CkT$F1<~bp%R0s20
z=Y$P4t`qs)#I5P=9$^o>NlLE3gjS7~!=7jMB~QfKqVl9N)^S0cXfQob4OBFm-kDVJ
zt7P~>gs;*Xh_9y;HtUa6^2@8~gtam*rTfdOcPvj0&uFhewddk3*_^lg_`=CoHxb>w
z@zWy9jhG)hm}TLdIaMr&`?W8sU$?=iLZ(fmFgre50yjSUPJXXDttKtUR^_hD{=&7u
zn@B~c<Gn?pK+Y9Wg#!7aFww;KTZo&RXyFRm`>CoIK(M}4-E`dZCj`Az0~HO8FI6_(
zSNRF+Wl{%iE^TkkBj4oa!LsS&n=399c+gtmuw&RaZ<}@ujak!FNHmo?I3(9A3TM7Q
z*M$~V`UQY2oK>k*V|HBqC~kG811oItn<A>HwS8MzhX^5jX|GGJHWYSRf2a#B>bSmC
z_jX^yDa4gt!P0pJr?@BXwQz;iHL2?RT-6utEm7a3rtfn_zhjg2&FXl|<4T@;3HeD$
zn@p-=q&IDf#$q6yik&xM3SrNsl3w3}DVpJfZ_=7|CC?Ss%>2>xVJl!@+Ew`wM@kfE
zA@tef7wv7^K)NJ%+^Q)Y1Nmx)(5{1bWtoGi!NFfWU{QsKjtp0F{im?TLthhFSY_$F
z?z~h~2>V?DR(wm85cWY8R-}Z6|49+LZjBLE%(%m4UpWj->YpLgKl|}!L&K{efBu60
zEt)4c=~RKM;RPu#7culYTumCPPb8rXEu<<`d<(2lf>zRsb>9Fh)*ZPfvarhU>cFDD
zJdwEec)n!7vU<?X-F;m`$9Y+O@6ui@bp?ECw)O(|=cz1x0Xqf(PE4mRv+tceGux=0
zyF*o|v|84y%j_6FXJ{edFBFJ{;M{P3H7-AGHQ@XRon_Z$*pky?8y%-r%n6{vV@A05
z;|)ewDPTDz=$aCX<>2BNJ$7J?zBJ2IUlgmtu^AQbB00(C0KHsiSW#e67>wcO_CoP+
zd@(#6t$S!&&G=%nvr1PhHR_m`VsBPn9bv)Y*WI>Qz8-;vUv=AJ`F4!?QeJc0;<-LT
zYxpjs#d3257QPc{vD|iBT%O9+%p!B{2NYZK8r*=t26wYAhWuBSnWJKQlrhQfjTPFu
zzjTpBozt<ub7A{CmfMCse;Q_F$3*Gc;JKg;p35Cf{FqzLPz$LGd{?T=W>TfDl%xyV
zS(YxE10l&fguwGOzjdBQznB2tcS9Vh`I{p(AXn(9Ix$4su2AmItuO2oLVS_#g8AKf
z!t&C0sG1i-3Q>%De?9g*caMJ`Ka(B1D>Uu@-CuY^$s*!45*%yAxr9eJ(Pl=sLTehz
zxbs?LktPlmlDO3&OX2b;sw|YgP_Vf*Rw%dfmj|lLVTB0K@^_cICXPIErn>D|h#)<S
z-d<`f#P}<(MS0<@2w`l=gI`~}sxX$u5H_yr6oN>PnECCE!s61`82E*U!s5~(M1DD)
zu=uUC3(Gs`gaG#n0G&0EdgZq_911avyWscr^Vn#>kz20;2R8ZRBWx%3vKok3w89<t
zeJ<k;NB{lNJpE&(9H>?PQ^;DepCq*1+NoR>bcwO_aA9+=st_WU*5JBJn@HbE+g_<F
z!k9=c)aI?CLX^HdE{R`ZDFl$3x#cZ>!t!6_@iL1})i}A9Ba|1z2@#}r^7j5WA;xco
zIHj<=A>Ao=S$bzcU_zM@yEShnrbB%8oM)3`IGoDs<WzXDTD8x$>dxWm<cQjBYdyCq
z<yLQf1*uSo<W_HW)2I+ZYV|fQ6cvIb@^D3oj-9+IXqJw1&&gi}%@TL@<y8LCR&^z(
z5aCpH3jlM%O-EX|qK)75QXLkMp{qv!VhmmE_?&)I-!cLF{8kfL*z3O(c4%>$Abb6{
zG4zgJH@S2*6O*^p<J9!}^()$O{!fpwCt%lcs<5C#fU4A1VG*hD7_!fMJgi}V4Vy~W
zFz2Ma=o&9=MA<n6oZ<^TVBrjpRb5fQ`ledA!s>n~`Mpru=+g|eSU8BM>hHqTpZLbm
zJDM<5K01KO3ps@x2!LdUNM9u%l(=vyCs(@A!b(enUF{MRKa@WeeW$=K`J)3X><*Kw
zczwB0YjGgQSYO|FGu)Bmtgm|>L^9Evr^0a{09=F)o0)^}ko;Kf@DkQDsVXSC-ZRKy
z1*q~fwG#}OCYW8xJ(0+@diK=}bVpy`$X^0yeo%0y+-czo2k>4U7SY`g#?U)@{HMC-
z8QAB4G?9h9ZhBQ>x7W4w`0N;7%hPBt9B+1nv!MO_t}~@w9}6Y8+<XNb>Iq(v2}e0r
zI@3W-tfd*~j#;%*K2ZYpbgl<1?Cp1@^DAIw|KdSK6`k8k$M&#_&OJP+u%f4m2lO!1
z8}(CrU?1FRA`7d04*`bH=J|s`eDRc?|AZW`0{i}tHny<$O`joN?F44ckFbN=kN2M+
z<0VPHRG!39m@9BKQZV*!(_&F4!}j>qA?06d0O@wkxlOUsJ~M>fA?b-yXcMaTsTt^w
z%4dp!Rlpg#)`1mH&QF~+LRi^_Y77Tv2p0oW;Nn4CoGTv|gZg_RT|M0gvW$=&b88B`
zqho%k9f1So<xvAw*w?>RPuqc&HMyW|?gMWv0E=TRX)G<d3X4`e_+I?YLNy*-^h)1C
zJpu(djzkYwD0i`HybBCAQHMq7j?@@>hw@kh;&@=4^A18r^v{P$0&y2bJuRgr>YvC}
zi;0BIps25bDy*t}+seWgp{VD|sBqzkMy9|!1mlZxG$(Knzv%%Bd;Gg<s2Z@o_gc8Z
z>OQK&A|&L=7<z|@7(Xmc)Aq|<(Ge22oQ1IxiIz`#{~nrXtQzGF6i=dsD-_R2HKZI^
z-B=4(SlvV&7BQPrW9S{TDN_%@2ln||6Is;j&(h=E{%ICYUcgbf&qtZ}J1K~sj}Srs
zloJJxgPt`|2fY|Rud{d$#c96I+6{P7I!fbLz#@;*;v?)m_w!A~lELoNkz=V|0OL(d
z>?HwP9wQ%2eLa^7lV*e1wHhs&<Orj4v6pcqG2WOVEpbnh-R7jnm^T+`#x5pMA<`V4
z%Qzh?(9{aJO!GtSv1UBE*z>VE!dUNL481bmGXvH$iafio@UOFRI*Z_T%&XbH^7-Sl
zRs&wu#<q?!6pw3mgmK-!zB-ePt7TOwI-z;i8pU=}+2luQ*zR4Q`H>pdZxlQ5>O!tQ
z{4AVDJp9EGQn_7|_VQXBsgJxyu{~Gs`WOw{2_;$|sbPMj*#67xYqhbjPN&5~zgDr{
z+|8Sqr_AFDiSpv-$-Gpn`fo=t-}hG7x8t>qckm#t-o78yui>}o-;bbs_66ZxB7Q?Y
z0?<%^O`&}|`CU!&HpfU}+50$32NjdH!ToWJ4zf0db{3ouC7I*7%<nQXjV56M$qd!s
z6gnt!pN5TB{`?Io7U^`)DfW4ceswm5_H_9tz}QLCjs&Tn#~mVPQ)sUVe~%#W`#0kK
zJ+4OBRY8ANhttiKE)1WC0%evP1Ofjd$S3KFOzCK;mo9&47dhxyreipKi}I*oUbDeZ
z_UUF_SWfv}IF8u&r$b$wY-t21F2C2tS%sQ7ZuuR%CD;fM6KEqqvnVD;fSB+b0a_A6
zeMARsVFZY!(=!89EX~MKLG_*<kXL>;W-*UOkY>!GWCW?qZD<6EZIF#1#o?I5W{}cJ
zXa<RAEi{7knv-~D1ZkZF=}HgDuOu@v2E|1)Hv^T>wP|hyYRNP38i8WVQ>qEoZ!9d)
z%m@}=5@v}Jte8*d!WdRwnCY*#FpEOndJP(V9}|;ckwLH``!oVpZv%{gm1ajeH3zoN
zi4m~cbzumMYDBu{G6(iqn5)@j5oSifm?FzaUKj(@H<TJ+?@??<&a&!`3?pE?iL1g4
z7!&?^oQ{owvC}_eVEPt)1FXo1nVRt>U>Z&Iz^d=UqR680T6b~|8~aU?td~a6_$olH
z*VrVQ?qqMG#i_2v*hJHpwqbK?r0qkfzKfQt*uZXk*jVz6NeD;d6*PvXufd1gg=)s!
z<wnrBmm-b~NiUNP1KZvP+KM?XjiKf2j!I)_1xtl(1dU~64U2VV2CZC4P0f0~l(L8j
zEi}7VtqXacPV^_k297Q>bPx0yn}M6KGpsDs-JsQQeA!yF@LeNtT$_h1C%Qp6mQK+i
z9LpYM4o=^#*M?)Sk(q<z(qaxy-}BglGdE{TUy8O5atCgvxo>E}>H83O;EKt@9Gw0l
z)`H8}g{$V^^p~*~+?ploF$ed)h)mY*)7T{AR-HK&P+G#q#JIFMGgI2Q^e7oy$;!in
zC^1w!ZrbsLf=1xV<1J%DQI3N4PG<whY$tP80EaWTR&Y3T%Dprc%?$;EOURqa+O1eb
zm{B-GYXyhX-|@8I%&iq{TagiMw^|LyevTu$H`bgLR&$$TK)Y9XV>+rP4&7?JvStQE
z&uZ*cOsG(+wYOmVT61{gNZ+(*;${5Ga+7%MvT$>FrpIH=uNpRjSMF8b!gy^4kFSn7
z4_r5iXRQCKq1E?WSWTN?%;Jdk@a$^-@+)QO!n;}*MgYqVZut_Q5x^>Vfhl}5O`erO
z?*<Gjd)FbYdDdS8Zq6rl59w<_?$gT&zZ}&FV7Zfwqh(a&MgaK)sTVsFfbT50mI`91
zdz@`Mjg{EQQCE#v`-1p;mF5tseCr<s)reKBf(eVkX&!M?JD(&IGp%mylXQj0ZLP{i
zD(UV-kQi`Hx-HGPP7LTqcUP6^uUPI*7>EH8Y6iAai+IiSS#Achj;J@+a1LZvi0Drq
z9zthip*!Mr04z5p>OsnlV769R-6`qqN~VF$)gGn+PeCgvbxQc!sOv898fUG1$7{fF
z_V$#fzQlV?9}eqO0}e#5xsGqArxvE)bk*~Bj`YJhY=0;IJ2c@=@Y~C8t?Z0|@)4@l
zh_+|eZ^pV-6JIwTu?1SnQpgep8v)&(z?<0T`FqpJfPUHsHK3sUJ>R2&ZDjv|#@E*;
z&G>2ZLDgsyOfv1+-><#&wYR{?Ozk(loP5C2@iWmCtHGhYs=f>icC8&FLAv(vKy3{;
zWt`ptr$;)CsH)XlSY4}D1=Kbx79@}UQgdoo+3Kkqw|<o`nNw9WE>lo-u>5~tXND-y
zVW|sv+U1&SQ`<NchG+j#e78TYA?#+S2|GX+x?ePktt2M46(l7<fBnj`b0Zh&sL-La
z(-x?s=hZn!_VJ4?bTb&O9(agG;(|y1<@~E(h4;mG<TwjPGgRS>QP(S~#Ym)~JbFjx
zq`no5;A$`u?Vk%i|NS!k_V4pw)$Ld0XOt1Y5QK$-;X?2zqh(1l;kZ|fRs;C~7L-Z7
z7$r*XjuFyNCh|knV4ZI2xG2UsUdTh-tMI}b;)VJkMvf~Q5OEbqJg5b2bVnDXRTGZ4
zx+$+bz8Dq(3Z9l!kOU#LV8sdx;zW$_1+GymAr(lk-%q_7{f63V#6P1NVgE&tI)7V+
zkf_5uHHbJ}vW#$_)*11y<(JgCM*aS=G(TqsAF_(x0y9ofvywH*)e7dHX$7T_Q5H)+
zLuD}`qNqsxrTd|uy0c#{8Q0lMX1z4WlS+PKQt2f!IV;azbL|Pc8%%$6p)v`O{3Lb1
zqCtAEzOUy>U55I-lNV}-kIxq(p5U?^<7|Eyfc+BVbJuHf;(EpJe7*KkZ;t+dbvSzW
z+1BEeMAQ||={?e-R%PV9G=M`KX|XfQ20@Qx+Tp7qpQ1C1Evp>tEREmDD9$|1GsAad
z?5UQOVMYXupe3z=L{(uBL7wDa5HV$Rxd0JGPHI@@ltH7C1Z5y%L6>!INVGQ{oag3Y
zbw~|H)T+B6BrjIbSxU?peFh=bvV_jU;IlANL1*E!5{@u1vK*Tu?q>C|@kzGd1&yIi
zZ!wQ<-w=YJrzPQ{Fm6k}f+koX$e9qRjv@Q>>zK%M$QWyjE`TL$v78F^&$x)ex_{ct
zHYIkLU2dh_Y^B|7wcTv8gWF)TiA(d;*f2vZ-1KtTbm8Wbw&9u<ZN*Vx#WiizhHHAM
z9mniA*;Qd&q_{Dzr&gdWsA~&)Rv;%;VFwBfE$X2iHU#6H`v`2xc<Wj$N$FXwNabCv
zNabOz$o9@;Ln=>eOM;tYy!E(1GTHIEc4%#lw%*qYZ9T9R+InFtwDrVRD6^ln^~hFe
z>y<50W{oQE3`5=Cu7?J)&Ymr{g5N%31i@>Y420c%y9}hgH%8V9-})&S9;n}5%*IBY
zQHP8+_2p6LuR)_hk(40q5~N*&v`wFQ#MK<~5GG#V0YJlR&~VwVLBlC1cG(~y!(~&1
z4QHU?%dy$;WaDfh;~PT@9PdHKH}(}YUb<E_{sI0dVkA-*ZQkV=K5~zX?rm?pe(mem
z<V6_AaH8M8e=OWZ$AfYF)>cj!o>uaQv3fS`c!TEXRd>*vRBIj2P=^@loP0tauxv%L
zK__yP{UiUgehnegX!pIwkCo@t%d5{3V#15>1kH;2T%5k)lC%*_uO7Tdd_50?KT&|o
zl4c<ntf;5qt@@@}w^NfPg0{c;@pk3oJF4>M+YdU0z%blQ6G@<r1d#CQa6`jzXPR(B
zZMc~xlE^R;p@}5YMl#k!5*tQRX(CAsbzU_(*ieURbjF4{j~X4KtuWS9c%oI{8ilD=
zq0}hMv<fd8g+i-PYZM-}3WY{tu2q<66iTgv&?r<|g-WAPYZYEK3RJ5=H3|!@!lOpv
zNvkl?C@`%;epX><vMa|$PI5^mgfWuu?8ESC^4z`M@0nYJSUH2?QoJ<<A?B!Bp1!dU
z<)Z8M5CnfTPZPKM2Zr6LrpxdcDfF|cez(g!na*~E)Xw(zvd;FH3oR3UQ5LG)rB;S9
z9%BphO*_X*O0)s{w{o<P(Du|SK~q9kWFJ3B8Mf1=hjuo+nC9B>X4T!S%mFxsB)LZq
zS`T|Z)OXuz7@paGb$?>}Rrv1PMnm)|693T+qhkbY9Wn1-D6P{EKQ{e?{ompF{ofyS
z2AtUbJ?+YOz69=m3HCaZ>Fp@VNm*1)rdIc)1Kgqs?`ixZr@q1V;xYOU`VGtJ+EM8X
zc-rM!ZF8GA5T5%-79hYMOF~+18s{!a-|mY>#&Syyh?8U|cfbA?0XDei#m4rubCVgH
z7;B$>c2}!sNyuX`+kBp>8)<GH<2zGk_Yo%e?=@G<WUnf}<5;(=4_0D-ivA@CWrBw!
zp`qXgLeG4~(kCStO=ik739@RR_^-;QS;o=@+}jZRR`7M^dzk!2u80~eSgNj$`o}sA
zua4@xj}#L$zBcYu-+C5|)sQ779RRS-CJmHeriz~%xq5T!efjI<_vGmVu|h7GmGiQd
zpplYJ$m5uW$_6LE0q>RgHq)1-1@9AaBwve=NsFf;vmW3j|C)a&6qUDA(isqUN#l4<
z!_|1lk#Q$@66BduT!1~d9>D1mZjyXiMF%;=r3;$DN777aX5Q0G-*5>sRKAc%?T8zs
zisyD`H?z&*#7_w!nTR%2G2{p)Gn$gZ1Xy4b-}g+pP2l`$At`gYAB(-bLLd$#7CrZ5
z_9vuqk$jpN6_SxWrzu<LTt?*o7KE0f{`mp{h6d$yEx(aCS~3+S%za;8_@0scnv4w8
zU{qD>VP@gAnRx*jQmBDvVA9!@ibAe?<j-!(QxWcXrbPk|A$?IHdWJ{*i9g%iOQP4C
zQ389yv-Y?lbDh2jn!yI4^O&_ZzY_3>@^H^p9<*!cPY-tSkI=;@zXp?WTX*6aocyAs
zdUx-Z959=Z!}gFB<&vB%1^t@9MJNA4zJt%0AX8u8mCMX!qDmyU1!<~yaS+IE3_X}=
z4ELGq$jIH&5@R|NW5=T%19jH|7U714fi{94!;dV4OQ)X8mTJIZ%u|MM^sByZ+i2hf
z9Z6JAK0QR|<1nf@rw1h*hq8-n56)s7&i<^`1@*0Groy#q2wJKE`a!y3LRtA3QWR4$
znOphjQ36Gm0V;;^I?(sa02T9h9cXnCpzX+ALFuM$U1jvuhT0F>gJUoX+NUK@9s~Q2
zvFkrp-2*qFD@KyFYM;mM%X47>icMUNa=%vH(?omVw$ja6##F%)=dO4U3N4b5nx<nr
zO~+5s0Z|sN>2yYYeT%?^FYWZ+zlZhSOOM{`$lvhb;zn>Ar-)5ucMf}Xg8P*zEe<jt
z3gps{qR^yx7DYfRUFG>ADj$9k$zbLNzKiTSxK4=+6`e$B16Xg~;fX1BvGbOxC-|+?
zFDw6s55o!}5zOLxd9B)x!vq<JN>GnN`1b62(~^rcNU!0--t>`WK?)IpP*^Dh8H%~I
zfrr{KCJkx%rf3>qPy4jBcQjjzAfsd(fKV2*9<dAF3p%}Jag?+L{c|u2hUw}_=09d_
z%DEzS26K%d4Yvns7fhBX?bo}{=6CwAvhh2DVH@+%o^v7ii+RIeGXH!m#-g4|Hb?#Q
zjM?ZgIM79>9Nu6PgQ>!j^Hh9hL)i_pQmcGvmZ9C-lmo?$8<kJQ-RjYJV>b_T!D@FQ
zKjXG?`hdbd4#?gCwKb0x&UwC_+el_H{byM2>$uJ+T>KC!8Xu49jzV?c^A{%GvDf2)
zr{jP>z;SsRFdYSKdvH37q3PY0;I74<R-fDN7JK@LE;kmhyQ|_ke`O2P<F99eGdkf6
z5gL!-nV`%X)DO9~d8Q(s+7J5eOo+A4-fOD2kaN{pR6})m+t3%^$g0QYs<K#A=#0Dx
zS0d~f2vk3hE(4*H{&Z0Yv$L*D7@bTQnJQ&)86T{z4{d%RR1TF;a}v+<KXRFpDc8%V
zw<o49>mRN<qqBF!UIcP0r?)L8mno&DuC&FWF3dBD7fi4vzSXb#`eblp2i{clr@PRt
z%K9g=Vu0HdY+a^n#PnKY`uq(%3gnDe2@6ulA5&3YS)IJhd8DuxsRx1Kii_(!^0#&r
zTcMgPaUaWIAkA`geMfi2-C&Ley3;UmN{C5c-5fPx>KXNL5y?S}tR|x)!fExTrWxSN
zJ!D6YZcg=oI?$M3vbGknU(Q_vSi6-2(+I+Qj+|!YM?y_IgBm@u^6oyMlOJoda`Qqq
zi>Yx+{sYM)sYB~Oh6#AuwOMU*+BguN`$x#{d@L``aBY}t(_GX0q7kwTD#mj4LX!Ua
zlZ1^;NrG*Z$qYC~`|PtTX{FtTUzgM6{#N{gOF0#BFx%b-yXZUp4FM=Q!*GW%XI_$_
zJYONaUCK!e<IhwQj`B!IPK)(uGKPOa3)Bq+1bdXz6iEVUN(woegf+l};6s=!rTLqR
z?T6Xq$A6E1@9yqlfEg#grWi?%s1)%>&USZ_Cz<|+`hCrNKNXuV{`VDGefV@!K;Wx_
zVwP6qfJX&<qN$cZTy_{AR^u@%BrO!NBDZfE6>_{Mc%e=5VE7gPOR#<n;P@NclHwaD
zWFD`Hgga&49`FR{?xzrf#6oH73EE8*%~QgG|48KqVpJkb<+CeT&nuPKKxuw}*3~8A
zf^b*(;mUkhXx+gA{Zk7Jj3nCX87qn-v%y$?K^`j%(#yKh9a9{Wk2EJiiR7jN$@_qW
z3%lrm<^b`A;4Mk7fH9^(Ra_4g8X%5baEfcFKY9J?16D^009MaB?i?c5bwD(MLS-3!
zx|Wf01mtDD=L#tb93fE<xk7Sg9d%}%a%P=!W}R|nolk+6xPnUb{&fST+_6&5SOsS9
zIm6O3=nBj1KWA7DZKN)36!bT7vm^rL&|k`-zm!9NDR=$~ZH#b4EL0A`qQk0ig{EAh
z9di&jmzwDM>&zH$5Jy;6*Ws>-oX&M@*3-(4hUI{LMB}5@lN_s~baJZLTrGQud(l~X
za~#zJCd`<=`S%crRnZa|=;Y*JG28Y+dCO!E*xw4WMw0Fc%nz%{;y;K{uXL!LQ@x(h
zvr+^pXJs%mALgl2=DmZmH>wAfR=<zd<TH7ibI$l{`m&vjXH=9qdN$9Mj^HZGy6Xww
zLr*v(E46NEi3V#~yrL%7VPH?V49pyv5oqGC!549Zwo{#DH{d5|^T14HMJjo3Qj@q{
z&S|SouUxk;Y7fjltd}lkc}}nd-lC9fVK%5_d`$H}kk$eJL1aT~7kwsw(?>~gSE8a1
z`p;hFg&WRP*>8tzohmrv&-#}~`tdKFDmdfMhul1_iN0c}!tO4Uj#d2Ov`clzrZgNt
z;Mv-6RS4CuqLY|nPGbGaG3=q<>K@mW8XMF>ch&&Hru4e*9a+X$zk)(zRS=`Dw&|1H
zns%$?S!B1f5W{0Z_zl2@3h=EduqN3p-1u}?HW(cbB1`z_4J+9?j?7G4VjTXXlNOl>
zqHq0Lx{{k-lxxZ^FB<#U(byVhkiE6=iODYJ-7i^rnD#|4$mj$zX+uWjNs=Nxj5^&+
zlY2Oy>(Sk=zHI}}Hsy&Gj&2n7`tO*fj7)P2D=rv!(k!!7n@(BR6&(xH39HiRhfAHR
zwo{KZ&YbyzBSW0Cf`n81X`h>L;VQUBNZ4*+1g~vOnOs}nHFGBulV~uqE9G-NIo(M4
zqtu+4Hrl|9l01bpgN4rhIo(ssZE=yD?LuloK8&Vzse!=OECjS|(5z_M&t{*u90Kr_
zedc-9-|kA$t0^A+)j_(=*lRM)=8*dzpbc0G{vd}2c-pmBTW{Jh7}fq!bA#|WD4Uoz
zH1)Erd--IXFU3k?XSM@vfBkF+TBusEGfg}MIX>rncRO&kSZ<bjrpD=Ib(=P$pX>>u
zsFi|3L#PyS))J{OidKYHswQd;-BR1%OjRE*r+2@%Uz+P%NU4yRC@oW_QAW{hP2_?X
zjG~%PQ}_VBLZcU<2UtC7T=a5p3Occz6r?pzH9_7rD2c|&eE+Y9PNNu}jmxHnRn7mw
zENYzluR)j`s&T=eP>NxK%bA~IT-JhUDA+yI>SCIOU~?@As~NwCXS2f?GFBkhd(7sW
z2gKwwhS98(N*KSDCQ>WdGQA$gFgjpx=^aGVuMC2YNwFcE_F$i&U(`rS(4s=_k7+wj
z^^1RA7)iEZD$JzUAF~y*fR#j2d1E5m>!CtXVOFSU8dE;rprcavN7*>gPy=I^Ad5oM
zc%zb4Eoc?&SVDzSD?)8dT=$tVqrvzX05k2fHgiX{B%p57+KwtxgX+qXJ$U1?opZq{
z$ZX<<6j!Dy)(&xTymyfcYEGt3`a|=bmqYA*V+{LZ<BNkvGEc6})4Mm~q`;ar)@cwW
zgb$23)1*S^xMn73xHV272ni@kUy6kJH%e-w>$^E~)53eV>m~2qZXWyY9)(S;QCJT4
zMeDmi4{gMWJ$48+BHoC8FcJRPAE{~vCotwT&0zes_aaKb77~=Cu5C9sf?sM2CuI}X
zv_~|HcdlGx(;^#`I{hR?<1UzE$oE=%@H{Qe+nwouPAflykK|M5#E#)Ugdx3d37=52
z1d8clSCY&oObvtD4%<N$p3R!G_MMbfo+)!2gYxB&uab4n;_SQa++3jsb2jiDPM^mu
zY)K#Gm4)Or`z%G*CNF4yUeZC{i7xkyZcj2Oygl?NzEOzFQGR3ZP}lAXHSJhkpgah`
zX{t=p4N_yb`5KDiEBXWJj>0UBVB)B6B;wpsnicQaRO17nltK<q<E!!s?6I6EIB2ub
zFP_+TH?aO=aS%mP<3P*J%@LbcKmG-eP}~sHI{ycF+Ra&ObJ{u(o&F>I!scUnw8Nb?
zx3}pd?H7%Z<wO_Ta`XtHzy8X`4mfbJ#4?>uW{AO@vu9T;?XE$eZ=OERWE{@dU&CVj
zo&7?dR|!r~fr;S$jhg!AlP`Qt%UdNVE`pM7-XLdK!X%<arM5fljXHyl1bL!l*^oq^
z$u~;OWr!vX-4{XW!W$KMO%dOeG&Og2oN|WFONvnZfhj6*?s==NqDU&i%KHn@EJ0Fd
z8GEMb1!xUH`&r<F;NuViXWkeDhlyt}@fs#x!^CTl_<(tS0>URqmjJv5+Sf4qVV(Cd
z0uz4_L7n?B0;mfN?1E&!C}0&s4UK_@#y~@3pn)-nnw<!d5NRmGc(;%s3Js=6GQo?w
ziW(O3K*{<7lJSK_IFVE#S>e(dIUx^NU}COYD6;HELge{PJ2KTQPpL2;jeA{5uwm)}
z5nN%y)YjZ=4d6j-$p`wp5Q2;Fz$H2e3vbQ0y;05yRy0Lexgv{t;gK|faYTB8N}fMm
zV$_pd3qp~i&yLWsE;j;KZlJ_uxWcR4(ZdPBd43p~`$6136<#N2If#wk3$Ckub8QW&
z_mAnX9Z|0ZJ`UqPnLVx!1gc@kGNt7ukk~+wz^<^qQ)f5zB&CWH#kko6tYnJe+#H5Z
zxG>{&7H1|+R+y}vuqKfK=$Ms~r4;S&Ht;(+8Vpo#Cc9Df-%PIG&Zj?qZvHB6zoL+E
zK?9RhV<j+CGJa={c=Pp_qyELzS+$<8YCA}_hNkf;(<hCG^(oz1Cp^!M*Pg#D6<^lJ
zx8h>L%p1hI1N=_<=lz~ZJPq!>f8=|-o*{3vzuD8Y{2xI^MEOL83hPiDM{yC>p=p%_
zZYyAK@}SK0?VVkQfECqm_TRFW8j_%?rQO0dIdb5oWrifIO^T$;j<7U!#c=&OiY85?
z^<c7gFDpJTE9nk~-@1B<`}uL|^vDVo&zY=pysfWW^2yc6qd8sa`vdB?mIcC1@D$E^
zq;ziGr9uwpg_9Lq?eDI^dLquA{SJM38hErZPne5H&Py82n%Cxfzx@VW39WK5PHBd9
zZhUJ0x9>X}=iM@=l)$?On{%48qHa1}mSbf<RJhQRtI(cU=FG0|cF~$UwB&ALi|a5S
zDdv{_xtrPw&U&O&SWX0PN+q22NT~*%)1;^-pRlNBfW@OvA6wdIIITBodH)uvf$y%7
zxzU=~!c7E*I_MbPev%0h+K*=Tk576q%VD~Qv7I$v&#1Oz;NIBGW+;lUFcgj2$}+R5
z@iDB%ceaLpMC<B{e^6h-e>rn~x)e0w>`$t9a&0qsbR3qwX%m~5&bL7xw5JXU(0j09
zr}G$@TX*Pv_<wwmPvne7*$8;r%~@@a;x-Ug{}Cn$gpXa=o~W+qx_j5sezA;kz{Po4
zzpyXAzD^*U0O7D5@9DJCDvEfXd1gFgk0<b9F<tBzaw^8*Z1*ipM}N~d2tdJe3{!-8
zJ`8ADfKl@T7KjTnxQpN~@L{q4<0g0^?}iXeW+Wk;ll9kpN3uuB2};3`>=9E)5}4)B
z{prRulR1>-8z`z*y*XnlAV~}PdSDXJge%l<+qwdkJ#$oOO=!hPAExlgl+n#rvOc1M
zj6C;%pT}ioL=wUHGkLk^Jm;Y(P<8}ULvZ-0F<`)QtW#zUk#xhS^hKiumBa}TI1xG9
zy9)p!R~!>4$%`97cNSQ2j1Cko&<RG2wZoShqN7hdSH%_eb|kIrwF8dY`+_Al7DU2U
z+CG`0=WCKl0JLU^w*>FV+Kr*~8mg=pM|bosNup8+M?Kvc*DU>9I$xH(A$t5-r!Yqh
zfYqx$fplWfY~##9V<=RTlv|54hw9HUOoE{Yl2O>7go2R=5+CkRAMPk0?kFGbC=c!g
z6bxezEU_-$-Ym+C7Ue@rSk{jZ8ofpyXv!M$LF30M>d7fV-$?KE4wawSC_k}Leqz&k
zIy=yK32{_y68*i3lpmhaA#*$sDNjUk!t=Cj9WHtpTdGm7{-bXXG{IZM5!TNYfx|$+
z5I3o==r~Uc$_PK))y<&6U`<wPQ+Wv!O4u6G1ZH`r<F==WnX$wv6)BQ<Tm5_~28Mw;
zx%@6<`8O52UuSp!{QLZS`uGioIOinLi#U=TQ7Oj1>CDhSf6tJkLEvhz%UqJm@r;Us
zq1W>HXd-ekF~4GCjPq<yxC~2wG;9nf73wP|<UTB&J6c7a9gAk=a<|+fwj%}`^28%~
z$C7N^)2!1>Se9*_X*g$$U<rnEU0d_Ao@LGtg+}X&UW%=$gy4OBOD;nZF+JLiYXM<a
zk2ik2?Mb!0Z*>Tc0+`K!!zOQXs|kW#(iFb9FI01@3-&c;oEDQWh)ccs-aie=(~(?y
zA@2@}^2L1-k{8Ppv(Fju>R`(}MsNPu&!W_4kZwG0juXV#3gO+&q4RfXB98Y2&nrRE
z1OAKPim!Ee1&n0+jR99%(y)7ky)k#{`W)MZ<YJg@PjWHPb<oi<6n9~<o{XQeTnvXD
z(CrEF&33KHvZ%?jlNRYpbw!xv8HuLV|LR%8+(n=F|ICV_bBy|AL(zE;ar?3;VDoKJ
zi}()yApVQKdC9T1iJR+_F$@V<-h3=!P2rn`$mr^_6l>ca)Uao-Qu1BQJG#}qJ8gew
z+s0A^=CuNXs#xlVwX0~{o6e?^vfB$<l}`v^y=Roo>Mc;C)b!R=8*0Z~H%d3vRh4<7
zj(&`~%Fv0r=}kj*(VytseTcr=)QLiJ(^Pe;wB(tW_~~xA6#sop*ehEn*XW<1h??6|
zT}jJZUrM_U6w7M^{-E7&D$rf90e^~5Xg7sm&~TpZg#QCl<8H3jE3pQ6+Ra#7Z`v>v
z*8UL*&h2r5w9B-jt(T4M#WKOrl-#fl?fUCy8xja4#DO-QkRl8CF8<E3IRf5}*5eTy
zPzwwf4<I&wg|AT4GLi-`Mgd86O=sx>Cy+9NQ9NR<4sAbSsn0MOvCV5h7oUgj??2C9
z<GTk4f|Oto^3P31P{^n))`+FV_O}a=;1~7@evG(7!&eL+!({7#YVf29g9K|F_*~t9
z#%=Hu2YhKk=U!O5Cm4G*HjE%j6Ko9RQ?5B|s|nlf8<h85A=aP8%oyUyYA#k>#UHJ2
z=m4Hj;k+iazR7?hi>@X#LrLcGH*>gpFq$rtaaUn9#U%4gUSOO|Ih$3mEl<<gGZaM=
z6fEj|*#*=3G*dr}vnG-;1&!Hgnym4itb(uDa8{5;5e}H?$pj?PUa#zeF$*U~Cr;cK
zSgCHluezpRku=T^-(eiijDH9P?7)*+f#24dUF&SuHCC5tiIUYMWObjAJA`$q*j>2U
zohZBdMD6@I9r_WmoZ+E--F4r{=!5LJer*>`I<wTGm4dEKiGZq%yf)rEhCjtgt>Po1
zkKl`Vh*f@>j0P>P6Z=gY;i}vSJs167hA1psYSEtdTeT;uY|q@+`sQ>?=w%yPAHoDb
z!`$eG;`EHiB?*#L&Jagoe8<PAJ|{UB3(^cH=Yqu)O|c5P7)|x<%$|96j20NiD=|%P
zC}>Z8z_lgI&5H5a7EwuK<upxGwoweCKun=q6mCQT8Q4=A=8$<KWY;bGQgijr-KuK6
zSx6{@lfMj~O;Wbr7VSi+Y#>y+5-POAHrmEDNmrTH6Y;^lemjR{zXoT(ovCPi(K#1z
z$bIY%9gP)Jtj(bv!F~kokVm_32|wI;(s+3CElXjzXIve6l$I(KoFR9VkTUQvn`N8E
zs=Cb9inTe$j{T8;0?C<snYZyS#~Z)y50D_vobQOR5JlcH^K`uAm_nk_9;FuuS&BkM
zki1lvt5L17-p6A|g$5rxk~Jm_h-pZC1G)XV_Jdxd#Q<u(9cPKn17cR%I?)yD-<2Qm
zj(+6de?=whJv=FSur|L}7iS?^Hv0bnEx^BNVn%q{ix2WEb1u#ZG!9QnO>*>h&x<!S
zF3rnK&QD2=&rC_pD={?6ERL_pOo=ZpNh~U1j3=nx6skTsKd&S+uQU|^(9a|W00000
F006^<KMeo?

literal 0
HcmV?d00001

diff --git a/default_8395779702440794847_0_22505.profraw b/default_8395779702440794847_0_22505.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..4f3089ff92945a1cd29c6d7b984f73caa9010bbd
GIT binary patch
literal 336312
zcmbT<c{o+y|2KY=sSr|B5;7b^MX64PG9`qN$`GBD9GOcxWz0MzL?ScMK{7;+DP)K;
z%M@`GIaFpjDY@_8eScQp>$g7FeO>!n{o~_ZpU3rjJ=fa9*?XV8?%lZNe8a_IeKW)V
z{UiLJpS&FZ`5*uJacal^|97mvy`2BQ|FZe;`v3V;%co3E^<7{0m3(@E;Pc-K(|`UG
z-+z8qPTs3}QR4K5`TLHc*`|-5TqDPB{C|ISmOL(bB~#q(%xQbSmAB>L!2i$x?f>}$
z_~0L0R{i2wcum-*?ys(J><M@2sQ=Un{{H{<lM(uh=5O!ocFtIw1oaqVbl`fn+P%A}
zm^Z`%>Jh-`?1bvM%KW8Efv0v$1${+?woP$94Wq*XIi-n<?d$t=RV)?-qkSDtjfY@#
zm?0-u$kTTt*P}l(z1p=+nataX7#$(V*%ncu|J8lF-QAY642luTKHNwC@4SNk*?;}I
z0s1e^*ELUBd<s^6Y%gp_<v*`R#aIvA*G<y*?i%_uH*wvGQE-_OS&Pwu$NfqjWwGg!
zcs&nJ^E`)9RxZ|@VP{t!wd?~&v*pn@47YTubY5Ydhw!*(+U!hB=;gRWiAgz<%s6=j
zkJy){9w&S7Z_btyci!ocP0h{>7#(=~IwwA>l-(!V{9F6>qQL{PQ?&}%#(g6+?mIRg
zNHiSZBNC!HDjT12QYjvz1K0Clo$;>5L?*k#1=Eb>kYb`KMh6}*j-5@iM!8$g<??;`
zv}0FZurQ)CZ(M4Us92UQuWlDi(`s>~9m19m+*eMD34U_IVk<K_`=}1LW-b}g@ss)%
z#h_!;^pICa!qFhqgox-2cIloA9}3pC6Lv5Np7>LNLv#jMLXXZCB<~l{iK+i%&PJgf
zM9W9wgP6XCK*7G=4~evQ!_M_&L}&VJsbSpFO?7=0;=Io+Z|@``I=4o*_zx#9JAiS=
zAv#-}wkTemSaSp8PLoH=r?g?G@ndV-Tc92?qLbWXx-R*w<SM9#i0Ev^mtF0BQvMp$
zgF|$fH@FK{^q=Aa_0Z(d@~P&(p{5_Q5eMoaBRUV|CVognovH!#5D^_*?AsjIcIgYC
z9vq^huv~kWd-c5(sE2j{EuWYtrNPSeW5S>wGNN;AsVN{dfBOYc4-wJ%D8}!;kjt?j
z)PqBGj4IYdR2;VL0QJ!JqvaE9&7rWrgqXKgR?wVl=3WXJ(fRgaA>2Tn<Cn$l>pX{9
zT?>d99r*ZFHJPsWrT*ry+I-xem)Z4$au^->xZ~k?D7)URPPl*nlh53@%U{jyL(9jr
zohUbCBOc6p|Gjklfa}vjL`OH2*)qlKN7>a?&$c{*YJ>}-^S^gvrvA5>B`X^j6Md{`
zL2?)!IA^X7ldRy8$>{~xUsbEyTtexxX!(q8TD7~qSZCc-#@7%*>&l`aI)ed{xCxuX
zPrsgN3a2vpPLmLwMbUC~d;<4JN!y%R0r^7#ctq#gwhe!LZZS#!%SQ$+AMT}0ec9IK
z@Sc<^d?a5I0|n9PCzyA>O~$8zdPs=QNygq|i*Fu}fqL+Wj-O6D<Mld|N-*wpX|#L-
zcYQO9i`h~G#*2dJ2&l*Rbf~Qn{^f({lwEo08MgJwBhVKf(Q)mZFOGPAzXJ3{mqN?u
zQ=V0i$DQjXpf3udL&8;EXxy_t1dcl-M91^d4d!+inZw|?gGY3J`mf4b{MI=E>Y?M%
z@(EqKnYq?}P6O0KL3HY0t|k?-zq<|UAt5?v%vWNal<nVwdhm$ONO0tl^ql*QpdPv;
zT0V8&Z`_YbZ~h7Dp&&ZZ@uSREOyd7De-IrbMy-zDb=13{9z3EW89{jU?Zo{n|MHPQ
z%SYMABVv_vc^{~Ug6If0`u9AU$&OQzYB8%9VRs}UIyM~NemksPS6^c%XEE=-Wr9a^
zGHh4yj(p<opdPw7T0TBk61$f5Y>GfV6hx<_Yxh1$qrJJH9ulGx`RrgFo-6tZs0WYe
zXjB!<$v!!n2I`@Uq2*J~c5m*L%K8kbhl1!lN-h1ZV6xxvlI`qRZUpCX5~3rsXWERU
zwvYec@e9!rWqUWwv2$GM-|=fNT0R;#61>iw7PI+x{6cglGjw{S4=)&MJAHLqd-(M`
z3DK$HHELxdn7<o&JR3B0yipF1=#Xw+T2kSdmDe6R`uO#F`Zl^KwtV38@Sygh-}ki+
zyL|Hy@Xw8{q|{<`;LkhZYknfeH4h|tnh!ia7vkORi|BaOEKH5IPl}nH<qa|ObdFF(
zbjEUyy^&6M?2tjcZW^+O*w29IEWdcx%V0Xd+ILx&E#_%fU#$qXoZ)=NJDM)&4BvhI
zFxz7H-NU`XzK9NE=&7$WkBRNTQAKpRy)L(vd`^=A4g;cdyYknM@V~j=LJPc41@ba(
zsuf1dr-1p{Lo<&3yr3RmL<cv%=lLfqiWG2E5uH_PS6R2T%w=#tg#po-3b7CL<}p!z
zI+M`rZ*Cq}y9Zl7@OHXryYmHWozSgK(Fx(tn{`-2FgoykqN&?9{x9fqj8R-$l)sp;
z5lk^U@O=j-A$}jbfy^B|tG6`-I~U~T5S_tyF{J#lM;)LZHbjRsx+$pOif$8ds6y-i
z=MQwd<iCD}``Tbam5?lb^aVH+MCUo1iiiZS!pW{0_g`(#S^A?eI`DoY?uQ5e2`x@V
zaDT@T(SfhCaU(kLb+*pk*m8#F^Tmq3qYX^ww;wcB;XE#P#x@?K1Lp%@uQNq-;Olh)
zhz@-G8W6;m58T&{Ha)-Bkq>uyShAEHzWGxw9?@|N*eQ5Y{d-9%>(}bV7=8~^j1Iit
z=!&`^7}q6PK?pwd%xcexX&goe?u)UG??>XHEcf(R&K2kG&CzMQ(DJcrU17iEluZK;
z8PQoibgQmp>cdeH4HL&>qu;HF7#(;%-w$GaPNT?mgY!%|j1HWS;iZK>qa$;NfHSuf
zEgz>V(noJq`sD$q5Yc&#*H+hQf4>YI7eq(e-(N&Bt*H+<a){29VOe7w<G1&~ncIPu
z4=abc=JxgLJisYLbT+c~>Xk2?|FLmWw%OV=RLKR=nLpf~L?o$pi|*4Jm8##JC5Pxl
z_`W0GuReRk-Hd<7r?0W^<^<64X|iYhN%)u_?L;`oF=(ySTZrg*XtUcXst7QF^A;CG
z=g3vQ`a$#jj~i>oxDVyu36jI;z}sn{R!V(#irt;wibc)Oi(fkF{Al^SOE+1skMI#M
zey{s(`%kws6pRkMUwvn=X^v@yXA@6AdSi@3xn>AP2i|WKRR2B7=$%^;<u^2T_ELwt
zHli~gymfNZ6(%yMhYitb-IObWpJ@~W^)zos%Xv%w_ZX5T*D9zd1kw3%4nM$j{`nxN
zM;p<p)AAq+%N%hB^{^p2N*c@&QKC2FK|Rge(DIR)t<Qb_&9E5M6N2cR|L`DcXI9*H
zP>(jE<0TU*sIt>=4%EYj=zP(XVW3UN)Ps7O`OxyI{5k&aV+`>)s3!!`x$te1HJAJi
zUQmxVqO;&mNte2EM@W5cWh~9@)({(_^T&5TgU#vEnAVWZWv9+eFE(#Q%Lo2^5rXK%
zKOfvRInnbXZ?yW*lIyKVZA9l%*tRLP{1?B0!-nXjE0?+(*k979`ZgfSH?Hp5%!`&!
z=Rj{_n%iG~;DjJLUvzgbHx7HN<-OgT9rjiGmo`QRK7QFuzq@h3CsD8S*MbjUCeuf5
zL`Tx=N&jx!GgqqfG8uHM<DU%hV9N)7Uetd^)kBMwT-!8{dtcPLYnp=5fsbEP0b_e&
z!Z>?CUnGnUoDbjPBN;Zw#5hooDn<vchaRy1bkBI5GJDE#g~;=rG7N~0+|@I$Oa`_T
z%>1=JeXWCXx0V}Q&Tu`i>ZkH&)T^d}<BRB6GJQ1O%ilSC+2NFEr`M{NDx!0uBJ5TR
zf3G)i7!V!#hns6o+B1uQ?Y(vjT0Rf&-kkn+#rqO)d=Z_P-NF@m2fvSk?Oheo(HIel
zaP(e@1r7tEqryBob=;2US;pK?RkPiP+-tee@^M#sSp2N?W)X0F5uHWe!g{t&E!v(t
z7mI^R3Gu3kPE)b<Nvr<TNx)%1bngGT%g1)wzrpPK-;=Lj81Ja%M9XLYm??eU;P47K
zp86s>_IBYigD+GiBD$kDl@GFgP(^g$>qrcU4t%~*%Yl~9e_fwPbZD+iFXg{!Tp3h5
z&9bK}F-#TFk((%4ryLC~1LMws=qzN0f7Fg(&<6F?Zbr*TU0LxsF=NL(c<$X7qXQqm
zj1`@EEHzK=Fz+oDlAAfysg2Qrj~6won{W4;-4q258=|BAYMbmi#*vMit8LAxVnI8b
zH=*U@C`jwgcxy8WuD66BI`DH=+K7%J`w9M!@=GS59yUY=eon8M9W5W7N;mFUO<5OE
zPY9y(no8L0!0n|29Bo9WFC%vAV4?dP;IJV&@b_h!+0gP)G4q(W@sjAhl|P{R)SmHk
z2u26qzD$yAzIgg;i2=tD(V@T8?YZ}BQV4vm6u{`f+iB)^=MQ~*)2@Nfl>@A3`Q!*O
zgdBfibOY2AkLV0n9N=6M=~e>um?Am>!!|V)+dkWXdIS(1gQ5I;ujcInKs^I2X!*1x
zT?iWfefK7)Cmzv>mo{yY=yPBL^_U_$ruRC|OkLA@1?mw%be88;kImlS6AbDZU`ETw
z=23K%##)Rqs3#uL;eC<YRCs0O9jM0?(FxbHse2ut6bkAQKy(&j1HL;Q+n^8X8Q6%H
zPkM<#d%lgW^0Sr7KHsS~TjDV~@bzB95sv!MZPj8|J6`MO1(FFwj1IgXJ5uoO&z(%;
zieA~bbQ^L|k{m_{-v5LW1(_w39-NIFQfnxdRkxbkfR<1Bt=}4+r`mkXPl+=~-DzYk
zM0DW$ur7$s%^W#~NfqVv3!76OtFV+f${{+&duF<uDkO*!TB^8?iMYu*CbWFql*k{l
zs;NRLC3nx<S5gfuM08fR4F7i6kR`ZF*I7<9SaiV!qXW;M5H|IpWQXp9-{w4ZUdWfk
z;W0Yg&=VB!b6;5Nf#)Ioxk(OVJ+Kq09WA+av{&A4!vzAL8rg4-5!-md`D~F3B;kEd
z9J<G&9(-!p>o^6`*?Nq6DRYy@3OJAQ#pu9&Q4>GK2aE{214k9nak$SBt@-?*C~z1M
zokQ!~9hZ^|lz>yqfGuaZuY;ckRr`d$h62YI(RpJYNZZJ-`xQ8<hz`zjIzX1gkrqHm
z(3nUdR54(5;Q90IJ^6SzA0a<(VT<0?0=fR?^}qioAZYXXuU}!uM%pt^I6MBNqrU&^
z)O)QvqA)t_kbJZ3@jEwWi~d6+nvt2|T}D_Pc)S#KzZ|!Ul%W{;o^m=in#OF1u^!mD
zZo}(Luucm;d()fg<I>45+!!4=ACk%C=P|MAI)A6c9O=usp9cP7%Nf3o?c{E}tkA8#
zjg#fF)5bk}Lns&>xG(4K80VW#!BghcB@>s-S~e1*!?3Gp^FybPUW?nK9d?^sE5su@
zo-L;+q>C29iL?0IkwWhl>1){Xf%{T;O-|M5duA5jLp3;g<=ICHqN8-}$dJ+Ev2(t=
zmmWyPh0T&MI$Y3vmJAM~*LAws>Nnn>y*9mZJq@D+_ci~AL~aWAagLTP@+m#!C`G{N
z!1Jf9YqwvubfMnm!Sh+PW0&1jF*<NP6J|KuS36WZ(kfei-+0i;%7Ezjj`h+Xjq#iB
z=5W1FEXk3r{ew2{uf#guYo(v5y?)!vGi&SpGG9cemCc>e-A3)lN{i!h!QB~|s))|J
zSMHgc0>|WHYuB`M;-oh+V07T~7Bd1Po63DI6=~A+7f-e|TRcVw9xq>pjnzkA;L=(Z
zw+YiaPClgnM$7pQS5Mx|*yQpHg7eRXZ7t0dMCZehK-KpPb$qFWzkfKBmBvYkj@_Tz
z9~G`J{<WyoQ<c`bT8c+>gd`}k5_ekuMs@Bl(^Zm9qOYRmGbjDiBiZkKGH2pJTM_B0
z5DKDWRsUIIFfJ)(u#rD0G1)SLgy_`DYlhgke5TqSzbm?@CAkWZ=sc3kGZOpRL)_uR
zE72=T$ff^6%jb!FkwWi?%f|T|-oG>zh#x43j;gnNLqdtgGmCJh0Pp)BUXT!-qJy;6
zgwXT?GnO)1*6~|Xctof6?y%Ne?sv9t4lIPhv}fPwbhLbkT7x2k*4yRQCQPn~(!ac-
zAUexB=I_NeUJKdwG*y+;Rn~-r=&bb6Sqz?hsB&<wVh%C<z>P<A@`6uD#>$apJn43t
z;oq-y(^t^)VR?K=<@CN(j)6pL=NGnX<`hK7EJN6E*m0LoW$uj2!m+F3Bt&OD#c1n{
z<};5C6U;9eFP+N3BRV+M${rpc)}#lVy{~(jiAMCFX!)40NVN6bmbv&~SUKma(6k^0
z(J8gq<Lp+)I&Gadn^M!xa+-wEfzLOR9Bp!2WXC_I8GH2_r7U}yVszl+*O{JuVaw!f
zFS9Al1U8olGXX@$R)3$>VNsT;;&>PCZ|yHm3@oGNe5tf|rnRp&MSt~fjB$?_Q#?io
z{#@|b`h2+D0gmym-#O9D^92_O7#%q0(-$(`QX6+z8Q`8DxmYxvr;5>mbN<x(ZMZ>h
z+TmJ?V%C!Md2a?pM{Uc8IIV-vBK+D;Oyh;vWonnua>i{q^Ezbb;O+IOhffpo24DLk
zI_Bx`1ZSxJr%rMS$WBwmIaLvzt-8`PoS#oP-CB=6uYvzXVnB4ZZEn%K9nxiW#93{r
z`ugbY+C{W{)~2`MKAfc;{FP*^^rp`5yDvruo`-MAr@oqZbqyR2OHh5j%qgXf(Sher
z*+c(!$C-c}A;qehffG{xY=}-__uE}{+q>3s_6;6*mf9)XynvR^qE}z)&F(vU<~4s)
zU$oj<g&;Z#dBgJxg}Q&z-d6XG%#<o>BRcFpQN4SwUF?|AyhTmCapo%<qN5kC+oH5&
zTlZY#ns-Ko<v{a1T0R5(Cj*Sh)k#D1;le6{QQtxkor~pj(|g~vs!e@L3-)RbZq>%<
zK(9Mxc)ixbo0wO0Fyr*w#GZ)1`~-{+JP#9n+UgT#9#1@}v9oyFeq%-$(V<?~`_}wN
zNLl!rUxdp6S^#wpEoX&~4V2D3LeDwwR#MmU0%g)LI`Dm&t0F^5r<CK8&tBI1W!j^)
z%LStY=hJJo|IU(y?%vy<#<DB<H1g#Toz3??e0nA0#y8HzCD^u0(RgkaEuUiruX=8p
zM_*E<>}#{WC!<z~=$M)D$IZPDk>v~Vllww#4RAqp_FX9IRNjxP*4nEoPkp5|D~ITu
zZSJ3w61ey3-+h@GZ25rq0)xv*hoTP3)b;P5j8Qs}H_eE%V!&7ryq~ADxa^V{80mB_
znJU?ueP6H{V?FTvc{jlO)L+(%lp+1=9!HY9Xb7T1*_QunUA&?byr)zf(XqzAKltzp
z)4+aX;=G6kDTEE91LyNu&ZPSCP%J%*%`qT<hG&204{YNF=M%6l9vHV%Zrna{`6Xji
zbWs$d<6Q94;~+Ww)m|s%f!IeUvJDZPo#~MZb(tU4e@iJ&%ze<y;l}8|*E5xNI=gFD
zZMt_VuRF}`!lVHnqXXyjsnK3(Z;3ybpQ?2<m233@{X4dt*}w+zpP%Hv4Nf|BDFYr(
z9&dg=l-@Fj(SgVPm5y=BkzYsiI>k$m%viQ<r(kr%pnBe)C*Mi<B6Ct{yxQ|bRahm~
zafkQwCZ1nHXd#AL!LctmOw`?435Yo_GbV)icUiBFZ^io<C-+(kBRW+sA&2626Zx%e
z-?dxlsIpNp<^zwr{dWCPD(7`Mj}Pis`<(EZX^75PF89I<jc>K|2wMR&y3$tyqQmyR
zX{<4>a(C2yzk88dj&Fn!okven=UFat;V<XRT;K4~|1b3$w)qU_vu!yfrn&CLWB;hS
zBgbOivZWz9K?+X>%U?#FoK}|@;iI^k5)d7)o_8@>eS|BwmgRk$S^|oN5uG`y;i5W=
zwYuFuKiaiF$$CqjM$0E^{%^q*)+il|+AHDP5)=Z{Fgoz(<?K6}$_GShO@gl4Ut?_|
zGx%b3;PLuEW71B&sd!~khc=lQ;9;$b=)5(ql;vC26}~#V@zdq!ms}VSoiQ$(S)tZs
z4qNJpX5pov>$Ov8IkOJjQ`G9F*|4t2wipD(r1@fWSfTx4>YdJ1C-s=f(;vUGTb}Z$
zalz=o`)5f7-)O>**OS&M4!jaVYR!0z4qQ+0^xhys(qh#y({hcRfzP2hj1FASBJYON
zo4*bvK6_j+^!r@$n>iX<&OY^#YvHFiwlIV{u8RGTbtpu1T+Vtg+~<osaN^R2v*UC8
z_gpYKa6Xlao13<J7t+Q8#(4B?jI0P49r*a=9M&b<+j)~GQ>lz(NItYf4x<Af-xt)y
zE$W_Va&^4^aC%MirYjDk18=9s{<Vrv^M};!IMvR@c$Bx(Ceg-g%T-Trfi=$3-mo(l
z_5V1;k}*1x(01`aHt};wODk38-Ngf;cgZ91h<#15HTaqhe9n1b%YOOy=!BywqQjn5
zV0^4={4RLzO8}z-Kfm#8k!h8i%i}|6xBIrAe~<3O>cHdGd@5+`RI<8N%!t^a$??&?
z0gO4r&Zxcx6(_TA@VQX(Nw!KVM?9i4b>gv6t2p(SwC|yH>HOQ5Offp}aYy#esno5q
zhabB-zfdw*aO%Nhbl|=|ba7Sh-?$<CM8E*^EYtjc`d761%sf8H%`R0Ecs1%uWxUjo
zAqArY&*vMK_46sgZmr5L3KhlkCZ<@o3%D=y{3{m5Y#)~c;)l6E4unn+5%baB<oR%i
z(&cNc{es;YLXUpp5S?=8BTs7ky!4(mJ@%&DyJkkin9n9?d(RH%{t|Q1!LmrF?~Pzl
z6@Ct*10Q$dQd$HZ+eO<nE809q^w!j{ju$)+Ns*yKGZH%*OoAFqm|X?$#3R<z*S(2F
z!^P8x(bKY%SAU8`!05o^eoKdJ<HWDJx3jE3SvpiRS{TuRzmG<pK-(_h_wuD7I`H?}
z2#Ah6!>tcV{@$jZL1z_8t;6hv5uJ&agrmaogQLKqj-%z1IV;|fC@1mn{eEePPVoS{
zp`0;aQMyFZobw;uECQm_-07u@dzya)yiZRU(OGjjT*<bgcj#X}U(oWAE;j4@@=+lP
zIBAH^if^;0Q|I%$8OAr_$&}tv0!9bkZ*;bt>1y|=><9VaFgoydDra=!=3?-z58%D%
zw9jby^w{5HXft@z1{^Y?(-y_V-}7SImW$mX)enPwQ;CR<=lUTg#qkI+3xVv*`h*Ab
zI7Fv3u;F?VZ^C=9?f`8JTR!l3?I@6!&JmVx1x_KN6ZmNSz^M7>NZ^nV9rv-`KKFgN
zQZRp1F*@-4`O7BV!=az*59(pS=)n2>G_9lR-WkyYPBRrP=QV*N4=n=lTY(dW=-l>c
zn-SDZa08AhqLXB2P*Sn2RunkGh|UI$AIm*-n}6FEZ4_HR@OW{Ze3v|^Xk!M(os8(n
zt0tAJXDn%ezK9qdc-(KgI5i5gFm42n9HOJhJ~+UbT`d9}`Utjs;Ceo7KPHGbdYKKJ
zT0|!&YGRt&x>5(65JV?QOZ;oDJnsV7uNq=>;Bim4Ej7^mwNDt-!;R5_^SQ`HxFj*o
z*zX`CAg$q@!!_^;Th8$NPP^oG+0<nmO^CDgU^2b*nN*0;f$RBme~D9Hs4p=lhmZc-
zI%tuE(Sh@k4HE74_#|;>j)iMfzCn^7kLc_#sj_L7;+FvqeHdFla6K!hT-?Lw*NlKe
zL3G4-F3XlOQ9OY|LUdBt<l6=m^Xh?vM|2J+>Dd>3nP>nGeF!Zd{IlvSxSgCAfI~ra
zr1oTc#c&ol1BZm@O!h@x8mvD5Klva!GeVX(;^L&OK|S=3X!)eo=cH(t8}<W-g6KS}
zId=c^%8@nTkPw|U&$i5wIn#Z>!6Q1q!mC2P=f7MB4t)?UpKd9a)Qv}!*?>bqbjBPv
zq}Weh&;t$$(doW?MJ_|n$_hAmL}w>+gAFsIR_?V`6-wj=wf*z~w0z<c>KFDIKHLW0
zYeYeG)Y7(Y5LmzX88{?F=VqCkUy+rWJ9w`V9?`L`ea*aAtn3$X=>2H<9OEd7i=1=3
z2HvYi!RWxpuMbK>y(RY_d4l(k`64<S6TkHg6q$Vh?^V;r=)l*JW(z;qgxbv9?%8Z9
z${k6&j>G7{$FG8B(;|B6RcnwBtq)tya6YY}Lot^Fmm5Jog{aO1E>2ZOKMM3k!sx(#
z*}X~L_p4`g1@wi-=)iqNTn&**KW?4}`eHzI6v&)x`_*ISL0`?i*m8#Z+T8Xx>kpfR
zF6b)+qXYNF(@OR7IlOWm^ks<X{ORUDFL-%O67(g2(SiHABUHA0`DN87(AU5RZ27=_
zWvb~k>D%-Fn}=zLj+LTUgj@1CZ_pPJqXYNFV2Jn3cQf?_ec>=Va9_{O9tZcS+*AkS
zHP?fdPo39OzmKVHJYfGr!RWyIpQHBo?@kp3?gjb8V|3tr)`dP>GG*+01M)G&=)n10
ztgZ4T-sD*a`3NIAb#jIHolEzMKt8l?Y&paE6rGp&!^Ld(KifM-2hJz<_)V?XFW$$2
zd_pifa6UH2A8mJKJK6{GF+_A8JZYf#wCssAsB&+bDySb2Ky<j?oF4x$GhYYh548(h
z&Tu}C_M@3u!>rXHpEQgPoKFo)_*Ulv<57?g5z#rKU7~Vg>iSMFf8;Pa@cbFouRXm`
z<ZT7=;l}8|`Ai?XYu=vHHxBaY?8KHcoR2Z1!6!@HZA*|(JfhS2D6}fBX&(dVi-6IA
z`>MS>eBjO0*>9jPVT=ykmzlqmLga8{0O*U>ftJryL2_qY68Q`0s}Q3D_a(AV@xvhp
zJt-Y#`|a<ex45|=Iu56#$O9RngCHL{j1HX7I*ZeSC;PELkPp2bEg#Y7XTzq9%yh=U
z@<6;ZuVXEuBVxaDzrW_V8+d<j2u26aIo*XQa@CRbcrkbT_PqKbU2Q~Xg~jJhR*gqI
z7<V>A=i-W?<gbOMJP9c+7uBQzi{>_LIm3NzOr6h&^dI89F0~^4fg$y32%?j3$&<XQ
z5q$*AA8m{dJbzroe<n)nO7ejD!;R>ynsw_eXx|zE^$fIP%LlHfmT~Blv-_1*P){17
z6B5|Fl<}=%1&lipqXUmuVal7N18bXxKwmhF4&2vEZb{8ZP0szGuetYV`JDTCdqhK1
zlmNCb3PuO+t2e*;{Z{tRMj#&&qLX0LLJ;?2F9iAEF*<NQPsyRrwicCt1Nkr@Iu6pS
ziF+L9;y_=`@37?z=X1dNn(be5zZ~c*1fv7@)iv4b{W9ov8|cdr(K+Pxyv+E@+#b-E
z07eJy>$fW>>jRzMGKRr}W{zEHDg!Op@`3wWd#jcvb)xg~?xbL+=92ZgG>i^hk9oes
z)vv}*dB7ncI#+k~Wkonstbiko=)AVeX4$mQI2Jh6W^DPuefg@_G+a?BSO88MqI33(
z#b8E-dLeKKh)%h=&#AtnyDfktjOg4D)=U0!O8F6RsBh8oNfNv~e7E3>5pdEFonvDs
z`;OYYNdpc6(a{+re*Y1``x-dHhz@>wGPyV{NfbELCbWDkI%ZcDo74t?lZNOpTk)))
zA9}h8I0QszJ*LFbCx`X}IKqfdyGTXiewuDPaHx%F`Ox*nro$%~l)(B9X^769%^vUF
zr>=C;-w2VDH!cMe5S@bcnXKp$MN6>0gD|4Q8<^^`aXL>HIMfETd@dXuiLT&3$pG%>
zrXe~+mML}vj(uNCkCjy36!G0kKy(Z;KBpbYNi6}6Fru>@v-~Nu>j(pIsP$<1%sD+X
z=t+Cp3Y;`V=kwj7C(L>`KLLk;=+r-)5q{iuEC)Ekh>l=DTte)v8(F}izCp`J&7dq$
zwyLxrIBAFuX`lWk=EEw7fI~oZ{7v;|<_$a;fg_CQm^T%LmtXBM0S>heEgxN3s&eMS
zjuGIbAv$(;zwVg-=w|^A0nrgCDiX^mn(+aSFrw3P_-;yV<GM3&sI_SM9P@gTZ&o__
z7dUB%&QU=^Q1r%g4}n8KbXX|oCbC%_o|xJWScj&Pe1$PO@Okgo#Bf#*6;Ea0&}y*d
z13Rw@q8NVhpUVMGA)@1DP$JgRaZL|6Bt&QEz{oGgY=e2=s3JOzk@i|$3dhBO!-nWw
zvF&rzT^c9`PUma1oJVW~uUOtb!3>;uM90tSjaO3F?MUDd5S`Ps;V1Ql)>**8Av%ih
zTL|04uKvq;t{N>L-}KT`hYhBDK|K^i2j6(tR<Y{AFmQYk9r2!v&A~T}KLSS^(UJO-
z8=u^47z-S3L`TUsh^1VNR0*7cDzu!}-=yUfy%FXCP8y=4+>>eb{xpdUo^K&ybl}gY
z)hu@xA09e64;&n#;~j6J(6PX%3mjS{wtV1v%xKqdTi+A-_q-Mv(GiO`d^&OKgCnSi
zi0HhNF3OPMtJwk^9HO&sEI4QK^7Fr(X%%SsTow$vStgXQAJjuebmW)Syf`#S`oJL~
zI;tbPe*V7mAQCt@M92T#f|E?mG&gW)<!JfLt+oF;qs)I6IAlcUYmJ=$ikf99aEOSG
ze}LB;xtl|kz`-Fp5$8mPqdb1P0*6LH%O~cx>47^=_t=3$Ms!LVj1*&66J7v^i0If)
zMy2OF3^ah}>u`w9``<5<0>4bET(X@V%Z=bXPAfyp=gF|bVqg7H2e2L@8PQ34>zVN^
zuQ?w$L_{a~V9fOk*8{r1^L{u)CnZ30M;@`x9XPaCX!&rcYLD54F-n8y{m6(;$G*3R
zkCka20}c_<QAsQg8@n6$7OaPeLv;8aWr<fE={*J<S}9sS+xcIw2F*1e2J0b`5gks}
zrK58a%Jsk@B03dDB&SmW)$(9{JshG#xBqmnLd`%NIJ6S9d<1)rd0rZ3(g*7^k`Wzv
zoe?6U1AiYDhv>lHW2L=B%V*ZjX;fU{w(Y;~6CpZW>MUnY==2wZ@ggERglMI?$yvU8
zz`-Fpdh18CMy2u}0f$zMmJi2K$G80Dc9p;(BRT}N19UGN?&H8AB03j}muiZAwt0g2
zj6-x{y4L<01fAvr_0WpY@{yRfmg;L5Sp)Tu5goDJUMX9ixio=#h=`7NgQio$cI!~!
z;1Hcxr(f^w$kiZ&zG#JL`KTQ@yJ7aV#vM=(8PU;EbN#)r{PP5Gh=@+Y+is7HZ+&;c
z^ENm{=V-gd+n>V{lfa=BpyiW5olpv~PG|w^sFD#K*Wv1nxeV<?r*<FpQ*qT(CL%iZ
zMjH-g9Nv%%)<4A|I<}6R?S9k*>;rw#UZCak`&UMU!AFTpnny%M3hb8a$%u}4^kv4V
zZ;x$3UqnRb9KDT2=;6LLFb{Evj&20+T+4}JC*aWX(emMuOExp%F)0TQ8PVBpyETl&
zeR>j%7ZK4ZTCe41jg;U9_23Yl^(=-TLS^3Wz@a@y%jcrWmv4?`wS!=NVKPPszHS`6
z)nd~W-wqb=`O5{P17B~s{t|C}f@ydHIC6-N9@Ci*g2lByz?sWK%Lm84>DArjgF(P4
zM0Cp2<{r)z@%9481<_gWxPG`O%83U!a)^%bjD)LXnCuVW%;lox)5@pdEovoM1)M@e
zhm&W~lgg8s4jdOmr*|r>P0F1T0~|R-=SWUAgH6VdX5h@_pyd-}BzB1Dw3Z=o3K1Ql
z2yONqy>*<xaY1z2SZl3Zyece#BZuge>no)NsvY|PoH;UDJ}P?yU96|B=K-e>(b;zE
zX!l<dbsRV@h)!qvnToHYd`aN?j~t?tmj7Fco4IZZ98c$-q2=TGse^cdLszmUc542V
zc7}c-MhAZ17yS7&4Y4mA%N9p+WH<4BcvJaB=a4G|j1GLfFgRbiJa;Dhk6&=g1HPFd
zNgPH8K3)`-pS^Qsl`$>#!%USKO*fB*F(3FniZPC7>0YG{W!w!X_i(C+%?@C6;J%FH
zDj1xPNS*}iMW$hN;J$J;JTp~eKJjl|djg_Eo9GumH?FsYXXx3UEX`sjjOfJF_xlgM
zjCof%d2VLtEtd#28*M(<Fb7b2u5Z>+B&r05rTCpsLv)U-De^i7^o`};9qt@WA6z0J
zI`F!a!ibJGVc+H#lL2F0FEg8|MXw5|S!nq<=59WnB9L2g;o_~Jojj>0(hwcxb%M+@
z83|_5le59G?T2It7#(;%hrNktH&T)D>uY`|p4R{5HV&f$&u4i3LE2NaeD)P&>q@4#
zPMF0K(_=WqevuKKZ391YCejB|%|5>$3=(u}CL%ii23-cPA9^Z&JZ|VSBfcbzLv#|~
zcrWw$Pk%9g>woSIGv9AoCR#r5IzD7X=b_R5>I#kG<g491O-(g~$3#TuxYxK^8UL`B
z+UjYhmBffr9HL{PTUdP*x9w84zu%w3Qtg7Y477Y|%4Z%L9Ou3rD)Q8Ky!z1~8PREH
z{nLSKQCC%By{bl)w|hiHbmr&v4k%XC$4oy9to9qz;>IC5@On42bhLb0C_SNX-MH9}
zUtzxFVuoiXBRVT0UF+gLq62=ecX?Friyk5(I)}7ok{b4O<TA4yDLe9vI|GO4?3#+X
z-Ak(Y_E11@QE2l4Em|5{K7NH79*3-c>P}g?4#b*?8;}tlcpV=iqO(bC`$6prw;czf
z4TnFSPvyfQI`)YJbGaN|lUv$~Sk(^ax6xA3^7&JQdwM)QJKt(B`~I24;yyB>W6RrO
z+PU|8=aD`gRm;jR%tS;7UN;Aa=)mjU&{ELyVaf<?x)=SNNR{07K-Jc@k&NiLlFy7?
z&f|%T8*CgZ66|?LM0B*jd8tN9o@?4<!=rUl{<jbg(Yer;g|{4W6;@}L8`?#5jiDu@
z<@0Cici>~?kc+EMvHq+5dyUD6PG@64l*Hq&KI`!&!^<bCM~N66`26Sd^Jk82a#31;
zl+7xh#=TgQ!|1^0Kk&Lab4h6VP*Znr5-3>gy|Q6bN1zbj>q0~)^;~azt8v_8N#Dy$
zv6-_zE*Ks7z41wwPko>F?=*=@E_J`zat5!8(SdV*aLPX0t%eWB`swx0P1e8vuwiuI
zoTGiV?Rpm3bS>?#LI`ew>rrzeww&R<LZ3&x*gLQ)e0cSk!f9>iz3~_wxUYQu?;rCS
z<}`5nx4rSzZD9nA4%`>dBj!7D-nO|M1_#FjYukSdV|3v4+8$+_#LVa9YD_<yOW=Nu
zkHBMe;CjC8GW<?T^Iq*Bg{4M+<y@dY!Im@ZoL+c2rFJ*}kI1-oqG?&jJO!fzzi;ra
za>(~5@*ejIb6=XeYIrK6FgkEOt>b;OOcH5$O|D;6Gj)vj4H2D!OoK-icLYzKrp3fI
zZmN^v#^}KFXY^#aV@6;YG4RgX2{EcP+du+Z&Lb+UWwUhO-7Y=dpI8^f)#5Qaa6O_W
zLUD&U?p+@fy5^MoeQyc@qXXwG)?57YCViTIf#YQdL+E}vVMOOJZPQLw?vn>zUW%;n
z?%#`}#-rt<`XolvbtEaHXZ4vB|E2g7X^2il^Lv}`AN@Y4yp`#ZR&6XLAUaDl?=!Ez
zvtPQU&wlDnL70;;qC<)lRgr4UmEZK}dUmL~#RckPw0wTHkA?YJvvNPS9<%w`)jpPn
z=xo(Xjt#7iIEVidUv-nu#-4!aJQd>?IvMhQYLnhAU3Vo0V_`(+Tds#RXPR%){ideX
z9+QH{)Ht+!8gw2=pZ^)ppZcV)@1S1{LmHyP#duak>HV(c#qdzqehTdv0nuqLUaIp~
zc5Bay`FQEt5wT!lM8~ebJ4KFzqe;7>D(^?2LnrkST0We2qigxLB+Dl#N3&T~l-x~2
zbO<MWrJwJAka}2xV~!=)bBKWG)Ni*~$4kom?R-WHtJ%vbCyeMY>*kz`Tkx)uH%mC0
zwg2@&YAjkl_&+rZZL+sa-^v_h?o7MJmxk#0+E?+KHN<X8`L@d_E+|2lfaoaI$<?Py
z1#^Dgqjs?9@A5HWM90J?N3$#cwN}rR$?~t0BKxT^X!)2u9is>SZnbOL`?RpDaQ$)`
zMu!Dj*W=B(ZzpGp*>D4Qzw&RuZwL&*=)lLXd)E}J=C8a~DxD%OR;{ecYh!fa`wku4
zqay>UGUcIPEQ)i&ZUy2oI&eMk`h)a`XgR~{4^j}F9oyepzii@uj=TKGIJJo9CJCeS
zU+3W$IPcjS>^rv{!&qEpqjf_Y(Sg?=6u{`fIm7D@4n(8nJi2-Nt=GHSkM<}J-!=NY
z^eP^s1Fuu_m{f*0um2`?GJ)x0__?pI(=a-4UyJuSJJL8U&hJw<_*i`YQzik?;Sj(@
zwrO^nZaz?bNjK%}3t>bDCvK>!CFskM)WC&HH<=otMxo{W)>rP@=D!-9#a~x>`F(4j
zrD1g7?KI#hHN{P$MTu+VnZYX->GM$-9XMwNT5D&0#APPA^Jd#B%O3tQ#OT25td&s>
zQc91%VR0_bKl*5|`g3iJ4qT7ggqC}Xe{D#{Xy3<+hjVJ#5FL13#pXz~@she{%8}oy
zw<LGt=BH3X^3D)MXHDhp?#R8K#@)8r&$cGSb!j6y@cN8wh)$^0j*NsyJdt(tJZA{U
zXQ!GUpyg9yaie}n$0?gd&%*c6()qI?h)xb^<w!aIvi<cF6&7O+>c_P)I`DG^38H$H
z!lG$8*VNv=UiT0;!6W7aug^%wSPwj(%ab#C|EyK7c0A|ko;jWDNkMd2f;yfTei_WI
zP<o*&Wi+2cLUaZs2PO<unJ@JW-YN`J_6x%!I?vU;satj`gx(`n<;Gt9+e(i>n?F`x
z9w}Sh`kF3q#nO{Ct0I$v=zOvDY7KreRS{Ue&05yr2oDLP10UbZM;f)`UTl!8q!<XE
zd7c-fjnRR}J)=*~R-EEgG&A#Q^k%;ZI~$^NlW{S!O6`jx_plA+YrD^E^L=bN!`Gu;
zGBJNr*wnu5=blH>jfDDwG>i`1mnX^Z!PMpLt#cO1vNCV2mI;VX%Hz!TI~`}19nRBi
zN{&!cg)usCUt?ix(H7kk@;kia@S|L2JL%!r@`3yM$Q(Lwm|JgwS;Adwv~TS)1<_fI
z{wco5ZNVgAs7=h?+`vP^=)lKQ&UP)IJ;R(o&wQ#sK>U?(-UXur_r>o|%C;-cDf_+i
zLB&$N_;EQzXK(iQcynpK5t}Ztxx9wQSLed8<qW?McJjQO+_G`hQ?YMSe_UUOICNrk
z;J(~L;@&8qxiyY|^L5thgJ??>qEp6rt-tAN-bttNr(&b#CLx9x9eBSH6mjaw;dSxL
zN*B%qbqtL%3S)HOzS!<a5;9LSM8zd)R}bHDV55d&%Ncgu4xd-$|6$VdfI-PH_O8J~
z8luw@-?-R7yLQ&tz3Zo2Y2bANqJzu1lIPOF9CNyD_Js9Y-_ODr9XMy5`=RoqAB{6?
z0vO*OHgbAD7lM{gu@{T|OHIj_#j0w@gWlUa7a}@m!#_7=4Ze-&YvfXo|B-UZ1)~FR
z?>}mp)%SWoh}pyHB&+?MDT9d7fyez;ly-K3m_`<t&-E|)TYsO$AvzwG2g@|>v&~w&
zc4VC|6rH67qvd>3Xz-PWAgg?EY|f710$yV>qH}Nnr_Df>es}rn?6l&V?`tAP2j2gT
zd3@?jOlD`UF|j=Okuc(_jnRQ~_ICRl$Gvpodddi&i;r$gD;uJ7b2d|KZ{VfKov-aw
zjL1a&<{)f2!`G3zcZeAf2*u3PJb|Oswtlffj1Jt_^$E5C<*yZX=L4q*VdeXbT@amj
zq;pj_e;q1a3*}i@8%PwA!|1?$b*R^>zYE%$=oF%_+rqxpKmely_x0sVa$?*-z-qE0
zRiP}8KW!ioTh6d^O|g-2Q{HTIlr?kM>idl3cti*OUacvj1Anhp0MQ9w^Aj<yc_7Kt
zeBkl95by4R0JMDIb#LPlohMfOkvHAkBKt1Ovc){j>N7=jgv_#nHk!771&#os!x>a7
z?7H7r7pyZo;E$G1-RnGqq|0$t;QPz*h>p2a(uRP?nO49tMRc;8_Q*YSJA4f|0*KBP
zBQp2M%&CiU2UdM=S=6Qv_@U+VlXKR|{p#fq$|sllO`7jc#v?jT0wF5n<D%Qa`h%tz
z9r*sTuPyh!MaMSJ2b=j0AM$VP7RKnn`we)#TIxNtd}1@6ZaHeNcmVX3hS7ohg4dlS
zB0AaLU*C;oy&VSi$RRrLy1;Z_w0s_{Ts%0IcXSfeL&504`M~Rq`XV|OEXlX`>Wdu*
z^=KnH@Vcekh|YNF67R)=a~xoMAMioT8D8Hr9-{;2{CC;Dw7=Dh3+z`37#(=~IxE_|
z#v>4+3LIfXr<6}E&fGEI59CAjM$3mS(yd8OR%*02Wbg;q=2uc_h)&$r$2(iUs5}Ps
z5D*<PT(G12NR1nCgb|%_yMPw4z`O(Uy^-gweAvgRUTFC=DJ-pSY!FvGtG6|I^P4e+
zG(@L{*Qk|=VE%68@odo0@kTiUqC>iQX-S1+R$hDP=;PPx>Dz=cI`DkH;r8^7r;l^k
zG5?59eFwE^G*7gAg4&CI-`6_q^36lQKR33LLPm5v91msJyVVKz?|<@{`*!&&BBDdQ
zCdkPbT-gMki^Cy0@cP0u543#b8E$<@^7l6N3_7b&Y8_@zMsys=e7C=~bT5GIf{5s>
z-8Y`)7h<Xd_23Ylj`T&AAj@`rP!H`cT0Sq1?xc#@vEKvxLo%Y1tf@bwVSD>G=!=Nx
zoVhm;zA*dvIOq$9=<FQm(_0AL6Am2O9khG|+A?4KZ1wvE95SLK+;B{-v&883zkCp#
z(B#;Qn{@h#;5-3`(Si3rY`vWYs&8cFKwontw0ufZf6OP{*t8Egg@{hd=F{CfB&j06
zaY1z8_08olI&eM_u2;YA$*{T%>Y?98%ZG8oBQ_-L_XXfk5FHErmV2)EK7Rxb3DIHe
zEpNM27L)}XJficsIGnkzZ^9Hfba%9T8ZYHcsO>pg2OJ8bWA1h!FFwd4xZZ=v7616p
zeG*0o9(VZr4yqU(_&gJSZifNUnUfkWs<T+D+x_#SUHg-)x3#y>a)zIm@I`dk^xj;&
zG_4r6TQO$z$d34NRYWIFL84&M@7cBEk9(J%ZZZAJfYE`+>xTD2BIoqi$%t01RzuFK
zyPDn5^6?Gv-4iO7_y@dCCIq7c*W;*d_LFQv%?Iz-GQ{Y>^T)Ag7guqXRXuRH5uMz7
zF2PX`uiJoijyi9m<s)2fV~uB%-U#Z6LUiU^k9oXLAiKC9782jS)v?hKqXXaHdC2hQ
zxP{7D%ha-K!Ykatn!*?zc)UL6=@z>**nZ!#u$~uxp;?f216w}ub5_hgy^I~=0$*od
z88(D;kWUR@bhx4CJS(!=jcwQ-+T7LOHK^*`7RQaTFZlk2-VXZ%R{UqQz;-c*u^xCH
z=JW0N&3p8>z1)eH$~l`>Ulw9?;QQ~PTU3?~+^1M23ku+Fmj{`IV07T`0sYteKrlLR
zUpFcgxmvnwx9R@KzpiFJK1{&q!1G6>`d4A}od4X7Mp7GlQp^S%q9ezt;vFi_em836
zm*oLwQt6y4ws{EW+*Z!b+Up(R=Wh0BE>ozF+KkbG^Rd$3y*Ju-%U&akwe5d|O2a}h
zI&eKF&(M7(|MzE=^3Bl+ANBlv2^bxCKAV`>CNm@~`uPZU#g?k`EvsU5;CgI?I=h#{
zze#eshi9<AH2)-k(ShqZJ+#4&r$(H{v3o<gG=riG-38lt!Sm;={j0Oq<&R(INa40$
zk2Bs;i_wAiKW`b1YaA8!x=_5eDCi~EkDY}Wox{-n=iSo>N91m>TnF!g;l?<h;rXM+
zt3KYzvSAfCofvb59p;SZO-|%$m5r0K&DN%&N>PYT`P26vb54103mT5t@TDuJ8Dezc
z`LjDTb_=y{AvQ;0m*2UOXGS=T4&2x5XZc}8fw8Mbw+(`>?$_#|VH_{m5jf9ju+$i$
zCb~~+RH}Y=78%jm6}RuH(5=-#cQgJSpT5SvBO*EvIraV$*lm)5gF|$5())Big|uC1
zIJLJRFEH^Z%^BPF1)nEWzdF(<@vFB^(W2`NTYFm;1)~G!yl2@UVT@RL{7mZI7#nu3
z=Ojc2es2#R(c!nVySY>P?U?Q-yELa%rUkkawtV2ezSxl>IBwQZSLShVziqj%MZxI6
zIk&{W-K~{;$g(y4k5Zf=!;TP)4qT7IXpHI*XXyLC>#3Qce-3+TBRYq<t-OrP4t`>f
z{^UGh-fPQ-=!7KV3vBY@F2=4zOmOy`?`(F&mNUGcpC$$~1eL`fqnMWrHd;+@io)o?
z=RYy_!?%ANIhdBEv%)94CDNXZ(Se_ru(=XB$lozBbmuQk;blio0oHopaX;-4aU?#<
zcYahq>!mVXScZVH9(deeEG<>M4t0LOHsV*gQ+C`>7|{s}d7iQP#=y?p+Jpy8>QypS
z2W;a7*W==<J)im0bz_OZEyo15f|@jp4t%_5*f3AYH#Yw<P!)J;>EP5K5=I9euk<9B
z;oHmdHTUI=cpv^cJVL<e!1M5mvQ9i{GU>&w6M?JB)hPxzj1HU+E_A~ic158Oj`rg(
znvO*?(d^N3-dmT>_H2Cn)1UkFxpwJpe@8}i=8r5X>babe|3kl1dhHJ12oceFbt8gt
z|5hg6<67e#GZGF3I7H`H)|3FFp%?T0a_&_D2ZbB7>uC9Sje0U~n;7O{EePG8Z@Ei^
zjM0I&(_hB|PK4XtaR3ep(P?bhMbrJ}eF`|*h>p)<VE!)kba~(iAUX#e3_a+MPyK*H
zv%{7%oKH4gTAs^8Bpx^vMCT!UzHmXl$S`n15FPo|p(FP{bov6v6wz5}G~CN9D5(n^
z9HJ9waOqTi5M3HLbRt^LsknjBkuNv@0;d_#c^LI{lycEf0yy!AjwheVy?z%9P2dm_
z9pUVWiTUi>L%_i!I{SmoKff)$_7pg5h)&j43(X&s4g<g$utgiMxb2b5noi%Z0*8#~
z^m!1|sk2$-z#$<zcPA&D)KXf9fTNA*a0I5Sx@Ie#2aW)uqtLEsklv#?4jkGww47I!
zcenm2)>#7%1<^S>?y|F)Qqc>X5Jcw*Tam=GFjfoTm?ApbgI6@PB1Zo0H*ko~b%~lM
zO+1^LKs|IDw45b;+yu?b)4hPxjOfJ0>zC$tys`pLJfZ{NZz5uJ;PWxTpK+Djuj<t}
zZya2{@6IWU!|1@rL7ksFo#RTB1(&9Ws)TpST&G{fmNQ(>y={V%{r(rC@8@)IHS%xj
zryx44+A=!oysG#ImacJ|@9G{VVRVF`>spc$+_9?X-Jd>jY8w9hiPugTV?J<Sg5s5{
zCXzwg3?&Dt$(a)BRE+h&=i#?v_KF<s?B{emn`cnz<*G<Vbhb$^Z8L4VnZfw3M38;J
z{<aIE1HV53kI{kiVNE!ykmlIz6RfuD`}D;L4*C_e`2)YNfP&~0l^wKDm&1v(^)7UM
zl{Vc$LUl&`I07y+Qpk=sCs(!#J;5V7UOn$(vib;DZY|6EHnjv4)2-3+f$s}b5FPmY
z%OpfcI&(*<Pj}u&H}62hzudJq@E9F<yXgHn8CSJ7c>b!}qaHGA!dnJJ=fOJTU5$xM
zc83e58OtHX#OBM`a)#@HpNosa=)l_rBeiaF>yu?y+Y>h)UA?Z5YlzW->j@<aGD|2u
zI2$>n)=(^~ZY6-xf$J&1^;^U9RGW|aDRBm=JB_RZ1Z?@hPMUV$2IVc5N#Oa7cti(&
zzSk7dfxj;!fat`jt5j!)$&tZxaRZmo@@X^~Y!j`R`~{qNL}%qRO<VNT5HD~{5uJsG
zxTBV)A_U+FAUYd&e;DoWk^j9**I7<9Sae~)3R^z#d~TI0dM?4;_zu*QhS7oNA)!F$
z?#CyivtS+)5S^LBg{M6x{_J6Q?Edq-_pG@vMhET-em<OLi7g+vFZlUzGNJ>2|BHy|
ztju|HJ<D=i2IGZ8bgm>AW@K=sM(($M!BO=)I+}J7EguWr%@<?4m(#&>m1IO`q9x&|
zaQxsXaEORb=B#)_qMSrKn1?t-=P#Rd4~KrLKX}fQW`Qjqcpk#<fhol3!1EA(e~SyE
z^SAMWInL4Md%BBHlUj*of*hh_^R7_TI*I8O7_T{VZ27=_ZR}i@wIlmXg85vC=zNa4
zbkOZ8&sH$*E{G2Ne6Jiv2Of9$`#W?qw0t5I>Gqbf`x8N56hvqG7+vhwNy9eakPw~s
z8}Exn2zxaG2ao9Zv_Cx{&V0cYICN9Ae54+!OXTq4dx1kibefO$-!Sc1od*sH(Rrrf
z-?_0^F#<SvMCUqXw{22|jWTfP7trzvdKStQ%KP31I21(3$Ex7qW{$I*z#$<zk819E
z@o!!;1P&h2$qB33&CfLP6FBtqX!&%uoat)!sO$$01<~mu{)#j8b$kvS5~2e?&yPoR
zwqN_us?x(X2kN1pL(2z#?wx|@!0SPi5FPk?0eD2`h@zOod%ilefBBf8<?~<9&m%gi
zi=__NiW2HUJtRcO{^BU#e!`Uk;NTG*`1|JcvuOGJ*Y__F9Y^Ymd<)TScS1BrW#dy$
zDv=N!spqyoWxg%_`yMME(FuF|bEDgrjsNrg3uCl=@<VvCUnfp&0_Q&zMCVlpfwh%q
zn-&;%5~9<&9Kj(Q*nJUvj{}d<fzN+3UXL7nU~@6KzbE{m!9wXS28<4Tet7+o%<cZ;
zKOTYS-fNA}a>h;Pxef1-=>(21qLX)x-CM!l%ME<)R>kPR`J~P}Z;wtrwLRcbcxmD3
z;KOVf9r%91f4vXH5G^10x$byG2VUpV6r%&@W3ZuigUYpf`PBWcgY3$|7Qz@E_<1dt
z#z64_CpynC?=)Yo!SNbAMu#1`fAKU>LpEK#bGO)@v)4aH>Yc~xz|SKw-Viyojw@6N
zNXa`Uc1T=|8)H42p?Y#Raq3HSo*7Hhde4&0FmefNKHDH?)%}sK+1ZD<?b9qm@0sZ`
zz8LF)pN|UOCDC3ORsFK^zEd!3m8%sI(b3J?`jh>y-hJLo{Snng#gm2@9eBJV3H^16
zVT`vTNBFYNSaN1#b>QdBH@I(M6!o|0r1o}Kiq0pI<S^C)kJsMX=j&m!r>b9E^Vyvy
z?yISa(Sf)3`u%^!Tqkv3o~}|n`@u=)AlCT<Z(ku@&+d%Am*~r}{@XY}HS-=ggKfXT
z1I-@>2K8T0mp7P~wJ;^PJk@9tz}Od@^J%YbeeWX&ap$FVCp>%u|Ijhk13!n)N1fT0
z9{acX;=??B!%8Ow8b$}+PDRQULK~{y4_fwUJGe7^aH_@V!0*{!6x_f2&()FQze2(9
z_a#1OZ^r1r<1X+)veNwGy*LL2+S<kSA;EZz4i_|DrUx|0j0G;|bC$<$xC(SX#M&2}
zj~ExZd->4jfiG!P?&F@}C0Of$$9>0^X2MDF9qHRe&j<OWl;@K$_66s2a)i$#D<0Rt
zw9%lu#wl+_8>6!u%IA&cJSScA!aklC4|c>%JF#M&KZ20s^J`eBar+PT3!l7Q-3Bj@
zW8JU9=RXc!f1@VM6YIe9{8;xJuyf%l?@*7W%vQ#5o-pIK-9Zc(w^P_TZ7L{qA(<|$
z79PF0t9bk(*7*aE7rdTk6vpv_>v5jImztd2`yjKWx2vHpf5{Nh3EHeSqitk-qfQS$
za>nA34>zJS;JDk4zp$bw?dV+Z{sxsTod($UtMK+Ep5EJ{STLJU5Zzzhwp;Tn8KVQ|
zOfO4LOI)ZVONQkyZaLlXkc82JbKaTpar2^s%9X%xUw`|*2+zbLI@aVcg|5>VsNY}N
z$v@cURZiE(mJeJHeBYdc=xp!p7h@6<smY8v+*6gs+Dt-p;QO9<L<fE^A6*YEANYO~
z1<}!N7PWjV#Q*PlFA32Z`E9qix%lXP@HrQc=)m_+>8H{1f$s}b5FPkFH3`u<7iJ)M
zPw&9gzkCoKiMIpa9$4<m1lIxRx@h^p_v0vt&YH{NO12ffL*PCU3DL=p)t`F#WittU
ze#av^@cW49I%xUq*zWRMNx7f`j28vbvB_KzGRpIE{g)4-1HWeykLbYHY3bT%`NSVT
z5GYd;@Co!qL3H-|Iu#%A@4vOUM{$p!E{8P<qXQoY;rsa77#;YyBgag9@^t$-64<`j
z5FPkEOU<Xya)z&mhafue`;oK}9p#rM!P7afGr@MjhUgsWoHaGp#0>+dSqm*6w#{k>
zd>^#yg7?aXAUXwo*MBXaV0Z@{ZA1sYPsE1kB=Ia5u!y+0fqI%xqU8fWFA;+1WH>Sn
z_;Gjyg6%>Z(fO#+bRerKh8OJT*$|!KkUs0&CdWK*owivMTR!l067x$T=NWburh$5*
zFgoyl1Ac#tA)*6c@8w2x;Oo7e8rbrI`(l-kZtcHS8IX~A`Cg5`i)9o>2hMqi4ueck
zC!>Ro%ZA=T;hkfq7#;XJ+nZ}Vw{lDBBWgW{Ld)J#s)!gJ`16;P{f?%k2=ArQ^XlyC
zsYYz77#;Y1GLhQRl3Pc6<?S|HAn>V?{YV%cI3JJF-Ht7F;)^2QlTWH*7bLLOBL`iV
zuy2(eJX99@fw3e|{Zmuh2@=Nn17BZFP}{hrThhD-H}p!R!e#IkRtL@}_kyGf?Fp-M
zZkNe}sfLMXg^2aI4L_6=K2#mh;CJ1LFzN4!)q$`7SZJQFUYYS^aNo*w_CZRqnIXpg
z4}4uq;k(zdALTW#=zq#I`7dsIE{D;9=OO#oANqWsog<&z>oFiq?>&Nbe+WBdas79f
zA3CPA9DI;qLNN%XV$2!dzQ&TCq&x^$+Owi&D)d<}$7>Fwa~7J1%-oj_uy4*iwcauM
zG=a`Eri$@A0luEO&)+;2PmH^<Hn-8^+U=(2M2rrc54&Tmy!O}4eji(3k<80Z8epvl
zKF|DC`VMzS|KZMKtwStA`49ZK5$nlH`N}Oc>}<Aj>E^oK>BAv3jOPjP{jZk#F6jwY
z@okd!*NV!VNWlyk>w&LhNAGo2sC1rHbiaCzX+d_EGuHDu_&$;Rl3#~Ua;^6Mjp4j;
z9#Ncg82f^qK*gl=uk%FF{gE$}l36W&4`6iQ<5zt__`;#0iY;?q@<+mL&Pv83I**^L
z{75bK856MCkx<PYuVRYmz}Jxk5FPkB(g4Q&51bEt9Vs5sp&Q+kZuHW;1kMjl5gqus
zZUIEclJ=U<^nY=7-|<xb|Np=haY$xEHrdHup-{#V36+se<sh=Rtmq&kl$n_vWHii_
zty6XpLPT*wW*KGtzP~?S-nZNJ`RBU5`mcZPx98(=jq|#$bGZ)ttK(q(JcRN*hU|xC
ze_Rsl2KQs&q(VC8za((&vIF6J{XjbON?VWHqcrychXvBvaKAIk!O*_<Jme6{bqlhe
z`a_GGKg)ggo|8$1bVfV!ahV5jyC4_Z^&xT|KkUDR+*_rz;JT6pavtRM^3XZB_47Sj
zS{bodxDsYj_G@$tp;@Vr&RqXWjNUogO*0=yMp-Jiaubvea-CT}ldC(`;xVeW{D|x2
z)0Sawln%0I<lk*gsKNDfr%E8E;hCubxc<t4bdb;gSVKBa6A{VhdD?z~dAK2+DxJ3{
zdWz2zfHR>A*AMc&sW~Ve<aR%N&9htD;;nLl+WwL3tXMl7N(Z@4Kz@F?qI8h^5Aym{
z0@6V~kF=zMu4iOFn(foPPQ5Mlcc`~Rq*|jd)}VBd{Z#I<SIQp^qrIL`T}PMjj<*q|
zgIxbSd+yHuLauP?_twRac59g~1e6YP-OFox`l(dRg>_1%UI99V_o^W%9b~SC?89RC
z_}6CAe_1PA`wY18C>?&pbwRW^2Y;@&bVIv|QJ9I^pMJFaA@cgPayfZGCv>Ou8Ih;e
zNaL>}S_ip){!q9(*ARD#>$v^82*;BrZ$eP+hsf)K`PP3nI+er(=W+glw`Vf)^iev<
zeq!)UmDNi+w%6a;*+^YyKQ4jt{KJIkSuE#RU*5*xRRJp@L;pwiwZ15wqX_5V_0V%z
zW4&{POCS74N88oVp68MK;c>0G7aGMgDPw%HuCDhjQfg4ngLE2Wd-*Hn>ts&3+o}0e
zc|Ax#=^(EwrKOs4<{Jyrd?g>WlV=2Ip`8bLoJv~+`@Le%s~uh`TwX2xbrS987xFnP
zBT2`*&vHL1y_+2yywqGM3)^$z6mvLp1KrG(*A9jYjkh|`=0cti!w9sUJq5>Ylq0jv
zW0UR}hM?^E7-Ih!-L>>DQKR~G(6q&rS;pnw5=sYoyz609#2&G*j?X)NJL+0}B@L~E
zy#I5)hcZ{L^TG{1N(KG>K|Oa8P_BOtA##~kHU+7dFz4!$JCF#0>JAks9pwHqb{790
zHza%HRMa86^Z#BSL%Tjio}VSprJWRZX=D2*XKNF84=0m@avtP)jE#EVaQep;t3Q$_
z$7O$MX1Sttko!*zUs_!6JIzAJXZN`*b;Lg_pmdPiT`^X)p6c2f>tAN76|QQNBWN9I
z#P*``&J(sgCAPKktEG|RR_G5r<aNQDrUt%c(VX{r3Qo%!1F_*)NGFTCsLN-8J?%oh
ze{1ugV?GAbLEe`jqU;&D9z)&-z(YDxQwJ?|<YWrK^%oY>L4N;^fpmOIqAxnf9>;=t
zh$zoL$bQyyyKBc<ezSqUr^Z7%GCNQ1tB`Nk0tXA}2o2sSc_BbrtQw8E!zI#ajDd9i
zS{=UiO`V?sI7F1|7Gyuem91sMsxz*jXFQ~Xe2xeU>BJN>dZuH)e*nMxhJkdDe-}wa
zx$Z^wgZy3(?fMz%An*HOA?Gn1a1&7%7W)D2YhfTA<oz+?S#;N5$Xts`9O?G`-@L&6
zA3UUk{M{}rr1L+|IY2td_c;*H!1aTC4+9?3LH<r37ScifP9FxPgIp&de_yXx8Ll7X
z{ip;;rz2v7Ifvr&#XGsFtUepKTzyC<C8+I1*$b~+aJ|C->BI`VvFQZ`-do{Z`hDR?
z;YhC%TtC90?OVn<ZyJwP8oII{E$B%==^(dPO_RHe#U*-TGFQTc#Xmns6O<0}cqcw<
zl`5=miDnzjPB6M#@{<M98FbOXDLy&sH$EpDMVHMXH>3#H4|BT`gM3}|B9+XBvECPs
z*;Gi!@`MC0)to^sIFFe?I#ui`iL=z6d(Y*vKsw0pQ-)5%^@IHWA{El%^tGTp<MXUt
zRNdym;P4F<6G*2zU^hj}OMV_WERfC#V)C`CwLV?v_pz}%wRa{DDZuqJlqlmLLdX6P
zIH{11G-0Mj^_P1ja7-Yb^nE)P<bn$<z+r)OPQI^h%81L)2hNZ@Tt9-n*)2I7SL=Y2
z3hBJ!O5Z%Gcw8JfCXi0@P19PITXagmVS#iKT`Kejczlb2Gb9Jsk8nqsY?5)`G2o;^
zIym<1FTXFUiUP+3(rJkg>Z2?*3I`4gq!TkvRk=T-i5fUVvT*$<HUwnR)O9EVCl%76
zXlfswXEkgGjtQi5Yn^M#@55#fa9ALnCLPmQLQPQ(aE4^y`ni!SDByN&i3~WYkj_OK
z-O*Qr_x1tD1k#za(Be&~FAoI{3#7A}Sm!QfcYhr?L(*{loT$C5U(j{tDsWOEoj`R3
z&W$<0M&Ou0I(_#D@8}mb@Vy?nSlenx1r|sr{o2{9R3cksz!{Q)>&JTKM2gv~S090s
z3hAWf>rbC?O6mcQ38bSp=^kTE@kt6eERarOvb3K3YX=VC3`xTEbDs<Q<F@0p5^z!>
zomWj?=%qFpsDNVv>0EOs8q0h-d7Hb$j_<;5tuYIv^Tpoq(|glH?7$h4fa`~`l;7%?
zRJaLnQXw7VVuu3emCtFwF@bb&($DO8-s;i-hXv9(Z26LAA!71AaE8R;`U#ZSd^dLX
zLj-VAA)WA(ZUY>3`JBKpfposm@t2>dET#tz3#9Y=RrC2QdKXFH42i+@W1h9n$RYH+
z6F8}mPM7|mA>P;h7H~`;9YY6k#~}fWA>gn;I&xG7X;)l);(;@C3a%g5PXUQW_^B}9
zq(VBU{W=m>e_5>n#{|-0k92Y&x~p~phXv9}YdU&fbj4Ena>zRV`MDo~L!xl~+?6`W
z<Ne^Ktf@-eLrzP<(Nsu>jp5_Jw4-Tj?)_?~Ps<4vm_Rx=+3YL$*0j#?T?w_RR6MKA
z0_h0elqC0C7I=8}>ajCLzk|;XorLQL+y3~m>B5JCU}ssaw&e5esgRCDFD`wYXK=2y
zih7e&Ue;^^=};anv18~;EumGbz0~OIwx0#ki3;YOrJ872n)jDjNhhr84vE0^!yG!S
zy)m5E+<<ZVcTwG#Jr&ZST%EmTpGmd+dgkiF$U8b76G+E|(&EfZnTp7?O`O!uPQ`B)
zNGJQKo?~#MOps!BvCG)(XN@6YxPI8pzIm*1<UX;wesfzgg3dV=(n$z#<U4jotRDPM
zp9!R6wBIILDzxT+VVknMwr)TH3rYw1efRk_)ys>PqqZ+nT^Z)O%T!20aQ#HKZM#X;
zQO%tF8}<45p`niiNXN>jjY=%j!BOq6&i?g`*h(Cvvn2VwVu`Kq@Mfl=Qgc(-ybz@0
z5~!HPynI`1l52v8{hEI~Nf2E>$ewi_GDQw+-c=VkHU4nGC*WNTq+{;MmYZwk+PbX%
zZ=$Tz-V%?}LEeAvH9t0!wN*4f?pImAu-{w?i_$^<9ni^&dhs!_0hUA-_EpY<;+jGz
z9ppT7IH!Ho%EM2jR2_|N%0D@f1km-2bQ0;kCSp1h3*0ZnXjPP~zal_76d@7Ii@$Gn
z=jpu5_!PTy3<v3CI3HCRJRflp{7#<`q(g60_Jrp<<)WS(_op8`*`XwUxPBH4T?M2+
z-W;0{JQAmB@76|ubP7ZVW(n7I^PV!EN<aJKVLlGhk-20ht|`XXk)$MEGP_U6QV7!N
zvzv`{=K13a-fu(VgX_oau4;^DcA%8J06pG|mghYI(s?DY+@{lWqfNag-;mtySvC&R
z$yw-sTv(|xH{?Hkj9h^{LI~2)J~pXXWBS-8z$Ku0Em4G?bONrQ*z0*&{(2Q;QB!6w
zilV(D2#}8EMl&<ZRL`)|_cwtm_0g|!kj@VZ8NUjV&2``iK|0N@Uv-%Xn?Hd=;)UzS
z_E*uZ)r@xhpQL>+>ThVe6CfR*+7Pu&9M40IwEgBWSEt|NARW8Lpz}#m_xZ0cQjFO=
zvvL)Jbf`Dn2l&NaVVjm2FIk^m{7K@0>qj@&3I8tP$eq(Bwdae5CZh<D&OJ}++tWeR
z_v@6(E(jYeXW>vf$j`5-sZEO7KtaDy-}>U@>pPuTln(N9r$0Qq>zw2zj@LDM?3bRE
zL}DNv>D0+e-2h{QlON2*qx=b9iQI5Khwy)^8tQ(q&NnB#<@OeT3lHg-yT5-+{X={=
zj!a2E*<Wu3i_$@^e`KXkZ>VY%-o2YT%J5|<>IVy?<99|=x<|jv-`1_Cz^H<Ek;H|r
zALKm3(w&z2)cvWmj1l7#U4wizC>`W>ADK{Px+3+0<buC=;XO68o-d@sabx>-Z2<*6
z_+1zUln(Ow1V@Rr;X*m`zT(4EW5?M_?vX({bmu59sb~+rFm>F~cw1(8oXCl;XJkLg
zTp|iRlT{BuE<8#Hnae?nD$T+$J`&{8hjeJ=o!=d+b$AVOv7mI2xjIF+maL@SHGy11
z9O(K%=E@<I|FL?yC<b!nKssvTm&q63p7#T}a3~#Qt|aHn8$p$~su@}}xDK7+TNFa+
zAak)79~nFCJpJrguJ}`a*WL3=?CAPI&eO%9=<?@QM&5qCRr}=m@~jG!4sxF8Tlk-U
zs>TzaxMRXjH*P%hMd={tiDO_sr}5K?XTg%1@50N6#}y!*p8*G!WkgQ9@>Tq8dFr`I
z++c(2r?~LGRC%4oe)n@(O)vi%iq$|mru*%uy+~ZNgQ5lm&KKH}zK~A#QqH!BJEiN2
z+h+aWBd$>jkPeTVGx4EOb_8%XSmF9{>fQJDWs30;;M71mej-7-zbNiB1IHKAnVPr1
zX=Qk%k)?I@aZFAA2?a<eKDLmf+E1d*JbP>0IrF^d#&NiQ8tKz4>8tcNoElGEDoDG(
zSp(_dG(ssobN3JZ9imW}8M&0>3+c4&@cp_=V8t1QUZ>W*_D4_wrGq@)Q`nl@*Mxoh
zSDCp_bFW03lA&~v$2-YN>eVBkP(|_69&AoN*2;}6a6M}@#t5=r4Sdehb?~4W!J#t*
z(uuE*yl<tc7xsNtm)Ju75~qsNLH3inWwUi(xPa^If#Xvi_qByFC>>-!*^*(Z_qY>Z
zbLR{zZrC^V6OY05lU3k%mDl};OHr`P=%Vh+%XpLyGS>|qwwa)<-J7KK_O~yON&4xd
zbdb4Z2U+t}l2Ue~ue?wv^mhd^Ksw7e&rUa$+)}N)O#H++wnEu^6kR{aT-Q2yW`us<
z&@9hgZh0!0!k3EDLFT&p`RFeL(YlVtW*-Z$$Df%@P&&wY#LEusXEr~~_?0-Xsu$%Z
z%Z<`O&O@=C6)ROmW&b0#fZ`Xefc?Y~xPC@_PZCf21e_C@t$dxiTHHuL=^*Dh(Ne$j
z&;Had*K3#H-n7H{I7sJ;_F&<Wa{}p7KHk))WnvBpp>&WvUyHqezFgmo#HHEx`NjX;
zNL)IMt{-HsxO%VB-Oue(>jrq9kH78KDj=OkI^#x6=`U5CdBF}MxAL$nN(Y%MyV9~y
zOp|2%gY(bRB(^ul6;L|JT*fg^<4w11qWyQ`rp$serZ$-2`nk@bSAC+==+XC`4UfL3
zM!#zyo!9b|{-4=pf($~VPw2|HRQaNGko~;DI}{!~bXLSS1S>ADx;d(f(n0n!U7>sY
zpxjz?V$Jtw&G~U2WRMO%dM%pwO;7N}s#Zy@BqPU0Cb*ut?uQjvh2|aqOjqtyeR{Sh
z1f_%Q=b-1~k(%IgeMTO!=JmLkZ&;KLvLBb!=?2z*at;m0x7spq)?_e{j_{is?YcG6
ze;&7$?p7NZjT0H+`uUpi_dQ7|-M<avQfKvKhZ2v{LH6^3?3Xrq9L-&uSM>Z8w+D9h
zQ98(e0$YQ<4O&ha$E3ftN|LEM#{lUV9L&BLE5ThM;<w*$&T77`mjPWr$Xx2FA78%I
z%M@R!ys4abPDn5nrGw11Mt=zF&Y!VCbLO!&kI%ZD2}%cfA1V3r`^HuoSF#nO%q|T-
z{v08c4ssro!*oR&Cj0I`W;yU4_fqvXi5{*W9i5MlvPbf5o))LZ$K4HVu0ZJ^=XvlT
z>~w)lFo)yDQ?tp3Z{1uW9Z}hu5aTl}oOV^V0xyyd<Vc`&klVf6D<@J*@1BvEz_aov
z!uq@$bm;m)<_c}hi#P9E-%j=MOxCYFV_5^~e1DQwy&GL4*u8oFd24<l&KISF%;l_j
z+b`cWmMA$TsMh@J{bf~@4l<YiEna(?!gqb9|BeeZOBr;LK{{D)It$riPWL6xh^fsc
zl_@nILf11gm!VI*>fF1}3h(a+XP5{b--k!(AahAyB~$(RDLnt!J8Ok@nG#<tq;vUX
z=h)80(Yl{!r87xkN2D<*9b~S0(@&NG&r<RFDJ2T0`t<+y(xU4Jnd?*Z#f)Fl*D0Rs
z6<RW;D%B)FI-XB;SCuRC#K)R4I6oyv67^9!$Xo>)=JVFMJdy4zhguD!rj=MwI>=nt
z*RsZE7kr;Z*v>x1Rj{iJ9fa%W=?DK+c8)Yh@4T>V;*0$sQ&Bp|T%q!vAxf<U6S~bY
zA4r*`{njWQWUiJU`zw1^_v_Qy+%VeI{N~RM>1e+A8S#Qywr+B3^y}`t`ojqtbp0T6
zeJWcEH!f>fpZOGYG@hBLOhD-%bM27f*6LX`ojW{UoziXm#fgJ-nu#$_Cnu@8edQCG
zuby!95<=-9bE(Hrddkr0_c{!h^piRChb&Q}>j#;uCn$}=iV)RsrLsHomT62*1*G#!
zs&atyJBd-`r?1c3@T6^5lnyf2<_<xqktP{G{K2ipIL_#h0!jy&E3qqFc$xK=B0j%^
zY<=sA_XY;8pCjbY&nY?uMJl8iopCW)n6E+UAai{>`{Qxf#Dzx<<G*h0#teTALFpiK
zO;A}Z8fG1!yKCbrclv;+uqvdpDd5$Bzu<bJFP6>q;gjpv$WS`ST$x+0+jc2F);&9K
zR<K45E<`H0p0~E{T+d4$s}&0G{>b7i@ehyELC(W7U8k-<`)_c_c9z0Gc9l{erGxBQ
zQ$@)>!N*jLvhmE{xUuOa21sXt{#@3|zoecbnjWLR0RE_6N_71obEV9Aay*Y<=heUA
zU#wlO&6<kRLFQ7v)TOLlOc!u_p`Rt&FSf@7(xJH8DUKNs!S<RTCNp!t!pwrwLFVet
z#4f1Tzxf;%%#nblD7`;%09`-GT=On`0;MM3C4VYrYHx{5*XKYw-w96K=gWpE<qD7c
z&>6lxY>m=E=JG!o$=dXhu-+g2Myz6rDN6{YgUrRcbr1W<=Z`a2|FJ8RT4}o^3b=m$
z=$nO^DD+b;_rIxFh)L-opmdPAv<y|eqax&W_9rYWH1!V5xT18BxlVoia6#r;dZK96
zR9TN!VzvaN!>i<up(ymp*%W_%D=eZrWQiPIKge9B4PIwI?{vG_X&I~O3GVjRpmdPA
zu4{!*%sbK3o{!&Pve90h_JwrRF$+s2S0B!o4rjP7U9MqQfOK%)1M+JYY;Bg!93Dk%
z%$^(j(e;DOWzr@1>Zev)B4+%UN7ZB5ff|$!vgdk^RKEB-#R{gG`;>GZD@KH%bddAV
z-reu;W46;j@W;@~W<A|=RY=GA?brF0!j<vcZ^#8wjy&8VL+K!MdC;b0$FA#sF_~-7
z{%wBUg}4u{=em{pm(9P%vK{ZaKN}hMQ^G?!?<o|$Chc0%&fi+ds~u0~#G-VNxq3DR
zQZFRa_gW+zJ<duw&BTDxL2j=^yU^mvwC5iKlfRiVRP%22lEL-!*D~H!ida08?=G_M
zEcffV1e6Xkms2G9w23`a{c_^xuk7zr=1fpJ$XwqHLJqVVNYkCVvg2QqTS{PobRs?}
ztys0%PCsYHhsmWUPYmsD@BaUPh}YBo&wr7*u1MpWzg<W>>R(dl`O_reT@FeInd|&J
z`>Co(lgtdSl5}dOB1>yXXZYPh*{nE2?M1VuifbO?ceznI$Xw+=F5zj`U*$>&L}u3f
z$}S-7pz8;j%fi`G_$-Tl=MkwP$={=Y0|=0gWsQH<X|0^a%7w|&w?uP(97+e7%h|Ez
z_%&P-&n(k#^Jq=h0SS~2GFNKX^PD+@uXK%v1%o=I2j`cz;rcP&&ioQ!IrnPRRhXst
zVJv+GN(Y$>e=s8Pb~5WaEgQq3i|6@OeNj5dTno&1IpvzCl__!`u0)pB&nQ4TKb7Aq
z{hB538@X(9)#cvTn2jxT{UCGo56Hac{X4(8CEjxEYwpTqBT5IEOPyb?vRJI=Ww%Xq
zH15DbuMkK_LsqIYTCiy1)?qDgjho|sswf>~E*8?1sdk7M&(@*V)weMv>KK#`GS@J@
zy3oC<L5JHE!+-939}*@0L)SC%`-1;@&k{-pIZr_GKDu!AA)(fmx9yY?d0Qrs&exg9
zvCrami}bUjRcH8VDp*iD$evBj$X^<zINUp2GJLc2(&E#Jzv%iw<~qfCX54bQ`{Zet
z!M5GN^zj@>r!CK${D}plgn@!*&cLtQ2y2uMGS~9eT{$98s<HCxzcQCS$K8ZbI>=l{
z`P?H;{}aI-voO4~AnJdDv<cUb*Ut{03gy-1M{+-iubr(F2#}6azv2GvAYExwnbM@)
z5%G68ln%0=`O~{P4S6m~+U|+rdXz_sB~UuZe*UngtsQUKXD*(Ok6ND#99`Og>t}G2
zYN&!mR9yS+8_VxQ4Y&%F4l>tA9evNk^~0N=FI^<Fj$3}}i_$^n3O^RXI8r+&^Z1Iu
z=IOBNG6hIyMYubrLW0;`CVBJI<JIP%jdgVWAah+0)66W4QVh7stggA>#<i~zrGv~>
za>wP*R|e{ngN%F&nC%X+5J+cXy(~<&F3>&vpP;(JK&y=^N(Y(iToGYqMP6T6DO#vy
zXY>{u2Bm|{Wl)~a%gPltd%8dISYbnVEpZK9&q&8jMCho=Zt8bo^Q+IkI=ZLhQ98(6
zb`qR(+N$mb4Q+4AO)IVk>Z5d!^B7tOdVa|nP3Q_ZlHS@!i(!Cts?|m5o5NRyCkm{m
z!zEAs>HUMQA7n1`sHDRz>>r(X7yX}RlUd$KMd=`OMUb(oefxAOI&baK-!ByBFPlI*
zuMaWG?>cNg;guArj0~jqU_t31bLsxRuV<v1SQe*f{NN*VxzfaMbp0T6ov9Axi*5Os
zW<~a@dh;XqMh>LYPo4az+kZ#IY`@2sr&mW;tWi41T#dgotjAs)VEs2;+w-CLWQ`C?
z=YMk5f7)ueLMOhU*zMKrq?Jxuh3n_;C$`5|9z^C11tnEiEjq9eP&&w5>CMicnb~g{
zf8%Lr;P|lm-4&&S%;i&S=_pINQ_Cr{@M=UVfKvj}8FYNg);47>t!ET7t8}i5X=w#r
zKge8VdD4y@?Z<6#i><0wE<~>ylnyf2*7%XSGKZ{{2bY=2&yoV>eIXsC`rt3Rc8pIm
z?u+`<{q-19K<OZJed;Lr-m~U>_Ce~Mn>idADP$-eWG+gp1PS41nKXg18F8v1BJqvO
z=z2yv4=-c}x8FN#8h@7Ys(h?!PzXu~nag<dk;jNoz+*=)X_w;iUk9-$9ppT@oXVk8
zpQ4L8R1G7T4TYa!P&&wYVmn#NN3V0H#OLYXCSRO?*}DYSk5;hY?9%J@>h%)~Y;h0t
zC=(!^5$y9Da{|nl-?fXT?%R4<sgKe@<`VlJw}PK}bf)r`)KEgM$43^F4zlMsi&sCX
zH{Zq;%1Y^4G=y*tEyDG4-r%W9uZ-5q6Jhi1+Z)ywQ&Bp|T#mtfwkH=~Z)YqC{cEIr
z_`@2dgUod)<HrTc)Y41;%C~aHx0-snQ98(ZPC5{R9gKGvxNKQYk@InNkrv?kiC%FX
zx$S9HTzSP#@b0;|YyzZ{OO;g<`-LP`6hJ2ER-?Kfhtfgja{ZF#i<Q<*8T<Txto5mK
zs{~31+4G4XI%;IL_xr!`zoEQl{IPlI7hFHT49j`Ds@+O2H}zaQ^1`p70;Pk@70TG_
zW+w5Mhf-GSF9oe`s4q$fnQQfSnDWxXXOrNdT7R)Lrep<3XZ>cKPXFDZFEXq(akMPI
zM>gis^@Ge++<)rv@2tSqXHjXBTY)^GjVK*tuAK;xlq)8YR-}CvpE(MM;USRDuYJ~0
zb1s=y+C@B#-_AA0s-kp|xq|GBnfrFrv`03_la?h!W-%xoWG>00Rjj+>vPC6!1OdY>
zPjliNx}K3v-`Bs}(Wj66V+?tzEtFWQibv@na}nevCfTU91C-gnHHc5VU)D$IAm<Tb
znF!f&CocZjho@4(SAArFbpDjB87j^WZpG@ZFH{I<2=~sS>j#-Ddf*DZAg@F@{Y~3p
zk`CvwRFn=fmj<3^IX@+DgZ+o9hU&57q9%~eOz7|0uLIr*)c6<PvLj{rEGQjhuD8!h
zP6q_c&p-ZRbahexMZm;Qbp0T6{d{rbSNoN|l)xC?f?t_*ra6!ftx=G)7hf8uK|*tr
z&KTReHA)AW>sg~yT)UbyU2%|*!8ZS?=RznQWG>xKzAMR2G`+E97sB;TB%MekxPGGk
z>QNakl~ZkP&ED)fmzhUE=^%4ibR4yq^$omdZp7}*+O&Mf6{UmBb$C=hcxa=tskz;?
zPPNXoNCML7G}O6so?yc}*qbe#m>`?AG=r`mWUhrk>A&Q$*mPm(TMkjHQ#v&$9b~RM
zA^j;&xCB13>AvIqz*^kl3+b%h<EnR7KK>wX<>&Bue7&UtN(Y&X<6L{wL!w50-Inv`
z2t~GbGL#N7SNhAjn;h#Gyd5sq$R-Z1Of*iT>lx|Tk?#^2>s|{@T|283sC+~^1k$lO
za3f#r@9Qu-CNGCkqx=e0ln%0=jsQk--!;7h8-f+P8?R**Fen{lt}BL0N23o!#A)?@
zI_yGAQBC{-*Uy<?`To|qPg+6q6MfrX4FBR$I>=nO3wESRGXw83Qifi+igms|N(Y&X
zl5X)h2UC}yJm%STsjPd343G|4#2|;<*VmL!IycL<&uyRR{SMcUMNPQ}%VbctVKB%3
zWKNY|2`C+8KOv8o#j}6vy{u^s;8qPglx2d_LH2V})<H&y=>m)0Xd3hK(1k@7NT*8h
z{*{#@Oaouu*a|x2N=gq+q3Z{k%Wyfh=3=}36+=z6+gVYR^*JaVWUk;UUz@r*`*+*F
zqI&=SN)WP!bQ)Gn)eYqy^jou7kFlrE2XUixkh!)!D<4YIO?2tGT0SV-C)7=vMAr{8
zS5c`+ca@h;c(3r-EA5P!!vsj@pYiY=6*uMnIU~-LXN?_~a3~#QE;*05wd|Hto~otA
zrlnoI{t_r1WUjXj>04RL;Sphh?|&5f;I1xxgX`x2Q@Pu1S#={mOYt!wZn0MtC>><3
z8m6{-R|nm&-&}3MOZr58Uz83q*B|Cu+mTAXcJ*{e-H`S+Ck04H>rlQwX5GWwfb2Pa
zK+Q9wjR|!9Aag|#{w8%K7EBVD611D@BgPw1I>=m>em<OkeZEsKQ_xe+zNBppLFpjp
zxvh4MPrreBN7Ooj&*FNfCKjcGoM)-BjN+c$_8+!Pw~Lwd@e3G8XFOeAt^#vB?wak%
z&!vkI^Tctup4Xa2x0|}34Lx8HI!ZMA+LnOQLFO`I`PlM^=KE1UB|GtNQl&rjA)T1}
z4#};|j)UZ0-(~Mp9GzuA=^(e4*I*`#-HBrnwfSj7=aRQAhrXig2bn8n<<>-#_g3Y}
z7tXy$PCSxKg><C9->oH^raECR{KR_xwzrrGN(Y%sMTtL3ax;l%ylT4fNq^T<Zj=r(
zSKaDW2K}4{)6VN3=v&1M)hEW_`eEC*PCF|)!`~okNF(&aFFyyRgUrR`af}P6)Y+vG
z`Z!l&g((|{(n02;EpYv$;zJ{$5f#SAe_M@F2+~OjaCt9Di5JSsDwXA3<yaz(qU#5l
z>yWXZQNkyN%Fjc6!kcW#`4uP~WG*-D@rF2&B5|9)F&0z9?|EGz9YF%iQ3ny}e>dKm
zXMZ*_QI$aHAai-oxu|{UHNC;ada%xW>Ur|U2)cfdxo)>byAkl#<cGecpYi)z^Qi`<
zgPi9E&oQfyS=A2Ib$Bk-o%UxTC>`WH#YBgA-|SiS?36w`iO?!(RY=FNR>$`QYiZex
zS?}1HNIV}Iq@#GEhWrb&;@vY2o`c&?Y%dzW!1bJ^ddM^Jk@yI<zF1A+M*naKq~po>
z(e=;JD~C&8Uc^L7+7neFoon${AJyU{rcBn4akmEWHIqR)0pA-h{;i<fF;U;zR5A2Z
zXdH&?=R|biDi&*KF0txmpT*f-7Xs;U)BbKwq5H>sUZUo~ur$v#RY>PiZTj*Jvvg9=
zt3#fZu7^0uARYck8g`^UqsgqIVDF~3XOxXYaQ&2N?~|V~8;c~jtIYkg^4UEE(z#}n
zXYIota7#;;Rpk)w_<$;;)BU!|Gh|a|Ur$?*?lV7^E;2}GV-DA$QUA?Sg+{fJ`I_WN
z;~-o=`zD%ZnA88b*{ireyzVGd9D>q8p2wna><0vt;x5OJsI|TjJ!gqU=^)QzwO;?u
z2WoW%U(@0z6ZUJP!azF6->W5lhU-VdK*eMAo>%{;ta^p`!<l4wNGDU1f4W$bX$3e~
zNT=XIq03p*3m;y$t!4yUk|HrE9pv_kTQ`^bRw6$GoZbO+{U9B#ye%(P=6xrDlM3m`
zt8?Gmf1i^H^ka?ELGC}FoI=UE^qRYX!wu;?y)*scTfw_gkZYnJt{)rz!6c^w2Wqwp
zw<UP*@vaacosyf>cVwJ`Jb~j1=^VNESGQm#C>}TpkWOEMG5e!F!8+@E(uI~>DzjuL
z9pv_^Yl{Caa?MUXwt@U1Ym$Og<0o`IBOT|7vQjhNBYt@GanaN)4W$rB=LM_lrgny+
zvfA-W*voCAUsNHTCp*QHr!74T)BO^^sHI{rlR-LP7mh9Ho{@U(Z*6SADENZV_z|w3
z>qkc!2EFVT*-eg1Qonq~5CZ8WHs8gFM)7SgGr93-S9(>dLOKuDn!~;rl?M)fib>R4
zsbnLAbkxVSr`G7NcLJxe53Zk?P7-zES@TKd^f`Pl;b>(Dq;v7!LAEwc+#4{DDx|~y
z>2#pg=>ChH_=DA2mu6SVAf1UvO4VAo*DiwhNH_MP>j!zBH@`A9=Um-54BjJ+hjh4W
zZ`dkeL?}QmeUuLJc#qrN=YRf3KJ_hQle|Cp7dQr#4l-BFb{LOgL!2NZQ9R`;{?5mt
z9(4U6=W%j~IXPUWDiHhe0Zr{Nrau+ZSq~uwy7WHt&ogvSCDaUzo1k=%xsdPK=7w~h
z%*IbFeb9d&S$-w(WJ_oOsT*BCtcbt3WI9sjdvxQm`@E?QcOZ+Pk}Jx2s1T0Xyur@=
zKgK~*yY{?=tW#0eC>?u*^V+TXbXfXg^4&Ml1oOu4Q~D^+KXM4iP`y`pliB=&XLGpI
zyi$vM4a)QUA%w$wH}GA~OXpvYR=NE{)3&LGP&yO{$ERfCy}4<G^wpp{r^Y+`S}IUF
zv<T;6q_|<KE9Lf!jtd`-u6bS}qI8gdk7hV<#60@@_pXS0e_O<UytYq8=^&4<AUjpV
zaKi>gI-wKw5^{`(Ody@31A~0~Ie8lLlVm^D7f=ydAf0vk(SNtd3)sOrY6#{2gFH@y
z8diRechB&dUS`6Z2HuX%LFpj-`BrqgStKpxRvymL1kZ&Vw1#w6ylZlW?ff{;Ev<jc
z@$?$uhIDrRI8_dI2GQjTWG>y_x==6y`T3P}k1K2L8q+`E<Ul%4+qonXJ!NkuJ~iX;
zmmRog4e4yV%D%>|>q-YkUY4n}jdtRObj%d!L)}6rzkqorP=0<Px4T9jMGh}TW(9C^
zAf5b0{?-f$fo|YfLpsr#EsxVr;12_b8`3ctxz|J$*TVkUMii6uq~P-e%JV$3pQ|)g
z^ihl>uE5EGbQ0So@P4miM}dR(a|b!k-168r--2I;z~P3RM`D0<hoO3a1vnEZKbMj7
zV2$+B!izso0w)L3;l4Y6>x`dr25_t)9ldh8wZD%QKLCdt(&<{`(4Q`Mk_OI17rJ!|
zvY+zLj+=i}$oA&Rfpk1i*=>s*j?)J7SVKB%YJEv+L5w-T;f8d)@eF#@{uvCwndpS;
zXYCBbWI?zYBXDvcol|BbEM5+(p}?_*bk>7)tK*_oje)}r>6|~`+VA&!x&$~A9dP|%
z4yuWV#C2Z)P7b7FuXxbl%kLi*z_EsON-v1EpN@U23LI`ohh~3V66*%{W8h4Dfa|B{
z`{s?W2i6mSlLP65N^cY^o&0<YIM$GkKaFkd;|(TJ;Bdn_1D|=X`MvoHoQd~v{aBFR
z9yVcrbsRW3kWP@?JKPOSn<a3pVV$S{*!s>S9Rv<Hq@!gd-Z5`lwRgNv5aIgKUt$;T
z3}svZ^W;D}>6XXhJv=?*fnyEngw%+H{n07-Z~uXGcItfAc#hMofO#g~!S(af>-@ii
zU&JGTlLP4#e6z0GSURl?9BW7?fl-F5Ds86^INXqq((CU8iNp{8tq<Gb`f)fhpnUA6
z$PqA44y5ymc($F?GOGg|Ye=UpiiMMcD}(?XZb-*We1<UCK1~Lki8i=?*thSpU6i(c
z0-PL3=Zmsel%}+c0C21!9r0z{w@BVCDd2EJIuX`2nk!-L8&k*Bc23UJ228Y~>j!!L
z&UPWK^;C--)-j1DK9gzU4*{ivyiX!)<~*paX<I3R{rQEX`m%v9N(cFSqko0&YGC#q
zc<bO+8N#m5%4veqIf%IbL-JCo;>b96)niA)HqKRa0Ef~+-q(^g_!$!~^!|!N{fU*J
z3Bo8IrGvb$g}lFNjnYA`=aKhUxluaE?T);^N@{`If7tmbhqC3;>Db5~V$&p&Wh+oR
z$XxX0WhJ)T+%8L1r-#{<FZ8*hbdb6JX*x<LF65+v-=R}L=^*Fn${HRsuC=%WoQ-C5
z{U9B&+N5>z>%tDeseyEqMdFUS?@Ac}#~0GcCFqfiI6dB+Jd?H7*y4Fd0i}cNdF@nu
zzo@j2Y6HgU-$iv}b}~q3V8+^sOtO1$@Co6>56aJ%iB0HwMjr2W?{z;MTi<NCoy_QE
zYpUNigwjFgB6wJwZ;!seo3@FQ+S#f2orBUrZuk3BCkA&r#A@90sUK#3{eicJbgUWF
zNcul&O0q}UKddNe^Kqkekmu*<@3v9R--F$(uHW32jG%K~YDCvFGFK8QhWMxRDeb}P
z2hSSMb+c5Ubdd8{hKu+%1wYaemwWpm&c-r71k&OBTbygxFsxQvSy}z?0Ij+{N(Y&X
zw8qboK4~8F{@yI@*XM`6GC(@xDLp|i$)6u+v*TL2ryuIr+W^<I?ph6NXde|-n?03N
z>W8iT1W0Gf!8exHqhVrwS?Jvy{e4Y+ln!!xCH@RJLMl2pV_cl5%XWfGl^fFeF^U=1
z@{lTenG<UB(NUdi=`CD8k$E>149*4{6gX<@yvA5{S3o-UNktcKeil)1vlquo*Mw%e
zqI8hwjq2;F)w#P|2|o7te_uzuHxy7h|Fa(+zg8RR<vIAEB*0#jvYBV&4O~A`DmI?Y
z!w0-ynm;XPx&3OX2GX$^@$Rbn^Qbev%%8X`UG3@%>5yGm7hyWIbfZ)9`a{KA?BWWL
zPC&x70Wa$gKZUo)R<bY3MQzl>^;3D8{|&L@*xZBX7dY9SziHQ?bdc-1{p{^Wx&`aJ
zulP8hs1T?Blz`GfZugE@VILt$^Y9bhRAih>t@rdH9kRr?a!(fg*6$}VG!dRF4KP4D
zOiLp3&gD1Mc1|1+d(0Phy7x6)&xdwZ{wDkoaZcih>Aw5gswe@{ky98j*zf%%dtPv<
z-kv5bR3FkYyHN2)Ug(I`)9|n@S>bMW21rNomRUhIu0(L`N&r32!J4w(I=FtiskVBA
z-k(!dqPng&A?ffi0n)MeP^K|9Pf}qiVLRta{iH)5(%D`atJZ&bq|?`X=}Ef1Wf23U
zla$tQ_ixtaROL$^;m&M0_TE~!etyoYd=n{NQ#HSR?jtUwJU9W;>6N3uX0D&ZcX>$o
zC*_S?K7B~XaeS-NNVzj1zVG0AkDbnI21rMLG^cJ;j#Hc`=5_qFpC#Dd8n}MGnS5>D
zOj&gvls~*UjamGX0O?FdnY}%|9e$vr`P9>N`Wy55kj|FvA?D-F->n^@c*pCjac&Hd
zj#q3|f$`h(MZU?5JNBF;joxawepX)A+>>JRY4I;+YVqa|jZc7d3<fNff(p;duG?XX
z?=rui)Q5CB^~e|oBjx@i%DMP&X*GOefOJ|<ZiLt-9!QYE#xK;F-4N-mg6oHSZo=`r
zPB&Y!)TiI?<~L;$Af042>HuwRgR`X*7_D3j>0kPgj$hQ&zwZ|^rw1xz%Pa!$j~F1G
z(7}v_=Oee56ph~GCQ?wu_Ey666P47U5<DF-C`a@Cv%H&jUjn4VHy9r<{A{Rfsxz~r
zV!UEiAJXAxGIEtv@vrER7%lX%QXFD{bZU;2Ztn8e^}h0En#I!)Z}+}}>xY)=>qW&#
z>4BBd{mRn<ejgGb9pOdY%OaR@VabxwH+Iw~8TBC@BBQ#!1`A)%tE=WxGba@N7$BX{
ziRk65OHmi=>Md_v@-(IGeTl9g<aLv@hN`HP?KunentVfYyJy)sC>`YbFmaOJZK6vw
z`x1XOr-93%_tq#K<UA1%N`;K>B>p=hW46?P=}(gcN(Z^_z07r+OPuAGXXda9eUo`}
zJO-tM%oU?0!2SFuRy1F)&u>g%>L&38x}K3vh*Le2X=^e~)*PF`qsX)icu40bnV{BS
zvxesHXR)`-NTTCdNayPLCN5U`-luQ9In;l;vYBEaomVL>wl$c;lP986CLh1D`AB>Y
z*Uv`v<D86@*95`n(p7q$)<is{Bd|jIF#k%kt;}^bp21`CeppDy<bz^TEGyfS-x{j*
z9g>~F7)ZyK5G~WEV>~fm<scb%B&e2H0oRW?;a-F`#w%>yn@3otrb`wN>HOK3h7a$v
z{rjC+A=vQofCU!P!OXXRYkTyXBjJ8nXuPI#GX~OWDUVr^eqKkv6eKAZbK|lgu^g_S
zlxJstWxoji#&Y9$+8c({Gk8d+MB?T`t!7J;NuW#Y<#*X^SV*Uzv>%)8p=h_NO`6HL
z8(@opbUNRK`h9C*r{1kr-PjB=b0C(%_4AGH#v*6uV_N$O6(aZVNJl)RQ;&anukO-h
zQ%gj0V&a49S6E2rm6?0Xh_=g9N?o%M>EA||F_6wG6S>a8>5+`Wl=6{(S06VMOX2!y
zh;mio{rz>hE%(Ub!XL>zcu2>+N}}$3ksG7#l8oQvriTy~(pg`+LswYf`3F3gi-B~I
z&p#8N!S!Qy;h=f)$3MB?xm-M?gM9uO3+b#akn3MIQ@)k!8r-h-$|4N|=^+1}kyrxP
zPo{(3tGXkNyx{K{@hBbSeOm6;(`vo1417S(`Y0XbdZStO#a;4KboIaf#O&W^biRWD
zrGxx_xi|h0kJ`mlI^ak^I?|RCeZ$Yx?{scgb^ZEhYzUj{{loKa2mVw%Voh~j^}h4K
z9c?aTKdB5?e~`{D?7QEd_^5KbKd84D-F9a{e2;I`^6~nJ;FNt={utMiU6Kt3Wk1My
zRwVryzxmx@PjSoD)_q;jNJKdga{rlp!qZc}TC#Q^$AULysZt~Xr9+R%btyb1c`a>h
zyfEYUaJr!nV<Sq37vVHVHh;D#$=yATkLWf_4!Dc<xIkVPc>Rk~;D7nJ>Ek)U0g;P&
zJtio7M()ou^)!ZpXSiN0=#D*?UZ)H7Md{EXa#hnDd9hB}aT)B-IVc@AgyToC^zhi@
zyPtCOZ{M6;YEzRyc^;!gI1>k3$1K19$<!QjF_(LJqlN{ggS>9ikSueGVTf0fVVl;f
zy&hq+gfbU1Vjh2*R~M&-*S1uy9Vjm%ZVjuVoCmo-3l9Z{D^uq)2!&IyF_s>Cfc89(
zoaf`$g^a>>>#$FL0bYV$bn+%B=RqE)Etw}W60cg_%x5$oNx@zBhwT{?z-H6e+2lLQ
zTeMB}+Qt!W&&YYmjR)Vcsc1gFD&b(F&SIHYfpU8xom$$A7!SF)sBeAM=PxdNx#0@w
z1P`;@pMJ5?8t(H<nkHpkLIS0OLF_-~(uBphP-pYm_heb`szqN3p>&YBb~#JmaBk|P
ztB{lel(Xf-Nhr@_NXMg?hF_mLF5QFt(b&1j{oe>E9pwHjpeDP{G1j~om2xsz!#gj~
z6{UlmC*$t4ZhyyvrD!dCMeF+4-V!Js<UC(<hU6ngC)5;isaS`1^3oec=spLL^AsJX
z9+W2^I;8e#Inl=TgHH{lBep6(Rh{P@E<k-ih@Ohj>Wk7r<|^*VJTEmy9{r4Kim!U}
z^r9+C2bs%NMY*8o$vX*)f}7m_GwkolARU9PH>PR2|9WinxF#voJ=q!wa6LyQh0!vt
zzVJ9upu8?5p0*PL=}hMB<MSa`=I?JWwGFzTP^}8-h%uIgL=Rb7gekwfFrc2;N(Sjf
zQW-J7_tvx?y8Vgx-fWAeu@J7Ge2M&uXimMHmxR2c-&U6kLm(ZMn~rgm4vkMQ%+zab
z&+M~Tg>;-aZ2Iw-!`Xw?)tzo1{7#ZVI>$amKaGt)6!=5`kuKxw{+Pz6aQ(b{uH~Vc
z|D<wJcK6EV!{?|%Af2yz>z&4bG=?#6GA^nq$-Gg8bnI{)9G+IQi-i{gJGUMU;>jSL
zTg*?H?!LQn!_!#Bc8Yb~zp(&aKgjcjQFRcl_n84j;NT&hyOl)|*FG;!07oCvX<#zw
z+;4sD!`GC>$dR*c5-cbk<ax~3!|L}L+C@q1h<wW1-P|KXPvH8A?0)|5zNW0}TmVaW
zaq{b$9Fz`n9_0I@tRbD(k+-%P<sMlTOwjZwr^J?VLpn?^m9D-Ep6b_|&TokMT@p8u
zkFFnNuEfoJ`$K%}FRwhXAG_|msg?ujl$)e=MzK9)a~HfCe_Mby*czpS+@IamColHg
z<Inq}E|(%GDgRaorGw1%z4AAcdHGdZ@OQ_gJh*-^@t*AxqQc_?_~Bo42djh$kPh;`
z77o&(;I*rl)Dk{fxSp92d&qQB2-0DSn+-oHMYp+mD&|L5_{m99E?hrhkLt%B{JnW4
zx9WD?)zGC40;Kc$fkWO!sog~2;2@pOW6>f)zrRNVM+njpvEJ1b-d9`>98wNkKXc=;
zDGj4l(!e1=I{Y37KKJi?q6i!uq|+A?-LJt=_8i=Y6oPbes%Qv(<^$fqA!Wn$BT44f
zpBa9~1l&I)Ksw0#kT^(Zd-lpV4W(TjFpm(dgLp3lDGRQj8y_loZ8P^*fq4j!&K0ei
zF1$ko1~@oK=V-~_H-8_joCJ;#q*G#1B5-7c><n;7kKy|H5vHUYZgn6NI0Q)N_8V)*
z&P(Qd@A1GvI^Hzz7Y#~Q1i(B(kk0mf!^LBq`<sA6%7p93w(^PK#5j#0a0rmjkN0Wv
z+^NIkz`;Q}$oIDhK{}};<qyP+z39RBO{5ICe!d@E{j#z#)B_v>q;q(!J$E|2{V8y8
zkd7brUqbG!Qd-~$K{~EBQPb&XM$&*oN{8#GvZ1WgR@spoI0Q&XMLVDRD?N8FaBz^0
zsVZxmxpU$waD*ToBe#9@uJ0m^fkR4z>xZDJlV13^Xc{;KNataI=!{6piFDxLAf0+A
z*F*XG_VvIKf^^PwX{9E=xakNSQYu_OQd0*lb>w6UfJ1<EBubg+leX&QfP;f{D0=^h
z{@+i9&HzUU(#cE_xGyO4ksUas6u5pKdh5@At)tre-kbpGR0S@|VJNzC!8|xf=l3V+
zpTR8pF2E6jbmV#$O$^nAMu9_m1lN!L6}Qjnt7-bcAwW8mOKE`>Lt%ly!9hANhN$%=
z3=cmCju51CwOfq;g=^K`{!DrZ*AESs%8{+$nZIBj0;Iz;^~Oi>SJ*IcaF9;o=_&bY
z+)gQQgdm-mKJDAP1j`}dkdop0kuaK#pNetp0uBMv!L@}1^;zH9d+!_$(mC<Ig0+aq
zqY35_f^>4kEj)sFZ&?9{lmyq$zb9vDedN0_z#%|7D&wZc$0G)A00#%@TrtaD?WA!o
z0ge!)lev`?yraCZcbt+E;rj7g>il?zLN@};Lx6OqBdmWP-e6_|4i3`sH0SK)u&ciU
z93e<&Y_TErB-wKka7Yi}`f*Hs_|k8YO$RsxNXPKWL-D*vMSJTy9HhhP^!4gTcI`wk
zj}W92{qvEw#>BKVa7YPo{j9V;lD9D7u?7wS(oueS<=$-3+kD{QARS(=(vl_Pr-i@~
zf^^0X?H-VA5`708QaoHg5z{W4+bmZ<0*3(UeEsKeg7`xIK5%f54)QrhAxLMg&xknJ
zpneI=LyCjzCpM2PZN1_BdEgKro$32jGME4E2m%KO={!1j=FQV+2?B70Af1Rr{hQ+V
z-fjbj6bskSlhe*?uY9?00fzwT+@W~WG<1bw@46cY>9CPHC+P2)`+<3cARX3GwWkl$
zH2=H4xDVG)(WQ^}ZQnvw!8`;=XIs1Hl=RWDz3W^Yq;veJ>pvys@;We&5Tqmg%zo|U
z-0!{j36o;r`U$YQS$Ny@Iysn!0O^cAyt=9RYS|MwI7r9+mVfc~{!^!bBLwNZZ9Dme
zC$P5#IHYK}ewfNd<D!HXV}L_|bjGtn{5V?X_RfbmNQag2sF%-?+ZJFRAxLMqvb9WD
zb;cDqq$s$4eieEMavWt61`YwzkqGu7#;tDb-G{_MI_(>)ygjOCB)~jEkWQ!Y^JfAK
zZ6AO`!o&5`Tq0~Ht;m@K90H`HkQ1OrV<21v92}%$K;D0ys()DzI6{z)*-6EuhhxVd
z0f%%Ct{<P0=!?#=$Faa6KsxI>BrLDi$bZ)tkj|mVMs7DT!wX;@AxMXzK+2f&!GjLq
zkRsvwX}dDq#alPC2^<2XvvZx^j8kN0@45*G>BQDuIGMmaz2^u)Iu?`XWXE-l_Ks6h
z1YAE{H0qfn6wkBv`hj$i@8`!sI;D8Vr*AWU(tvq{ARUc%1)W*@qNXPcX#?Tcu00~%
zMb{7Vc@jeSnRWfgm#BeL0qIPQym|9*UuP6>d?6jj*@TW19^Ny+QH6Bkrq$Zn4;n=R
z2LtIOK6zH3`2EWX;Pi&W^*q3sL4JLtJO((akdDCI7GF<bM+0!IA)R}D3+$Y!U9P|p
zf^=Aqdq<joTNVV)QW#u6I`S0<zf6uR1E&Vkx$Haa%NkFh1x^U0gM6+Di_$?pXO$WB
z<nq&w)9K(jD-5LLo7wWc;-ViLaEPJkdPdGO+L4dTJb>E;4j$5B9C`lbxq;MI;9w!0
z#uL<M^mKM>fP;Z_Scg9Au0(Og0EZX?*H6jvX{p;s9o2w?hjiYNWzJ+hkYoW47ScI%
zN-&qK#CQcb7)a+?1pS*K;(!%!h{16Ecz+xC?0rh85;%BB=b~69CWcWV6gXH&=j>DO
zQ`n@0cHm$jov)?mb(E`PU4TQp1J_U1L7k7s1t)lbgNJkkNOwI<$=?kF2Mg&Se_sXz
z>G=0aX|ZQ5)Pi}4L2&(SxZfG&U}#?k4j$5Z^h`6pE}%~uI9N#MzI)P}C7Z2Zz`;N|
z$lnzr2Ez42ue9~JJxX&Qm<JE(<hjK@U}xB;3mhz@Q-5f2^Jlq_32-owj_ARQIlNBc
zo4_Fk!1a@ZjUZR1x5xwz9@06kVI5gs<#-!7SV-q!;i>qqG_(=G!9Y3|onI?YWqf7_
z4$&X3A6pq}wO69X3&6ocIw>z=4m5rKvA5l^kWS@cwMW;SOT)lC7)Xb%OL;4xx^5ge
zL_fHGR_{-i)`)e80|yW36rS~aOMiKF@A-Kwq_eM=I<#Cgd~Y5Mq~o-|tn>{gQ3K>6
z`oi_2B1ZY=qlbMmaPW{0J;ly*)5~I!z`;T~(eKtMJf|r3_CpM$Q)^Ir{NyFsdte@-
z4_rULz8{agQh+4~4j$6sPbuTCC|Q#S4i?h+`0aCwde9L?;9ww~0iStY`H|ph;1Ipx
z`uSPB5u|6LVGSHSq!X*S;bf64mH`|rq%#yCw)=O@XKy`*fpnJ6dJU)%E@*>!h+c60
zq}CH3I}M9J0uCP1k-YX^px^E7CE#Eo9WwKlsB`grKET01I?4JA^6ur+mw`j{gzHD*
z051K>(W}0|!9zL~%(i6O)zN$B4J@Q{^u3DrO!1jHFb@XOVOhSyc+}(IY2Xk&;QFcR
zv8L)|JfaC4JfyRz#F1{_|IG_HSV$-Qa@W_3xw5>#!9Y5fQV-~+=*qPMhv*L14_CFI
z*GsL*y>%uY(n&Y1%h2Gd-OGiAbiP~I+l=m0{_pw%(s}Rxp3u&B;rw1dZgBm$JJnY$
zoqDl%-oQgT)JJoa5(C@@!8}+<=Q;KE)nbeDuYrSsbOK~ujviOINDmyMD_lPjBKv=u
z9=87n96Y4sehv5dm1RQ?aIlaLzoi#{R<f`pa4?V#^Pv1d_l3iI=MCa*xPC%ySlD7~
zB=_#K;US&K5^_!Z;ZKbq7Z%cCu}bl1+C5VW91NsGY7)A#mOfJh9HI+cKNDZrj}~ux
zyaNs%(%GU>Ic8lFau+yQNaxM=dC$W-hogXlfpj7k&U)#nV<~_`bcX9kAVOATQ-`ty
zICx0s)7nVRgX9un;9wygo5;SYxCQII`{5W!N5Ybi@%M9?+h88zEx3M8E{YtSmeG*{
z4j$4`wSD|q-b8W|I9NzWv7C9+<0jh%a4?WgG}$_*=aJOCbvV%puAeD)T-=mK*j~?g
zNax$;1%3m8&b@Ue7Sb_#Yu2=mGv51L#y~p0AI-bNlswfz&qPPKe#*V;q|)>%jsXV`
z=`gL?-di2|W(yoFq|=kTN*QU<eGxbqNas@MP|V6=%30tL9pL&|kgdqjuyEho?s!N?
zcHv3HX=dgBjxR{3gW^74EO$^F$c2G)M6DAhBuG5}t$%QE{ao@Z-SH`CItk{%Lpo~l
zxBh(VJ0J)gETnUbaM)+={m1{l|AKS`-VM#gS+M1Ud5HFK{XC)?TMLfUaRLq=(ixfY
zQXhPFbMH9CLOOD?_=3fw=6lz17)U3$`-wRJ0b@6ii+B^RpT)WdEO?0+e&FCC9pQ)P
z1d5mx27rTwblAA1@_6qWSONzF=@8`y-A#J_?tO1XyaCtG_xH=1&N^EEeSSeY@@l5<
zhW*YOgIrihN3X55qE?w-0XP^)r|^7uFU1SRSl|$^!}XKD$lsbFA<zvRJfvg8gZ)Q+
zU*^B-Q%HyWXZD|;1_mF%JQzr4`L?><{`(i~fkU)|>*oQ@VNchtTXDd_Lpt1j-IsdX
zY4`4DVj&&bOFN@qeNK#lc`%R;<N4O4<z=zGbuZBtt{=>g?@FpASz=%wJfu?;-N12d
z|Bp4`U?H8}_m}#*177d#hZsnw54ZWqB*gg{n1^Ts*H73>lK^%~#T&rELpn+_cZM~(
zMgP10f^@dkhypK9x9?pqV<4T3?4d%;J$EgTi)ankkC_5}s9Wgd7vSI_okdTVaef(}
zz2hAV>BPESpXSQ5v;p&AARR4}`z{BZ@67;*Xa(0#x$q4=uA^$dfrE#1@|^b%h0z8?
z00#@{RI#Td&Qg2+w|<6nN~Fv~g4TlXfq96QaQ(P4n}_ul-{0Hrcu42diSLI7s9X1r
zcPyl%rL)BEWKkpsa$z7HYuCP)_z;^=;1Dg~`Vp5ODyb64`VJgCq@xqxx-OvjqXRft
zNJl<3_~Ja{IWpj2Af11VokBao8mzz}n#1*D8coNn`KxU|aPW}MHJ42CyD9m5>s~CR
zV`0SKMs`y;49tUpbUx`bGCk3Z{_pzK46Yv;M%qi1pGA*?dGL@<ue%L5qtWwK;9wyg
zmaM!+oN!tta4?XLoFd<?j>Ao+z#(3P>*s-|{c6kc%R|7yLpp6%ML*QI<ePwlg>=XZ
zj1KWGZ{vW2fpoH0D{tL=p4I{!qA6TIg*RDj&vtF>eV>Adbgav@{lBD-FM@fnkWR>_
zE{`<_+}?hOfplE-#0IkOZSLKdAezASlgqC?#92Vj33A~f9Vheg!(!HU<-oy0Iyt0k
z%lrJ#?LCi#fpnVVwV0zR4txgl5RKvb@pWEOA2{M50~|c0ldbw_dzA6z8{l9e9dE~C
zf)v4h?|uRX(lPgZ)xcwE<Ok*<8o~8r{LLlkoZpwd@8j^0PLcFJ*ULqcTVNh6q_bpm
z9G^q8sstPiq;qtz^!43yJxjnLUWMz2_&DyV;6zM6aPW}Mz8?X}_~?KC-T#4fnyaYG
z44CM?f_X5IPTzJ~^8oA5J~7)e+WLPF9uTj<^>epP`K^$(*dO5FAss6-?tR5|SEhl3
zg>=4`-gub3JHrAT45Y(NK6!t~UPBQ$#LIB~*rn;`<<Vuw0|yW392w#`F~i&G2OKP<
zbLHvem*b1`rNF^JIwi>}$4^}uWd;t>5U!sGL%D%ruQud>gNJlh0);6hKipyh4i?hc
z-?1#zKK3OBI2cIB)a<GswMumWaEJzQ{k%GbH8#TB+XN0C((&8+Qt4SeF$^3mq~l(>
zRw2^#a~C)mNN3noVz7TIN&`4VeYk!`N)_d~4=HK_2M_6V1WRC2Rn!uIgN1aK1>MiR
z@2JNB2LtIGbL^hL{-hZP4)GFPKgBB6js0IUlz@YWbp9WE_ZiRC|2Y01Wn^Vklo2U=
zyp%FCl9`nq2`Oanoouoq86hKE*<`OI%1HLimYI<i(*N_j@Ooc(ey^O{^V0vq=~`Fr
zx99V5&g-0)^Ln0h!YJ;pDqgEk!#eVi&J>x}*&WrYN~}W!=?ENWhD)6ITa9(vRp9z0
zElZ32N{flbIw6pb`^+-WGMCoIhw(7)i=0h5@{rDuUHgrUkqA+&Lj>uZ9O|#zZDhKO
zb=sBT`kYg2y#C=ti3`>Vfpkb!$A)A-M5baLc}Ry=s#vTmscr!45J5T@#tjnn_T;y*
zPP-CZAKgyb3^}Se53Cac=_oWFDfKYKuVWo~NN3r|sxrJ%-4*K)K|1V1kKdKDF8(*3
z_B(KW=zncw-%hTw!Hy>c(qTEIP3JbE|AlqrAsuE64*n(oV=1gd1nKnoB$Yg<VIRdh
z?TT=HEN|x!v5_mbVVw|2$BpFP=dcUCH?WR8r1Qi8V-@8ptS1#MUa0i`*B}w3WBx6}
zO;RqWnps-YT6l8xLAwI7KH&2%UZv7MZPr&hfpwxF9n-e+zZFd7g0YS+q@xzYq%X5*
z_U%xwZ)>dac##RA1K!tP8zyj$=l1DUtTQE#tPkk8Tw4&Gc>0d1xoz~r?;FD=X$T##
z^K+AXA))b@HmqX~>0~~oo3mur+r>H<NT*|to#!dxvM1KrmqXSEoY%J%b*Fa|H$AXU
z6QncfJk%B8idTenLLi-5k{=@0LYEe>jvA!n(D#w-2L-=6)}e)TdNubRXFZR4iFKxA
z;X1SU9wm)B<aA)2Tv$g};$|CP_8Y8Y2kF#J)})_en7E8}gdiQ0Tl2LUWqCqa2M5x5
zE8(gyD$4cW=d@i0uCr6-PClC!V;puoQIJk)+p_2tllcEWr@D~N^;b`x7SuN1!;Xgu
z()l&pc8PGao)+sY-iGV*Eo{lm(zECx)+vT`bgoU%&*{61VjVX~XEoEsZ9a_pJl2tf
zbY9jIoX#qWzkqd!Ae|`|`Iy{u=6YDCM;fkkw5519q1KcM!RL%)kpbT82?!nV{AC|b
z_3F}@M1HKJ3+ePfu}v7lF`CCZw2;o%7$Rf0G7JOO8NP+A4>+#@`iG65U*o>Xp?)hV
zBWui;0O_o*;)u@BxCFS|i`~dz9Gucc=->nI^WEq7VN_#SdsSIOPCzCl(Jch&s8M7-
z)YfGpr>^WW9M%?)qDANs0^@N|obo4JiaAN`q%ds%mXMkVp##2`{EA0PTOb+LA|+p>
zY`N~G<zXqf?InHHo?3VJj~LcTfON)dS-dm0EbnPlElufa)r{#PbinT|=YHMK-MJH8
zg?&FY6G8`kk286(OQRvP%*I^~ZN+OJqC;pAI$-CaF%x1|yaCy(D`HtmFDus<CE+?N
zkkBQFXcBdb=zmuw>h8+QMd*Ozx$cfheWS`Wt(xi)^Y|3`dpAgD?SfU!mx`kc9><Zh
z`cIQ)<q<mI=WAWUm{MgqNpdXmVpU!*1t&W~2Rv?YF|V?>amaW%os?<9_vB$%lz{83
zl>hA4%=^DaTz{3*8|jRCav_~`Giov0VB)U89G2<Z_D$sG2pw>L_Uiqo;`wvfm^4u}
zHf!}b9fQyT`%J&-u8?$AKI+ZP&!i<(GTabH)(0Gqx#lCm4>QC1=UdZz<S34*st`Kh
zc*4$m#+-2=X5pKPo4?1(W8sF-0mq|Y`hgaYrf2EN3p+br_Xh-$kj{y=t+U@e>rSw;
zyQNamB#ROubim{DP66Z0YpySX1sc)wwu__5`!|twJ_#J>YwOOtM-v8w>cq)k&h|-^
z>p|#%og=$qj28(Ql_qG^PHK9yhejcEz~ct-J%4s9B@)k|aZ~Y<iIcTP2pw=d-tRC^
zmA3yz{??_9ysFRRz=Y5Nj~nVzdja?OJjk)<9UO!XI3D$KLUr|~0aKlm516E16#Qrs
zL$<v@$MV)|;?EupL8sV0)r;=TO!**mz|OheN6l2r|C;9razs-pJN(ojo!0Co^B**k
z_m4%mMn~y${g@Cs;Ji+YrT=_kPveL^FHecW^+}5G8?K~k|J=vl)4KI7=pYT!;k*!%
zF%dnt?!=?gZ8eq>YJ|`MJ7>E38t)8;#$eCy7=#Yk$KX<ho_OcmS%sC>j>hs^9vdRa
z`hfd0#f))}+1Jz->xD!HE#X(0JqR6eJe4<jTSh*&mGC}j<xAC!)QW<1uCi`tvzoc<
zvqofDm!8h|QG;~udfKi_bgb(O&ogfJpX_`^fzScBmx$@vg6%CFE}e+Hqqx3Q$thuE
zoxwi!PpCsJ*P;`suA9DYSmRwzL+F6#ok>oyte1XgA7Q_@m?Lz+@swP|oxJ&UAS{af
zwAidBkr6vW2RvWwU-93u{+0IebYYI`&-gP{I0zkZJPdNLc(^ahn>}n-#=V_z7q3YO
zuJhulR9&T!il^ae$?erg<Rm_jPV~s5!RBSVqu<|GJ`{D^a7jWsVxew}H@dfKLvBxU
zC#1-T;y^l<#<6GTzXoJ@sB4Z<M=feM2_owQ?mysrz(Wu^;P%>bsY>TCac8`>u{WLO
z<UA%1>2y4n;Yd@v$)I)pS$TIZof{FPv#e2}7AHvDJXmvuD#yU}Li-J5eZYCWC%VbZ
zN+lrkz0u`Q*L#AY5J+d`*ZCNE;XT)@x;M$hF{)<rkj~Kbj%uWt*Q>uFuP&}%<ftct
zbRu%A)?yyBpH3WRqIP?9YNGu*vOeJc)6A6I9jm^I8&|)+wNVo75QWeIJLB}<;n)v$
zv5+YJ7ga;3^HvSg84}_!lkq)z;4Z^nvuSkcHw8imJP&?v6*#)`+}3VZ%}3~8TuIA@
z0J1*dyp|5-2MOQKGtujw=RZ|ePEic$Obs6!hBdu4W|3;3h)+NEvV(M%h@RAL4a7Mo
zy1yKiN|4vUKsrtI)D+r0q>~;-I(I4AN^>`^!S&gSlc<{&A-4Z`>RYUJNkU*Tr1L#W
zhd%B*Ta8ihwVVeRC6?_V9jY=>t+r>g{VEF?jbYpGA~BFo=>@w#3P~bjQs-6WHCnkx
zH?G3<$=OIh|E0UNDAHW4*`?y#sbWaSdaAHM|I%4^?0Lry(g}V@D!^NA{*IcPUXT2j
zZwdy|S?S*jQ@KU@N8i<g@;ae?(FQ-VKH%}E?q|BvY>VT#)Mnhpvh0?TDufRBIrX%@
zmfhmi%rwNCI78uD{lN{=p}@bP>_Ib2hds^<K{^HQ4y@s&j~-&3eGIZb;JoJId3Dk~
zNCvUj{i-0H*UjgoxwjsOY544gl-!#4a)WfJKZ{Zb)`YGT3he8sj4~_>K{{e%T0f;3
zmhrY&#AQ1LRD$;T;QBPU@ojvWJTrYMg?8|y$rt=8NN18Uk8{a@^(^nUakJs9uA&>H
z^OF3Z{6sOSkAvLL`jfJx?}Z>8r+^FeGPhRCD+m|rf5*^x?(-t+1OB};9HQ~Q<Ht(F
z$uqYu1#$Pvwj*@F{qWXt2rmESmDx59Vbdbt1+fr>4)}R*q`KRQXQcP_NBnxwn0PBj
z4WR>$$Ia1j`zGl+zx<eBe8a!=vlIv&a6CcXC5Pd%*X>q3Y5ntG)m9DjAnOc{$DvEf
zui?c@I!^<F^6QSfm;^|truoGjr=H2}h{hAK7h;62>Owl54@>leCS}Wr2ro!eUzHN2
zg>(-6Pw<4yHnRR5lDE=q9o-$~M%D-Hyd%XQc~Rw<zQxm=JR$xlJPn}(?$39wzKfc0
z;ol+C4qF_2eJo-J>5$(dP?b;^D!pfMEYnb^eqIux18#SrI)*Zp*E_78AtaS@s>{D|
zAe|dem_@8O7g^~PZ84XEFKsn(!F4_xm5Rq_ZRKJyXJjh-?V?TyLI<4J<!GID@@-lj
zw=>eeYyy=7<PkdH^#sc&VO%4HlB^NE(ZtmwMEy(%9dJBWi`#*5T}2e}3mR%neKPS=
zoXGls&hv-jylXrojz5>~8Z`Wvuu6k;SQoAk4QI4y<@I&mJ(e}HFhb~neWv&N&FAs?
zsXOUd*oNhzX@n3u;NLs?q!?kwNVgTooN>qe$xU%ugbp~KBbm1eKRuKAlUYvH{97t3
z+~7dgnE?3RL1@3sgYZxE=JX%qtLYW(gu@6OaC_06$>&bvEA{*6IU#*KVa1mK=?se<
z2i;sfT2a;CR9QD!xvvZ9a7(TX=C%cxCj~h?ba4K|P7CR{tlB29O?2a6*8>c*BkK(I
zX`7GaAFO7S<@R39%8Ag9PC)2@+iRM?*jB8AF^E*ETD8f|9?u7%10LsH=H1NvyMjlZ
zw&(jl%2pG}BXq!do!#Cs&pTW1FrRwcQZX*Ql?c+2(8~S7Lb5LZN#x_&{j~ch+S%Yb
z<N9~$kUgAWAAj(IU9K}kBm|)Yp1<hnM%{!&EC_DPon<V#UAdr(&;k2&QHa>=SS7v1
zQ~7Q7YPBeZ7NG-fuhW=7H=$<|*L*2&1<Q>;6`x{7)(3QmX1+v+-ASa{vj0<eaMtd5
zE<y*Km+|vFFaGmcr?8GWq?1v0B~)WYWDo1GLpo#P>lorV(y@U&zAe(2kom<c$ohcu
z!Vwa>-&Mf)b=3p2m6-cmDHqb2DCA)FaoV&rRuq4{?}s@shjgx%H%Zv-FVJKEu4IRF
z3NOg|@!+ZcAdht>*SeM@zIYj~57le8UjM0Ne)sj;21oMDez^!8a6b%q`TUrFinMx{
zqLpbU#b(Y9p#yF&Q+6hyOp_J!;5@$zm>j0>7=#Wuo<+l}<#DdQB7DM*be670V*4y`
zeFPeEQ>6!U?j`h1smPe*j8;K9ufF}VIPNi!DF_IRop~v#<p$|oeMU2WvFPRdI;(U4
zPKA<P6hi2LeQx;4_`I`G#C@~2B2`K!#)X5>0k_vXpL^3O^!HRZPG@A|3Rs9XU4rXe
zd@JLR^p&TT7e!gpbk1FM^+D)>>o)|_tXEwN{s^hJia97Kd1l!mbijE@o$im5y_yr@
z*Cnwm#CVDe1L-vFE^Bc74fy%y{1lN}Gp^wVGqOIXf$w#7jwM_{Egwq9x($8bGoDjp
zf*cR=;*~Elujb0u*$?6;Hm{gZAsi3bhjs0FPfg;vQGo`Z%h9$pBWaM153cKv?=L7X
zG#t5c1)uDEV+84RL~yvW^WXPp=_bTs-1rpC1nG2NVw1V`CTj6bfmDC?D8<AS6SD0E
z_IXwP+3dowdgyMH!lLHa5VkZ(=lyE}$$Z+j+b=e#7rv8n+8IGQA;bC->z9(taIcgZ
zH`2|2VS;pGM`j-De&*>s>NCp-<1;Rqx(L_jUjc3EkK_K4jy@iSrBX`gG)SjUF~H6?
zS%>M+K3>vYr}w!Lq~rLNHGj3vl%F$0LNH9+<_;62Q#&}AzkP*#f<Lr@x<NUwZHf_D
zAMo!=+QEPQkp(j>Y_8^HY9b0Jnh-kRe&{fqt>H7$!`Q;WUh2&w&Fur}RKE1@w*D26
z$0$<wYgmHAUlP(O?ro!MKKK1^9?uA0PHGP~4y0psj`UdMa(D}KSZy~ce*$h31G3Ik
zz;V^|7NPye7|F1ii&M<>dLA!`Ajgx%^3?dHQS01jl;N$Dx*;;{2*(4Sm#5grvlR@2
zzTJ2fXs&iPfHexC18(<W8kqp~-1_9P%`m2$^ieBnkj~6={RZK`{`egqd9o8vKVGGP
zbacLODV5m#Dz2w`oKYMmCDTKXY<q!y8Wz5OAf%-^{3~s*^Rd(-J^`Tv_Q7@f%2wX+
zb4DcLd#1R<+$mj1=ct4|Q#?Jp;K4|CxN1`AAT6YG@3i)^**;IT+sD6p1}6-ihUt*?
z0p}&d@$8`XshIX#v4T^NJaowtARXbN4}Fe$(T0*$JY5fcxukR<onFt160ecdcT{dL
z_02P<`qDx=CoafphC7$qJ$#sE?^!SEH+%tEA8`M1FK*k-`ZO(-P05oeJ|CNrhR^{!
zSDh{R^Y2PcPq_=#atLv|tr4UXsiME+_Q2WG?$h{(*HKS)m=HSPyfU*%2Of7upB7|2
z9pX&N{AKYxvOeIv%F+azZ;sQnIWZ(ws#XuP<U%?`ibNIK*UsKl?MVLW^+nXq9MV~i
zk)zMnUQ^IlGVKlIv5{bhbZ(yFj&H4+macr=L77J(^>2|Du8$cP{ooIV!OA*)-n0y^
zgeSR>4)2erjYQ9H_7HJ3wHJ8n@|z=c!0oQ-H5;-Rq9z;ss*qIkmQyDNp#yIB9o*L;
z{@))S%ux$HQ-3pHut5XYhuWI_Nf73+SLik=%?S=_;$nmjIIrn^imgKFm8Sg&GunIm
zq6=;a9dKS2w>PD|{Q7SyufB<&+DSDLLg;|wIlB`Q)81Sd?;q8CLpY|52nV49j^|0b
zqo3vn^7>~TqmKBB7Aj5W;5t)MuH};Xk-L%X4(mqW)NJ=b=z!NnbM2FVM7el2i@#%E
zW$aCjP($c|^Xgy3lTURNG5M{q_%kWM^C1PKqgX1SO?_dB^V$0BLmE55o}ROCeZ2l%
z!xNc{xU5f`ZLDk*xfuoNl<PaRj49Y;6DaBXT-(;xP=j=SQ=Pa&vM`pE6JIoTsP*O}
z1*Bv8{qH%Znj0B31qP>g^}0XxoI%zH-0tV7!<1K;dzhUIh9xsCac9yHI^gF*JBYuo
zMTKk&>zG42zC|IUn(=|}C<D@4W2~xgV-Pyvet7LS`<&AIFRf92W78Uj-&{7Rk@W!`
z*8a=N(zHc91N}*hU&n1*iXk0vov<CG1FjRsKsw+$v<)h_KHxgEVuTL3|A6bz+z>k8
z_5#<T2|+q8ir-ps|D-;_{(ibo3D*aAs`)2%;*PzUghT8j3xWJ9gbvu}xj8*Pt7xRg
zi!rHBrQEk3_#kw^KGn{L(q3|1&-CQ3;BdIN5=ufkeB4hj$1-eCBoDi*2(HXk;6OUg
z3b~JMXe3#BDvQK8pWlvdqJZms;&AL<is+UN_IGL@NC#ZsD+%d<>y2?Boi9UoPRV7u
zQeb~KZ#oUv2V6((1L>SFXv4TK+o)lGf0u-G!1d2Kkj_aaQ@$C6myD8rT>b4Y2V<JZ
z;ris&7I-TcW)B5v&<B~kAgA+zbin&BBq1GeT_p~rL#@d9i)=>1#`#~gwzSY6w<a>U
zKA5`_j=zJQ`}<PrgkGFU#_@r4Ce8`d3*9Ztu5JCD^z6Z6kR(C}JRasn%`Z=N?lof_
zB1i{(PfZUgT%WMNe$48Pk!+OheDPW#-n~(f&UBveN6y#rR&UKMbVDwh52-;qzSs8i
zMY#s8293FiVluM^DIlG$T?Vy<BFk%7r-uZt5BOe~C`bo<Z<iXRqaf+z8J6|rzE_Zj
zK*hsQOA1IQa_|1t>34!ZvHM{UF|t13{#+6G$s(ERbqCf-fOJGojSS;v*E3@sBS<Hr
zz2ouf=>Ps;ZsY3Xlx(eFN9cgxH=g!=jma7`GI8GF_xb!KpmgyRvOb^#zNar2(upq(
z!*3p(*Tp_R+#J$znI0H);bH&pJsRwg4*34KMIyL9;QK~%A)V3g1O?rrUqaaZ#~h&p
z?$7CF6)Ly?@GxN=45ahDg=ziK*k?tovrmYu4>%t1y)aD(9dJKXQycR?q5l29_W}7p
zIzAyj7oT5FI?6vYJ8_=wU9coV2b`C+{Jq^=&8Y(H`e!194mht(JQIpe(c1~UOWCB{
zv~5f61jssrzgN29&lEl^&ll0zikPsMwtta}&;iG@HNYFtWT|{{{d}B-6v_P~bA%29
z@Vj1tsEqPQ=e(J1`(pg|joq_I`+%Ln^Lr1%@qqKX(Yjshp5T_^wRP~2_a5=LD1;8!
zS%_jbrcUXSP088c4lTUXx9t!*;PsybIUFWK`j9)n<AZBYcQL({MCgEh)<nK`y}?-*
z62aGB8Fr2gB0}hZ^C~nC_!XL6Xc=ifeqCZV=jkFovi%TTM=jeYp?6)B?!5MUn_dTI
zwy-9I4mhvhvm*(U%g1S-N*J`A0tkph5ISJzpW+|0hUH8S`X(vg{v7CA)kWxl<7wib
ztJ_c9x#>rJt?GB#ngtU=2kacbU~3pLGS@r262R{DeWC>ip#!d4zT@4XB0~14FY?1v
znwf?D=Eal9wio!h;C1m+{6<gcR4Y7{FKc+|L@q)H>~o&UP9CS%LGWa?OAF~*6S*Cv
zL&ep^#yy@lzZt_sKA9Y}Dg^0>PmhyL&S!e*nP(dlk!v#JAaua>YzxC5X>c^7oh*FI
zcpm!yG~YOZtTQ=qJOtMp(;^%X*qL!;{&~(>&0*~N-YJCR0k^xyh=k;co*inelLqND
zGD@fq&J`0I@Y&=g1r!h(A#}ibd0cyG87V{1gLT*;onQ}{oWJTP{~ON+9<uEPj%T0t
zo^R3i!$ItLsvw>6jP76b-x3(Hjt``h^!BQJQXS(c){%#FsEr46*Nn{Sunq;JGmmMy
zP+vmx$|;8|L;Rr5W*8T)b8Xf9NWt%e7Ln9^n~CK?nKXnBxIfSEMP{#_J9^!G6#Z&t
zjZVf0p+gCLPVckqZmr}e`liR9aF4+ap@bbz6mM12DaR)IYmw(==C<e8kd6nOS9M1A
zy()@BGDD7MPs24%D>5OR7wFiS;xon!YJC%}W79FfP%%v5AlqJ`(-0%frLUp+0ar10
z=)AwhW*VfUNkdZo-ler*f2ZIK{mWxDBS>d6^f%|Vn?JvZbTZC#L|&n0f^@bRgT&)k
z9Egje-Mp1J+K#6F9sT=%|A5`&|NIy1qwRF!R9+m}>N-V+)d9}h-84uiURZnhuB(`5
zU|@&BkK1B2MvzV;6JN^0L3nYiygg|eX(cHWqyw(QpE`!?W0SNQN%HEpu|A`{%lm4j
zw`q_LS$WE<)$g45wI5HczKu!_GJ<plWW?PB<#E}?51tQ}kPY`TK{`u8+Wil1dDF1+
zOvVnldbUmdh3gX*peb~K@83A-UQzc8@BY;^NC#YhXawnKNCw~Q&r`21>0plTq{+L_
z1nIcnjhnq+8(89?7$#TzZm)dm2(Hif-SnBgx$%bY=VVyVym@Vq2I-urF?&EElIt%c
zlHoG?F+kV|(uujJ5a!_*Fo|`TAe~ds=y6@b8LzU<Rr1kz9??!6!u6S7m6h8IGErnR
zxDs;3wA?BUp#y&Z0oT`=BXq#y;s3dw3F#zOnWf)VPWC+U{^=Rfh2a;A2XK8ZUJ$5x
ziBZC3h-l!o>7b>_g>=AmU*?bwxbBM`(z#Qqj$2g}|IWHY!}8PZ9fQR`aDCR}*?S(h
zJ(>F@J^V3zJZdu+(jlc~f6;ZjN0)@J-cT_`qtG1Ek(!rvN%3zAc{@2cdjEP}6Fa0c
zP5yYDvGWb7*_1>(({_->;yzp-a6M8kqyw%;GKX})=f$x@I^a5)#XYz_;O}U;kPi4f
z8FNSne6Axqqys*Wad8)}5BPkWT!apIT?>59q#Hs9JU)ZZhZKTzz~|uY@4)o|pMzJ0
z&;hTrfzQE9K<I#dp0_6#Bqu2Fo~?=R?Rg?trVHr|>;09|GwaU5K4*y*)&ZVtG`tPh
z8GNo$0zwD;o&c_AGeYQqox$~NOb8utJm7Qi7JtL_0iV~D3+aH*YcfaZfb#;MSBXLB
zfStj0dK+7CeZX~t#gGp894b3V2YkLL2GRkaFS@abtPi-oz~?AdA#}j)1wKd74brht
zj%W~9bj@`lC4ZnZmewK!>EM@rNtFrJ4~g~|(Kl#xYv131>*LPo-^08kBeC_sC?|)*
zjIjx!1NMoxj6UpJqe$$zB1vF<f56NK(lJ~oOX25=c&^(m^jn33TtyPniM#zt_|l6H
zRZ5Qr$}My%HgFI+;Qo_-V@aialP>9CF4$Y#qbRq19a(3v&yAw5NA4NwH3Qsj`;T*j
zl0zV!i^R8+$4-`{q_ZY(*d8fn$wNBFJC+qgolnWJ4iThtv69WXOm5~6c0Eb^FStHV
z_ZfQ_OzJeT;|YOuD$Yp7=~)-}VaFp6={Q){ec0eBRmD0)kdC0ng=B?Mf;jB@jrKKU
zeZc(?T<;eJ=_JcuS;*(7+QP15)J5ok`!l#6k`~gbzFU2sOZ9p%w)5~RvOeH=Xg4(}
z&pDC^W1R#@hk9I8??&alLG1R@Md*Or%O~}XwyE3agr%bsb(ilYaxy_W@6We~a!uSc
z!#ayA$ohceu_BRvk@`|359<^|IxFUuxTnNMGOtQn=olCEJ#j<mfZOX|nO5-*-Y42b
zDd{)2%LV=lA#}ib9Y#Iu&>r|2(c_+*9j5Blh6Cw<>yg@*;X3aTJo}i{=$X(*VsMG#
z#iB(NLI>>Q{ed;C@%_F3p6jRv>4XFhY`<Np*~5;90@7hqJ2aNO;hTVcK4i}lTpy<D
z#}9>wI8S2NYyIy70`>dO-s$l}s}ouD*zxEhbin;bVy%^6)-5I+J02#44!FHMAL=}z
zf3fS19naJvvU!2y$=zl#O01@q#f~Qzp#zTR+SB)y>Lwc(vD@7o(uvE->64I7XTr{l
z9iaox%W|HV;CYZo%v|3%sb*I6#Kuo#eZcE2Cs#es-sb6MuCKmQTIzB0SrbBs1o*}9
z|Ey<2=zyKU=Zi)`I`^lZg#>fglPIngSV-y3jjJJaz|OvPA<J7m$LAed-MUUC$DE*r
zbQbLtX83P-y~mDcY602y0>{I)x)?h2z0wIgo?J*rM{1(WvEp%Yl%Q5L_1ktuJA@8+
zJu2bwomcVS_B^AkSUS2PN@g{L4!G`XNLt_rzRgSXQT|H;y~pvZLXgf>g$nIuH`&Hp
zpBjVw?V2W;5ISIICHHz;_P)Lq?0Y#E=aFqMaDUFbJs+nn)N%{^Ud~)d2V7@mj?e+;
zmGzuCC{g#P40e4K2B8Da>&VCKHtBVovsh<i4z5p0s!YO(f1}D+rx?-+6iH5B*fhVy
z`=U_v4Wa&_9i($*Q*=P}sni#D?Ua*~T6>!qgboF8JUl#mqn`bjUiDi2K7+$ajVN=3
z4!BNlSh{)d%iuG;gVLk^(mstEU4#yJe2$1WD$o5VdLgyT!{U|Dm>kmaoC4-GQ{0z+
z$zo4C|D?OD;!f`pQU~0Bz;zew2<HVl9@DdB$16im2A{vRs4+4;wK$7xKLqDh-zB;J
zr#;-ZJNMf$Z`jdUqz?G``pRh*@-v$z%94uNq`l7YcQL~8fam489-P>7nQ^YteNTGQ
zbkcHs5ISHV@+(duca~G6Rw;^}uM2<8lZ15qX+w@i$}~=vavizIc%Kl#fpmy0vhW%o
z8PCVM7;xmMP<u7aAlqKxyohwko2DLx^}M)Bu%1VuS>c1w0k>DU#?UVJskZju(?9<i
zc?G1&BXq#=*iFdal<`x3#5PE7QuDF%IT56DozLamV^=&TTZWp^$fqu^+Na_AfX|r>
zfpp&5q*^sh7g^F=AnIaN_)R7c>6q0&S}V^aYiTr|se0+|h);yj0Y4XqzlBc<pMUW;
z+cIrWS3p8?cnVn`aNV-ISST^quHH0JA*TwZk$W%>!tsFn4<Xg?vaTw5KdEnInQ}+>
zopyxd0gulON)lc^%<E@|hJ9Esak&v8ofp_g;NAG9K(XRcT3h|#k6#rcxd_Jt?#~QY
z{pD9bOUq%eOPC{cz&@{e_oJ+;*}_-tmMYIL`~1KlbcliT4lQlquvg#qH7<j*e{Oxd
zFD-=70mq|hdTrXNBBRab+1$7G5oJakNQY<fv7vV0j^IZ4X33zuXJGpzvi<P?jHgtq
zx<JOb?rZ8m#6PS5y=)Dk1D?MQ&yl@2M=tk}binaE2Xm)3QU@H*SH7KG^MBPcHTa#|
zR<0@;x(LSu?mz2<-#J^~XKB<K)2o?IrVP^}bVz~iUU;W^P(v#`*TcKVM3G|11B1{3
z#{;hW+W3KNdx4J5V})$hkM*)sX|D+zz8<F(BXq$1nd{$yJoyt|{a_{wcg6mQ!779f
zI37X9uVlgP5+bs}xd&^+&m`R-o!-(vLsjFSwX*N3JI#x=um~Y^=z#5Y(<A@#O{r&1
z<VuwF&lvH$+7UY7yukHiA&?Hy>gVa!xLSs&a6jJ{veqBvAsza{Fr4L7$7ZG&{&<BS
z@4bj1os!C{`nNFbSBM6-zAtd<o^PLk+Yd{A_>l$}<5uNbJO13GW=sr$binmm@{o?m
ztK6a26CEM8E)o5V1gT$$ART(bf5LV6noA0=$JD%&qpr7)!}S60qYpvofXBnZ>__KL
zP3gH}uh*$TI^a4qT7(Yxxd7Lp4UfU~0iXMn0O^3gTj@eN$3&ccq{^xO*x!k05jx=Z
z`kEPe1LHtofxVtEH44{9sl#IoFH%SpJDxOz4mciFD|JaJ-}_bA@t7lY!0isMyI_ZO
zz;zdkBXE7d_gCgZI{Y}!{mK5`y4dGtm_s_a^PaClLJxJYzgMzDI_jCRd~f6Oeq(<(
zUmS+(qc3#Y*WPz#6g!?=NQcq#hgL7W!b|LU%pskM#=_2rVirtThaJ*6%oHbe73?O$
zI*UVaeeyyZ8EEk4cmL}H=`_z?O?j-?GlKn`nj>_;&nb0uR~z%%v-jA~DF&efeop7U
zY|2{Sk+a3lYhw_u&)84r+e7b7X|PT)q_gg1GkHb8)eP&{K{`?|tahfq<FjEM45Z`w
zE>zh%;=DX||JfLT>tlI;@(iz$NfCBD#gI-nb4?QOqGAF=a<EN%`M+j6NQcMaxS}D`
zwh;RsLkvO({QKRbaahG~;wWgYf{B_TW+WR2p#$#EW`4frLu{&~1zhAf-hqyl?fr0_
zM-*R&+<djfiFHCCot*;4nb%xj1Pe5x=WQ29ljRXQ;By#4jTT+i9OV13<6%PRfPKzc
z5Y3h>_1WO*3#!fu{ra=m2iIrk;)C_Ndud9X(tl_z^`kU%A)V(31l2#Uiux+v>WWS?
zHNIsI>D&r?M$uAhYN|n{Bor0QHo^|+TrUi#@mFzU^%-dhUL3o}zSs-br+oV_`|~?f
z*`)!kofP+_5_1tc;P&$K@v&<@j9eRiDQ+dH#yMe!&;gInn|KQ^elZ8J<gv}>pC!tA
zhk<myX~$f6^f-{Xn&9N!7Gpg7jqh-M{<(*9?XHPAu?WO-KN*NlFNSo^c?Q27*0z)+
zZ_}!-JgFRH2kH3hM8p)@gw{Jt1RjXhr>I~coeOSB#7~=-aY?(y3qK1-<8Ac7^#R{^
zTny=e_XXG?bin-(ye~iqp#$!R;C%u6-;nhI#{=FM(1g$d#{=FM-~;J^_XS8IbijFm
z_XQ9kbijFm_XV_fBkK%0;C%rhkPdiXfIOu0`|Veaz@Qv5?0Jv~(s}tO!;I`QeVJyo
z*~BBaKT_>oaD9q&Uw1yIi=}g5(|TdcO8P7Wp#yGrhubsC--55a-MM`uo{e9yK@Fh;
zZZF<z*8_t&c%2D8XB>+R@Ls2YbOf2bL?&;_y~jE|op612D(h2xcZut;P86h5wRbJ$
zV8AR3>!?9GU)U4QE?oUSr@7*t`zz->4h5tWX|)~uT=%@kP+!<fm8}Z8o({M^#$LTi
z)+4nwVu>puJ-O#9q9C2?v?3lw9hgPzc+?;rUTYRVoWrkaDLWroIT<CtP(V7&E=^tg
zY8+A6_qp_Zh3j*Xw@0#9OZ(7AJ#|_8#Sh~sNav_Gc;xZhh%RP|0G-L)Cthlh4tW15
z1*8Ms@7ePOt`B%0YZRmd-Z!cS=@i?Ay}B6KFQ#?<S$TIZof`$DlVJOz(=xCpC@}b-
zg?GNztfw8WkGDb5mzB~)9ddS-I?N49vM5MrpzGwvL~dX8jF{_vby<Y%YLHIk1uah=
z*%?yv7rP=9tY>g35IW%bBC=vwCAF$QJEt<g_;q&g)NmWJKA^+A;9<cmL|P}<r>xs$
zJ8hDN&;ido;5vLGgbp|!a2-B7r1S47=60lM#N1yM{b&|zKbeisaDB!dX#`v6vL1wX
z-euW(^s1@~p#%0gtNV6mri15)=HB27*4_pRH%KSevH7g3;|_(n>Yc|`0v*vpkWN(*
z*)I=UIpU`qVc&jUUYpr(Mb-zL*R3Gxl%`e_?-ZQQ5<3O_yH$`*;P7l{=a+-6!#EMX
zsByphZjeq<ky_Zg{b+In9ZhCpbjJ%JNQa|h+%~F19dFx>c&x;=uyy|vTp#8t+q=Zo
z)}}*^-c(K|1d3IVPC#_{Q@JneLN@w3?IpGMsoWr)a~#>d>(b@X*yE27LI+&`OjMxl
z!1r@!2PbA5$6lF`ffk_ye%^OH$;EHo()Gh0$EI44bq24GrQe9&w9wy(B;E0BtI1+X
zuR`d6`*X?kU}2I<QEK+hn1c7KO#E&L9dKQDUW>r#R>{(59J5LV8?33DMhG47x~Qks
zftD1m-&Id(e>p|#y5|^#4%kOZo2)GMg<e66E6#9R`WyujLI>=#Qa)Oknr%L3v9vuq
zs-^tC{UfsN1@1q3kMpBPK4y7U%ZXXrn)gNKB6Pt0$F&!SyCo`GaM1W#OWCJ?-F65a
za9#p4x|{{g{WY|9hwGnrXkKCvI^cSwjeVvw1By?d@A8C8?R>K%K<a?wnaqC>ohQ28
zSbhm-pK?uoe4`mzXV4+#zm{}{TX&lxa+iZ-_AOH}LI+&8(?Q>JB8%C{u=_@;0PjC~
znks}2xIZ79_{S-K%XRSrB?(atABRT>LI<4JFfF65-RUzP*zYa!2p#Zq`m3V3>y&5w
zxNuVIV~yb+77RiM9M220g_KOpzu!uABL0_Z2=O+W;I>zDe#nUJymHBGBi(M$FMQ=<
zNaskDDYsjh)Gy@h1OC9)4qZD)2ahq)c*J>x!Iihp-898_1_SAwRo;-!GQ_Ewe8KQG
zroC5ZqY<vp`uQO$VKqBiiqY{+ZWW^&#gGp89w<9V2Ye3{2GRlFQ?t<k*T=w?&LXaf
z>9yP`{EyFEbfk(QowUPiY*C*?{|4Q0X|*q6=(dA&)FR}EDW?NI{7Ef*iRY{tfPr+F
z0_dmecJndVzvDLQ;rcwiWb2uzBl+*AgPfzWbJy8oNN2P0?dqeK<D5)A9ijHkBwTio
zj@tqCYHG^SikOuZ>(7B!3<lBx*SBoc!Sz{xH>SAuf#S8>gO7a!A;Xo$kdE+Jz?H+z
zo18SP8|^O)PtMpuIww32$$M6KtAkHhN76gdPGBG%g^Pdua!QJD^{F1p6`Pq4Y}CT_
zDaWmgO&@bLtUso3XeX<;Ek@{^2G)xj&1s!KK^XQ&tb4&>N5EBa3ZVmj->}%yB`%#H
z5#~F+?vDS7=mJs)yx(eV@n=8jT`$jszxLH%TCd;fK{y_8J%65UD1(t!<Oi9}q6T4|
zW-6rP0l(L|Z_~HNGd3vbSomFaJ=!GAMK~Vtyu5XFcg^`Jf3?-i*nwvT*Bs0t9sADs
zx-jx|wcm1g+Y=MnL)ammCnYh$XDT|c1s-<9><Yg5v{(bTA1)JC^1XdHn8)&GDDghU
zmk+rJ9k6qh<h50Kyzm&zVxMu9(Y&G^LI>=ew2^A-_4oEycUp0t4PkqK3_=I|yMQWR
zdq^c<UhC|#l*e<o<WUMp$0?QLJLxp3{FT=DfA=!Jecq@>)*1X<Sc<&9^UpoX)?%NU
zkfOXybPAyZe(!B~EiF&!MWIi4?~Q0=MR{;Bq|^QH<NGl+ZjC?Hz295^IurOHbimHl
z*F)#M3}+^>pHm}*4h?V|Yn}+W&SPveV%rno@_OQnN)JMZ2yhg8m6{)Kr4lGnFip@2
ztmU^Obin&h^-fpK7a34Y#*8>OE3%*ai-U0g0mt(}c2%h)2Ul}4wmhcR*Gy|4;dsb^
zc`bkD!RNBAy}2II91uMcS4N9)JmB`iEGf)6_k<hMknhv`JCQv^Iv#L8Jk?5b`iaVF
zy6$D|HbV`ID@Z$o$Bk`Go9*Oqmo9sf!w(X4cV9*!>;s+$>x4zluPAz-Y5g)?UMTgc
zy$PWMZm*;mzT!nm6<R7Pe0#o=)@)S>9q@et+^W*sqxn%<U!7EOaOx&(k#+{h(_Ba-
z_oGxHjlQkrODlI?1=8aWcps3q6z<cMveY}+^B@uA{<Gb!k&s@(r;edaIH>YIlwCyF
z2mHPvpcEryni+wkA}-0Y@tyk?QU~0hQ_{+W+s_8C9BY4mR??$ShIBs!osb8EA*8hw
z%ayV+bd%b0a=8fS1v*<3TLHqGm0$O(!^G!%24X`HI$)nvxw)qD&#oO;N)_+-ELUtI
zb-?ksgfXYk2PE(P_q_$-c)-u8Z0#14Z8E{7a-~A`cNWf+7=#XZon-gzMzw0|B8iIe
zmM<+|cmgd#hYC0zzA6+X^yL|ti@5V>rkLVsKhpCKcpQ6lZDV+3?r8d-L;J8|gf%_V
zd4YX8UVpwy!X8(?5vBg;>QF=eeigFs3E+5aZ)C`tURM&(Q;Wr?wSOMpj?e-3pM!J{
zCq_w05;k?a(|gm(g-9Ln_yb-CXhJw1@OvG29l!_D0k0!TLOS4eBpgWRFuv3(^?jG>
z(2jGs_N77Urb=Yn9qc37|I<QvgD#|J$ddeA*U^X%qyt`$l7w`?>rpt64tPDP=>uFJ
zgK8zAkJCcNWeFrq&mUR5@PTv|7#}G=Qn_)TI^nu`>tnU+l8_FA(Z9eg%ZX1O0Tx`Y
zCmHl{Af4@3WsPrdRdS8;7Lpa7JKAfifa}B89%~@cw)v2x_@)hm-|tZ$NC&*$D+%eS
z@YNoq8r+G-WKH$4`Q}>VKsu84$7<f>o+j*iE>Cz?=1ZH(;rj3n(LBympK~QQxIc||
z{oGX_Nau%=#}$1JOKo>;S5;EKLu*M$XJ;mv`zt1ETH;!8h$x|^8xEucUe{_WgX<G3
zOZP23o7X0LA~b>o=P1hu()r$Jx~!ijP<qTz+x3-l*FX}X1D;O_rhj14<ug+#i)=dP
zC(_f25IW#-b<1k^e!HT`6z6$st05|>_4ZP@KC{or3Z9Baz6g)QS3V>a^9X@-uH!gb
zwz$PF{0%LOAT*1omWOmWXey=Sj#(d*Mv>6`(@X6of^=|<-v=3dplx|CzG(78m1?fN
z1g?)=NkCR*MEmPsp;N?t=YAiAAauarmp`c;9pHOCI~L=UucNp~i*JO`0k?a3-jI}4
zB6XE|Lh7XJLH<7`NXIy@ePKqIyVG&D5a)x)JDaIuxIR^%Y$LBQdTJ)96ISL-Wh$gW
zI=*caVv9_lKe>LqonZJ7SJMd65tw`@c6n<4bn)XW)cY3JSD7H4srze-b)E^tRr+O<
za{bMLQ$=unntE;PmA?xY-J#|0-+z9?FAdVkdaYnFy6YLiK}vOz#)Eyq2%!Uh5C6W;
zHM18Gs6A~ov*cW3u!lkDfX6ZC-^CoU33b|cqpqGdCg?2LFNEteTkA6*`aVW%k@bnp
zK6}}tDoBU4T?(f(r98sqsS!ciohUCigbp~by8*qjhu-}8*!x^05jx=KG|5#;$@AWc
zaO{09IFQbPnP*sS?4tjYY8tP&oRV%+0bJ*>CuO@C*Z%$LFt_z*Z#vuM1L?RM?zoi@
z9|jU#PS?}v-Rh8pbj&NI)2p*?Bx`58d~ezgzl{Uw^gl_v!WeCVe>Ln*<^_s4xu*AU
zeWaI<GPqXBEwSsdeIT75T9iU#{7b=eRX!dqL6qT=kPdG9gVvrNcQtyJ`P^>fC$>0{
z&YY#bbS576>Bv<U-iN1BiJIQQ^|{kuFo%CsNt-lRsu7VF>hA;TT>My+BHkGod)g%^
zA}Dk|N)plm-vfmM>8vnDE)3bOIm}T{$enz;QP`9Z*9W|x$OqB^|E`pTbiltWaUdPn
ziWH9nV&|*a^F>o0T%VpFWJYxkWxd$XyAPxzWJ^<)ow;joz`!{0GC{>&64IG1xbd!r
zAe3?dXRYhZA*TioLI*rw+)x`9If+AYJtI^u?Rc?dsXZ62&+aUviNwbcg_mjHdFLV$
zeuN-&!0~K|@L20qI4ubZGg4>Ez51yJ=?Dg-_YYkVRldA+W~Jv_G9fLbvtB5(Sw@7D
zVA(B%(^9OeJC%d14>+$$zHLMDj)SE8MydXJsjWk~kk0nN&B^aY!!-{`E;S96HFMcP
zI#<JzyjPec>!W*;nz`ko)`TFPZZ_ki`a$2ZwbcHfQ!5`Y;~;dv>){<Gfmh#GhKETI
z(8p~MlQd6d!*!OvlX7O0zoq5Qx81<s2I7Xf2p#b6ojr0qUsf@Ls7uUA%;b>*YCZ@Z
zaJ#GQ$kcjqq{Ss(+T#$Hdu}X`&;h@X%_?LaTyuPuC2-@MJ72avEfGQo9FODlNA9~9
zr7<?Fq87niJaau+aGjs{CNVpNe*010H5|{kN&P1Qp##p#jm2T_8aa-^O~D!B-kTL;
zx(FR`dtIUXa`BCvm;xcoS95x*byo~R2kfITuh0B9w)C}mID4IG^aHc~Ot?OHnm0cD
z<~_>o&;RRK*wuWk3DP07=gQEUo(|OF`eA#auuvcbp#%02=-%q8aNE+so_CB8I^gzN
z7GM2WU*&zzuuN=9=&#XTCWH?7d5;t{b||c=6V{DO;2AdmEQ^EC0mmaBS@iPa)E)6=
zq6(i&LRwl)8OXL5*k`w(mh!ZBUwh%OH-5F;ujdH}9dQ3)Ke{{Xoe|u`_mb44BZ@)C
z2%!W1ojVbxl;m=9JWu?<J0c<dP!a>_e3j*}B^}%ER(o!}eD~Lf3><_GIIn?T1LcK&
zN2@25^EP5ly36fvk#z>w+xU!s><p{V_P^e&KR@%}L}?X52OLkg9Y(%vO0}))&EIp!
zw0<i-kWR@(I`$d?a)l*P@(<*W-+ARBox;^ts$H6Yb!DTHRZNw;CKL!Aa6cSu<CKs-
z_#TVvI~8BIOU=EQj;u4-hqeE*vNUZG&p?0D;@5H8mSThs`1$%6_*Xt>NU4Q)>vHe5
z<ux5UNC*5~4+H6dzY}ewA?pLq>lpVYhr~!L%d}*=OqNiBZ!x3;{@rZ{>43kdU?81W
z9UM>jG8%b^$ZQsB^4GdIQsMfHn`%EXE0Jv#iOAo(<GNU14C&meza&AH!gm3C-m!yp
z!1d1<NC$l0;6@5uAMp7k#gNW%xkOcGbSKTgYTL%s0EI|9NC#a1jDd8(>xUa};QDNE
z4w85;D(o<vb>I@PA^%<s>45j++d(?u^#ly01K!uakqp-dylztr>45k3+d(?u^&bqR
z1782xNP_DFKKGy)(m5_CdQ;Ie!5dX2$;h5GxMT<EJZ1~{p^I;!U2&wWz2Cw^kAZZ6
z<x=Q>(E?}zv;bNFEr1q43!nwi0%!rW09pVofEGXtpaswZXaTeUS^zD87C;N21<(R$
z0ki;G04;zPKntJ+&;n=yv;bNFEr1q43!nwi0%!rW09pVofEGXtpaswZXaTeUS^zD8
z7C;N21<(R$0ki;G04;zPKntJ+&;n=yv;bNFEr1q43!nwi0%!rW09pVofEGXtpaswZ
zXaTeUS^zD87C;N21<(R$0ki;G04;zPKntJ+&;n=yv;bNFEr1q43!nwi0%!rW09pVo
zfEGXtpaswZXaTeUS^zD87C;N21<(R$0ki;G04;zPKntJ+&;n=yv;bNFEr1q43!nwi
z0%!rW09pVofEGXtpaswZXaTeUS^zD87C;N21<(R$0ki;G04;zPKntJ+&;n=yv;bNF
zEr1q43!nwi0%!rW09pVofEGXtpaswZXaTeUS^zD87C;N21<(R$0ki;G04;zPKntJ+
z&;n=yv;bNFEr1q43;h4KK(fvhiQDLap0(qs5Jk$NT)S;ko20xVTMy%0Rz2T^R_;&1
z*1|8-o;>?o@aP09e=~uf<28mM{?Q4u$xH(UCxKP+cmv_uCA-S%#b<8>a~~g)l$`8v
zR!CCOC2|zOrR4S%z*C^kPGJ`l6uI#?O#3bC^C@w81s3sp(HAe(P#HWhzjDh`hW56C
z8&j5FE>%|L+hpE{hWKKIx2&UOxJS<9K72?Js^Xg$=)=iv^)3oO_S8NuiN6F#rIdn;
z^gs!FNt@*|34d9OBtuu`+HW_i_hj4BH_Y8_ep%W`U)MBP>gEk%8vner?>oBXy2`2~
zZ`YWV<NobYv_)w$&%M%8%+0!```zow?Vd!(Jpyl^eDZ4M(b>PVaVYyzbZfo2ZHU!+
za!dGAC0<(m*CfOHF5bt#S1bh@G9tg>S9!Oa*wrpP`EiFcb~@ka1R=Al&hbNInG@Vg
zqRTlRdu$Z%j>%=LB@{>7wbMyFzGYBubGsG3U6Ir)Co0J>%ivCKnB@|2rDUcU`ShAo
z)<3&nCNnd7@#p~tKgRpQWW@RkpB|+^;<Rdr>CK?m3(0?{IM>Ea52Sm`q(iv=6cXLl
zVC9Y!EZylGSe-R#Vk0neOeVM6Zn8-4#VnM?XKZ|p`@$so;wE2}UtK5O?*_lALT0yD
zy%y{TqhS#b`L1T2EZsA=#0i}^sh;lYbaXfFv1N|TPUif?NsITlixRgU+3r(4e0lcX
zi7*!#duq12D@616Pcbf0zBl>SKDm|HRZA;Im!d!J(S0V^O#c0z85Lc8^|hJvuW<d{
zzc&PM5aGtq(}@NdzPmDab4+inM(9-`QOBHQoGE)M&n+!gs=8)7rE{8h$7-)ROTN*w
zW%8=)H7&K@exxz`sPg4A-ix(W>>YY1JR_#8I1Q)xybCysD7@;v#vNE2iV^IX*HU_C
zuUb!BqbydK8cJw(CvD5S8I}KN!cw5qJmn7WrY%Ry9*4fhxu6%Fsq0L^^+pWV;p4<&
zQ4fr74kk*4n{H&KTNs!<qkI)~o%W4G$x<6(={-Nf5}Rji#ioz=6-siR&h<%(Kjy7;
zt*R>!x_*z#bwG+y)k$ae>9v0mp(Z8~!BN3%6g^}kx0bt=EZsVkpI;Iz<;-dGY~qr-
zn&-%U$)t;+7(-1(|J)#wjPG5XwaZS+as1OH&tEjl50mXDKc@`ds9){YbS!#kRi#cx
zWqa~V;HP;FOsmYgOtdB=*~5O^;IKX=T;U_x;(>;N&nq3whNsrsLhxTLIY)T6Ds!l2
z{-tHFq|UXy#8ul^96`)`+%7}VHgcM60@pla)jM45<=yjrS^D^vd_!kKg_UxiOQ_#S
znj}a$Y&SG|=(^w0t=09tOrfAU$x>FLzL`GnQn&-XutY?cxVOu9I=nR!uahrG@GlCq
zBxABBr~Y1kQXjGMn}=t8Ek6<Or$%)H>F94!Z@&DPs(K|7H45vW>$pFBgiN?DZdEO4
zi_6#*y4ao+XNt`&o9HkWiq9D{A<Eg~zTaOXSQ$8@#P}^XWT(oLZ0ddkYeX&WsjOeL
z%iFtL^l~YmRz(i!vcp=_<#;4^8vpKG{c7G<862@+EqC*`RHmUyUZ1Jw-fhnLy)aix
zr$5XWV(U9Lmd9&{q6KmWeD8l{WX#z8G^%~kGGnV-k3lS@*D$H2bAq>4y#KLCn~B~+
z@p(_od(N&P8FxV|!-T~wI=Vo8Iz6pvj%K_o`cm50E4Am#s7>sDobUTR_<Jlk>R(Lh
z@%2SjtqEISQJH9o;p>ic3nSZaCLMnLnsBiBk+4DXTeIV(=$uUXH?7_FFxoTg+C`3r
z>$r(?>)hEI6q%F`;%2H%taD5RjHCLdNg*;$YuEp+O4c{FkR|!Df6C6ZFC$pEjPu+3
zYvcHpia&g}j*hIEy7(iqaj6|C>L2`MGcXt(&M2uYu(x59*zW#(SN(K(^Coe81L;WD
zou_HRhId7*rrjpWWhqxE`RZ-_m#FYd7E%gNw;epY(|!*xZTry!s;*~#V>(YXblgVq
zo27_-m?-djxL#lSKBz5IwTRb}))<v}i-G1%!=CwG*}CIR!M)+TaXadn%2B=P1q`gA
z$@X_|D=^4*82rJx&dYXzVTu)B(=gzZ@Kd$!p40V4jJS<tJty2oTQ#jM$1oJ8|JX~f
zxc{MLGp-W&5u#JG+cDi9&vbN2PMv<xP~u*98iVu8-ngffGd+&qNNW6@U%GHnOIiF3
zS~KOaxbY`$LfYJ0@O@WBbN^?0qCej!XIost5-)^Vi>THbn&Lefl6I{udH9{VnuCoZ
zU?xqJl$J$<eT(=GyV@Ncju$8CHI!}*spV!zY3H*RiQ)eyJ@NB0>!k5{Y63%}zl_;S
zjkjmT4YzE?%4R20!m>T9^r+JBh22_+_4@ew$9cBM`i)hRaT<ZWSf&(%f{*DeL|jk)
z6qLUnFdL&L#%Umy%{>>!b<-;}A!g`Xlw?+GBI~dHBI36XnibDp<nv2T)hBrLvijbe
zi{*D~;`=4|%)<7kH{CSMTqOg0Y4Zm$Lo}6E)2h!T?mA%vDGgq^mM`pWed*G87waQJ
zqlfRGk=gW_)uc;iLgkIjO2e^3<LAddhm{HU&wFO!S&Y^R8}EuI+|^`X**%*%8Mr;e
z>lMc#T@dS1_`@_$gl~Q2Mp3>p?^jA!H-5@WtF6z<?*47mtTp>uDMfC)b@jN17ou#B
zM1x7`w{kd3&PQ4Ki~iAJPYza}k`BLb-nkalU8VH#&6~a-7d(z|?@H=rR9{{@={DM>
zs~?kyp?!1ALW#GML1Q(MH~77xb}U}$oH#c=l@ea}uOeHb2fH()p9f=Ux}xTiV`BL1
zaK6dLIEY0*^^Kc2W!HZo*4X;NEt5#d%<Gcp4O#Dja*p?Gr59@Ge~dJ?SALQ)#9Vsv
z6;DT=u`f$>=vl*st%|lNo$$h#b2ejA&3DXM9y!~|tIOLFiSbTT-!Mt_J->C>RCuf9
z_61y(ueHQIyk<*1=l%%E(iRZ2rn8)n<HqGQt&p%4axNOsQ^RM)`z*!tKBCBGI3nc(
z;l9xI+;@pmC!DtLeKlusQe);TYB5lgdP{I7M9?SX%#;6}vpbn18e+=#pB2`zIyhW<
zX5nO(ua}{x(#x>@>)HFFvOjpD10_3nvUjF>&pX6vv51*PaVK}yN2C@%o=?UXV!<`D
z79jRjoP6Fd$>RJr@WrXyq1oy}!H=_v64}asly*7J*!GNm87+M^j)~*XxI7Sc+avf5
zJ=4<7>C-IRA9d$A+`XFbU0^o3Qu=dRhm<hzX8?($#@}~ibloxR6P2&zx?Ktvs7}QV
z@C7^?`LWiaIDF7}S8DTnZ+)odt{an-`g$7g+#Y!V!y|XOdpssD54bkQim&GFdit{+
zrv7rSJ&X_hFjO3>Dp}gWwe`^BhVs~_?<b#iRwNI+Rwl3rxb|7Edo^6;F`4~mwGQDo
zBlDkFbshZ@96icj6e?qWp1J<h>8E?Ljh{r$(jUR#&of4GP8UPj{g%u8{U^Me@n>%o
z=cYKA`we_0xzK(K|FvD_<i+=cPOe#cFK+dY{FSkqbh28`_|^V*nL7C1Nxsc!w@1mL
zrmQ84f^@E4LmzqT@&ES?RL9zO6hkq1eD@ZH`J#f6M*fZbuQkqx4#Z!iSY8U1GNk?8
zDI;^jFXeefkr2h*I9K(v`sb0u28CPm%yT|w3P!dvDW7m!!_Sk=Gkn!g&OBy(e)SCP
zp|71arpq&qdv2Jf9gq1Z{UR&gwJqU`#UrLcL?Ug;ZUP-2qZ2hGUVI~z-fR0duYAKh
zz~=UO&O3wD+)5|c-+8mMuN)?+2)4ye8M%46tf)VXKkgd$i98!?<;!qOiEswfD*TC^
zf11tQ?+#_CSvAubfA`hSR`M&J^=jp+7S8s*ohnKl3ZXvk;U!C?JLZ`L`VNto2xBmb
zl^sR*zIV$y+3N(G5Gu_cTg%?-cQDeM#ml&?6r(dvJTY-r&wb`w+C;TU)g}2b49}(_
zlXK^#NAyyPZ?04yxazXb{JHEj+Hrhi{P#PJjn$EIS@nA3nnSvUdXb^P)kUM5o8AS~
zK?3nQyTOt7MBhFMjmC(2^Dd70#<b(+ejB$fW){f3vpCgWe%itQ^vY<@T>`_ioO_hA
zDzAF!jc@6+wf?=FFtB8_o+BOOCZk+8v22&JFJO+lBBi7sSSMyUcq}MjVd|XZrA-q*
zpKGQQHkWvIC7j!kmoMG-9fqoDp2vKYW#D4RuegNRhd(Z51qE6rj;*-Q=ch?;N63p!
zEPIEAyim)qUySE<u<9h<#CzrYHA~=&nU4C3t}yRpnq95B;oFY%g5v!3xIT_j?~hWy
z52Bn^{T5zXTX89SQvc18o%p@|^IUJ9z^3K?%G$wLcSr284XKLCWvXj>8x?BxKIHT5
zlP3@BUk2CCq+UrM{P|V!W6S*pa~#W$Hf%4+Y?R#JSP3pr3r?*Yvy2s!{q4#-U|d=+
z&3&uKq4^~0W|b*vhCc1zP0sR6u1nLi<r11}1|0M^1Kx{m<&6j=wRmJJt2g2h2T3h;
zT>SR`j+pTV|J#Aj1XVn{Ew0plMJ+)++MKwYp}r*C@#}jpp<&kWzX!tEuT*%PdLB=I
zE~QF!WUT+Nx;G^hlCS1sml;IGb4W?l|3~C$Q{?zL-n)voEqYq(DbBpc<Z)|KG2>E~
zymD*lf03Igr&zRP%x01=YHXp`mcUnAv6yte%S+%@#}^+KTZZv$1}jk~9?oLQQm^DF
zQuSmXqqAPk_L@(NUMF*Qe~#pq4#MaaRO1=izjq@J3||qkEwQd}J|M}av>H#^e0|R|
z<lrKatZ-uy;RjtV^Rs~*?Guux3pCQ~zteOK^4IBwN3j+7Z$C^+yY_rn;n#Dc%f{QO
zQSu%4*-|`XepI{f`TqSFr$ww{uaf)!0YgB%zu-0!v;rFFTADJZ_fVJhuy2aa1i)yA
zn)Yu7^T*9?KE1;(<pL1RcmZf=Ml(N;OP=O(SYGa+f&>Z`9HDS%Ui$h{Q;cMzRUF4K
zvSD=%Bxi%nKe|FcI#e%5#X|dUSSkS|ZwbR=MFSvj?(=qa`2<cw`n-B%T9)P_k_J`T
zKYCXn%lRk`>T-C6uRxhgU>elsl`*&iaW0~1Qk{cYxdwGEq4}IT;d?NSb`Hk9S#DT+
zh#SaQt^tKBOHv%-j=M7WsRS`8d=os?aka~m&sF8}v}x%*kt|yfni}Wg*5Q6eq{54>
z+NS_~BEccfaxgAngZCMqT~qp(uF2#$W|}<83w@ZCI~LqL654vcpqt2%`=o!JN9-D4
z9i#i{_qJ!(|62C0eU_A$knDSB_s`y0Z@?uz^KT*NpfrvK?*Vw)wa-yc!ypg`@c4~v
zfw4Z?b!J<%F>@yB%LOUh2(+{Xy034kB*y52F7D;{a}W2sgYCK;O1H3wyW9}!*Bf;W
zDdN5#L`q1KLB+ICP>EiS9d$|)ZkkFuX&R>6Wsczr!i;B2;g6F5N|(>!%f!-!5$dMM
zUtUj}`tb=cH@(0|W{-FkN=T#2f;+P3nD|#Ft;C*r?Pw9-`2TQia@M)@CmIb~eT!^+
zFA0#&8z(Ynz!@bPJKvez6h2#V0rY<he7l`+Z5lxqQ=M`|@dZ(|uN^7Gn?HmU!PzB2
zUboo;>z!nJ*`=a;2M+!d#;uA1pc;7E&0TAAo5&Ka`;UwOJw95t>?phT=K7V~e4!8;
z$yf+vK(d`*e_<r_GCeb=Sv#rP^2&1PGu_kgX~4U=KD%E1$a>y&ex09X?)3Cpr0&V(
z?RU@4-eM=r#k{ld(=3dq*LlC^b#Fu<!j(wN3;H9^E&nLoZ}O-7d{TV-A8$i=VNBSv
z?ovO@hsF07v6lGis*b94vRKAJzVvf39u^c@o^|qV`;8>(c-^UpMH&W~<=nk3L_yr2
z_mgE@{oT!znTVZl(J~u!!^{)&MgCTNPs2)PB%D(&-?CG&i2Oi!ex9e<=DI={mP1Ix
zE|%nu#b`N|YZ!ZyqGewssR*a>P9|sB?DV|<zn?E(=ePHs6BK{9C-dArFRv{>^)I|N
zp*>U=Lv8P&Uim?quz}kcaAyzrHuv)|U?X=hWOom_)Co3j0B-PbzKBZDvn0-PHtHBd
zJ*iL|=#*eG+DxG)7;39RZM3IP5NNOYcFrKcZV5Pumvc5=1R9G3e9c7~pQVLgW#i5v
z+;&5ajWI5zC*Qb*t7OcEP4LYuwU&*yz_qoRO+G__9SPV#o+;|<ng^4N1(_}bz6;3l
zU6k1q8*s_64vBagg?`3{UE$Wz$d|w1a=nkkgzt4;aqGCx*!;D?Ou*Tu+>Ihu3(N+N
zGkq53gv)9pch{PNiO&|6tGAi$scH__>)jS1%Fman=%$<6Y;$F&_R4i3B`>usSz7g%
zlZi;JlPF1M{-f~67K^~PSlV3uW>))cs=riZc~O<+g|%5H4`CLL!YIt&tX4raj30}N
zttjCnWocOTLMaQbo7;k7$LpOIpTp6zOi+qnE$bqTikzkVHgl8WYq?(eK~nuu60}!0
z(S@BYu0q#ypO;B4dU@i>f-t*La8pp<RS>cg?A|4J^0FO){<+s2$@y>u_aZ(`rymN@
zDSX^rD#V9^bgS(DLs5EL12=*>rm<~CtgpV@{#NTKI%6^Mmr>q1-~4~`dqv-*)8cp=
z6)HZrYdS1iTHQq&#(71IC<j#HtdY?gG&?cu78TZg;K>UILNTJIxz9`CBi?0;JT|PB
zS&;C(1A{Y&4HbY50UUWJ0LQ5h0Fqm&Kdn<rSKS~=V&R_2pYroQQF8I}Um8n?3G!Y-
zj8<EP<U;J2>;=u0i*dzk<yBy9j4>k-(yX;H)|k!03a!IeY&)1QdWE0KLq8fkx5V>4
zO+a3zn?sANgNcmQ<*cx}7<0zkLvz=|5DmGb@iZBwdzewWbs6OzDYGzE8$DIg%rcK=
z$DK%KEE_>ewwH7P$`ydl8gH9dNMlH;bllL&G{!hWTk;i*09~|+;Ao}<bDQwcGts$c
z_q6yO_bC%hUixieLcJFjepXQdO_@5ti#d-Nnh9GpSlCDn$Uq%JTjRj)><OaZ<9V_f
zv=I)=i_JjakDNqR7!kxrkMF%AFk9jrb5&S#FwCe0NAom?cxp2uObljWW>TX$im_ed
z9Me@$3B+2P83z*FhKvsYD~tuUNoGQ$Sz6%!4Nn1{b-v#@UFLZFdd4kNu^mjDcQS&G
zMJtFD_nf?#pQ6buuO`nRel#MZxye}E7$4_WFnJUGB~zCiO<?);caB@R`5ANtvSjh2
z*bJJVB_pzcN8A<E3b#y^=xCl+cyNL1ix)<4(aMcx=>=Ci^CS8S<Q0zstODj0j{>I0
z{}sd=u4^iJ(Y*Y^-80P#3Dd$F_Xp$1rZQ_`z2@BkI|QQY&K4fs`~--I1ud-KtdkVI
zBVe1ky^c3m%iLcd;X_jEnM=*+Sc?)K)?L=B04=>!OrHyrxlEJg0uox^TxbqQSbfZm
zm1ghHF>5)4A-?(fBLs17E+u_Wh7#2|=2{9qZbXa<YXA#tJ#7I%TxeTwtomNkHQWSk
zKZ)9d3(PTUOpeD(jcGslY3Pr!qNsI=MP0S&(X4y{+^%V7jM|<rFiQ$kr&$_e9$sgO
zG|*Rb*=ag(l*GQm5>wba&B$Mv-Dvcg#`zmiHp2!VCAn+R-Kbh`6vj6&t|)t96v%&d
z{<xY6gLmV`eEGUI6}9-ghKpAcHq|79wiE^PfWxTzMHI{rP?41F77FAiYJB=02nA(4
z2C-i(s-_=W=F<-co|ZTI(DK279>c<iHpLOJH)a!S)Yf1V7yCo5K<+XI*fAbeqc{R5
zE;zS7R8Zg?1bn+gg);%<XFd-{32?#{Abhsd!bTRf+D9AI6r5PW@7Ac09+3pva1f8$
zDR2hEOx0;2hTwp!UfpS|Cw<w;;^B!aGS-P%YX;8bnCKmiHg6;}Qq2}f?yMR6qcBn=
z;u($oQAjzI!)eFyD3}$8Ay&Y91(1xU%P62<aJT6)N=AtHv@NhqW3XY{V0NuMRiZ##
zu$WSu_D~RCb=KZq_hwKxVw<PydkqFvx^A1N>xY#kFJHIcv`6loAuGq#-Yb9yI;W5L
z38S=x&===SD;3Uwi(@|HepGm?G{ymL)~f9c@ifN)Di!UCBef4x-9D5R9lQ-d-l;#w
zq?Z2FVChPt#?_(enIZ)SM1Os;OMxJ<-?09qppf8iQh!o7zgR4B@)`G1t7MF6FBiL`
zbh{TSC*_(usiS0t=bc=j51>6irlb$}5#9MN1@VMIsLppOhzKxq?a?a*5@UR*j$SDU
zr1a7qD-sy(mfqf$aG~9H8&D;eYHq{_Ax>q)ZP18!nIq4LJLlT8oj2Fm`Khh`S+j*5
zW1;W0+Eo(o;5Xv$<iQmBqfR!xTM<nj{AdYxT{@Y;hH?gPyI-^$${OJ7-f9<oA7}mq
zmPGfV8DYxoyT%&0o1arDU>Cf1c2CMY_3K93(u>pY>lw@C@L{bA(eyyk?0FQPXnH~$
zCm6${r@BWa9i{fnTcRaO$2p(fJM;GU@Rw&<i!=$md71XM+%#B;U?>6Io8UnNYq?2k
zWil`@X6rpKdyE=Z-?gQaN*69PLOkmA@?<#Ffb37i@(@fly6qh{;&^C2cGkVAWK`SW
zqpgtRb9x>lBXiBFX~3u$8i5(tt}DgkBrxaXc#v4dMgY3Xy;_*Z$5@|IpT=-uJnlB2
zN=5APjloG&gr_d!`$lxh<(g~A`)Lc6j*NlE_d%u0)DYivFYCpVEHZa2QZaGQ<xlx}
zLtC5}h<-lz(Jd8rBf8X<iYslie((&h^&6ikxlnW6s~_!9>7T&#Z`aJ>>7URZy!6hK
zeElCP`w8$Yotm)<m6RrcCqHTy@#Hk^Y3=kHm(Wx@s^2Lc%&mY2+^55alquz(0_khr
zT$pNCr<m^Vj;fh^8Z_8bN<NR;7Jzdr<{`SDkAF2GOD@*D95uDfM<7)^Y<TlFG5nzo
zM*Y+e;CeKK4@s+zmr6PzQW?}8Gx3D<bkayjl=?hj>QnV$RRVef1oZxJj42)cBddyq
z3OMzhX$obhX(c|xPRO=RG1UglfDNb{Zs2heVVrDxSSn5;maR3e`Q~61epvgf7@8wn
zQ!{YK<0m%Xnu8Xdijx>RPdFOr<FSzd+w$J=s+dUtW@?7{c<d~I4$1M$xfHxCI4aiI
zWS%vS^6)5@k73#{c<0tsB6~(eR&(PAkDZjG&PGXi3h+bSxxnKo!_tYW$*5u`1DL5F
z?dP$Q1FY<|<W;QX04u~DIXqsLfaSc4Ix3EqKoNg5|Hk8FrSUU0Po>}k85a)+;Y}s4
z6;N6oPCD|qcroYVU0hS~@dEI1I3dI1<CUSnMy~P|G0FNdNSveL^@^@m))P946He!L
z;m3pOm6)~fwQ#cHpXiCKU((qd#(7fyn)Op}V4V~!CtgV)W4(u_9W2u<SwD=s?z-Og
zJvVkNUN#W52<?$1C|`8ZK9f{!kxc%z7m&6#@B5JNAU$~f=(_nmC>OYv^Uy#J?L#>@
zfgeS~wTetHe%Md`KeM*`#dC|VlfYhyz?O&8#g$!8KInY+g!93m_^ttLMRnolk51Vn
z<kPFZmjpK&dY$AA7Pt^%CM{q`@GgDZAndfGNP5e^UHR!uq=Tjm42jCWoh-_C9<~3G
z|5HyE496nQn{SOCq8Y;7MwE6z({iL2JQq<oFFabRMBhmKHcy2=ulOt%@e6pBR2^#h
zs;5!eoch;PP<BeUE3Ae>RGyf$M0b?Dim}~KUhA1`<!^FMXs{l?sCmPXB|c#pj(A<9
z&Y<{VvJmw%ifW%(qPS~}?y&0b`6*&%%DETHNQ_!@rdPKaic<*l(fgF;?BbF2{ZXXi
zEb^C`(Yo9*HVUn}FOa(3?GtuFK8aPw?}t17{cu!dV1qs9@)<&?j`DuLK5o{tc_hrA
zvL2apeCk^CVVYVFIXCzz)+8gNfuue%R_)(>p$k_{6M{0~aAm&n$tJtLt^ZFkkoCJb
ze*bEUbjdy)g?~U?jlzk@!@21Gz4`FR__8v-{9X&Si^|Y0LXJr;`AN1^7ThYK{2!0;
zbFseP0;dyr+SQ$FbD~HThHL+kD2RNF#$=tEakEM0viqfrXeS|~;BZOI{Q3pdC>NoD
zbGpw~s#0ho@6)F*ymTLIb~~HD&cjJyJYCGWZ}hJ3zOzB_?rObF<SxR<4*AkrdW>&F
z?k?xyJRIvx-`L@^rrpH9@A%W2yW##1M(F+IuDSceW){EKXV%OOy&K!{gYk@wHIq%J
z@qhlo66GI($?DXTvkaNmyZLx06&szS809FYvw67tnFK#CF311;`}S#l_m$}j&*!=m
za(@{5wi5>C!dtEQA{<WBvhH;Cgnaxp27igchy3JECj~qFJr<7(HlHLVyAmpy$u#}O
zcV6Syvl!(|v@3+g^raoz#+AcY%l$jMVi^-}y|$-<Wf~>NcIf$|+5SLx<1z%S7oQLe
zwY(y%d__=V9zAiF`_3ZJ`q#Uo8{4<n=%K!*&?>b4(u*EeoW*UKFE#5jeKk#99N4Xd
zojur#pP=}#Ek#*5;9F1oqAUc9Vx&XW9<d+3>-X;)j^5te(ph8M=U489|3njU5Vzz(
z+*~ts{l9#wXrux+N(V5qh%zs|?E%eiw(r<3)fn>a#@Bjj5Wm^0h!e)tr|~bMeDSH*
z2H|lq1vI|~{NCqO>sW<7?LcbmEk#`CQGu3BR8<-1j<BigNlC|E<Yvcr{bm&fv}nIS
zbD!V%eCaIWe<m8-mGj6$XU#{S_XpTfeG$Yw-l3};3f@HTHMEm^4Fy)D6Q{)MR42~=
zTLVxv%)&5B9&NYEds_S3_^tBZr-+@(l+cz`FI8O*u%6qhAg^CU%Fr*a3h3FHEj=6i
z<OIPpOV6@fgFse#P40YgmHOJo_5;r1Sgsv6`4D?^!e?AjW0Nj>KxpJ9`mk$ENDi*r
zs^y@<n3?g@PbMQ_!&fH*6t=T6sNq6sZ~{u0K|^R}*{NIf;EBiqMzB&2DvWuji5f&P
zF`y9Eh@oAoYIIXOg03Q|d8BtjY#l+hjm$Cvep3{XgKUgda=6X0N*S!FlrFO1R$>E5
zsEQPk)DuNXTA<Z;TztZ>w>mAz3OlQX*X=50!742`*MeJXLSj(WRxJi~6|Gh=9^+cV
zj~r-g$Si;2w+8_^$QDs02Np)LgwnWpjvIPRx+-WLHdBSFN<r1Z#@onKgBnvr<yLke
zu?E4$GEqIr{Q~k<L{u`VK}gBcWDDFeys0kG2vD^~fm-0^!tzTDG!QjVgzBsfBmw(t
z^+J)JSt!D4O~T6H&8c1)ygk)R!Z)b0>?27dg}5|)<<?7sg}OX*3bp$*kc0}Yh-5CL
z!6%_rY-9I)R(d}3oQW{c+(qn)XYLe#?3S{t1V<Y`{+#1J%~JY8Nr%}b(_wMle-aE{
zZ&z1?VDrT>nDHy}LT<$*>Hh_zd+$CyIKCC11e7kf97zr_vx+s$Jyk&vja1;Wi&x|j
z^XnQk0W;I~^bkv@r)gpyXJYB`<t7Jd0%j)O=pmM0Y=>oedumCm?vTiZwc7Cy3mJH1
zXiHo(z2KHRQOKwUnxJtl;F($bXqE-9kZCzstT$HNNJ7V6O@H<IuMa=l5hUjnRnlaf
zmsv1{Dk)TjBWv|k(&Sy8a+ZvNQ%Y0n)szz*ZJAP(oC8zNk}+FKX#^)R6hM`(S*VOv
zm9wM4Rc7MM61yQEti-P=4OzK0>l&+pTsQW(4vkCx5IrSFP!#Q~7(7a2A0`PwNg!G|
zFnE-f_6rH5jrT%8>0-Q)a2mTV1deu=3kjr+-$Fp?XtuD3x;QO(CIFj-3Dw?Xp;EOs
zSO{2M+|?PJ5$aW|!S{7){p4#tJ{~4c*LKtN3t-fU6j;;t56W%Ta^KPfzYq<0;o<n&
zR=fM4m3-hnp&EZ>Q){vET+SZ6Ef7NWHCzgU;3ZQAOM?rOT%7urEy{Bx%2W15rBEa7
znQvc#qikTq2;esKLlDH*6q-S!ukwInhix2c3IX3_T9)Ha5)G-xxAr1rf%BVd<}^9J
ziw_UngB5q-h=H4rM0A8k(}Z3KzGWU{fzn8?ea0mHogN>T)H{KQq&!NZsmX3sNueqn
z0y&G4XoS)eWwO*~BFdr>Pdb!IRFhvQ3q>TAP$o-#)}Sn!MhSvap-QJ$RmQ4uilTHb
z(QHKdV4{hKvdF}944V=)N`TyNU39zO6X{^dZZmr%b;`^f!J!>Z8bQ8;ValSle<}r+
zi%iHqtQ|qV6SGH^?qL5Y^5qR7RmRjJQiMC2MyhlN8%dF`U@ULTH~yo5nYWq*<9Wt>
zk|xdB(JX71=Qt2hvj&x7SPPaFA)X7txzLlXMe1`fA(mF!g4L&GDx<5+)TBj4C0w=n
zoXY4VE#bCjtIPUSM<<#Hs+O=aH&h*3eY&Vxwz>>bb##)m89G3U=9wzPRFG=XkrOPb
z4INZ0K~){8XwE7G;fo+)Zbv!!o!u1#9UU?u>l!E+St$CAO_j-nN^$Um^oEyzN&-=i
zX?T;6ze<5s!PW0gQvNFx?^bz-YMF?)Ro=~1fRo7O+>+{&N(%wjQCpVcU48d$k`no@
zzSBy>RhT#XPOF2;M~CZ{P1t|qc1E#;7Z{pW&pM;gbbHDe3#<EMz4&CUpY1)5CSm6e
zldm`7JM(;&^um?nJ|XWmD_d~j^0(u6HJhbXZKT^g9qKqa9!HOl+#fjsOL1F$dbo)E
z!1MQ?E&b^5A^p#kdN@h{eZalP_#-m`y<t}G@P2X4_OP^xxg9M=y`JC2Rhk-h@v3(X
z#Zax=W>bM?rjM33`K9k|g5BwdbMG>KHQS%)RKGYt*Gj`_mpvE-AP=-(C0eaksR9*F
zXdg$E0#@%tC|?pNpfy|dH7r+`&RI>8DR0YZ`=bKbL|%_ohru|6;c~X8IAuIONMC}u
zN!Zu7V{OT%pV{;*?;w^kmfYu$qs!!XJm6UA%XH5i6Myr*vu$J|sN3m5oMh{_fc5r|
z97vNq2*URRLA##o5Rue%td{d;(7mO|kKbuJdVqGddns7EX5CZdq$^nK@9~8y`R}pz
ztafA+-x3eQ9yHmYPTpm_0Ts6221SA2<xNGM)MLR%LSRocl<pz4WtfUP++_9|QX~R8
zWs_!dqBs%Hl`>CrrL62+odua0(2GyknJqWVMGP=AMP-3y%Oimi3R-rWjTm5l?4XF3
zndYGeSUN#O5%M^(Lyays5knC#Gao?>u>2O!f=$(f;w-&=Ar{dpBTp8!%tKj#$%LS+
zB_5qxV9V`1T0~z2A#<tqvb#V0q}usxa;Ukr{{YKI*@^qD0)!rT+Ra_ra^lDmjr&Iy
zLM)G9Lz^Dk?e@}b&x=Apfn}q`TJZAqR||`5$f`Oi?0X|7JPd>KROQL6B`YgsUtKKE
zFOuWfn)fb5WF7su{%f1@n{OP2sXs|lClS-pMbdBB#?j^Gn~Nm-s%baHYZx^L*`L)H
zRuVi3-#QLF&l#A$c*(x|k4<3|j~B8F8HO2&aN$gZ?IcMQubx}p#XUP0zx%v7&#<Oq
zoX!jQN!gxuF6&Gr<ugyclm7j`FF(EOTe~?4B4N(F#5&0z%0Kl7b}3<t)@Pu(Y_wwt
zty7={LCA$Wf#AA1+_^J}0xsTwgO^MmxOhVd&nWEfTqF;{^w?P}xTrtyUS2wp@VR)W
zxY1lX30tWnyn9!UKNnoQpBRZ|0Vrl7)98c^`VR(rRDy=WVY~hr3o%I}w%wdF5U-Oc
zov{0Ofe)rP(Hj@-7uLVV3a-BhCQn?<OWZkb(s04H)89DWt?%%4dd0ArTR(PY>>gg@
zJ^cIN@-=#c<K4SrG3Da9I9@M`95#cG3<i5~?9SQa%oC%B+5et!@fHlc7l*%S^B5ZK
zyLG(K$9q_7R0|k*k#N{}A-<xivtWDXz{PBPi7<OH3cN)SrxANli*W*v1E1f;gfaDI
zfQjp;>^`P=ABS}Y?j?i9VNh$o_JViuM--%NyjKXXmE(<OT(CF1b0dE$Ub%Sh9K38>
z!NH5$_C6>pbfP#j_`YQu#%2DwpUyIfjvL#;3zN6i)6~AXTqfs2Tt91Vziqe9g*Pq*
z_>L#0D*>9%x605<qimP`;$~anG_i#<7m+=VoQYV;d)ID|VHBIcGuLyI*l3o5gK-=z
zL{ds4<rv*aJg06XVmlF$m(7?-5EYNy<<FSQtHsca!*kcNt>-jIL^lcSBIFcbNt$OI
z6>k5>S>$6)zhQT7f}7&0?eqN;yFSn=6sAPbQDoEJ2G&}3$&Xc7O!-+Us}n|UKE9U1
zJ})C>UEI_75-mQGdC+7L_{CV>@0K29_9Bn)o$|-laq+kKtb?%iQ8mIx?^H<NQCQpl
zyej1>%rGSVX^7{dGmh>AHSxl3W&(-pEC$cn(`yh@A4F?bqHvn~$F!oyg_$;bF-o{$
zff|y|Z&b_M`XGu)jY8;x-H^^?6i83c|5iBGnKKp(n2^4TWlOeslFQY#QjO3PrK1yl
z7*)K9f*1ll(F!tAK$?N&wdIye0c1clPC>Jk#;&Mtj3Bd>cZ0UCpI}#{VKJ&JXQ&a&
zV__7`1=ts90E_~;1VQdObJHE7u<AMugRx}?jMjRUJR-!lCxO2dQPLbnf%iCQ&a!`1
zBtuJv?byg%GK}GwM6ySr^fd)XNy&jK1u;|4Ba)yW?dLPJ=`P&#2Ym?Tkt_#ecWk%x
zcfM-?x0e3Nc0YpVDLp@?Ko&5F<j|M`@qwX9^Q4%93c>zJkB2Fc2(((+nJ|TsfE|$@
z1XCbOfEc~gUkd3JozCS)z7)(G=IgR``+i@4$NM2WNGAHxFrj{Yhy)?sX|$jPqYe%^
zoisYiVN!OoLCZbS?L#97o45Y25Ju2nnd}}x@zy4dN2Ri4rwDXcyjpTedrehhJBl+1
zvc)D4QIPvH(RNdBMaz(?YPCje4U|r;l`DH<o;{kris0s85#!`O*AYu;r+J|apN)L9
zsm*(pP?KJ|(^63)w<9Ev$mSRcVQNe(6bEyqx`qK9dT2&!W@oU_lrNO(zSUJ4wqz?q
zHr2XPiaigOup3&pb;Oc7KnB)bYc`thRQQQKi=4TaeK5>X{@=sZe^yp8mcA2xN@(Eu
zkfrBCisc5Wwxx24mTkgFl3NX>N1mtf0M@c<NTpQJ`lAxsk}j+1)+$W0-25|wS1s*R
z+mBoIYz;u2ILc-2HS4%mJghBOdL~MCB1G!Ejj3jHbShI#8(5L=CiyVc6Dy7KI&l&g
zj<dCw^#oI1)VWs5mB!4;26yyR6h3X`Wt?`vrBG#`!XvcfD2Fck$cj`>_e?o_%gzvJ
zxqp>%Wyc1zT-{8AY&x^DjV-=??rNJ$HHs`Vl`i1^dlKN7#|4G{+s%`w+osq0>%M10
zOBe+c+sg;@h80bgVlpZR%B#sAF)2;8kaiOZG0@iAZpT(l=s{T_%F}O>u^yBg0^I{s
zAne-2hXAU~D0=!vvE6a=Orfv8x!>d#0RwlRL-Pzj$n7&|b|ISkXm*{7<USIL`+UgB
zBl{R)L*Wc07sn76*!4sO#4Z_Y|Bx|ptj|RCNR7wAiN3?BuW=Awcf#NqPtG}kcn0r<
zDlm45-ZCSj`UIf55`pDWJ%DIXIReSUfWw3CeOU#@9=$1IAv%g1>idY!)g!`7hWOkh
zvtN>*A;b^sez5|H+Rbd$Ci9sgvP0bov+^w92ZtL*B<Tn4JNmb<6&O_1V4Vyk<Kz^b
zMHpEdrw|94c1tpGimw{9@24vuDEHW&eafg9;if7xAyPpj+*I{%)GIKEz08_tnR<Sr
zmMXhsNm%Mne4>@u4#~hzY#?XU7*GI_G{njQ;~!N-)Hu4$7En=~HwsnEKe!9XOp}MR
zO8{DLL4iVy*PGiHGWDOKD;oLLU&0U0un}9!KuI#rSY&9IqEMg^WN2*y&M`Hq&4|>|
zIYUQ4@eBpZo_TH0BrVg_h2oH@5)$IA^De;Ifpa6`f<-syOzr}YLg`j6Q6LcRuo-1#
zB>!UQM{1;`etu!@fY(}4;1FT@8}%aZ617uVVFSWWFY%}i<51@kUq<TJo>5>BR=SZd
zW8gPtr8>4l>gYGFBmH_gD~v0Bi&B=ZAPnjXUzW+JCe?MtnB{<SKP!}Lyf-pZ$lhGz
z<m;CbT4CJ4<imNaH;hr8cZPn0D@?x@(hB1iC!cjR{Rdd5>y%s}$oYeJhjk);2Tog@
zgy}ob`_=dL_8Gvx05MvHVu;@S3%ZT6HzYT@QPq~c8{_6JwjE_YN9!a=vVY1Pj6zC#
z>c-*1d0UIPQD(=NA_mVAAzG<x^^++bY#FkN%E^`?4w%|gsm;J6Z49QI2xTZ}jAopD
zsQkd|#YF$~d|OIE)`<zoLnYsj*Mq4#JGAG+1N8Jt;}T2udsyymExFX_I7Oo|Gj$%s
z6gXO}mf7IZD2_A~<9QCMaADSxODSBOD--$$&v09Tx=f$^Uq++=U9xs6g;3sBHjBv&
z)J~*5OM-&adV(n%nJKg3J3}YwMN#mAHhG2}MCe$_47QS4y<~zpn$NyEMwWGAuHT7|
zSyap}C=I>w3r?API91-1xfY%ai-ooW(wxG5`+x_G&0C!l+y|7+dc`^(lmkrXcPiq<
z#ixDuPUB*-gP--d_!eKk{ICLpnw2U$ZyC8Rc=e?2O82p)qM)5q@Py}8K0;elnP>4J
zh)5n#_E~|lhw0rTN*ULW;M`J4=VFqru2;j#^?1VLLo$Ek;SheUU36Q4L5$d&lM@-y
zPcYG&+%O)|3q~|m>KG&?3kD_Hb;%VN^sT4$X{d~p1rS%*n=Hno#$)&jr-qcr7#o2C
z?h2GW)a)E_$;k0QkEsk>JX(APEu0dOKJG8@d9sfUVfQ*2K|Z)H*(R*<_y`yynAChp
zMgj&S+V25SU{E==YloLH5`ZpJNnztr65=kxI?fL9)LJz2JjD3eoXyGj2!Z)zUn(1q
zlxGGhoLW!M98zLvnt#Sf*&P1KNO?vJNL3T(c#K4Nb}uIZJ;LU9_=Ot^m_0X|HW!d&
zghV(Y+tfB5Au)##yueqC&m;P;BT-<G+N&nM@wAs<6S0P!ks3@G`F79?RunkYqP2=4
zv+V>7%-z(hRF~pIKdW+GiW~M2O_)i6E#Ai*1{onKTCLz?1|E-=B_s2XTcU5tm;{j5
z^(bJd4fuA{k+HJ`7qFFNKOQqLxWf!NX-qG;!|1=!NP$67vdxu~QSt&(a$C3B<||`%
zksC0{$}7YQ^4=!}02MjZiG#eN6Mi)(l1IrK?j@}1RByPKzy-qJc&~I)vGNAGNhP<F
z$H_ayiQINcLf$!q%&?bnyn~v%ua}Q@uYQx2wrImze`m)@wuSckE&K2w?MwsvVbJ%j
zwI*p4uih<ozQ2N6Yh3)YczagsxcIp#f*A|WI9de3lk*^)sX@L1t-JY+>5G@_XQTYR
zb<!VZNM<&+oo$3SLm{3<x%@o$ve48v4>bF!QE2kqiJn9>7-YXW7)&)+R05<@T<fFa
zDnOkTP`3nH<<?|hZ`=79wZlYRe_uh}bnl>2SKJ&_=2kyjvGl>_re8g28L{Sd==hJO
zJ;<D)QX_beW5?MK^<<Sr$-1M=r}J;(ergYlqr$~=A@PSo*s=kFDva3*!aVV!^()-w
zU+mXHQAc)Av}fO&`-}%$=j|7J-oVAGb7tuFcs{%{ADv%ME$h^_oJF=~vc|!yn410I
zRW<HPdMoTo?L*z<Zm_WVSMgaXxUR$J*EXiJaAzWMJ<&N^efZ8c9l}T??frd-A<N8$
z1gl8hSPfQRZ2yhqt$Fhn3LWeJV%x|D3=z4L*l6~H)Ss>`B>vx<Z8;{EZ(R6)Y0awE
z?Ej5&ic?5cYifJP!cELGH>vo>H!<&d&KGp9Sk0{$bH&XctGMsOU;k7k=Gtmy+8X%>
zSWwAIs@80?C88*ZuEc>>eU*jAfh6uKG8ec%Gd=%pSvJ3XpcQBG+*jzCV$HaE;@FmG
zzIdpeJtQJ$QGIGDFM?~jUPwNx*G9t}JFzg1?5R6<lX&&)vmCcG%O<6<lSi@$aG~sO
zv0850cDW_II7TWdcB_>X$9qCHN7=VuKk1sGlbDxIqMCF${y)iDKsL-=iiug2JT5)O
zNs_4B%l^3IG!cj0AT~y`8pGIRUBIPN$@o3g01+o%Vigh9ngi{}jrisrIA5{{FH~~#
zLB$22rWJlv<YB3<me;B)Sbw(O4E5#a=Ab<)-uhCLD{U{#&9Ql%{TY1Qx~7?pKo90o
z&z~>EDq~+vf0PUGUNleh%f|6nujWcs=f(RE%H3)y`ki)I4VrxO+BAP{%l8nq+W#De
zsy&f_gW5oG0r;>1&-JnUw_4U7JsmdSS{?!BGXDz}!psn+2Z{rD+Le)EPr@(|hT}il
z)^>xBb_|^f6Pb$m<x<NDla<c4V)WPB4PrDBfh@ai*W2^ndk2#u&5O;0O`ve8P3T~C
zM^!wnJ|PSnqa`RIjgCmAn!@p(&)(`4u1jZ7sJw97E48ch0iQj-U#apAsMH2&<<P{=
zh|1YS>bgeh!f0r;%Kd?G+VCM{{b!$mwsgnhA%&ipi^iucQKBIu(d0am@LdoCvvno6
z3bdtdTVRXx0u2i;$|(^0v1VwDHer;tj}clc7MK;Akp)hk{N0Bzb{eEsO;saw)!Fwr
zxbPG4;kRKv15Q7F_RXUKWI>i$2soL;8BE&$DeUXWk5m|o@cO15=G(3p!w2#ru2(U;
z1SaZQOR_;p?ooDb6QI^9M@t_v|IHu_#x3NgWw4I7(+vM#Av4m0^NztLvJ>$5erNC2
zpr6hDO)^>QHL|pe-TPl>yB09m>zlb&!^`>ArCKR*w9<~d7#`v#W8s!1HYby-L*(e%
zoC;k=hoE#^zuBX)UpLB00MM)f=@fX{&0JYi<2Vqm{YUZbJQ4_OW(hN!%<Qo9qH-Js
z48D-%0Q2ithn)+{mK@>QDhhH~-`8rjTCG+Ku$bL#=LNXKmxc3iaR-qzx>^1NR`H(N
zd4M19@WcW3H}cAl3J|Sfis5wPfj_|F?vgfjNLyiRFAq==r4IyU%ux)Jz$Dok6!<-c
zqseNI)GCBqHMbCaDI)~AD5Htb+HdDgZH-Z0rXel^4A(P)VFF|HZTATkdtw7dU>Fp9
z2_F&yT7BW*>=~vW|017SF-*y)L$RgsRTrCc15=2i@B%%Q9~hm>EJ=dF`J6n6P;ow^
z|G>El!~XuB!*2l!l1Wyk>myS8TU-{WeQe^ik|6YR6s4FOtqlx&9)u{nf^n2Y7$UzY
z5uyYY%=W%8{t`?9iwNhe;i`OK(yY0D%rTLYsO1qB(QmjuQC7jBo-eK@|NeUYk}Q7!
zJIoNYHVJmFC>DJ+xdt5gK#F@MDcEf4%O%IO;!M`)B7KPA1O?$U#C<z_btFVFlJq(r
z=%P0q`ZNT%M5}BQ6_45({B;HxM}=%lBOf^m!{mZK!Z?Sh!g8dsxceM&3<L|@6XD2z
z_r=iAlWN#bMe!O}5&ke+%cxGt>q)uUkl9Q+1Ct!TSFOJQ8BfF(#0V{zm3soOSATor
z_9#%bd=A044dN2+`C6A)yK#wCXgPj>_@I%<!PY~!u6=6tbR$E6F{(%3FnGf#O%)pX
z^mh!w`E9dOL0GdAHi0+*!G^R1R9n)`-Gk<FRNx*MmU)1Y1_=br9ORH3Hjq0_I6)Y~
zoJdg|jPN~eXl)nqwN>Qv$N|nvnPE7_8DLgeEL!IDNfboZcmI3#oi*D75Wla1>0?A9
z!FCE|V&2YhShMd4!atb<6D?q2lGCLgM?pM&G2x3Cx}HZSpGPwRq8DcA79wn4qb#9M
zc=pxv4?A&xM!$()%TX4Bghnf-GoxcPwKwF!I^?+*hdc-Fm4r+z;9=gx1$?SH%w;<J
zMeJVAS66<aKh|+9b`Z0)nL@+BRz%Fy8_D2XzMp!}uLb~&(OZ>KO!!3uvWA<WjInoB
z{jJ`s(iNa4v{3Nci;Tr9BBLd%p2t+O#0UmSAF~zU@ArsD(^<0xSL>HZ2)^WTW%CvC
zM890CL`Xh$?Ht1AvqAT^(FQDK+9cAmsP;}`;$B8hSrzTvJF;`KLlDhWCG6U$y`53F
zAscq<C=mByUWm2|P8eq?bS~L%_PPf3`h$w*f#J*Teu9?WaOZZX=9<cKQ7^uC+|u~h
zD)^^cVI`)UHYPS^vON)x_Ma*olD!eL{iS3FI(Gdv^IW!{XE2NVeXrDS`8-37|F7Eo
zYI2;COuv-$*wz!VwtlJg<}@=X-Io>`;=35f_`H0K$RElnu_8A{7e$eUmswh1WnIdt
zQl3dklSex%9`U$WQIW^N`vv)CNplb_JYMyz43lz(sp_|Qaa9OJn%Ap-p@?y2C^7`^
z$1tTgYoO#$WFrINd@x69d{UlL%x0*uNq90bm#O46oxhhb-l$A+(^l$CD}lHdN}h4d
z+!Z~<(8}|{FLv@YD@@)i8kMK(Soj+pqABeVC1RR3e`w14L%G$mpTiJ|u{+eN`z+c{
zyIGE-EOo!KKiq%Y?D*?8+CUs7u$Xr0;z=TOP~FT3Vg>7$JXdSrD8dKrIRzAMVaPM;
zhP4R)A#YNg%~<qLbT{55_NMi|zk%GQy9F1cAi{-DUk5lt{;Yaor|_+zga01^$8^Sk
zM`GfwQua8Y>asLTe%75jsebdz%B9S$d+#hVHzbWOyLT2b{g$6NJ$IS{X4_D34|01k
z5tF6BB(qNv@r>np+9L}QfkL$XVUyC&((SVYZMiVOJ~ObEV{zm+vogCp!7w>0!^8-P
zM?G&p<jPY@&EkGic=GD)4i*K<_2hfHpJRm8EAk*s;o4jBzczheVUAml_GKfa?h^-|
z&Ocba_W67r0`LhDN7%ZJh9h$c*%G6{_<X{59cRHXJ>>a(bNVtQ+gCIon>ESahNQcC
zPlu$NmqQwgwSb!e>FkRVXG8K$;{p!JH_x_%^08vh0r{3Ni3a7v!H~Yixgf2>K?z@j
zXvhigTxM~W4ogU@?*=6#@#%nsE-_LZ4QVy*kF*FjLpqwe&}K-=y8eGSO8@T?7WC5r
zImcHS=0Agw`f-&F_3N}~8?7OqqjOk_t|>JqmA@Az;O->Lf<Ih{@I)6(J{Z_cm_D?!
zyl|p)4d0v@{rxoM@Aev!JJ;~fI&K!8cE}xe_!{pXbP%6h8F9g3F0tPZT{8dbHlNm#
z&I@y}vfFYOG^E)2c1AHZ<sPM`$OmC<yhOk)v30|^EDM|^`<gp-syaL6?y^%VM8RjA
z+!#L}A%d52P!_QB*k+|z3~`#klC$~sqN{+8$5yJ7c&%78(kZ==30e|8Ai<hqehbb!
zD+{MDs<LjbIzexh6|i~e1ieuPeHeFvT6dW`>U9@ty?iMn&(1^^*}>DM)4W(7S5@Fx
zFhNZG-ov$67pth#qvR@C_ilG0P?&H9I`q#9U2|@O6^uJNH)luft<~$tM^|1{fV3Ws
zd4WMoK*%FOmOS2PtLMc_dl+d&NiJv^x3}~+K^(70KqF`lJB77ra@__Xg|GYTx8i^o
zzLAk;w^PRK{F1eP$|6NV!(xn}7QZrxXGuLV49R;1JnFBBSWAABfN;(vZV9@_w*-~9
z9R6vvJ>~b*dvLR;gN8K}l-<0l&M9^`-xaSsx?zcm44om(tQLo-9+qWwnS^{aj<f7J
zc!a^)Fj&wu570A2=l1`YaZJyP{-HP7hGg|AYkd+n6sdEGNEj-|IK;mt*xi@qm&){X
z@^I<>6vft`H_go9bZ6Lf!HmiB2KX&t`^@fipJn#f7(^&T3wYpV8r!=o_BiXVd&wM&
z1+$Gl`~SB4Uk;yR7=+P0rmO?k&za&OS(EAn1udN%)7tT9RpLWcr`_Sk4a&-Ve0+m?
zUL>+HM|1N?De!2<c<Gj%%^)u*K=>FaHzR>gNT!em_3w%dwK^7RKD(i;3;x;?C-Py1
zXq$1IG;X@qY&_QTME9Nh6`Cwlu0eisJ2zNW5>5rV$B-D+y?J7hNtEu~v=7M6iT#V1
z(*?HP{D1m<CjuCw1;iyvsT^A41nW9O!z`Z%|8VD|(0C}LmrCqP%!MZGy8MVR?~0h}
zCH^oyI^9(*k(l79R>|OB><T>zA@Mczo83M9>ca6y{WP&l<Z8bhmQdX`mr#8Wi|MC+
z#03B_5pQ*v$ga9ckHsC<FX=<vS19T9{<H>3E8bV6cXgt5L|Or9rI1!YS_`BVkXHNX
z1myKRS`k^rj#flglcN=pRo!SsWOX%q5ozU&PQ<D<MlU3*e$fia>svHK(h3&MkhDfc
zCuCiPq7}2MGtruDs4Gcyg6<19bfO-VW@ri+KNer?BgL&`Vtpoc%CLY_6TUQ7Rp<$`
z-RT>Nozh_<ZL(ir=QdhW$HGxKS4wtnQys#PxBmeIWt8W|LG=rG+Ra(pa^g4;t^Fg6
zFW|?RI5TVwB%9mJ?2Ag+BGF(=jwF*XU%xHc7?@zN4M}aK0>-${={{<yTLRrqN8{=8
zha8}(8p(lkxp;6=?>qgCEGrW{LMe^}@7pxZrYac1-Fv<u>`n=S)A3Xle<QiLxD0;&
z`}%i!_kf&;3*t~kgr@|iN)95PBqUN+|4Q(53}0ZyMR0{ee-1a0eze32EC&s7j5D|;
z?G$JB1ZU%*AED|254kd-QNiG7w891V>0(NR+xv3&9ocflTp|P)RzK8l6Cx#kBH?s7
zktncd@b4qbQyfJ+&1gc9c{;4*2rwuDFS`K;KT+VUw*3zJmniIoVK1;_^cPy|IXkT9
zaE_B?hNH#lqI%(*A}lt}`UdA-5E6RC+^$sf-^*&gfC&3aTOn!ahhwI=5p^_Of?E5O
zwG*mM?F4z>r~<dGUWSDv=#{Ex%NImun4xXdLLm146=)=%u723R@b$uTzakgNd1Nn1
z<WrEt40I(-U_BxT=e;Z@xMQMu%{7C-HROIcFwa?}a;%7sA?PEkcT?RlL+c<r!^*zF
zs{H60`2MvBZAM<<#z(-rBc7)C6Bve6B9dlmwV{E$>VHN1mjn9=EMqdupA1+GNd=-S
zK_f*uv+PGIZ_CdG{hsu)=c#fpHHN-|1*`xp*k!Md8G;z-!KMtj0~c93q+86MNWgOz
z7db}WGEo8*i}Abl%;ZY}VBP5JAfL|(BvQip0zVTRTb%$ZAxrD9CJsltxE06%c@vV(
z3IK*v5|;oq_B(=a;dn6epgx^Zm?A5`m=;++Gib*p)e}kSIg>}Ksfqr81cBfQi%3%|
zC(RQ@k+y|;m^3wW4VfNpG}GhV)Xvj(APM54FmGk3@(ik4J6VR>5I(>f1e^w;sj0sS
z@);*{#52Mg+S*=0tDZHhS^xD#;d<NP2O4X}-x@w{B7UVw(?Rj)lq9iswyA+8h&Yq2
z3}{SPD}y!?83WTo9Wd}>BIuHACRvOXMmdA2+rr8+R!5WY4>R9b5tgUM=105b#MxO+
zrbW>$);`y)dc}2P=wT*cfv&?INqc#lT-h?4P#3u`IakDo<=j*%IlSkl<B*$Mhj{xu
z+X=)CD7(%&g#b{yj&HC!x@_v(p3H(i%6RCa0T3>sdJo4seJ|LmY(58N;a-1lS)*Jk
zo*Et}BV=)qp)jtnG~pg5;CDBG@LY-6v?0K!Hw0_OaW}?ynbnYPa)>TUI3wKyEbQHp
zc{SH-)@e7^<3ZL_uA1r!$?rT=+1^Y>XL>OCU;_5XtgXw=Kixs?D9wDB?TX?geCd;y
z64O-&WPry`$mTl6We3Iv*<3^C{XQm|eUs1H4#l8Z^7uM=w%5vL+4I;GeODy+O1Be}
zT;cZf9<{7p&}Q$;f^M|{H7Q^os%9bVW$WtK0jyp3x2AMAr)O736Kl%LVrw7<F_l?@
zS8IE9%-)?)mdkpC=>8ajbEmMV2Y7BU6C0#(&CL5XKN{eT-W{}?dy}%R*B<t`B3hDY
zY-;%MHhLrx%m`EKx6f;^L}{+}AG@^P^LkM(Bo}2*`rgj3_SE_yW3#W_)4R?Lpy{!^
zkwLWypM%M`fm`0LTkHG9gfX(~wJt1<f;s@2W@xNqtN=Gd2)8zImS=1eEEYtB=VcrT
z=+!=x(Z3_f{1GSlr?R?tc~+c8e->leJ$wk=o?HaF6Wot*l9X_c-t9X#@NzQVp>@UV
z4#M-CqYh1}K6={OHIVV4Q)nBO#I<r*DdAth3!UYPoHw1kORg@t`nU|<N`W0s&zhxW
z6lcXO$N99#$2E1+<C$*Oyle9|Ra**ePAqqhjKfV*cRqF=nq%kUB&&-^<_EJ|aweJ0
z;j(2J_rB4TDtXrNvw9CKCPHet&z%@ds`Dhq@yRb$s-Qzm)tL*|7s2!FGYi*x2iJ`6
zaEGRUiiB1BTLrVl=aziyw%SI2lDOw1DR&PCI8M(u6UbSmsrD=%>bKVByc5s3ts(yd
zUz3$8fgiC3c-qBR+j8145S{)JzLQ5FkkV-gQ$myWMI($%RNIm($w}$gcV)}m0*<+)
zdBJF{bIxjarIpdQ(ev#{^`y7xjEL}BH<JhC$R)E{S<XV0V@2k}k?PvWYK>Qxkph#8
zT&hUw4OmAkjKxztCd}*cG{t>~kr%LiLhmWkrV^1fQ_Bk}1yf1x1tIUZp!R|=B4{Wr
z_kNj?F%~%O@|?}LB;9e6%WXv&pnalVhJ^%wyB@NvvHsu9qlgHrm2e*8CxYkJNd&9V
z8Z^=l?pd@Yh*Yp3ML7#J7iEyDt`Cd<P9>eugsNo#WRj<(o~um3n!`nwKS;<QI!nk9
zUg?0@R^cz=nHIzen(5%l3lMud#B&l+M)lx)@{-%|ESnJl)fL(b?`A|T8$wFi6VwtE
zSHawX6-u;NBu%rVF~%-2DGmj<8>5^O6)}XxLN<oE#zC;5+=T2196*qQ4SWQSkQhn2
zU|8j%InLYgQ$dCs1N{=H(~5Wm@o9`~uX9)G9*?b5^}EK{t8J_jn5w2=yS3}|F~O=f
zdm(uOysAMi2qgFf0(Y~B5f|tg3ySA7Y|P;82_C`;#f`UwZ7N18EY9U9p|Fl!j>mlz
zt6o(!v-Ztuq$kIn>+X-AFJIEh6uBWpIDi8a=ZOlg&C`raeh}Z=eTsHhbRQ3zPxbd+
zTZ1{3S%Q~_AbOLaD{x2-5ggn9{4f`i3lrhjxT{rv)ops+B3{q*X9Z!=8vI_t>JT0Q
zWZ1whf7`9f4sY7k{p41k%zYT2N7<8sdmT^R)PJCVVM-==Xij}^I44YPNYqCJG#u#v
zUspGf;*=fgK<ea_URUXcnO2dmTP$KC`hA#kIhCp=YE&*CE+aL8PK48Q6Ei%p-~95X
z;@=gI?TYAeCRP6<lsmv0euT0=WfDi^|4Q3x>2zlF4AG66tyW?WD*AP;?-uXLav@F<
zv&6;V(fNh%V&D6WJTUXnc_yLrorFf-l`2*41b!+-EvQgU<(FHpI4xY6;p*!A8`bU?
z2d)PPkV!qV9f9LB9L5LW<V|PY3Cwm8S{>pS__VW4t1Q0mYQ81^0hiN(*_AK22zc7P
zSX+16Mi4&zN9eKw9sw(<dSc?nP2=`u&q@p+OWKw95{Lf!>_x)Z;UX3Ai;!0O=9`(F
zoeTKO{QK=(&IDRb=D^Y5<NY@rhz<1ywW66+M8YDO%c+mO!QFOcF7;A~gPO?Tj>zT_
zNmc+wGgeh34k$e9wcqer3?clexi|QbL%H~ylnSm)6~_8<MGoz-wdZM<t?yw~0e$Vd
zp?gusK?!t+Z69CbnVLfe3!oXaoZAJTEu8={#QP+mns8xY2pg63{ZuWNz@toY!TA5e
zj&gyas^z9Z$M}f$Ln9=oD=lV-qg$v_CxDU)7FIw9us6uokQF#1LUzYMDFCM>%ZeTt
z{e+2>T=c}G97tatAiUi4#H=_|bx(|b0@@S930*-?jG~11u*ZfMHf!B6mZBfV%St8`
z2Tb^?JIFZ!q~hH@=T)kdInL<<esl);M6wE(B!#laf$&|>sazA%o~Xtj-BFU0yae9Q
z?IEese5IHYJ#iVKIE7VCd*W=AW5%&mb=lpzu(fUtWewf=5aFC`3?GLYNcX&iYJdX2
z<n+$Kk=;EZxyocuZGAsuR7Z*e+^qCVKECM!*2dV1WSp5Br$<)-fyY5e%$E2}L1TMd
zwvq85!fw^a)}P%{x?4q^gko|t{pa83KdSq$ILsJ_Agk)JE_^a4W&GsBQ%kwoUoUNa
z*F+KalcoJdf7z11$VFX}O#?^Q)mVS#RQ}8to>#kjtY0+r%j3!;jHaAquI}&A|5oh9
zN2%=%Y@-v+Y;zHSZBCL79Y*xJ!wAh0NlZLUM@`!l+%VTijqtc+tRQP3+B~b@E#U?5
zIM(kj#usV6ccvWusq`7i8NC{*O+Ef=Ry27gxx6xE%b4rnl_)XSGerh(thh7T|GHMZ
zp==xZ_Y9GtIhqB$Ygk^}wZJ*!E}yMFJOq#Aa}lB6F(RdI-6LHcbT*9c?aw(I=+<}a
z3S&JVG!pv{LEhlS6HV><75w5YGg>y9AOBD@1v=}0+6v#<5!7hzs*C>Y%@!bh0JuO$
zzcGq!4LHJb&KB5O7nwmkSzc&YLm?}Pre@x|Z2W&TBiH+$IHu_0dW@MqTCLN}tUI3Q
zOP(sZdmLtXCWhfn@inZXZ~1>(M9o>|+BV-t%J5Szfs-;6HK7gayVc|%F379;Aol4v
zcC^%Lr#k%|6aXhx4)68XA;#O&xaXX>u~g?B>muKUDoV^y7wbpEHS0eQ4s<iuZr3T-
zMqBHKLZ!yQWG)YNe5@A84(sTPxjx46uWGf#-FD|{^gTBC8akNfS5Js1TKBfmJWRC!
z4oh@nulC;AcUZ0ydBk!XmT~)M;KTk7+eZ3nF^O%##|f3pJc`Lw;ztk1-XPaY*a#8l
zX4~B)z8w*Z=V9}I#6`=rONQr*JmR<W8`6^$P43oh43Nq&{RFY2Q5&A&1G6c3+Ra^S
zSK><3UGF~va)EplMTZ%0BVOlARtOCQLjp-q^w+;h07WUftGeRhS?es1I%e-(wL5)F
zrEzb%moFEo?_OrdsWm#f6p2+k>pi$e`W9JP{4Ao&tZlp2SrRX1t#py(|BnWj$CodU
zX)C`f|JRn=$lhABB#5#g8s)#J*IeiJZ6?ZVia$9{jhCD7)JSI+f#q8BMVtvIi`^1G
zZQaJV<u{+ds&#VI|8qIw{EawMEN97gd7b=s70H`4<ocSf)lNKLeAQQqb6hjcrrEZ*
zr~I$O*nig5<y51~9*87(5nq+n>nG)JyU}cs9ZFzYcQ?74dD-}jv30j@orx$H=^rJd
z#Z*LxliB!?8DwJmO{U$=e|H)kOq}r{Zs+ExuWpWmHo`4^K=PVJ@-E`R!PJ=>bw=I-
zzbEh7%X(R|@Uz3qgOXP_%cd76A{a%7OrkAQ*(yYKqQ&%J@><F}<T#Gf!<p>J(&rTE
zyG^{{aQZ&v4ZO_zHu~1<r-29u>7_Rnhiia+nZxyZVR3$&oX7F(e?a2Cd!##^g$I-8
zE8F0O=O?k2zSONk;XvlGU0B>59xQ!hsk?V6Z~n}d7sztgDsp$wdt)LU<?3bcci>sp
zvvLf%@G^gVFny6Ug|(t@IdBG3X&+rHQh4CW)>5tTE=s+jIGDmWWh;Cb2VoWZ`YL_R
zLf^B<z$NFNO@v+;_=gu~dRex!iExzvF6b|^{{eaX_Bf7`#CtoOyw8Q)&Qi&6Tg6i8
zu<m~JFW(zqW7YT$oj%D7%V5v2YHl?m#r_V)Shd1#G!V-Jrg1J)xay>D#7uZq3?t9V
zPWswQMD#@=sIG3mCf>~L=YQ>{<sio=ddyAVzjsmGkmWT8O2d}A-DP7wni{KR<6RV0
zv~biD+1S@<6a#+IYqax=P7jwvbHBc_Q@dTvDjDwe)LDuK_&=g<@1p0}3&X?9YmHXh
z-05xuEEYcP@{&WTv?UhT&5g&EP28Cxp~nafr@SN^i!^u_gKy6i(u0Y16u0(ad+&|7
zdOZ>Oh!yx*5J%tl{*3z|y;=YB0Xy-Z+`FnmUnpHyn&sw!$j0&Dp#9NQxwbrPi(E)u
z?ggXB%NEJuhMN~<{wf&`_e-nS?((^LlKOFxh2ykoo;=@~Q~M!!&u`;d68rA7xDOg;
zZ{|gvwy8vHoMjaOomT{892H|>6-d@`9L7;)SktLj4VHZpXZe3<u+5rd7f-na$y@Ro
z;1NdnHZs}lU7S^^g@kcuZ^mYC&8RuQ->)`%zeUaYy;j6#)ru(jfEp0HiW-nD;`M@W
zm;3w7(cvym+kG|Z&Z5()X3e?HUEjz3eHQ9eRm-x?-f&Sjty9557DKx;Dm%Q&m~Bpj
z)Ur7J6M}T7yKvZ5HYnQN{PK!twn<HFTjFjyU`Tge<rd;#Sb_XjQ(v=9Zjl;tMR~UH
z4Vk$sf?)-BJDdtOJGRMfbe^l(!@zI@4UAbDg<{<ui+*H7WLry%)SECWBQT`<x@$(s
z*EX#~inXFikArVw-14z)+C8j$w}@KR>=3m*rG#(UZn2;EAvkwtn5`;`;kJqU_$FOJ
zjoY@<ePSP`U%Ix<>Jx9_ih2&8csDUN6AwdMJRLp|^H<^l-e6Wi-!`WpHY&#R?QPmI
z;SS=J2X3<l#Hn62y~TturREp&Z8JX;&1KZ+ZPSK?j=7TU{cZ9oG3JWq91+1}cDdm;
z@tlxscKOFPaY`kwY6Y<%^v}%a9^14p#D-PT@^nc}Gp7b~oA`|wFQc?_P5W{I&Yx?u
zMdW7-FP|ZIbGk+z=k>>L%7;p3@sQXo=Ctb{x1T$7>SmUAs$nkHEs@p_27ZXm2t`y0
zgR|O_%om<uP)#wNWp8erxSQzsti}4@xL$P*Kc7VzTQylM_cO{h$G)I`B8%k>QjTl?
zO&;ZZ)nu~lTP>Z|xVH<bJBgStf_!o8W+Isec|RQ|doNkhIWr-i-5?)6SAV#E%CP4_
z*-fu}9KHR7EdQ}sg@!p}@!Ql2qDUmIAa%=cK2VRO&$uPe9<B9MwRj9(_H$+-x%~10
z9!SAg)6Xy%iY%Cl*7^DyIpnh%(g=ghI4?FjWI$6KkevhN<GCCw#$nZKIavEG6H352
z4zRh#lY^yru;a0(P`1FQts5yUc*SAmEh9S(V^4whM#xzlhx@@ERU`WiJYQIsI9w%V
z-vSK(?Gv{G0`odtq(4issbly_j%GemjeBCIWGNr*LQl?T9-?fc=;$ri$=hOF{FolK
z7w)9tcIvf!S{J(oNV?{!*Hnj6w2t~|-t8B2`{F_UXXDu*G*k$UqxHV}^U+EB>EG+`
zY46T8i%Om5Kn%S_m^Dw<|6l*SfwuIajo~!2PDFn(D!$tQI%q)REO$e2tUTl6==Ebi
z8Y%jWf~l$d7oMZta;=${q@t(<%fFW2Z*aO;9Jnq0QC)7gg&$9aW_!Bi!Nd04kU%y4
z=@Cez2Hm28V2AEi*BkA4scFv>0~_{6F@3bYP9H63`Y46^(3W5Nr2>&*wTJAZq&D|a
zAh5*)^*x;b>}#4lVxhw}KT|L@Z3*!lQfH=E9N3&#b-8)8$YM=z5)L?Q%?kli)0tN^
zh18fO5(f6=oi*?)jA=CRJ)>R{8wQp^mcxdLLjhCRu$3unC&GKyOrgU<2OD?eNI7{v
zj*E@dg>qbOv<Xmf`c9Mq9w%O=Idy8BvC!f4{h?rLw(D~|ht!`7EDmhWmFn_M-ZkyH
zVdBFE-P2GtEqb7^NKJagBf&QPQ%;*sG{@Ekb^ciF)a(s(K<UghZ4r15sVPG&4s6L-
zedB#rvyokSW}(A(O-#YmG-rnAkeV~c;=tylqybRFpBF9xY|%RrR?j7)q2HZ=x(yo*
zsHwP#B#<>KqlE$iTa=-k#hBVP!yAeYnnD`oDG~;bQ@P=0cb1t*BE9>@_``#TTi+E4
zRMVYn0*Tb0zi1%XA?22vbs9uosA<qW3mx|79|cp>9@;b}{{@g)<qnr|@}}GH2MlaD
zt7AN(W=;bvgS5R*a42wN57nJnm}(B<M$7?+O-TumnyzGM3aKp%Bn<4!D`7Y!`|{2K
z2YoSX_%2A6HM5Sz0n=tGce5I&njMU3>qEmSQ*I)epKlnD)t+#`VZFZykb1YC*+o-G
z8_{nh4BUp4J4cPKZX3GNhlV}rp#e1=xkVC4{kTJcz-}lviHvihxd~wYV_?I6c<4?-
z(~mxqK<bB&0)hQd?hYBJaiZzRn1K!Z5#kXw4VhvYq>e;56xfoP`t}-XI+E%`!-l+~
z0X6+tA_=5+yrDoqH!K6+spy4hnOFu{jFyE%frC_T7nz@LSy3CErJNX9`mZ!?INEp)
zX%>&MIB*`7TT;fy5e(!s{$gN*H?MV$N7S_C0?QyZ<r0SiTcX^DGB4s6%@wiL<AB4a
zJP;r?U3o-PNNssS!oa?$HlVDn*Gb8~c%1$W_C*jNHGLVPDWtxPkT9?>0ip-|c$J!L
zOvplqotaTEHLaQBIi%hsSRB}#j53sx&3R>^gXY*Zb>F?vT<_Ti0~=P`#3Sl8B)f%W
zkToOQ!J&YS$X3qBjO#_8l(r5YQ8R6)SO#g@&TuGj+LW7F#*NTim)YkGY}k@(Jffy0
zf3XZwOKxx|uqEmu_#2TebRWLj4?K9-80C&n>*_@$NifiyliGqy0P7Bju$rxELZXp2
zt!Dxh+`g2XLFRQ5ylDC~<AB2+Wduk~e->y8sW&f37}%F3V+2#!(yWngdc7<*>jV;6
z9-9p`5SYoPa__0t6X9@kjDkiwn_L30r8kxPJ@)oNCS=te9z3kMO9ItwS-%M+(w6lH
z4FtC=b)j`{F%z1P7Mj;Abl9I;3Z|w#cX$q|JNH-|*c{~!khOK(BH5fi@t)VrrB9-f
zrgK1mf-|bzyKxGHdoR>2p=}0i2DsTzskoYUMKm6%Uoiy>Hf)aQ-@Gi)d_A(6@!(;r
zmLyP3pWX;0Qj^}%K%hgd8mp56GuSdIn0g6pS$Gav{#rH`2Tq@Qr|C9%(`(%=_4KRg
zD`VCML+hA8B2DB88VJs$a`VZ$i-K5lm!Z{Vp~KDmf`X}O&n2Ei>dqAw2R27t9=?6n
z9@(8+9z1N%BMDT~pC<x|)S!Q8AlM<+lRh|seMa8~BM$M1ntqJ13{o@3I270k<>s2H
zztV3_IpDA<a{{EMD+!uHYD<cQfqhw!hEuXLOCCJvjicPcYUaH{@!1S|q8*co536p`
zQ1u#><4{;+?aEQtH9d?)Lb|J*QwpYL2F~yt()fR2aljkP`Hi^z<3L<;6TM)e!{+>@
zU}~CkgXfT%)5GGx=BW3=o{CdpHO+Zsp~L2Q`1=|TS-E9p-08lZ<qR3vaJUmZqGn5c
z#xh9TVTeP4Em3YuHSdEYTj;(Z>dcw=ur&)Bs-`_J6c(vPuXrTbrZ?6=s4%HZKNOBi
zab5uh*c9Mp`1kXot=;pYn_tiNZhk#1x_h~IV=bN)N9qm4(kee^WYSsvwEiU4T+)py
z)~&Nhb#i&f#Rn7lL`2oQr~Z*xWQWIaPnI>moGhEUlR9{^tXHQDq<Ts58h8#_H{%&t
z9I%t|)bCInMZ7?5EQ2)6CJqG-Qn@&>^NYE0syB#F;xP1B4^zEk0*N%ACukrzrRwU$
z^3$*xp`KwGq;dYjp};}@MkFcY#`%XpA`SH%4FpH4+}(Co*K-5DqVY&$zNTQoVJnx0
zt=09NIV<WOiAEaqEddISSy@ZbU`G3ZB#_4WhysBl{HH!3V$O`wBaAB2IQwWII99}|
z$I*ZptiW?fV;y2~;84fv!=ZVdQ-CCp201~2z!9on7drM5-s`vC6we`zGs5D)p(@LP
zo8{%qmOH1gNW)F=NN~Uz;>f~~_l(+G;5nqhzF=|SP?w0y%MUGKg!+c(kcRq>#Q{U@
z*U&?aOhvzrgn>mUmw~NQFFQ(-_?46LzDc5y#%mFv;F#4XKAy4mYWpoDfizAB1p-H?
zd~dCBsTR;ifxrTk%S7Xnw;Jeounf`|PjM)4kjgb;`5{q^7`sRUX^6j3AaI1rrJ;G1
z@P^s`1)4${<s}jZj`JFEHPg$#XbNeZH%J&bPUQ;l^W(Z0q25tgq|x5vk>G&U$D?11
z#1|2-FM6V|NCW<dM}h-ZpOSUPi`7RGNW&bUK;Q_KD?$65KVKOUNTiXD(Livt>LuYh
zZ?5u;B#=fKqCnsXBlWes78@f8q!G?gAaI0;lPrR0!TJ=wev0Ri#+hMp;84|%!OP2;
zbB0$6i!|IN9tjTk9XZq1jn!8!@0|6Bz{{!Mpz+AE>Kha+Ft5I)e(O2p-7>z7rjQ2P
zM8d#vsvj{HS2Mj;uH=l~m^HigkFgBWRG#2a;7qD(HS>#^i9Ew|NCW+a#eqXr*J}1c
zFJ&DQ=>NfUNJBlx;=rLQ*LBVEa;C3W6c%Z?*LWm2VD$p8m+^`L{2rP@8tN?)29EO{
z^U5RletjU2NMn6O1HsX%Kd0h02zlqh_#R;>kp|mG1Hr+npDSL+3trWXFYp}FScg~~
zI8^2GuJv~z(v0~6p&yWFqybL|P;ktl`XCkd0^FYxNTl&bXdpOR_1Qx`F%4L;&e0Uo
zNE0Ls9A}1@d$CHS{RNgm8s!TP1rBnFn0JNDG3O1>Ar15$ivxx_sNqK(nT$aliv!Cr
z@O7fp+U9}Hzy|A@2gj5m3M6KiR;@tJ!Z{NkR((w=IUsB9vCv_~Pn605vSOc93QUF{
z^5Ef&OepnTWXV$&I;?n(F4H2*&GeyRt?#V9LLpbwS*;mVESjWBbF$<UVnHmK;EYQE
zr{xd2sFkevQXd-DdP^uzC98elfWvx~2U_Gaj?K3_lLz7P8Z0bngnt8poWThL8&*3b
zy-Gk9obupd&9BrK0?4x8*$klaVU1V~M-@IaxCF3nd_@~saU1=3mJHp|hlbPehw`A6
zEccRy4lBN;Juf9|eqiFms+GNZJMsK|pM^X0^cyQIN1$t7$oU)VL&I7lQuPX1@0<q@
zYhIvhP{?|h`p}@(Q4Re(o~m_Z=tIL=oA@GGve*+^r5_ppjEN6t<PWV}kF5HVi4Uv3
zrIu)rbw98fVCAZgyjgVQ&*hsqP**<k7%do9G(y)@lan~nhlaJz2-VSKwJ8T2*857R
zawhA2=YWHH$2CF?5LNHk;DEz=X|+6L#ck4aH>BoM!s9Kn;w}dq)_aA2OhuM^!@!2s
z-cz18k@Y^Y&|$^c6G*}FVC?hm09ew9Qcgfl;)I0`E1nUn0?49ME&;6jjn~5{R0j=w
z86p|mVqk;G2pmd1AzAM!sr-oy-{rx>8M&YoF_9%-v(RD1>i&1VQ=z5!iG>a;_F1hC
z#vD<~Mafy1u+U+}Gg{RrS#!$7hgH84N;k=p-#Or*-ii9$;E&~>j^s&`i4UtrR2QzE
zDQRgQvCsj<7t$l<EV0az;)H;P>zs%%m=<TunUgq(Ru`wjm0Vp;!^%_Y>W1q^;?*5`
zVc5@ex(;Xca@XGLjbJ+a#OUrznIA_lBFW6tB%ZF1+G}ly$}2nOF#ji-VzU&y*13Ax
zEi1TMiyNIj8WZp8*|vVURxTm-t$w@|1EU=;SAX%{x<>X^9w^>f9T~V=x7Dr-_vdA7
z4v@siFt9Rqtg_=-G3m3fW}kCENJ+6dcau*LC2Ge1jhfa-L?Q|Nv~ISGdG>iQ6j?A8
z>EWfVZu&+y!bthSreo%Yjm=^^^}ub|6w6s+cJeR(Wh<^iu0-!&_p_T;9Sz&qJsQ?@
zHyzCS$1g|2w(^;Vn9j1d{2!P!UrwO?IhxO;p@_iyrmP>W+r@ZPe(UxZ!=Xsl?c$nx
zyzl;_b@RUx!+g9gzLwvwDPELAkkuWCDBITn4Szaw@^L;3ys$IB5uJvZ?@C^ecXKsa
zndPRJy8hTJ($L+LxK*mxiw4!fw4Id)QmoGjRuyQQsSgJ0{{b3Uom9C#lni*<)mdA2
zqc#ve{YS<iE|0+`UAMJ2C$~-eGDpU;!x|8ggmd}z9SQ8j3D}V2q}!7OgYbNx=As#C
z0_T(2=0*lEQzPj)<Mox3xj&L8u&hGx7&00QKJ=F~P3JUT&s6B*t4qFS`GpdUW|Nt!
zenxVAG7kU#=l+lE;tHIY3+5z>30Dc4DCxyKO<An0;i=%+1Yc0a1>*S-7`RKpSQISr
zC1|l4H?%zP>4FwGB<+kA_LLUpg%8$HX+e-?BK{;-T;tA0v(0QX)iWZilNl3a@cYFN
zu;pWJr->G|6}W#T3Kg&h1r?IPeWGryKrmU*9A2UhqA0XC@EiQ%b{fgm>5cu9eqX!f
z8xWiZkL?YMg9NQ&zPPhbI2=F}y*18O$N87(=td8U<%`$Kxy%f|hyYLWQp8L;Jdc_4
z9WSAE`F~U5^TYUOzc5bW7qw2G;638^_^UMwC(y;$lW<6&x@^A{0Fh}DSKy9uxoYw@
zVM1_W4I}+AWm3`=i!d@Igm!>`9#}4#Ddt&`qzufrquI!q!vnN?6=kn<4J{k?b4=*m
z!;8cc4nv3r&p-ynPBIMJkVLQWLgx%ZGTWC&I0+{5<~s6fq#m*7e^%_#Ln||AOfT0M
zW`o8!Ygv@I2FpBFB~?sgheNOiXS)$Y<-kxqI+u?Hs~?G3qh!Rhj7E0O?s4pc4E~Dc
zOeC?i4AB`CGz)o|FZL*%v$T|v<!FPYNxlMu{I%?M%JMH}+_Nyo;sTnNoQ<Gl!RF=4
zpv2%VkYmIAF;z6m%d8~|?PaFOSj*|VFoFu?nUM7)v<8|H!@rExdpVaqIRj03l_xxZ
z52GAH6PZ&`b*nQ6SoRs-o`_YMu^bm`A|dBFtEIh0X=2J-C2pPR`><Rt8P>g&^EJI?
zbYZ;<z(;nL73#5;ermCmPA{3KL2$7ca|M8@J+_>w&RS!ZCYh;Ih&LBBuGDEnVh@GT
zHTtehuuuaEWl65{Z!OX!glS_-Zh2LypHsnLnFAH8j)K7p!3`A&T_kZgQJ-e>WCgXA
zS}Y`0rgmKQengLTm(fpvrJtr<Wqc!oe&{L?7y<2qN&=UM)f}%>DRF**j`kop!TV%h
zDrO!n>oiHxZF*D^Ue<0mHwN{lc_Q`ldX6GYMV2)-gOj`{t8(N*6|2NVX?5QL)h`5Y
zmRey)(%zh>r?xDn2?26fa>WANG??Tl{Y!4jqkJB!D32P4>>GzP8K;J_ADdUE;WLUm
z2Qn*(Q%n+MWUl7EhV{nBVBLf1vlZC?b_|#tN|LR(C(xnR9p2|`_bbGtE)wbMxrrVR
zoCRiYa+<Jo5lt!&=?&hc-Wi3K!X28K49xihe!HGi+^s|e+Y;gE649wT)C7y31pNwa
zO>(ff8m+r)(ds_dQ<L5myyjW<ROXn)S`}LMRH*0npk`V1RHuX4S~Xhrb<x{w*-fe2
zqbb6<U|G_4{<nXA1lEqTBEaII5}HPLLw2`C?dgG|er}zAa&t6uhI)_G8@F!^b?|E|
zS>FAaiUoDDz`g9GlSf#DK502v-biskN0jT4hFiiw^&vQ#hFeHBeMq`w$QGW5K0L=0
zR}0HiFKxOclSZQH!GI$o-mthj29xvnn#E?P_oA=iXLQXVD^*)}Y$^xPk;4Vwa7;^e
zxOLaQN!hi)yk&~}MV5P~)#s#YyJYa9H^!j4Y<n_ypU@lg@Q=K!H&)Go!@-t(=#=~I
zuBY~P+4Y-t*$hJ0*_SWtc3Gs`di8m<v%|=q!@NC*QP~<5U)6cpowIlCm!1c8H!g+T
zosr+l1-nLoZt~O=jSTMG0GcVfBZF!)zT7U6BhzyCr{xrkt@Vu1*(A|Lpeh9sK7Rml
zvV}Azv<6o>CKsufR{cMNXLakqno_Z5B6>gXcKiizFy^ZI{eU`nnokeM@COanFmW>C
zSjj&M*;dY7UMMUg?sxO?npk&oKUEof#?^nIirHdrH8JORIMzn!&hmEt&&kC4amxf7
zrL>fo%1vf_+nxxm+XIbbvJkwGRpN4Ie2h;YI8!@&XX<Se`Cr?!5?a`#0rM1i+QnSk
zcG@}+UFVNtd;uOqAg822Q<Ai4UbKu6iGy#k<uvKnA6;xP#A8Vg?s=g=ti5MOqtT4e
z6fLKV*ZG26WcK6v0;l%bzc)XTnY~BDAda{06L!}NGBS~IHY-0HR)X=Cj-!9Dkxk+)
zj*PRrXpPg%i&HF~H*VSYb2r`MbTXk2{)0}$)tkI@PH`D^PB9~0Q<&$`x^s^4d*`My
zFXOaxj(Oa@t>$_6bH0eX=UC!R=Nz}`d*>W?S?9sZI?qYmImsl-!_G;jVG?vsa)U#^
zdlKSy9#E{?_oQ?0vd`%duXC1B>U!PlauEk{^cPs7jC9YEx}<xH&0R0;Jh<4`Zi>5~
zmzzAnoi9rJHg)~(Xa6qp|AHs~e8Sx)+s-&9<L*-mXYxjH+PTdf8u^Lu{RNsd_qsRQ
zU6i?-&Rw9-!v7X`u1<f9H*Owu&vWgPryHDf%`>>c!RBvd0YgUg!wvEdm<l2@@QFF|
z$?4D>ibj{oX#j11jU!@D+3RT#2Z6uA#1HXcR=g>20a(i=gl%6vG(4y8{8dh{VI*#v
zVdO^<PTLKQ>HDUkYnQlusB`J#V4YdM-tz<YJPLCHk2x?{@4#R-PSbctS4)_Yko1`@
ze)LGkTgV;-v9~pPLciZWdGezI;q^W<&QLv&`AB!XHD2Y9?C+yB;;I;?P~$F&+z_wD
z(Cztn^y}gGRd{oUEOsDeZbD*@*;w{&bcqB|h4n(2mFZ*8V$Tg)lTDS$m}3m)n7A{a
z<*Y6FuC(|JlMybcIg5zWj<q+`GU@P!z7*+fJHiJwKCf^bLpaVt-EAfZl$inWarlbI
z_mR!1$`#EWwJnAzF!HF1(noa|Hh+}IGQ+rL???G&gVTYZAsi;;y%>#}LXw3n<_$(K
z#V@&^ViZtE)EU?>2PSmSMR62p(GJSdOkMQK{IMAR2eKTEXW`y*6l;jg(De+9JJ%Qo
ze#k-|v%-p1wH&V&3BM(&F)Sp=5FHfykxPnr*BmL09>rgmWC{a@Z0kXOm;~Zswr*h)
zEpNC}?6(X4k@<8$>DafK%{LvU=6?6NXMpDGGPpFeWbV^#^Cgc79+DXGJR(~HMrE7_
zWIZ&vjd_-l?MIKs=yNp8>xH9tO40w}roJ1I&PZ55vsge=U;yoXuxaw;z}?wFVqx2S
zNsISVtU;3c5h=l{GbvNCM)*dyqrhdMy|LQ}&)^P)ui~9n^o<|jL!;B>gxkr@uny(k
zft^-p=4yvTBER|sQ+8Gxc*^~Y!*Hwg(cy}v8_gLv(0BGo)k**)AHL)xi*$5B7EqqU
zGh2tS^P8;i#X*2QV)UjFiKp}rEG`eJ6=JjtxPnz>ebLbQG3lWj2Q=x;z}4xfMgGjZ
zsAUT^X>lucj+b98^2yaXDjBGoiCEfFiQ^?glc`Gn-cI)BGQ|txNcfN|mPp0BYdl*#
zZ(s0N{$7b?pVPYSi=mRq(9%aGdxo_#l(k}Ev=TTKb?NEpqGUB#8&jE0rVY$-p=>eD
z^0XuvYY_}N!8G!T7Rf}}Qc^8oQ(bD2NHu|pzNiw_l^>^NJD4E01?|#B<++(^;p?4A
zlpI&eQzO#>w$qiC9&OG#N~W(`+Q=*hYc$j1QPT)!TQ;!u@JlstmU&;j&Ac!f(oLH9
zZZLVFBTIr?B?7~sB{wZnJmSZZA(-YlaaVrelXqRt2X&>IcWRJ9QmWgBrMg{Lsy9P1
z*}iv|DI4k;V0GGCCQs^_+VQbqOTw`Jgp5BV%DeI&1%1mw`fEQ+0{6W{c#|QN_j~|=
zo}uo8N@tURC-zJY9<_WCVzSkkq&XafKhVlab~S=(09QSrc3T}#mn8pcW$=fG8;TS&
zt#nsH0qzXFxpWPccV3_+a4$os`~VDLthCa*CZ~Wk_4HCmnPb32FLIL>mz4l>n3vM9
zRNM@N0KUrr_7^iCh-L(KD0FZ&+=gKk7RnIq52J6$yIy5zKFhQ%ZZkuw25KQsUW5TL
z&y3{r8D!d79fwtvTVC5ivcG&rb`UjH5?!Ol0-1=Kk)-t%g#W6JFRia2jyH7<#o7m8
zvaY1FU0fFi){^y0x)x_xJ9b;B>DI$R^4vC=wA6M7)j-v#ie^Bp{HCK85G_wO38E1O
znnR6v*qEO|P9_b9MP~>kpHAG9=68UQ_ChM8Xe|MRv>Sg3w^1e5v~yTn-(i~^33OOH
zm8LW0ePzfLse17uOO=7ya)$ER${R8+XDJ;onqz?R{jbu5Yj<}Pg7_h|b9t8<LRiZX
zs#g~wkXQzCa4iu+`J-Tu;>s=nF>s{zC~tj32;Za#<&AC#;X$g#?yfEbp&ajddRh6E
zS1r~Lo}`{DTCO1ZGU<-r>@dSGQY)7?+93pm@St2E00CkcNX;a=#-NiTKD=*@w|7?P
z{Ph1I!${KDLm`WOJv;SYu{RZU(9-*XJ#o&(p>9)*C(2>>qmYFNcgmh5KgO-|q@T(g
ziWDE*Ozu@VTAdVww7;}WCpj#xv)zLhf&MMUf=2NMhx2jIA6f7%j>hEL>gHrx@d^js
zvZ^)HXaHXnP`$fx1lczIQoOX`pbwMXMv3F|`Wo0%D{^#Q!>QarYNNsNj{pv;lny7A
zTr>^rMQ;k*ytANGsc0puiT-Y1x_gM8d|>x*XVN@k*N+83NRL^?|DOO2R}SvdGz5&Y
z?yJJVXV8>yt)vH^MISsgUYbK!nuH(>&1|HxItQ|mRU)0tS%aG1tu$vVTA?9;R1P2-
zwgG_kQgy2JTxfmwDO||j*i?WGL*27KJXczidM3cv?Lk37Wrz8@W?<kLe<KAbd&vQS
zM;Sn+8xeqb`l9HxdiH+$`WaZr;!nQR<F4a8(oUd#={8W#geGnyEH7q0w$8zG^(-yk
z_w%hM=(AdQmKW2&#65516DQV+p4?lxfy-u0*sP%%NYR5?k26*1EpiTfiz>aTyEJL%
zz4WU}gUnHn>HxKBW^%kd&3H#n8)-c^2nxxLw&_BkX?@#{ahBwfM{<|ob<g0<RA~PV
zDt~-pxBmAP@PvMZn=I{h8YkIQv}P{iG5s`^6;k~y&QlL(HkZJju-9b`@x+YqZ^5pj
zkX@?~>k<9Gl=|MR6xdGYtoS^O;`D-hiizV*xz{Zf_s{yUKsBQUdx|%-_-3#CeIX4&
z4Yh<=ZM>kcvcxT#U$d9ygCo-q6JTV}JaVw1ZoYC^fU6yjrNUY_^l1wrYH@h7*-x;d
zLHOu**a}y3jfLMxDw>mrd@yH?6I=@VsG}#B**M$yDV>egJHdL|8YWj4m6!*?Sw2Y|
zV+y!V-;1MHoD%CYjl*)!EQ$EYiM64BY8TZEN1XDM{ffJ@gv#nU3emfiRwYE2N1RQi
zc%k{@<-Pgre%m_s7i3fYV$WX1Z+LBv;y0lBXHA#ZguYBf7k*9eoPp87)e{9lK1_iV
zC+xh?`NsbNjtBPtAytDgPYv;}8dj%8^ZfPhn~y;)KaA9$+Rs?Ot;K5C{Z`fr51dN#
z6?-N>zZQhMA9=Z}{0AMQ{5`);sS9}8wOVa=qBs;j`;P<y=*MF1th3YZoZ2~^*)KUr
zqf&V@L~ZBSZxTR3A>81ZFAjC`+~>ZAdlT{V{OK^w?e*Ogq4wy@;uTx@XEMorniHHe
z`ox}?XJWJpBZ40I$Bh5=7Zxz_U)NA83YmTIqdhT<r5|kb$j>+UW3ice&JZ9eaZghK
z&@S}mU*J`g`fTL665C>;F)G#y!{n03F4@un&bN>)7_|~|gs-+)x+RImdT9lG{WvEK
z=b3+^P`igi5w<wAZUqp62GCrpclg;2HH<g1+^=yMXHm{2xRs3sWP5k-{rd0tHD3I{
zC`c)>Rxz{h1w=e~b8Jiei76jpIGK-KPUd|w0%QAj#b#);O*cLr%4TY@2}jNoHk8cL
zA{%qE2T^)M>5zWh(li>%ra?Br#;D8^a9aM;Ae1@TS=II_3D4yTMbtMMFs8QIKrt5;
zEz`aSCi1*y5D?KY2#Tp21jJk#WU66hDb?(O0UGAOAeWliYSgLjYPvxo4eg+yOZ~=x
z4B~~_;8H<Qqugp%!9fGL8hHeVH679hGe*Zv$OvB(5W@;{eEt)JLHRb!%9ZdAY7awL
z=hi7qm^OyDiZBd1W0u@;+Ms|}Eev$o48l-u!zN7qBMdig+68uqIcgFHDNour7}UJx
z1S@RXEnp4uaY8;sH2SQR{tT0K<)DPDeHI=haRF8Kx~S>{tA70$vW?+VQ4tB21&$dd
zWU#17Llk!c@nb1Wqgh2-&1#?Y%44TKTFzh&E&^tMm!I;vPtrJ}yp}6b4IQn+bM#>4
z*<)y9d$&&+nXt5QLOy;;U*yC2tAa_Zsdn|6Y5+scG453}#{07_2PuWteRQevFee#a
z7u}j9ML#GN_Oalv0t|JKF;z(qqBJ2e>BU-mDnI3O#h@Kz@GJvhXau<)4po2+tpK0Z
z9Ts2{>&~&z@e4q3<)6wLm48gIe;V2jbB_h;Z|5Bjaf38D5X#U4O=GdbMfckuD0W`M
z-`FrRng%%b1Dcw`ctZVXhE{xOjT{~uy=fId(TGmXm#W}c;NV=SJ1{&;#Rg)M9dK_7
z;%vfgVIdE|j>Agn2o!vUyWRUR&m#Y`=5VC{)`1=g02mq}ZA3s7RHXOHIq5qrrnc6G
zT9T>McYssiAF5&(NUxVill~F)nPgP=eR+4IvK^JAk@SxK(NsT4EpME9@92%Y(*~II
zZTb#Nd|&N*NyGP>Az@wih&HRZ4iWyY7JlA%hq-0jzYBLKN~hB8Qj1d-nHg^Ft-)z*
zsU6A)*_INbTlDHGlo+PgNqDPf2_TWw_0{RN^k&grmZvbwn+&by?_lS@x~A`73ZBKc
zDo1ZpuFH8jT(_ddZq<#!&Y5)`x4%hjm&tp0rN}0&)#BqV9bTuwN0@50muahVA2+q1
z9d7&7$YR-BwW{{}wl<;FbAZcqBo6m<Zr>$<Xs$07tsj0`@BY7A$Nn4JeiWsFlQaI>
zUpou=Pj!`lc+96*(G#9>Tr`HYo9Fz1mA$0J8=_9^PK_O}xWeMpyi)+_RT(Y#YJ{=Y
zj|A!z@Y{wu3V3;k^e^s^_SF~~aAno_ZNW9bS%&K{DShUJ>*fXAt~V<7_k9wuA(4Df
z!wM1tGw%wx)=9f7bkc9#7n<&~$s38nSmbO8jDh-gz(XCaTV%|OAyTb89|H`zO)liA
zyPPFEc0VNKI*j@u%lT{>MI>N`DTd3rs8g0wDQ_ahy->b?O~g2f1+0|oz2dR|=4bqy
z+=~6odi1mMWZf|9r~hM~V5tx*e{!TOVrv7wQy9%=p7maCe`>#&O~0Hrl(~pZ`)FKD
zVWm&yT;}apE54%qUXE>5b3WtG1H}<aQ~FFw2>=0hQ-BlfX`a&R*!EuMEW77mr?a)N
z-oOW5eP>6P4Z{Ck6xBHQp9AV7c-qxnX?Nm0(mnH!FkXO<kdS^e2a-(E>E->RBa9$!
zytOQ6nO{FzY-7MSTUk8xIqf81-CNpArBVq!-#@%hAJ|P|FNY6=+MRDNKarVyg*Kry
zq7Q6jB6}=;HH?sapd`j&NahcWe`6zye8$uo^T#t8^S}RvPQ-i80K4qV`u-J@<Kaw>
zHe%?MWa7o1b-Q}C0_UgqUt}0Dja(F9mqy+GgnY_3PeT^3F7JMsfAHhVvHuU**!LsX
zNf`CQrSl?xoQ}L2-j06%|Hr?Bmse!D5hdm#V1prDrU40Aaw>2&beIMzg<(EnnvnaD
zom?;*^_%oiWx`mn@PrPp5y?187YjlSM}C1Ap@A1-mbJz{vgVlK-VaPY95N0pKeSo2
zBB6Z~1p&_98~9PQ!fyo64dc7`c8ckW(D9gm2Q5<3LA1(axxAU(*R?+Low()?;^s19
z#^_+kAKolwL>q0w0%pDN$GMD+{WmL8-qQ#U+9a~?=e*CI%^=H$4}(VMnXr_GVl;#S
zHDk<-?h|IugnvUq7Z8_^2n-Ib$I*Uz{u~am&k+IZCx?9TJ*ZNYBZWDn0U(?lc!2Oc
zMgr@eKY;Lf3BFmp2;a`YiwRk6j;luJHJlTghzYB`(RG)%J52P_F|Bmtzgp?;LalV)
z^fr}mdh70fp_Oi;w=gGq3-dv5?jEU5I&&D#wepRkPpy2n5!1`}rF9@P?;^eJWkU3p
z=QPsWKBuYP{5@!HpHJybE8okTubEG8fA~(nwDP?sTBjpxn6gMK;W$hKy@Y@Ds=C&F
z5Nqud)+CBzt%TF)U2iLWq?+sSk?PgctS3L!y4<v0NZ{!uWLR&J3NxEdLYwQ_dYh>|
z<nOy$8AlYmL^C77E3J$-nCjJn?VHGtLd}e=ZdOz>hKc4<rI_h$tKVppYMqMhso1E{
z%*fm~y^LO{cXG7(*F<lBe2P-NmKvL{+%(TteC?*2(Z`A2w)&FBM5~%(fA{>k-cjy5
z#h%`g{5AA6&yPRfh~Dic&gl7i8Gn1k*E;4nTtn7ukalh(rrAd9j6WHnTAQmQmXCVJ
zR_A$0Y4o9&Qo2uQr4*}H%>~OTndfSzq^Ya7le~rrUT7WfdSdOm(z~+j$+e{32GqMH
z3!M6T^C@+7&G{6rCNCt`%Sot9LcL`xwOGAn+vlrw#;a6o2kqZsrhQWB|0g90)2v?h
zUx>fZZJ!({RY<coG{}04-u62X1^fg1S{iWKKd&d=_QGX%^<h%{aXI$hEcJZeh1->&
zpf|}U>&4W2$BZ~n{F}S*TxeCFrtdLx;xQOB+Y=t6XZ!V*5c|HjAj}I$f0F%j25!Rm
zbas>HJixA@UPW`_dx6K76`k+=yI;t#q~Y&2|M&=hX(;jRr7(7G3pf`7Hak`GmO}AB
zivAMgaP)y-WGYXYSwAqkaT>Y|y%9g=WtX<a(_4|RkBH7YjXAeOb^%2ARrI(6yw~}=
zzfoT`_)j)awS~j4&dBH?7-5QjnimKEz~~^+Yh^-Prc+3q_6?F&b?7zmA?2|n(H}^O
ziUDD>G>YM&N`L@FfTV*OCIkZ^A&H6BGsCVR?-~S2P$7z%B6r33gb|~QN_|x@8fep-
ze3#jUVMf`vbB{Bn6fen~k8`Re7~Ns`RgB!mx=U`3@(nF{P#X6+X4gV34XVEqjQE#_
z&n{I(YQYrgY_B8(Dadz9NQ+{)d&S6i0b3JczF&kVG3~V|0@*7<Zz9?!_MwGPXAhsx
z(6ZF$wP)JwS@cQfB}eA`0P9#EW$CC75b4g@PbZ4Ss@HjpON(EgRdYD=^pX}DzIIkV
zC$l?0!kVdN?b;JOBfehZ;^@ysXdme%XhpBO2=DDzcoE)d$}YnDOcs~ml^)C&As+h)
zxd^dvzr6^t+-1B3v2a$s46)e$y8yBB?7R%~2lg&9f+#P@3o!=)z7TVmT%@$KZRU$m
ztG(Y#Q0IH27vawKD=)!a>~dX#e7*6cm%YCvA)%g|7>0D`y76(Ud&*wRV2y-}XKn@5
zJdalFQk=`*YUGssb1A%GP$Hr$xgtYG=ZBYgGmkIdzJTz%QEa`2k1-saJ@NqYpd!cY
zq6)kbrsSN>x*b$gMf*BCAk7Z2Er6x->ErAVaTy%6G<txcS+LdA6L3$A!Xfr0;#q-O
zwjl=sQW`#iG4DhE4KU^dc?ZK3b|h!wu@|rklEJ&IDPb52Py|skj631(n>^rv%t3)o
z1^gO@kkG<LW^{xJG}9JAaiz%8KLixl5c1wdRGi3#1%Afil1#*=PXY?u6%yypUhv4@
z>DS1Q+!ZA9nIW)t0W(u9Afh9~11>-zrzDsW(0uoVloP_>F+EVszQhFXQW6w!4wRq+
z0jf+l(5T?uXpr^%gn^?%&e>~JdGHV%RUW$mN0mowpio7eKBFT7^(jAnP+WsgSHxR}
z=fwf60+yP(fCXD!C}2|r*bunV1r8KiMnlXBWE#O%pjDIyyxg{|J$dX%9(o1^cS<b;
zUi8ckIZYV`UDQKFx7-En$wGi_8NJtp2&WZD%zoZSU_k|7n8JcS6PI{!>oEyBXr--6
zRN0HcQRM+wP}CRRV=+r9XtNp=V;B^wh#70x-;|Lwk8%zP-W|xp{OpY+-hat_iz$Jm
zGCRX?>67f3S-V^or0OcdcH58&=5FL(P~h$`0mfsnc;mmYcwib-5gr#954ilmmd-gI
zaQRJu%Wnc)eh<L%JyK9S5tSAeP&j#k0*cK_SimpXHYg&)!UDosg4VHJfdNxs2_K+q
zSp?Mq1_Z8UzSsZ-v;Y?brHGxdh+;Jaizp&eLL&l?vdUc#6jA!&!6FI=J5WTx&DU~V
zM_5Q1)DRX@MVf$xln!~okiydr7!uBgU5*?G3khkxF2}`#g_L3FU?F9kIcP`<4k=@7
zfI`Z^Y`~C!#;0;<HCRaLYzGYqw@Xuweg+Deg*Su6%p4~{G1X21ET)P;28*dei~(ax
zM><$c6(kHCQ@CdXV*+j;Zu)XVV&*}!U_o=wZ&1)I>=i6%?k5flnuXy31<fK;fr1uM
zpkPr82Y5)-b#NnC*dlrn5bW9uy(6_{{vHnCv88%40#qSuJour(&D<%zopQ01yDf)q
zr)(@)HcynyJr{1>vc~VP>vbB<y@dz1SzB=Qv%Rte8hB8YJrpuvyr(sALkO{R;0alE
z^<BhR$=Bl5h?RU3&3rB16H~?4>IG(%gl*nnR!P|Am0MMW?Oxba$=K=zN|lVQ-Y-<e
z*z(;pm6YvXPE$$Q?#(SVlx<$5Qc2nFeHhi0tzL*xN!jkb233@8N2jmkY&krAC1=Yq
z%_})ujxb)u*?NfaO47FDU{{f92(YVYK?ApLK*DPB9N5%%#d;-Q+p4{(S+zGctM;a5
z)!x*2mvt4P1~t^wuc4XxH8fM}<$9Hr8Z<QX0(yjbfjQmOeL+AKtA=3xing5y?iu#}
ziMA3{hWNBX^3kn}nCXakAmLK%Xz?H8k#!iH2phWpRfoTdFoWaX0Ne@KVlDzUC>;_w
z7;kTGWaStgm-s$%`6zf`%$V9ZrCsWFpI!O&=-)gg$F*+wL&PAKk(J43Ok76hWB%_*
z(RMKkfL{W^e1G=u%p{(AHnRVw5hHs8pl?SeHj!bKBjJBCql4p^gmc8Rm*sj}Qlle7
z$fvwl%=swmQDsIkCPk!={O_$;V*HbTy7&VX`-Qi?E6sx$V`e_7p0yTVMH;<M*{`bT
z`!bBi_2xmwFR|~6YY?wA2fZJddN{n=TG$TBa?SaW!AY()1LBCMea-X1#(C;%&4WA=
zYbc}MG9cUix)et8pPrSq3qd#A-<Lb_S6VT(4jr5M$)hA+QFb={N3OMcc2=4HoO-EQ
zc8TGN_VFCY{Ac1UJfHt`?&Oaw-N<-CcH(=kdRYXtpw%TK!^RDU{Nc?~M#gvFI_P;~
z@c$h&G7U7I@ywgH*33WGE+x%(;+j8*dstq^qpo)yg73!Exh~nQE0lR1?Bu%SE=AM0
z9>GPd2<wGE^vLWek@<J;NL{Qn-W5u#5NZqZ!a~UVoh~dye#29}7)cK`uw_=`62acN
z(qW><Bt19sed02sdq<-{Oo^C9bo7bFg9ZNpd8PUDCn_dbGr+Mq#c}@C?*nI6Wpp*V
zWAS53k_0cwSlGnTsQZ)ue?^AFBIHIv?D+)Aw?*&xEqaH#GjbQS`gYHe-IS*8%FS}B
z%5+VaVvc&pBra~cEG2uN)|Z;P{!5meVF<Hz65}u=^Nl|`YC8Z1EI}o>UzJ6F@XeW4
z_05@13BHnG^Day$y9!fn??{}@3(@*}@J_ho@?@^6>nk0!sZ;MmF5UlFF@sdzOF2Lr
z7Zxun85XB8<QGm3P;n*mUi>bq?+ZMAZ|fpSiCzUcSVN+k%2it-<*OpIsQ0D)G&NQp
zaB<`auL*JEmfaEaKo8YsYIZ8e#$}BS1n#K>#Wjo#;PaEg^9vRmz{#oLrK=OG;rEP@
z-F%GPnU#)7-1ovWl3QXlKH_~or3W)FBr1vM-W91F_QqS}oX_8U#^a4t{<Sv2@WPU?
z191bY446GOmxN_A6(lO3Zq}%KcE;_^o@_Yo8*x`CEjBt&g0U76U7eP4T{8)4tQ!k$
z>O6JrsT#(a<s+AcoST#;qEW28I7_qKqZ-<1JwmKSZWur<Ue(*B+VHyLab<xXo}k;6
zV}F8p8K{9*<!?_i(-g9!Xi;K9-ZG4Y?*Iy;kR%FWPd~Bt>ODunh!!mV=ZW^Up<b0A
zrFxzNVX9{avB!BsKIE%sYIWVUR%fRnR|$YY*AsI+uu|y`fUa}d-~(p(PAId)66irG
zs}*4vEwLbK5F@Xh?zX;B=d2RNi8ZHDY~6~7_$^0=(_EbjRjQGtQiZa1R49?j7v2X`
zA2aWr7#%!+$DvDjpH}cSGepsS?5z7Vc=Fh{WR@<)Z_SYK_20`K)`V-ejDl3E{5mme
zCW&J*XzVMq%~=Ehy1lZqUsAp%-YB^4*-fH%>m{*|ze*YFYR{MoX;jXbc~-`3>9u9w
z$fx|h8MeKw<>5@qd9y&;WNjX8RBapOGjU@UEuljyMRRb^)obym+Q9nYTIMICcp%qz
z;`6c5ks7!FO&WR2ow(#cS67g86$m2_h>`!DQ8)k;wdK}7tjQhN1{w;wKOvtIYNJ&Q
z8yEG5tR=aGQY*ED-jbo-oQ#?;BCAlxr=pftk5#zePQ~3=uva1L>i5oWl#FsEH@9Ew
z;CZfM)JDMOx$M|sML`~}<v2T9j&+EkD5JvrI%HoAQ@LsU0MmTm%dGMJ+$_)4_D|MK
zcf3W)M!UKpkS(eb+TB-97FZdbZ}6(j!TF}HN>~UZS0(VG3HbeYrU9t?yYBgV=W_>0
ze&EOtsH4{KxzXle_=V>a>yAH;Lw`HMxN+dXC+OAwXL+!D+c#VH9wPQ8N2SBHZm%8b
z)$+J3{hxM-)aGcJXw?c)u>o49df!XcJl~ma5Q{4-n8$(tl5v;(t=wM~ja0SMnhlV=
zSJZ4x@Q=rN`^_eZgwfo<+<;x`67|rx_0Y%KD;-zb4v#c7nj~7}yU<p<yU=p|5vsX(
z-HgT#ksq)3p?e9RwOx`}QRouukv~SpJsOW|s(0Efbazu|3!&VcSG#O3>+mm(#Hyqk
zO+EIUP_p17gm}u|^YdWV-t%B34mD9e=jXme`fz_gk;9$Qkva?7+)t>Vt>h|7md|=A
zRaiQwd~9o8H!QI4&#=2HNl-SJA1d`=Q_-3xK{K!E1#wgI6U5%Ys5^$Wb$E1d!IqY%
z>UdWDk}+Ei9|gL-G#;gBdl}rElj3~w@i}P(E(dlvrH~r*`9W@kOn7%erNORg^FrAD
zcXlDB$>06WQ%;WMCVgm{9!`+^hL5G{aVnQ9AgxS~&rS2=G+_slZ5GFY9d#$Ae^ejc
zNlx|(E3HSxK!55eeCV;(_0ivxN%kIf&0R*0b4TfKxuf7J&x_0xqOn(R`f%*C+m%MV
zbIpHNX^b0=82V$NU31^z%8pHfn0+1Dj{Zbmc-ZVxwE3Nc%VV1SPU=I4kbXi~KL6jV
z2}h$_;kI74<zm?6LMxp2>-D=MsyAfx>&Qfo%d^hNk$OvcKsrukDW|;I%a$*l%BkKD
z<f}^i_n3xQ0nl8ig|3}#UC+oeYs9~jr)Ebnd&g1iI9<DX_{u~xItdQA;^0Ox`5#v`
zv2~ig0o@pQ+Ra>PciK1?KJP!mcmY1*giPt%ke;MVX1?ecTM#GSVi^+V*N-GG7>brF
zXlBlIS}@XmbXVOgSwi>o#rBbSXi;5}k#qg>-ATQl@!!a@iZTyT8iZv&wBxi`RK7=_
ze#>8Q_E42LNau^H{_l#sOt1Yv|9bnJK72<`n3vdzD_nY28N?MCg?W<Tu(F0XWuDII
z4?&fel-?LkIJs{n#<R(a{)kw&hOTc7(Kv{Lf<7X48Wi?zQ1Bnd$Qo9xBO-ht<9Sx)
zjPBxUv0ZF$*@)crbb(8E@W;bXWRqQHCo$`4=g9jKSCj#3Py{8x=q;|EtVxMU5oD-O
zbugRx_AB}y`tOS9imY!Q?dRa`#dAL)H%O8^w6{2%#8e=>VJ8~j`hjM%U**!WH~M(?
z{A;AC^|?O`P}jggE=l6BMsT>^t5Yg>aarc2HJq`3ZZRRj8qcVC5ainv`u_-79u-rV
zr$wA##9Pl6SB*HR=xb9uVA%hOeCMq{Zhz>b8Ml>XXDj265T-YKuW%L}8;OVc<DNK2
zB;S-FCQhDFq21BHeCtkR3<CF|-m=NUY7<nLk@knk8hq`Za3lu}tDW<0SK#KW%e~3H
z%F{HM*%^ML&(24f_(6$pvT3<K1!IkHT2wofmxxI#iL><wpnec@<Cq}Mo)pVTaTU}U
z?pGG#7MM_wTl&=92FV7CyL!ubO+yFo?D_GU1`lgYLjZ3;kiR1?w-{A#Ig04-6#)^L
zP#2>Cl`2BqZJfj_T*WEo9mijqZ%nM<PGf>A#DaO#le(kzH#!|5>@}5bgqNFI+!5+%
zcH{&OX|K}Cy=FbxC;tZ3WcHZDSQnG2oq5f)EQ6gf+%o{q8Zf-t)QkaNp#1$&=9|J8
zE`ji8GrW0PB;Q!XG{#J!EY7o4I~f_kWl*?VHk%m3<xsc<-k!l-35BDv3!9rK0l<xG
zxa!FmtpcEpI9g>c$qm>Q?lHAXOecP0%q>)V4=h77hI@ms=rTO+>37R#niv_QzC)S(
zwkZ-LCYyBomyDH{BoxA>sUe@c{mqK1uABIq-hy#5<6;!(T+7o-o{U*TR^jBE3Khww
znYu}!MS&*BgL_<U%Iu<qYAzcBkuHH_EnCC7ep}|7EF$MqJHebWwF3@Ux>OElt&<}%
zq;)W!Sd+#+2=}@R6HcpcgxF_P&{!&L?ygxPKno(?o_|rbZB<<cw2aYgT(FTV8#{Z-
zFSt@RZ<vg55~s8zi-hgRbgEniG=Ur~arK6A*0ek+Km1;l<ASEh6_vf^y_G?MmUQ?m
zZ{CEJcGsa5XBjS0P*o*CH1Foc0|E4><_79tmnR(omkS2ao>xWs?ME+o_m-E9*jZ+O
zGK@Nmf%}Kril_8*yrg{9j$z%z3FVPJB`y~i3$FabrKoZtGOGLor~1eU+S~i&#wNvW
z>>~GdlUI1s$@pIAlTAg<N}O*wFZ0R1n}3bYrQa_(e-Fs1qDqORj!+KTFE)6n_RPBA
z?ZqoGrOv20spFhQ#^#BE%dmL%5GHxn4wZu2(`78k8|tR+75|%mRubQ*CMx2GNr{Yb
zr?dl!AC$#lsqYQpK=wzqwvp(`0Lj-Q+;%-;E?i`@^MbfRNoU>3?IxKL60ftTnKei^
z2@3c(DOP_y!bPeD1d*CKaqa23vsiy3)P;;<UlAj8SecmVK@~gQ!`SJbipZBC)r-CY
zQZS9#VOmV6bgMW>X0Jp1+M}(lux^n@rZ7uaVJE9QL%nIPkp-q}WDU;H)y3fpRr{&|
z1Tsciu~-*G=&Zvj1W2<`6{Gn8G-ZJ*hS4<Wez=gC^HAHIe_59_v*qCvz{VV~am4`Y
zz?Iz=;u(pv;d<h|$}<8tpl6Wt0auAzkQb<Y^jC&khy>sWj*(+05J?%VH@7(HS(+Bj
zN%E!ZQ;|YuqhcwgP*v-%khc&SD3mKrR?JHV<wbw_y@kl3T9J8%n3EjJiT=ud3sFF{
zqU9c9c3yQ|gni^w!YGPKkp#Ow1(4ijW-1<N35AhakRi+|_3H1Wv=9W!iOhn;oDcvf
zuuYm4p#mU)HfCCY4S1e_ZN{`XTc}24N*8Nn3$-o%eV!KL4Zw*?>0(CSAbK&{L28lS
z0sJUTOw7(ZR4@8lQ!T^}9MV;mEN16#s5Q&XObBCNsOq-{O^S6_Mtt9beMa<$9*+L5
z%z@Nob(5`IHyuY{v#QAsRr9QUy#q%Sdvyj?QF`mRDxyPp0_a?+h&n8X0h7I!*g9oN
zvl10a;zpOcx)K#ZeA0!`sTf5dpFw;`D@GB-7i~WD>Nye40>p~6A`(G-1wlv)6%oWe
z2tryxh#($85YjAG1o4+HgfhJpAzWyVvFY4m@23<;`@M=omy^vW4ro5<B@kxwiL=s=
z8|r0Vf%siZ7etlaivVm`)KF&kA{-aw4AQh)1ToTPMK>W9Ax%KcNOM&Y1Z3Bxi%v54
zaCP0|C{&nvhvqiO<kz>tbrX7TsLZ@>H{jJ6&pm^xNSWS5kEm#Y$AcI{H{r^R!PDNe
zIPEHCM&ap|MS4adRw2OjtRaK>5tMNd#UaG}Msk%>u^26Gjv%V;0*g%5BiL^1QCeuG
z=n+8CS}G9AYy6;cE$@3qf)%*99{)IxuqYOcAqws?TbY8#puDGNm1eq~XfkjxjmXA7
z0gb<xCZF>Lhw$*4TZUU4&TALG4}ajW!R}6=X<L%u0NNu_yvyT&-sPD_(f(bYAc_v(
z<x!^Z4$^tgVRT(jNWB24r!@~97v^SK(@40+s+YqA9vOh_uUF5Sak4acrCjAgOArga
zdfAMH(<^BdjC)OQoyVNK(R=ACF@^eXY8+Q=W}HOoY;u}K(5Wf9*Vr+n?ZI@vpG8;X
zUy-(P9;JMSGS>(dnq`N8Aw1BKQ<?@)`D6Pmy29a_9jZ_{6V`U76A7M~YVl4bpviS!
z)qkMEU+J>5pJB|HSn1lQUTq>!`WljEb~&L;-%rX|=6p>y1USy8sWQ#Jr^!S92G!@&
zC*^P-a2kWjf=?Hz<QhxIS*OycP8hh&T7gqw{L<3eshO?<@b>Jpry@J@>k~#`%DUn_
zyf{E2&S&L@oNM&zz>DTc+wdS8Bhk7)gDQ9);id{uy43wWo>8|F)*QbDQwI5`^30ER
z47J?$S#x&{mGi|hM*LElQz*AOk{cpxa?KXUOC0rXJ!$TEm}?x0^$rikw$FKGQ=9K_
z_Bx|qjLz74;ie>cxj$ihssiOL>k9OWH@9)VYPwWNB7~mlIQz>f$ScU``aKhQ&+#fq
zk|hl}g6>#3Sm%MZb`UyKKO#r*@}i3K%)8_N9B6UG7DXO#G283X_)Zmv9YtlsVieaY
z&Z>ipRXV8s4K4<p@)@SNZ)c2b{9cV{Mzp2F@V?StZnBOM(b=K>Y*xp}9*Hs6-89=B
zPieLH84q_`4>pM_`%7FkBQ#Mnzc-0SIu(yx6`kL8`Vbk&D9p1hE-Qy!86{tl;u4xU
z>`JEdgfefWa%dclUMESOzXVS>h?;AgZiDg#m$NfO_iF^}46>2tmG&9x0Trx9G<K<J
zmG$*NG#n>!%H8}qkAacFvUzAgZJg<40XhMV)6i6Xo#M4Xyl1WKTIyndYIhhU1FEUD
z_bEM|v|AQ7)kNwLG-3Cxv9H80(aaj~Ig=3}YHc2za&Ocr=Z__o%^a>!_+Hn0X36QS
zwc!^;v|bMGF~2cnzCN|D#e6SI1v7sIxfDQWG>7@Ui85?O%Hg&t2dIFQ&>T9n2U`r^
zq%=22BuFXC{Fn9`J4X=;E_Q*PC%M4x=gIr)=92sCXjY}n#CW1`cvTox!DnTy&4yfp
zYomHgMV4mIMb|mH%lsWjwx7StGx=HlrqPKr^%g!fF^yqpWNSLd{3T<0`j|1*s$(w?
zsK#=c>6@<}7?&W{V4q?Ly?396^hzgrLw4^eO^&~G#Cyq(yT4+vK0{-p<MgJDeiuM#
zUgMBpoUenLlZ$3$+<=S;IwAGs{SI91uKR5HH+$t8XSj?*VmUs$DXH~M@?UYz<}HDL
ze>lzNsLnwCuX?w|8hp<pToQ&2oh;Vsm!TH0<@*ac!8D7`^(xS6z=;XvL-BjQf7xh4
z)pt>XeQW!$z|!z?y~}?0)N0ej&E<RYAIw~H?e4!Gnb;ytb8Gp>q%lpJ`=Q>}XOaQ`
z14u@f&yIb?5O~_fTUm4BI1sM=NB9IDLm(M;!x13I?2F1Vf;jk!ESO|}{Yo+pCb49-
z$x$_xF~;3rUut!?1)7a_qcJ_tob}ll6Q^}Kze85`8XK*28~b$YQM??EY0pGPYx;I)
zOxZ0P*{Me#4P(mw&ha|JG2MUR&}4(-cK$^=utFTOyMLkYL5uMpC7S!NU9B+5af}5g
z?uk2wMX<jmS+K*1F=@cTYDQ)=GP9toqO_Rq?bKtU#cQFn#k4gHeg~sy8`1zyZRXVc
zW{AP$X14^6{si<9h1grNN6-!vy63mM&x{e0uwCQWS>lK7TKI8^I8KML9xnI3J<m30
z{oe0?|NI@zZ;<UL1Y4_!I(<&WuX-0K=TL$hL*N_+HzAF&CQ#L;9>H;AxG4nAFd5zq
zv*^OHj~ioNLonL{GHdR<8PuTjFgQWEIRviD;V9Yq&DC2#)mv=Su(^6Spm?zhyc3nY
zg+|QcHEpir9Te>@2$xOJvNo#1aYPzq2oB<V6T9B;C9N<?Hr^x4iN>A*Qtt^ia?jc3
zlQ2@Tp&?2zhLRe=I%b-nIElfuW)7P%TrYwWJ6`;X)+E`cNU#CY+ga*CX&eCuB?|cN
z0wogV36Q8A1{4!71d?^aV1;QALEYDVa{!buC3uJ4?606QjLeHL%0JXT>}1p<6eTNN
zf=-h1@MD5-qJt_bnyw!vyojkFsv;9LWKqi)Y|+OVMIKpiqar9Y=$vQ%DSw)$ph`pA
z9;IY9XNGR0?isrd9<~&VkA`s(ge)}p-ONeYZPE!cBrXKkd(P0>&B6;SOGkl&oab#q
zahE3f+RA3~LXFpEqQLAd5>a7h2eMutoy@;;5#VsC3-U2rk|3u065q*5C!~*89xEe{
z%6aoF8{|@`1g*liKL>yC{ImF%^k?y}eiq-J<0$x137qpJOyZvwfhDMuMUbv#AxP2H
zy=%RIa5+}iLV9p*^sXIh24`I9m46;O<VKCsui!p{aEG<71%$F)Wt&@!^%TgTb<V|K
zajk{$UI{=$T=1VjG^jI@T#X6T7y7++0WpPWqO_D;jVVNp20eU%a}D*1%3N}Ft|97x
z#sdYy45EmZ!Q|S^pfRRDekdU35Orz{CRbz*Q3N>HC@>b#2vZqLuF3-H6aAS<0dWJ-
zq}Ez;Rc=6QzsWqNKvK<MO#EE7*rA@U=I=)-Q<>1f3kT1PRtKWe{VKo6ZFUPyFxu0k
z0^tsnVD!8q*XItZkM_K(K)8oy7=^{;di;i>DD;q{RJPW|dk;}13Y2!KI^u)4mKelc
z^Y8QdoRZ(6Rd<eCb*HLTFR{`qbgTBHX4S4)Z;oNke|>RpJ$aLj>-<8F7lw)NJR~o8
zY4wtqcNQC{O=fEAdAwOQ)6nW^CoT(~v#h>;TC6MPWe^wI5b9D}#{U;c1!WB^gZNt;
zLa#oR;aq9s)D@00gfYli%3@9iG1Z2sFSBGAGmsj}`bP$_(D%7!T_Que1$kYyo68XH
zK?th-RfYf>a+JcVSyHrXCizY=$ycZ$@;ldKLY88~;Ma(KQNqwu>3tYC)5!suuoTkG
z;N0r1GoP|C7#CTiEx4F-ofEjqg3JA<mMP1)U{S{>aFvRxUjtPpjb^@VgDR3k0%?ZU
zQM~olFSbnjYI8~QV#^V=R?dTc`Kd@Yeo2WvV1Mec^lf-Zk<Dz_)nDw#-Dtz1urOrX
z?r(1F$h`~xV`Y3w5+6mLPZHB1{to-Y+&VM=7W;W#6WkUA<AL_#`l!-ggqk(X>+PF(
ziAl!!Lf5ip3)$7{@2h%9&E`%IL8=GRI&S73E#qDX<*{6j>w13WD05M{@@^Jl%lgcJ
z7K7W}<*bft{!R+a_vR$Nvh=^q>e!lR;GkIUnlqINiY*QOqsW7@MY3=cOWZm!jbTzJ
zwcAf9`v*1gI;b@<{KdvPY|d0>;NZU2Z$09{XUb1*9p5(RyTM@7KCNmcZuXu9DK@nI
zq)LR*TpZpSO8B?^B<81c?F*7b{0XmTt&QvK(%YP~E$P7Xh}*zkvB!^QP*Pc}AWFYc
zo{^3)CNjExKBORcSz>cItF5-Jd8~_#4rjxGX98Vcv}w{qP2IO6g9q94&#2*;lGnYL
z9&6*}Q0{0thgVCN{CL$-I6Qp~kU0Eb_OrGbT%S3K7V9SX8u7$r@W>9EF9B*_<wppQ
zED_g2<$mfeaTr8FF|r<Ik>=8skOyk=&Wbf84=ih{cxWFdZ9i<I6zvbQ7N`1#dDE#@
z->pbJ5`)`ZGM5rBpcylM7-F9qCb#~Oo1OBB3gcJm47%J8h?5Nqt{;0ci?tVBR&FNZ
z!OoCfaeh5xiUtEo%b@Sp@<~~kN6VD79!&&!ndVs+t%9-^O|1Ab&3P?Nu{z3BJ53p@
zXd480nH<*&Y|q)#NBc(zf`oeHn7m45-JmmCVkI9=39C0=2fwgYCH79X^D;uNcxg}5
zjfb|EA^*`MP%<W_&ze1G!pu(*r?}bj`as?!VZP_FhVT&aWwcfSVe9+hm13}$1-v*?
z-N*zL3>p}rf(zUX-OxK2VW?57xyQAdonpM<Wm>O;tT3P!TRj7IeLA=N7YO?rqA|zf
zzF;Yaer-PVJ6+0QA!dF8^{v5Tw+{8`ev2J>WP{1zbS+f5<kJn+<%a69je4`^TD;Ry
zcj~gT%}r7oB(XaY|5eYRa%1uldp?z|I<IRyeyc2_E!C05(3PcbHZA|Tf<g?8>V5%Y
z+CD23y)4^C{I{p?f1vWE3LH=M<qDh{wQo3|xCruB1m7F~=7cCi?tf;bD?|Fd2g+f1
z+Rc60cH%nI_WJJ#kHBFDl1_J$PG{(0pLiJ%;KbO(HW~Wre@V8%24ty9qQ7_Tz0!nO
z&!eGKDwWEm;Qs3N?Y6ir&T?;la!WF=clq!uaPrT@E7BK|^jBe)N6Fk<t&>Ud?b!-O
zr+)DN0%$oKS<b1;-JadP-Q>Zcl7l%(NES`<+k!qjxU7D&`pfWz1n&!ykzf*s>zwpX
z2Q}93+zSp@WCJ%?Wl>Vl%23>4VD%oeFe*;dbuujrI&b&!g_EytA}{b>*J(k9MH=vC
z<b%ibk$>2J)jJ(?^0%{m@x%EwCgYQDmq}nb>m-__QxZf|k`$I5<-tcZ4e}z)3Wevr
z>iJ2^>bfSp$jzaKSv}sV>#!ixE7~TTw&`y34Qtb>8@Q{mSXkB_{rN!VOUh9Fp&Fm^
z537+AlZ1ZzkJ!9b7-hLW-)3wryAqSTFbkJ0QtvEXF2j+NkoSK|_<zvG0hJxHTos=t
zS>4Ca72%Ydxw7GP@8WfCyldr*$7$#<rdsYYGL0tmfqx-H3X~?B8b>oyL`yQbu09-Z
zFjc6G%@7r`{eH~tgUb)sVYIkMRWs99C)s?>G+DkusESJ$oO<!2VEtfMsx6oOl?2Om
zTtut5((`%$V4XbvY*{I)UFql3^=w8ms~4x~OSmB6)ItI5w&`o2G74Vc-qE4E=iS^t
zp!Ms&?5TYQL%;twY;R$_CYo#l?c1i@XnX_B0}<}DP-;%O4RgvWs5}NM2A*Te+tfnI
z3k?9Lp0+ui1O*1cYcv6i;WwLs1=%-E5h%k=fAGQwr!lt?eP$n~FV#~*9k#J|sl>5Q
z0sFF}P}^dsg$Q{GxU8xdvU#Bw^7)=-Q%EsJ6D&x)BAIfrev5~00j$FcJuHgs{((=Q
z;R*d5jn{0gWlGt)h~k1|?AzQ+>DOE%@(&#Kw`^l@FIfY2jW)W19oS2po(G2L_H3u4
z6YiQY1_<d;_5&5krfgpW@5cj)XIwvC2mO2%CJCALAIg7S_PbR+a!%rC8PTE5g|)nH
z)Us>Z+S_Sc*7N1${PfR%?_ZY>Pk}p0Gt!@uSxDFR{(1Fp^?Qx4YB{)VCb}ao*K&`q
z;^k*0%x0&#yVVEoeJeu9IEBq|nj9Xd(!kpvEOZU?o>T#Q!LYU(Ig?;GT~-ypU@ik{
z2-44Ck!FLd>Vun*kD@^dFbkcUeY>k03Wrz@-t2OUZZmaYV5oCzC}4Idvo|H<^_<r|
z?Aos$=vQa9EWC48oPDavPT*ww{iw`#+Ql}B(}dvI%Cg=W|H(hsjFNTAYp+w@p>?Vg
zsx9D_y^-*nbzwxvE#TgVFGj6-)+OZ@Ov;Ck>uj9PqI{tx;UQS)WNW}-aT~+MO=TvD
zrELNxlr>DqW%uASx4$tSn%j5P?zAn0uGla#^$23K;e)5#K5?%)2o0suMls`8c&}RA
z5<KJEA5fougL55loGH_Nhj*qz)5KkQ2j^33o|sZ)QRr=U3TEsc8)%vwSQD_S+lH&|
z{o@}+=^4YR23x9|bQ;Yfl7T3vZ~>CHPAoh#IGuV6#k9|Xc*kGvd(N1r28<hbG{+{d
zIIDHCTn*_1MHI%PSBg@TB``9n0U_d9fu(S`neHIjdqwEx{o@;Dx&kbF(sqd@V~tSE
zN^KKTIzyl^s_kk7QsSsA1I~6CFts^wK%0a10CsH)9N-FbsPk|OjOzi%P2HvyjGfzu
zN{W(AD`I<uvB{N*i0CJ<S&GU;M5i(XEWWN7w1ix(gF)FWaG{&y_D~@wz+AREI~OT<
z&39KoX;3iQM3RsJsQ^ZsfYMVDKDQx!ru44|)RVfAP&Mrbu!~hTjH15%3)LfP8%6=0
z51Y|D9ojXUec)IL#S%AWeOSW;>|G7)LxpiWA#@rxP?~&)wxGb19L@xhjduIGx^4jM
zy8Zct>$~BJbSuW0pz2=n2w~Wqwn`&(a4#{0jmvK5bq&lAI4~k>5b3DqqtkcKU!L5h
z|10`SE5FLpNw5qjS!#RP<c&<q$P({<@{>#|JAh$4W`vBC$8EobRTThT>jwwo76;<K
zg>)^$zFMwg69-%&TsZesm6~9N&~3~C%O2N8#ghm41QbsBG0+q~5D(cg4=3>U$j40B
zmg&8Mhl)NA#(mPl71=DrQGi`8Ln!Qx4AvgKLc4(6;X#EJRXQ2nclP0?*6du`f@`qv
za(0Oa6?Mx@x|6dn;T3(xgNiCTR~o;4^{=Lc7oM!fJZu<P=g3%{1q9DC>7=Hm2v`R_
zM_Ra|>c&d_u^*$NHijymeS|S7XiH+OEgb}q<|vpS0;X4$sHmNw3bi50jUWrE{jRj9
zJLE9L>GZ!!e1{wh7`{Ky$j50jqHd-f`KVk!%d5W&@**R&LubMNXifW+>Tq4_Q;;s4
zD}fyP>8gm*#Q)C!kp{xHwabW$$DtTgYhmU!JFn6+^$RL$Zw~=q5b-DLEKf6GMEY>^
z0t$O^s4ME-A9FxnNB@kYIwYO7Hnj?)G{5-mJcr+3eD6!(g>jrtym9(Lrp{^lad?RA
z;*%?dju9dMMp$-UP?1UqHah#zYnYO-Y-26Izt?R0vufLwh=dIv)$`#s=y0Z#UKBn7
z`(YkT7GVZ0MwQ!ys==z8-{i%v*gGCqN^9di8PVlY=%y)DUqE7~2;J`=jr2|?>UWex
z5!v1}OILYW8~-*vr@x(FRW)kXcgRq=6IxQ;6>HP-{?wWVqw8QKth+;Ly(wM6XM=P0
z^JZNP`LFC%pt9Ci3R=@|YfX1THIq<bId5d*aK9XPh4HxGZNTqnRKC@Ypsl~>u={UC
z;(=ZES`UBKpSkYp1*Y;z(66?ufMxNSb`xeVBs0~NCZp*_R34C{G~xhbwGaMRbem1=
zzZ#_SW!ow*!#`VADr@K1i%Kmn-Al^v{7g~r_L(-TPJRF9Rj*}NwN+QYKbR%+f1rL3
z$R!I;Fe>Qwbzxe&F%dRe#mmB|G8z0>lf1TW|CK`7kZzUA;VIgb)y?Mfif=dewotw(
zXMo>QW2nviCNGYt*{c!NAEHNm{)pXp=HNEbiP;o9bpro7DjtfAHlAk_c#nz&E$czb
zZfez8id!kX*w$33S;K6eqsn{R@=8@d2+}V>5-KKS8Z1c>N@3VT9L6e7m2P?28~UwT
zG>>Finl%9gO1N$q6--v{I?9Wk&K)2S4s<UD=3tj>feycIP)V83rR<6&LK=rTm6)KG
zwk?3y4M1mTaS^9s7sO!%x~nR;R5xsURd?t(oqp27eOO^{Te$Aa{w4v|0c~WJ&vSjT
znPF~62`)y5`&wG8)Eb%O(XtwrT~g$ebVa7JBIQDIk}Ez}s6BU{sy#P)ReSCtQG4!^
zs6BTzQ+!U5_gaznR`I#-nbLF2C#Lq``KMY-m>H$^;5AW`1?MJJ6GG=URYbg7kJTQ$
zCu-yDJS<|>2Nk>LG5b_|@F`c53HM}OsLd*O6suy6lJ!#Y$ydd>>ax>MwI{FBbfxy>
zP5P$TqVJh%J-=s)vy9t{ice<Io7$5PWEm+wS%ix9WKM9UC%uzos@P553H>-xeDs}e
z9Mv8@%}Ds7_UKudDXN<C1v14)=>}S{vo4|}RFmk^lu&)Nm@E_@jS@ux^zPUhmD;0J
z=c&p7)q2X0#$m45tcUfAs7bc>7{yb?(c<0<wMU;4y6seZlpg}CJ{rY}kN$~BtTtLc
zov|m1BkP}%NxD?4f`6XIv7&zQM;`^r)H=++KA}6KceQ8vUR+JS{CfcIJt@|z^<`RC
zwGQ;zBATc^o2@5m^5`@DovK+Z{!@~NGqo}9a}BE4xH<@4?P0E&RFSI_JH>}dHX(^(
zHMr7Itp@G6=&$0&sQ)v{inXHlADoQyA`2BqdvI1I09JeYA}rJ;fAIZ{WLc!BGB+ML
zwWnDWhq9$HJWq@Af3?S}VOJc>A*;(zmLswCxG2bK_!i|+!935FQ+^D`5&Lx|OLi?N
zoh>y=$K|ic(yI_v+ATj$!y?ouPCizdM)4V4AT^3d1zBnoXZ{q8;w<z+qc{tN(kWgn
zb;h0N(?k^a%8%nXoxEt2pD}w!qdd=!sZ&0gk`ImYaX2QiPWf~a>XheEBpT&kbE+>j
z%CD0kU17@mmHb4S09=4_9e{*+%QXO&WH~081^`psDGH$9P`=Sj1A!~hS)zdu^T||b
zB2a5d1K};qq7YYyL8B*Qq7M;iLloJk21I>GuK`gms_9f0Vx1EWi2Bf03xevIG>vs3
zJ`3GiuwX(B2&O19YM5(6V3+&`#CsI$$VEmbBzhw{eNpBCFLWT7V9w)otO=2XTGGiN
zuoh$kqR5C&Ex78OMiUG~^)alE=QS|+E`%iOr3MDqo-7(u9|Jelniz44vu>IgSm_ux
zO>E@uu=*G+S222*HEb*fnq$i`cx5y(usU$KRpv7mprC=lcb##hC1Y$<(OaMf#)`e^
zr-_lr(S&GX6zf&2gONw`BrMjM4n}pugw~wnOG}onF>~MURr)l~(+O5kHy~6gQ>*$j
z)&b%7Wn>}FystsHYG1SS6%7!s55p`AKea*FA*MD6JKod<!Mae|Anf#17o@xwMH2+;
z(P@F`&Yf~cjP&j7fXq;KY6}GGrP%=~CJS8<tfFs$WMMKVx*%9p-vU`DVWzDL-WQR6
zO+Gcno?9il6R@<<G=;6Sk1{>YR_^>YwSDOvjS{VzaMOezxoUuvPIk?XE&CK{MQ=cu
zJ)pY+au8h|%RzM2V`<*#b}R!)$eVsm_?=(|K(ur$2f<p?Ef8HD%gk8X7Mz2l24O$P
z5#2GNB-Uyg!)X0jp^WLs;2r)oO5^%C4HRw<;}w(DvSr!6M;B!rVHeXTN=8;BEc8)W
zoQ^JvnciLVxEc+V(jw*;H)^2pbtC6-M*1k4{Zb7Nc5iAm*TXT3PsE_u)jT3u^u`vV
z)w<AtDK|iIn&X@YHB5CJ$yBCJqh@JF*p$W^3-+$t4t2Iy!)#7JaL02s4EL$zWp)Y;
zm~!{QbH?NvFkE=+1pyD!ya5yg<1|(#4JUk!Q}5$>9GNZ-l|rloyT+-`A@QrF(>(g3
zwkAm?I_+xM;J9ITTdR~th1{L9UbGv?ZE2o$g4R9muF}BjcX#LL7CrdQ0IRURlv@X=
z&e^5gG+x}q@YA3CNSDr$0yk=PAQoRnTlXs?ky>jHZjyMrl7u$g_mI$g#a6)7w9YxE
zgT&5n_}&O@+If3Q2`iUgb5G7X3+=%1n(Nwj!XS|Rrt^{%i*$-TmbLwzXu%M_q4e7e
zQ>|7spvs9-%^F<5Obe<Ux-gEyTmx!*oQ5~|{XO|aPvm_l^i1~m95(1ZME`)w!%o3w
zC>`PN#RQWKId%HA+p*s6X$XA3=@8=GpN^jiP9O${wkOze9PBR28nIsX@IcMbyJe?$
zV24`Weu02<t$IpQbD>xe{<g`U2Et5sw|?&+nbV0r&cewHDHO2}rWRnzx=zq;zq~tH
z_}<96pjxayUPm$Af;5W$zPi1V<#5UEpto9$uF5PijSMcUmFNZocM;|b_Y3>6C|@%K
z5xQc+E5#g4{Ye_fbUIn~MV2n>JWQ+6a7KS+a+pCY<(aD#e?gDEB<Pds1FS0kvHIt#
zO1K?H8O0KGmUss6!LAZg*~O=GGLDo5q|V_XzFNJ_5C&Ylos(>-%n@!lEH#pG;4+7>
z<y`P>+*7%WQ|23Q`7BjF_RfuaL4ROaY*iMfh`o#CB%5Ps90-kNU6k6NB_hMHxga*D
z!FG{g_&gAw-{9kKm18J<5M{qXS-#?m;p~Gry#{B;y@s8PgYMM!RA-#z%DBTeu2M^c
z*_xp(87eZuF0<{VJW-@%*_!&->~63$#_*h~b|yP~_pVti0EXraLNnwvS4o5#taH_#
zqb9S5p28yli{)~fO^S64--T>4m03P8^XWo$Y*-khd&85i!5eT1VcFzB!!Uh;Fj)?7
z5MAf_`^p%;D~LX_hj-2W$BuH!G5lXuMUnD5cOj}zzX3P~l!NEe#t>Zth&)R49W|S7
zfX(T;gQb(`7C>a#l<B^9XJgpD1K9eU3^&8>fZg}N!e}r=KV(|3%Bg};dp`h;7_vri
z2Og#s_rUIYWDY|N(E~)<+?omBut%W0VJ*ogAkVKTM(x^uLNqz+zXgWn7s!5P8hfF&
zKKuspwQsM0v;6_v%F1`Pck=!R=2g16y^}LIeC<h@KGo{;48;%pTAVK=UI7fhL5oAl
zJHiLAcfum{c)B%=mn4Mt;XrcbR%h>xAv@9mOJ9g}DNJB4g_;W1j}5*lh_6@k;rtf_
z*EsafX9nW4Yd-88TR`Ystb{}mmZ6q#Jj-`-?5!w_N%IVwQS=8(G>U1&3(T9usrYFe
z&+mv~j3JCZemX5dE#m@L`O0oml+lrZ2aQcB3{wgga<r0IL8$ti3fFtDKvk>dL(MQ`
zSmQbekJjdb5GYjvmwC>0!lENEglm}&<XM$5DsT;+P1uF$4Lm+PuPKJ=9Xy+!a#Wi>
zREgMGoOjLAZeeIX;kJ6cH9$Mm{{kH9lnpbF>>gyNwY{1XN@K}p&-PA6(B!c#$naa%
zJ&OUq<{{viW`IsF2lrLB8Vr-_0j6DiTD>wmEmAAkpwr9YL!BuBLj^pzESJ5TO%xM`
z(uW-5xDWIPhNTZWEMhEJJH;M=HBpbRe2qJfVTACb#KD&Eriy;T5TAh75W0RK-COo4
zXa-QCd;V@ChUyI3rpJt+h|WQ(>Sy%^35IC|2~_F-EOYH)h*VGgEUS);r^bur{EYJZ
zO{6@A_Y%e1`?-046+`+3JnJl;S^kW_QG{W<0y7@G&>TkkRq9%RZND3)!IKQSPEd{k
zhxj;$+{Fo6p0^%OI|L~wu6dCzC3_6pRBgDhjwO2{9esYg2WEg^4peK?7L*Ido+5h=
zZ3O^bs2f78kvLPgM_nw(T%BXcI8InL3k=Z$Vq7z((=a1A!H9rux@5^UFhtLQHaU!m
zx#Y0!7yAX+tSgr8149%8iO>^j2_(8D$empxU-3Zdbl8Rlt>C;RSpS5b!VQKEA9^>k
z0*(_l4#s{}CmNJQxXnkV&eP{S1xoC4sD981>#+;qC}G2G>@}cS9%JGv?>m2y3B&gW
zY#25$##VKp+Ud%DO1`7kj1TB$^fFGz7@|*^&f8pJgHd~*psg-z26mDC3+=F5oSVS$
zq=D$?n6n1wOnQm|I$muc-%8`&%F|Q~_8;kz$uHK!K&$TKSl}(cNcw^0L`Cf5oVnBm
ze*TH-olHKaagLc-?ocX)7nmBmm(m)8&Wjt!_tF|)p=ulm-(D;)uD;=Sc_4zNT(AK0
zROtu-bYG+bc#&q9&Uuq}`V4{V+0qJM6O5hgeUk!1j`kbCKc#}ruAjvq9|Ru6o9M&x
z@^fG;;-H1EB8JSYDL2EA7xT74=uM?P#IEwi^iV2YBw%~P2J~MA=wh-!K>NO26xSFT
z_s^xkck3|*_`4LC?i?_{|4A)~@|+WctuEe{&Ey+=9<mj2e<3w?>pK-OEy<-5h}|5G
zK<<B$_CGK(sDb?;ok9ExUktSB(55TzG=glD!X}4u3Ii*k6{4E8PGz7>M^JQmP!qD0
z3mCFcDz5c4otV*yW$4?BH!<+<3Ni}{o!ep$9I4F0+@}rb6KS=}3w$xy*V1akg1Q>e
zzogYJ?-IsftJ=Z*rQTDP^A0hQ2SmDfJ!YSn>aV0~899T7ed#e~bqz5Fd?XbXe#DD`
zzEgmPB#~%9OLk-46}!LzVFeErg|Ok!=6>wj@Xiq;IgF$t`GnfN4-2W_R98|Xz)v6<
zQ2HbK1F}`y_Ri_SHn4!lddpK>u<Mi%gMA8bLWF6;8H8uRc_2HWEzvoIXvm0Q8=@`K
z2*Cu|A8nZ~AWW9asd&b~voMYke3#&s!OoYqOkcoa0XksX5?z6t#DioJOkY8R<!~zS
zA=8%b8;Gt~(y=7-2(D`k7ihD(<+_1$0XJq_u3NAYgxE)09*NU{B?)_?i*}YXAcQji
z4(c<zY6#YhyaP`u*fHRi=?9qUiCxBkV7iA(9njd{ay@`s1v3@5OpjouKP-<Lg6T<>
ziABMB7f6<$iY)C=)RGPnN53WhrAW*ZLU6h}l%oADQxt=fF}qW6f-(7i!(^N{1Lm68
zHslXP9{e(UAA;sT2#sY`JfIwbTe6Pi0bXEvJb3_%R|lpJ=r;-EjTx3vwNCGZB`-a#
zbC;s?5^Z-iVNbeeg{g-IG<a*-<6&U1;H>RXjb-!5g9SkhTF8L(4riM?KoPB&D02Db
zWiIY{2*~ucrI|_(x}B2*GwM@$4zx46f57+<r_ytnK8GH?V!(eY1S!TSC!*j0kYrg}
zd2dGSBQjy_>3eV}Wo<r%3DSTG5-1X;Axu(-j!%UNDNieTCWd5+8}fH~?n{iE5?4W#
zmdg+WEsbUxo~K3mKL%d<Zpxs<M)fz5CJM80xc|w+fnIUQusLM)*d#*lOo=p7z(1!`
zKg66FlBGNr3nwyf3YA8R<4hVVFt`Yd6RJGlG3e4GDf=4Zg`Rzp<Dz=whdd@DO4b-F
za3-BWeGZM9L^IeV8nQVAJFnYLp_z0F*_Ws>eUam$##DM@;a_9rdoG<l_ARC_=JJTz
z@7Z^ZlA24GpMIJ54ihak{~-q_*#weMuK_NdK*I_gHHGHDb;vsB|6Z|+9uc!>E}ccr
zElQ!!rK^yQ6Pz~%kwo?U!j}gh#VDP-7|Dabuv32_jfij`$TGqpOJ6Z|9u}D6)dj>+
z#ZSEug1wkY`<#s?PEw?@?cIUi0Bb-?#e48$P4WU4;}Ti&NVP?b>XT@oAT5{)AIaCC
zhXQ3NN7pLxRXAl5$zuW^qZkz=8G*h2uvdw<b10fAhzqiR<WuM&uG#{HmQJBQhep-=
z*;06^Kb&C3^>7}_jmxw=NaX1|!AV{REfU~C*a^Q!9U(r?(%{Q}<=@8imOO1IEO=oH
zE!Y6Cu+;Khgg!Ni7Ev-s^#2Qd@`93&ZhJq5Gl4Fw*fK4<!<hW*h~;WWbk-6stfvw3
zgg60r7xsKTRhs8KT>^fdr|{;0a*=GCv+5pwtH&<G`78)d1XkccB4ljTD}o4>)H?$S
zwZ)m@G>7D*+mhwogVV3Z1~D)>SirDZ&<ln6GJITT<8&4Q42D6A02p2aexZBYoHe-P
zu;CPM^1(k_gqT_R2AAQB6dU>Z4(>46;qR8|1H$ApCcvwoTbfV#dU=&#B0xUDJq3#;
z-!|bdf(eo%hcn%tQLdZZ?&_{V-CdSF4s&Al0&b?QM!gn>*Nw4>wC+MV7?#hjJNNm+
z8GG6<pQit*-6T5Q+$1_=_G*;n)upZqhr^aVP1oa?1cVOa)Eb`i-$v}0`aaQNLOzOM
zOl|C5uS~!IsN14Zw*jx)&ARyCsoqPYdP6Dz=|Ac|=)m@mJh0`)MY&@0M#T`LI*6(o
z4C<=5tSbK-wa5c#Jr;WPIO<5fH0pMI0k10eb|b47tB}2W?Xgwrz<}Z|=?;v3dFtxm
z*=~tPb#TZsWKM%5O~`Upd}`tjMYzFxR4nwsy-7^MOb^4461tQWdLY9Y6%>9Gx+czw
zNt_9sbQSPtI&rGy*seVWe!iZ~q7QKao;HM+*yax5fq5N8raXv_k(AM*PD~QO<AW#<
zxV(tVH1k&2+q@NSz6v)?qUL*VWk4?NCzkWR)dP92%ZTwdo4Ix&OJ0a=0@{TH8DS!x
zd6kyhB!AzuwJPX!vu*7xr?RuA(VVI(VCi;ced+#?7QNiO)0nR)UNB3uAX={C3Zt)p
z(e}w$c9;i6z3Z%C1_~pTrm>TdcUXyr@Te9kMG01Bkdq>4Pz_bOrF|7dqiu(e_;<C1
zx4G}$>P2*wqn)~nNf|bcL17iZmmcyzaFvJ0;62~Q_y)naU)|G{U=q`%X}X2z8bY__
zXKT-opi6bS0lz?at2LEOlQU|XjLHhL+f6cNG~sQxA$!3)SkS?*8>>`_kwzt~9{C9A
zI5TFeKVqLB=*PN7Y*7H!<$7bQZN)%P4UdnjcgBD6&mgAn4W^xC_Da}vCtc-U#P<3F
zzT>A|^*kE#FPdViQ~@!+LW8Xy|0S4Z=@P^ma@rq4UO+IlWiw-XBYa%vu*X348H2l_
zKP~gI*Lm6N-$AsK1}$`3X>8(6H7Wtxlz?hQbZTW-9n3^^F|QBi4Jvax>Hpg*AmwtQ
zSC8X~W~5m$!_xWOs1C-lU~Ir%G%Iqv5sP(eW_ZY!UG*`qRFbV}HK-TMe=i=XPA!fn
z8!N4985WFJVP(uqMZV>7kI7RU<oTD9_lB*3iQ%<M7v<|ZEeNf~s<tuNw?EjIWh4>^
zCwFQE!rjTu#_n0KC^m1J(LF{(Lj2qGoPJgJoM=-rB^jA{=lm!CEG6RAsVuCrZ+u?a
z%yNSusNB1gbhX_&3!!+dSl$aZy<EQJ-JeGJDh@wo<^5ujk#L$@+g4lFBma&k&JxZK
zXSOV8o5$-p`=m<aKxsOr;o(=^Ke@+}=W@Fe?P4Zr@<y`4y`Vd|()GHztY+l0ZJn5a
zWl!KmoV&14Bq&`J?HH0KkH9Hfw#9?B#S6BV)F^N`boIEc{Aa5ydZQC)a5W`KaguzN
zLeI|rxQx|*x2&^uUZl&Gn01qsedYoCtlv)TrO=u>!JJp8`&RF@G9#S|M^s(i#X_qO
zyuYGO*}Thnk61KV^(a(IgOC?tg7^KYQ{h`ZKnf4`zW1S_wnozY1zoY2&Sbe7Qk_>s
zVLW=Z$!iUJr3x#o*o_RqKP8h?n1oy0ZFhRW!X`f|;|kj>P0G@7d#|{`Ce_l;l~yf*
zw~nATw(0W}sLV}je)~7eOQ6EK;`!ou=dc$AWr<Nl-nVWNb`-+?(09*Yp4_GXEBZ^<
z-c^=Pf+g!7+kK!<G`3~z*Zkyk9XvZheV)NU@=hLqyq@vsD5jUr)>$sRsi0Hdq#2bf
z+u<aR)A!C-*Tpo_%q#XuE}m<4Ph+l$bb#%ufeI^iDpl#*a8DtKT=#Ze^(kzdaqEW1
z;k721ZA^od-p=B?3VwY6<&_6eARWc#zRPC43Qu){@6{*x0JYmpD5XMWOcM^7Cgd;1
ztI#q9b0Sw$&sMOjsi>klq@`?mex<Ir1%$#pQ-u}IvJb#i1=Y>5q>4>=CzViJIxZem
zSkZwJrl<!Usj}<3BTHB*x!u@#Kb8>pNh&d2cVmeM=C>BEu)4;z^}Z42nAFw-`ZRw_
zPJsfauo($^{5sm%w>!qQwNsXON|HT&?dT~^TUBv7-ER)Eed|L(RyY&SQ8V#s2VX`e
zWXh5cTfMu@X9OqkZjiq0ZV)3}^~E6lu8Tp$Ol!FkjPnj_&$U$bhY&%o#xJ1S(!G#2
ztK;T5A*xgd^IPYH4K=P4`Q5~=>Fpk254=fAuE2y=jh4fnXZ9se#M+|rq%ziVL7ZqX
zJx>i(G@9O-RPd{0_(FuQ(i(`brxP~ok5ux@tLcQbGA^b2%c^%QPYus#uRyiu;w{;n
zxBK|Q$yYZK-M;bDBFl}KA3K<3;hZ^DEQkBGFREX+!Kgx}O{6e8K3f7eKKo97uRE<K
zEyq^nuFU?zwZNN5MW^GvMWH~>6;Xu(`Jyn<#P?f>o119i3fudssuw`8zEs_G-18>{
zy;K7g4UI2VHr-eG3F~E22W>8GZ_Oj$<mSP$>EoL#E);msTH&x`*f(#Rb_|VK(^N<_
zl{z>i*DDHVzCYK67FPNNfGnI<sZ?WjT>U6+b*2L=Z1I~Ss;ISnTUmz)A$)1CORhE)
zc3OX^3oYunzEt;iU&ATHm0rQpc?GAqC+@Xyh1E5w>ib;P7ws)k-=wDRb49;nll9H&
zc+2BTo_h)TNlBYbs$!%!ZHmTXAf1YxH(?54&!v)H--0Qc;e&6|nsp`571qrB(ez;}
zU|`x+`4C4+6lfvz+2a@OZQDS)BzN4ZDI5d&YKPFSgLh?_gQ>y6Up-(^g@=v|S91NQ
zu*O4Q6Iobg>Adc|R8$E2T>(~nOOz1yK^0b{gogh~5xQ=T5mwB&!)0GN3{C2vA=5wm
z@n%EAs~~^=g8nU<CpYO-fve#KDK8f>^g3Kk8mdnup$sjgDpY(6tWbhh(u#H804vrV
zxhAr(%J1sHqP{$lxb}FyWWcg|(9PX_T|&osS$*%)UMzJ5d}_A#0{7>sEPVkx1_4e?
zr!KSaojfz!sGYk*Rj9OD)~n0x7(QocA>c0*h=t(XaDO!}KW#PO{0N<8*Jap}(_$MP
zr&Y`epu%HDxcB1?Mp!9eIVI?t5{u>F;ut-4V2!>s%Tr$ztHQAv74ITB$>spPTxVEO
zU{M&1;pX;2@o;=GJRGfiXj{$rVzRSJS1UE@n3rO2R$d)p!Qt24wphL%frVdn+hX~4
zjQLVtbKBy%K0<5wE~CYAa|9N?6KS#Bc3WJY%GJywbM6NeTk;y*fWHQJvo41GSC*Nh
zVtSM@$?lC6+Pc4Vkwu-;vA=U+`#YA~hCP28W@N`i>Du7ApbehO9ZdX~Th34msSA8p
zs>^0lrLL5u3))$hE}8=&$vcF=^EAJ8o<_fz0N!^)9I5%6BQ+pb=%_j|MBA=V?#`_*
z>=QzKk?w-|-Fd?D(s!tu7eWeAjCy}P_B?lwe;+@S9lI+u?f>0hctgn|;x!T+YsI;Q
zM>x@DMz=z18p^oyT4RwW4i%EP)gepa@+hh-l)g}~xiwZOxAK<<s>@-82+#6&m%1j7
zJaVSG?O2E)J&WF6YAnR~E3ZX);j9Q@Y{`RPU%RR>mc|e^uIdzmNROEL?Ty0X($^UH
zg@?l8(jY{BIi0Zht+WfvJLrS}_X+@=HIRDcw>KOLF^s$5_x1DGXuy$MuK@=(`QsyO
zC-$-$h*-439rt}M;|@pv{n0%AW2GFZRsK`RTCtxbwB6dNTorVQvGj0ZbFZopB9_+R
zx=Wi#-%8tFsVl;mNG;Unt)fDdzC138UtuW(kea#WEq=oCU*z#Ji%!)zxt1f87sCk=
zq;~T5{x>1UZ-qFeu)87MDR)_VXFy;=nGw4+ZziTgeD<7YlVdoX%IoA*c(7Wv&$a5#
z;pyav+HGq+w<+aTZ+!)+P>AGKZ*|kC5J777HZBwuf+X^AMTw4`yeVjwj&sk+Uj@w)
zclG5|{?b-;C8rSKRCNmgbHYtWTDYQ(-}F))7LcK<M*m_AUF`UrepBBv0sH(`6Is~n
zzZ7<8ahf1|{kJjnj$SvpbTt!`x76d*^!oKH+Hw9*kFh6U*Kw+_phJMF)K*~;sqh%G
z&wD(qVSf#qO4l&wq`c@FFKtBGIRu>I3q4@r43AY^QNa49TDZdMekl39P}=Cz476A{
zh^OlB!qlJm#?U*OFjPJ|fXNFvg&YWgWQIszB_EWya49EOy3oQ(OM_kQ5)(g^KNWqa
zz%Kct11szfldE`rxln6yAjeo=-*+?Ik>jkddmcnG(VM5jaUcL(gbtgTgYS_1Snco<
z)-$OpD7xM=$YBMj@-wv)445XEUCBL>$hCU*)eLk;U*E`I0%v|uaHrg9;R*-vUL6+E
z-4DjlJ9_-5y5||#=YKSjg}rWiRbsc-we<Mx7+%ZMXfGUZc7(H_{rs*orClEjCAi#t
z1sv)LUXck$IaWH;K~1cs8R(8#wNgG&0`_#S2Q2LEcct?yU}gW}K}8jv+e*jwu!_z-
zJgBgur-}#kFw`6MQ+r?^+-V{Ut9%auhR^2tgF$@pl%D^D9IpcV{*N}cu=h=$AztkS
zX3dYVgWHeypC98TNxoE`#8H?la5Yje_HWZ-Q76Op_|+lhUuyvAcFnm>vC=*>gxw+O
ziBf12s`jZF=#I)~ih)(Y8M@Yi6;94ioi##O*@bEh2WAKt15@DQL0p_G9~Oi9dm&vt
z-3PLakR5Yt3cRCZeyAOR1LfsW16A19zg17$ft5A6pl$90Z!G|eV=QSbEx8JdRy_D#
z{LMl&9$fTF-$FeC1vrjG4_GL7v1+^v3^q}RMd*&y7<z~DSOemCV4d?0LPqq@he-l)
z7ezfSr6ua0$W@Dpgw3F+uYoG8s(jnZ!WN;Z=gO#X;fO}2z&ixvi*ht4a1g)g0SkNl
zyK1N!u)g<NxWei_s>32A<jEL%hlm(IEKSq)%U#hC61SX%u@Z@vPkR3znrN&V<qZ^1
zqJ=9I&qy_-99Z303s+d(L>(3}n^I%w9kVG@55Wia`C1cM)a%dE<J|sf7EWHkQMk`X
znfE&>h@OuSLI0E!1&)KBHBbk=7(TDFcn`&CzRubWcu_h^<5$2UkJ92J>^=AMO~sPI
z?$eQDsa^o%O-t-00b3p;A548cmkN_+gV?niEt=#AqjRyBaU?O`m?153Pm<l{q{o;y
z7iq>WCQu>L9G=TK9V^h(3b;)3L+!C<Jh|BOu{y$7?_UhPGTt)-)-#GcyRY!CvvE3$
z;C9Tb*}n4m<Fi%+Ue(67jxrRFYj%Wj-M_v%lZ>lnRVg~5dDa@mc2e2oM`_sZU7z`p
z8rE+VJMij4u0H%MoJTzT#Sv1uU6c0mS{$j5yhgD-SMT~54ciGNS|6!lexum_%j|2l
zv9C_2#Y4YVvEJOxo0zA};|huL;^)b{RIB=LM=;;_R@k@WwT*Z1Ag<oNAJnhmx9H!G
zpnLWO;awtrLp}n~P=HOLeLMMGP4YI!NMhOhI7$Z<leWSAaf}YKHidQ;oDU_L<GIZ5
zGBS-OVFAeu)!!64C~}{MjaUBs4Jj7sbk8aFd5nH_Hih<d`6s~GNz;x5sh`IkB4<-*
zuL*yTAn^M);{83YM%YzBe^!Un&6O?;pN9fvmKy{C|02jI>55G0XsMSje`yyv=vby>
zIDCups9;{R!B6(-W?fiL`CT}U*!QPHU7T!b1Sc-P*Tz|enmBIx9lIsi2oMu!BS5n#
zCPsjm@EZYI5<`7N2W?>lh^5mr15_-{$WcM{o*s}_em7<@k4BJY%%NlismyI?1c_~s
zjUdJ0n8ap~(n)9riDxY|g7lh`cxD7?odoGh56Q12GcpFnMKd=8mC&_mZUkz{Gw>RL
zV#`yi3Ds{bEYZve7GDx(i4m-rPv^oIR$iFtueUIZLfv`|8hsxVlVFiSup;|30#<JW
zjDVG9M>;hJw$6zWu-bKD2#jh(y5}+n_F0&#*<=xBM!=XN%Sc`r1JgH@8es2HY(~zq
z>W&N}V7!T|!VDM_{&}2^je)V#KVx9}7JUP($cUMm@g-myP4vL3@4}+UqVZaHat<5&
zO_HpaM$q^wK&{u<B%1DIZ=%JiuEp3y)0ehkb8DpSL#V!smaEvnZhP2R@{CCcN8=SV
zhNiE<huei}#@yvb(72Z(jtogJlMMsg-Uix=IW3K$<?N11V`v3Sg>3|lWn>MDb!G;w
zTuDvMdcKshhzKn-yH~9Xd7e)6C&LDgE;Dow^ckCho3JyiEY#hg)o^^-TC?z7BLVdx
z3f^#Bn};kXx<NRWPSGG7%N}J8PT#H9hGVahnS<lfVh&E<^VotjH)l&<inb4O2X3ah
zZ)m~k`w(~Fipjzpoc<!#g3H*2tLEVJm$4SynkDKn2lu{+OxEtx*d*gtojDayTEfP}
zxU@MlQ`)%nC>dMH%EN;wF;qKl+VO;fM&QchEn`Dbj)L}1X9LG<Cv#Q+hcmZUa5!_y
zy)+cf4F!Ws$eYR9tyn~uQ8+_u1&7n$@wDK~trcurkr8dTS`Ej3jw8A^)|?eqbDLs7
zyH|K)I;tiP-D<qDW(GvhYV1@@s8Fl5w_y8Pb9m!O-?V7rW&Fx=lX&d1aC3O3$79W}
z8a9Gg?p5Bxcx?ucuZ}qnTsMhltpBQ^)%ROiO`BlM;)wO|>}vk<D`n}zyIL1U0Lu+-
z`4XQIz$$owDSR_co|QrG1`I2E*CDNW)?Wi|&L?#b>1#ml)5{6J9MuS5xs!~eWmM!w
z0Qm%|7dsPx?<}~M3Sy{xoNYUemDtEpSB+Tvg7|xt<`AiT>mLNwh*hkD35&sL9&uAU
zpCl7At#0g-bcM%lt;$9!>Fz|37;sIxEzP)24CqF8SC#3nSnf_3hyf952DVa*c+K=#
zZU(ZBs5jSe4rEq{=uaLVLT6;5JK}W!EH@?ULCTF_wpLi(De3J>rh(1X9;N|LK`SVA
zO8DBS>n`vbXRUn4Yrt^!_LQc+#CuI24(n6{4n(iHj&G-@7N*~H)$@0b^usx9e<%Js
zG~rJ0+skjQ?2Lf&5vtXQwrAFF#=2G$UpF4H1zO5d$Pxw{0o|U!o7m_1d(+8)e%c2$
zprHIc-=l$TWdDH1*ViY__-XP%)o2n-GVR&luf6oOx4_6u?Ki!ge8AH2Gtm{R!J)mX
zz6=a@tsNsly7uruZ4EeOoZbPaM>>tDs?}RqU8`0F)HW*?B#-`5b81)F>Zu#Iew8no
zQ&lrAQ&4rV{C{6(hA7ZssS9}8<(g|#+c*@4Xa7-rw?D2S>}ID4J3tq@Uo?uXBqp{M
zBqcz9{mQa)BNyqY(4n)_7O11=)j3D@@rx~VGZ?KNc!);gf=B-4{HtGu_r-VQI15HI
zRN;(K*DI>UNTi`WdPnD^z7>q%YA_P*p9?<!{WAUb@AF^P?N{Vylo7uWgoT3PLhvY~
zWl1vOxL1r;1Ni|Klu5l9B}(p&5z<d4@<Y^Moo?#5D8@Nn$V1$#@WLD7h58^yjw>1v
zaTQ2Bs0D3wM;D`26OOmKDX%=f7#0Bvo|aUQ1R=Cw#R?1JM2zqSu2Cx?6-ck&PrVxb
zhT3YxKcgC9|3#2Ge_Mu-sKYxoh&WxcjBuaU8S$^>m(;mN{r<5uKW7FXvWngUGfq&m
zk~PWI3g(|_1*MQt7E3-uWicV5s7U;!`=Ot@vtKS5*V#*Ey)?&@N`7Ke=_N8bE6-kY
z?FqXZOn-EtG6|6UBz3={L3*#gujfi#hWfpe7ix!(&le(|;IbU!Y<?Jk{SxDI*K2a(
zdd2U2z4lUXj{bjjIC}Tl*5Z^z)D_O@J<_69W#qjyfI}Q<u`|mCL62nG;j1B^qBDyv
zs~qesjo-*9&OFUC!*^rssg{*tMg)wYC9Q!(Rbdc8p5$K;F=ceQ01-t_YFOr!L8Foc
zWgucfmvwGPv^O1`=jLH`NDW5Rs=FX0FILc5O3WC21|ik5gwDd?voKOYXW_FFjxaE?
z9GfHVX7#c0Nw(hwjiF6%F^_KF5Q3nmCE=nlZcDy`CRiZInGmRsA^Y^}n8<U;7;B3z
zfF*3PoC@{NxQM~Jf7;A8C3cuyZl&F9rQK|`-E6Xh+hDSZOY_v&FheZd^m5pA;pURI
z;hGk0#Zh6!HEq;}YkH|2$Lu)SRbgDDxG}D$R-i1XYYTc-ASYE}2MP==>Y*Jr1mm6i
z2yDuD>sl;H=~=Bv<z1~v<zcPJ_ReHODo<-mf}3N!^|(MX+3~t|Xl;$Q-q#9kJ+Kwp
zdSNTH^~6>vv!Au~$X00Ul`T<bjVkX9L*3r4hX%6Fo-MY5-#%gl!E2iggx!6+45Ym`
zM%D`7`Y9M5sNY`9#zvh{hm1D$<x%IaL8C#DlpyUAq+NrwO`mwg)g1B=CSKnGK*MX$
zaM`Xw!zn0s*&rdqWmAL=XQ1KBvDxrs<7^@08$$~m??J{l_7yZ<x>hy*0sbgrBvKb`
z-sKoRa*vDdZEw7O?d#X%MHt6$qTj!NEZjxMgK_-UR!$h6R`Q3jdN%ENgXZW}chH+u
zYaP!}hZyOcd_o?uY(=s`CvubhBmc904I$EK_r1oCmFLvUtIrW)!i(<&&5HV5oW9|b
zv=L0N9=u0<Jr9FFQGm;mW+4}>sHfqr`lea8Q<Eivw!iuDcID$cs`BUC4?2awFx*TN
zNuZ4cknrhnL&I=qns7sHxS1xB$S@M2i6qiSGS);A8%9!TB1sH&UNt({P={)C#)dkN
z8XcmoFxFIfqE+A;g{fAd)F{lf3NIRkLaR_~6dtt-g+^hnRhVfMO09y>C{$X7N~2I~
z6<#$8RI5NW3Ja~mqekILt1!_hFs(v<R$*weE5}7na!DqHF_Q1>!|-bI+`ZlJnOlQc
zIfLO+yfp<O=BQepzOfJGqU-h$1b;M76Sw;ZhTW;A%kUT}^s}jcx63@4&US><&i41R
z&i0rKEfalF7OLE(R)#SiV+-?5JI6{&v;q6Ka<q@o_S7mtQ$kl{A3sPLw$rAEb~e12
z=GyRP)!nSj0XT&uxknFL4|_h;ciU<hp4oqOe`5Pp`0m?AL-Z*U|IrPjV+3p+G4Ea|
zt<w)bHvNPB-{JZF-yd`aoY?+7?aFt)1nzzb_Bxa4?I_7fSyWA?R`;X>+@cBZY5XFm
zzQOk5G5Qbs4a@1;QRxeK+T~hpbDKC2p8H1@Aiy6>LRxMb=PpU#?u$moa!U<}lVm4%
zzy1~hHn`@+#`d&xlNp;BYoC2~SF2}9$YU_ue4eQrX>K0lJ5y%&5hnQWHCN1JuPVRe
zShuSWR$_mO{v`-yf`=rbq2LBW&wRzwCnXq7X38@OvTC3Buga!b#?l4c+YtO#@O9>U
znEXbrh#D+ds;-Xu$2twKj_SOR6caSQHttm4dKQe;kR>J^0I<#`4U}M}ik};~dUNZ2
z`RnEP<mm&kLN1t<^Rktok&;fx<CulY1}DG)@0IvA)0d?M?-Ow(UyG1Qi>D#89^fVa
zntv!1mA6yU84!0#<9JTP)p*B|aVK~Z<e5@jfIYV!!08fhl6+Z32RX#03!1@4(oAS(
z-qTFqa0xP0zK}@mh#RDe=XPf|v(4eePYEHJh&EI)<On7+nv%i<SYQ+1_e{A>;QVSK
zDRa3Wi@m%;APyuJJ@;hxC!}$ae3}^*l94>8DO>1VM&$n%gqEWI`2qok2IX`uzmYgv
zG8HAveP3Sqo{{{Tj11IZR8{L?X5qD&c>x(xsDWo-(%F@YLauw{&u+?75$<@VMFI~Y
zeNiELhDZE~Kik|(qSu>I0(-)<_P8N)oxTW~!3Lr8n6);)67Y!faL-j9v}@;24|eg7
z(8VXe29t4Hcj6hG{Gz0Kckh-QFq@FW_K+3jlAJ6B{hGi<C;vjegU^^CQ(xbe%gkk>
zN+h=hX{vZ}5Xf!}J(y?=_nGU+$lcNsV>%LJ$D<tsb=LwG;f95QHi93+k1T{sr=H7}
zYQSO4Q-*K!tG;gAXy61LNmNfhJw)f@FseDH2PGVbvWsgE&SD(S{;bsn^{r>7!nJA$
zTB-s1LAqf=S@{@J6jL#oTlwfw0!5brDu(eo(D%y#74vr;Xmt^w?Z{n0>85U7W%SjC
z+7H@;V=xNZrzKDx1N)D$>pxcA12>^7Mv}E^pU3XYb726AO<av~zgFGTM0?=2(#=`M
zRKXJGu6Pd$Es~I$reixz$4}98MtyyYz=SXD^xnUR_1;U5-s{NU@ZjP`a2uzHO=Wiu
zdv${Ql_@O_G9L=$(vPChq<9uZKq_73`64PGei6xF<_5lt>^itki3=5-L}>$9Z{FdF
zDR!~*mZ>NBt<x_n|Ar643Lz29;(B?l+K$5n8HY+xk3#tN?0VCZi!?~D;lkeZk!3*&
z5rI%xDFhjcxwL_Y+At;!Y5AsT8emWRw6%9MTZ<s0WE+4`7PB6)3*HMly=8Hfv<3Zh
zFbjt1>PhB5W^Ky3B6S9HjUWxT2Wl5gmM87kyU*r#`mnO`JAz>w^U$7iA^3}V!(TH0
zd@RPIo=P@H{qv03=rB0YMW-CzU=xF>!jkh;d}c%04YN|Kd})@U-P@D{#f=-4PsH8o
z(RgDw4|Bn4cOgIHwsQJ_!afej-T}2Wj~32(zMb1hW-<L|Snlh%&L~{`5GooUkLr#>
zb>H(BCf>2v<AJB+fIq--c^WVs1#Ek8I*Xy{-In04#hzB5+wT^8`iL$!7O%Uj;yHh1
z3)ADTXM!_2;S3QPkKvi1%o@}Wxwd(xBA(h0`t3}Jwa(sas<)7H)mc<Sb$Hv*7vIRL
z$L6ZCSXAhYya`t#>=+1CKaVa0p_Be}Q3$iMu1px6Oc<FeWpEiEtgR1iejrp1l~8jM
z&+|WWnUX2j%cr*|rY`Frt~#T$cf?)<ax15|Ehd*KrKYa5#i1_DGl>^WuqD3Lulo9A
zaAODFRP?92(5=e)C$eII+Y@YErfbCXT4VbB4Ll0uj8_Q@Qpg`uQC?Y{yv%u|uotNZ
zf#Hga>pb$eb`)Eonk;c2%U~eQa&&!1cg5Xcjt08ZFmXzVNnhO@HDT%*^>7i%L5!>>
zqa(s;^`)j6;LAN^M~-ez^?y3hm|wEC7O`K>T?1IVl>^fV!h4RKX5~jhO*?}cJ+kud
zKA@8yYqN6mLN<%3aZ3IJ$s?&l>pzAGc-pmDZFAZ<5T5%-$nShCFU@dmm}}Eq)BB<k
zvJ5K5a`i%z{`!-IjZH~{ZIsCjI7a*Ivny$(-GyJ5)8+nF{DMn46>%`z-UqwrJN*p-
zC^^G$hcIVelA%0bA-rA6Netu9R1%KzNJvhL^=LANe?be>4Fm*xl+zSR0%=MLIhuqu
zz=PmJm@K9Fn~Lp++2qH6kALs(?qPr#C%&c_Nsg!#@kh>fcakTW{)YN}&3iu;n=k(N
z6<K}wbW=d!tAb*dR^)(31$?5ZmOxx~7#~*SF)Ji36tN<=ZyFVHyeD{}P4Zy)75_`H
zehlFF8{3lN8z*EQuZe^^W!@g}1nBOk5Q4-)Y3m8vO%%;j!h!!t<pyF@B24A8D_GAf
zmDoUOet_21CE|i`SNP$|d{=1Q!2<nL3k-}T+UglAiX*eZSbjksD-6=hy3rj|9FvbU
zCqaqirUJ?PfP@RX=z!(`@rK|nNw0u0ra)C(4-^_8j$CkxYp6eY{ptf&M+yK|&pPfL
zBG+|5G=V~88GX8zk#Yp&WxnSMDGD4RQ4qO8a%LTMW}R|oopNTKa%G)QftR>~O7#A9
z1Et)tQqEWfX74$}(lh7^%j`dASPpHZE^QR_H*vEh0_D(O%AvoMLw_lE{t9i3a6~Lr
z4#A?ss&Iv-T%sLw5I2{a==$r-7;g|qSXS5Ju8Ew^b!^tt%8rKRfPF;cqt=rgtD|&s
zs@PmDdx(3{S$cCE)dMEXn7;Y<5QtUL5*g^^<X|z|_Ck5fWDnTi3bIC$?g`8ftI6U&
zh*7U}sGU>2p3t*W1Sw}_Ff$+KsZ!>>gR(cO2bEU8kJjWfd75+1_-p#Ios4HxlsS4f
z&y|kgD$Ba-3Ex9cI3p{yZfS`IYgxRaCe~qKPq+-s9GMYl;;+FMaf7x~on<%RCusA)
zOl3tXd2dpaxLwX^t4^<6w=ZfB%s#A_E@pX7ums+skZfT#sAPOh^*@l-0slc{Lu(g(
zCV$gMNpM%9q7VAdUgd=w&Q#fNhisiHIOEUymq+^XFP$nl<IjiOJg$kpVyMFIE|ZQ`
z{Nc1qb;qVO96;dN+Hh3})vuzHm|{+1{mL=yq2B5q*OVF?)IoRF0K%s9y6zoW##q0C
zLSt1Bqpr5;liZqitK?Z^x3dt#V?p>0z=jI&ttqf3*)81obXPVQ9S<T)_~;EQ**cEQ
zOk83d{-cu?nFyk9{aU(`n_iS_$}TS&``FRg8fK8aweX3_F6P}YS$UZDMK8$c1Ttwu
zM&wD7B0Y>c-At2vIG^j$-LAfE1I{+(i4~4+6!rS=n5B$Na|<gj7<bYvvs9Z-S=SXE
z3)2a!(&&dvovOA|k2KDl`GO-uoU?+2Q~PP3n{eSOxJF3WZeawkZA_V5Ti-QvClixs
zFtRJ<b3HlTNcp4GoS8P-z>JbSg*1bO&iy&vQ_F2}k(}*9YC=AYrgo`;z}74Tv~AF=
zXxh(apSK(W@Rfb$dDY+UO3|w+9{trpy3N>YGR@|Y`yZeUSPK3ihX#1swO3nj+AtW^
z{!w#-@Hi-&m^L)^vaNghWSlR>N@8cW18sl(YzJDXTCg)sJOnvD=X`fNaJ5)&mU^bf
z>1B1BHlv^H38JW#f<i;66mixPsW6IGgjT91Y7N~|+uux8A1|kOzqenS>sv^vkeDbf
zQ>IZy(QHlRf)|XUnom>s0KP(_7oi7OJ!)L^a&HPcv78j7HBU7`-ZdzR#>ssDuZK>f
z7@m#GriN9`|G_M3ocpgqm>jBc!JklyVS>w<pJH6rf@mn%J=5x9nuTC<EeWd`zlUeD
z!x%DFAlG}$=9>q^<TQrStdmL@zm+CZE7&r<9>y>_U~uUjMANSff{sbCA)NMLpP*mV
zNJ`M6Lhg@gJ5KeBe_j|#wqPpEq}Ly_6|#VpL{fQUBHQbsLQ!E>sAw8fKHi|CQujyM
zIM7f7W0xR{LehAnl2t8e73^3-g;6U)ZA@JEnK7fm_!s~)?Xos=N3|rNZqwS1DpG^$
z%91^J<FcJ|!70dW;)WDgrYhDBadEtNkqc^0rcU}p^PQJN?0sVl`(opZgGMq>uFccC
zH{ztgnl;vG5G8~Uj5yPzLg=_=CTO@dP9O*gC`w<7g!wm0YNPABIdjv(d$;Q)@7-=5
z`|civO{`H^4)#UsyFU+Y#ECt22sI+!h<-2;{@5R>Y6d4T<}}S<{I&NYO28Hpl%%e0
zH#mY{Y6~Z26V|jxG>dnxTw~KB8<aZzBt_#cm}AKIT6^$3EzR4V>3>cuKZB3tQ|H8v
z;XZ^Ry>1DgP_qPz>0wur%qC0?gW3+;K^30OnzQzulvSQ7a~y;6<&dwEb<X1KyY1Xu
zp$2m{@EuN{$1QA0ALW&W<Td*&Mb{=TXntPOLEecj_l#~&GAO(~^eDbjh|5uaWA9Mc
z?g};SSY4nz2*7EoOwtWfW4HMlisCE!1L=;!ERA5|sBa|V+)|nq@7Yx21E7>b4o~B&
z@(Jv*oG3VGv(PV|*mgIt{$p_vMN;EH%gxOZn^r&m1&>hN5YsyU2YA}eS!;9JIuM=y
zBmBbVV|ld0oi?|(=_BnIjgaL;7u$052%*3J%Ek^jaIwTPola(m!JM;aS1awVL7#7)
zKF(wu&evbVV*H)`LY`L%PEdh~;Qo!8`sR}_d`-(+B`7X}l5XB0XIR1{qD7^)JM4`*
zgN_7wqGZ{SM4!nwO3Y=5CJo&eLFvL96?jb%-;^{pcXpg|hR#chQ2c=@Dsb+3tF59)
zD#6P83(zb<QfC=^rs)M}4MF=^;Dg}f5CUi37zBrjXE5;^CSJqDYmoSWd42-ICrFn7
zyaw9WF#BPh_b>tze-J^P`!E8i3k>XnWWOk26+;b;friFFLt~(UF^HO-2$2wJD8qQS
zkRS>Trbsfui@J&$7V<#J`T~;ig+(}#R3Ta6(iu4+4_IJgu3IRw>_$T5`As`A)hth`
zFdvP3T}iNE>H!g4VZzkb+-wctL2bzg`n(W=i}1iDItUAI&9}W#&IwjDMOe8ai+bUa
zG=XtMdV)%xKV4$flUxfzk)qFz(6KHz0#|OJ#ALX_tK8AU3Bh@O7@7M)+&&dvCucc`
zjou5ct9^5A4XO8!>8~A8uLV91<35=^t_}pMVaPJ2<t32VK#;($u)b4gH}xc?iW0@R
z*#oR(is9TGhEBLJ<8>BiCQVkDtevnXkpbwKm6D|t?e8}5J2@H*RBtA`QT5+UuHVk5
zKYnihDsI1`kZ?f*lT%|QFjF#qXO4LD^_Qdm#nf4~p08><NVbNi@hQ_MjfeFq-B~9*
z&yClfzbqAB*2lNvV#3TD#JU6gPWtElo=H3n?!ABHd%T_@Z?wPJ)3p2_K}JORM1>0L
zP#i~b5!Rt;l>}}pU~lrE%=GP@U50=a)o=FSvX&Z>psA(Z!ZtZ_;H71TB&<z}q|1)5
zG<C&r{W*#zO{4W-vUV>kJ})cj4u;>ldWrk_aq9HQ3Kh?pta7}quUqoT)yShcUFrJ+
z>bI5!!cFiL&U&PDZr!Cq4(ElF6<h7^uEBaD&Yt}aeR&#qv@uVZi%8B(8qJ#5=6b*V
z23!fPaxqS6hIMXyYX7(II~(WSGN+Wly9b+dnzN#AI$f4yWj|E7(2}dro>=D0uJ3ly
znme@QZeok;Fdr%Ami@V#+6vBkq*Pc=1a3+tob^bl2A<QTs3xDVsAqu1qfZ}O+GjYe
zH)?tR7O8>nu93OXn%Kfk1co~37~Ou72@%?lX7-OydN9jjx`(lyHDAxDwqxMl*vw`q
zimxyfjoQjGv#Iehtj2e?hJHlr>WhC+U&4PmbA7rLG~w(|s&{g2GkA0ymc3~co0rbF
zK_0ZH4hhhEuwke37@1pl=zaKqe2`D%j7HfAc-qZbZI9wM5LW*YCJBU(UD%$euIRdZ
z*V2BmjB&uld0D@(FTcJ{Ae#W;upRH|w9+byc%FG?JY$b1@L@4s>=$w>#^G%DElfv$
z(>Dk}!E+2#gn2#;Xj*_#^8yx#3o^Ki;4koDvH#;Hcp>kG5KLwyA)J%-*L+8^N686F
z!I10`Q%Dk+<<I@;#x#>Tl;s;Js#m=^V=5p?3;B9r63~Pz)Nk9m0+l^;RA^0T#Yi8f
z@W_<W%~rBLqJoS(_kf?rWo1MX!T2+Ix#v9Rp(s#x1XDwB_^2^pz;dipW(|>a!>9B`
zqXm`32@g0CIorDn03uf$6DY}x8$ov#SaFOF6fV#SMvS$?ml~p@Pdrz}74>!`t?ab}
zj@tWzB{mjB!dBWonWE=wl1TuxW{9^0@5tJXq4XN6tQSXj^esuEQV2&q-5J*`{aiX<
zmc1c*{8^_kM+|_~t3H8rV$f{k%t2!)RFafii!+Dn&oNAbp$C#t*q?-gkp~hV?oc1@
zC?D=9AMPj*?gSJJV-GB`F5ccO%8M4|LrYlJj}IEXMjmL&8uCHo$0_Q`DM8;z@AVFq
zpV%lru~B|v(|I~O(0B=PRBaOdy^53{p3xz5JP;{QL~+9Nv}_$NdKg=(QLp}^Zx1xV
zTf`C8&lQ2gK)?_;sjlcaPYcQjKit*Lpuu2GR%%mu2@^`#8qx%2d8XsGr-+%c#3>ai
zl6YJFd?^NofjYVTE@b&P6}w+&cmMqR{CoQN4Td=9B+!dEk{nSf#=q&z&_93AkfTB1
zYOu>(lFIRnih`ln^7&{YaxpQ#Vq=W+Y)`lhOMf(M3?~)pD<|YWES)=AMV=jtX616X
z+#<Fk1{?CkBYDS?Y~0hV(@a>FZJlX2XN+J8hI3t8^Rk|0&JTq~>xy2At*M0IeSJ$V
zLlH4O+Kp=gVOEbfe!T5TwY_h32#x}n&49xuZ*r>%f?d)SzPK+`bE^yXHD;U^lP`!%
zz4_ih4aw7yTzVnz4vF%`eG!ru%M-KD8Sv_0%REMJ{@Bl=)Mt=xJa3K@#Mlbq-OZu%
zcWEMy_XN)?LD2*Li{Of{b$A7gWcrN(S6kAsdxX6)ck22a+lAy}m~BsTG0=6;(J>Tv
zVX>Z!pR!yGhaJ%E3GvN#t;w>e$+D9c=}L7)nB^IXrq%!IS;O2#pZEXFilTFj`eZ}V
zc@J^>vM6BlZBdK(4*nqii@tfuv9^hu>yt4I30U5IEMZOIn}x{e>arAT+aA=gXRlK7
zUCcYW)xA4ye`njqQUvC;0)nbo>V~zeXxy95rjoMT3tE*=2w}Zvl+EfbP@~lJ)>Ip6
z$6Pl`H`P^@d7_SfjJnFuiMr`cLv_)g=-YjWzS`7@LUPkob*i-FnV0zKZnzZxeN5OZ
zTPN4(pP-1E+f!Xh%UfScyABk~YXknE-ES(;U9bUvice@ag<#Ndp6!JH15)E|uGTBD
z26)=dSX*z}FcjAQ5ed%iae=hUw4$w-jqSxU!O)c4unq0{>t`Dh2qeUTHl2_n3-~Vn
z&apWH-j3Ge5gSko3>Oa|Hh+b$P}4G!1~5heNp($U=>jK^GJ;V&Vy+HtKVhlQFd4DU
zYd{yDhwkq`&tK!a2MB_cU=Z@pO-4}2s4dorrNs8P3y|O!_6dHBxI@EN3?IW}>ws$T
zqzQurYaIAo-GIhz@Dm4oX+h^+Si2_}do?zUAW9Q#4CGU;Ic%#5+wB{a_gx{@pT*1=
z;>l_*R$Rp&t#9Z6o>1YuCbYiEfFg^oCNx7y=J7XkxOy;}E|YOrVKl`g^Gse~oJ={J
zRj@5j)7di=MH3V(>U`M+)A}@1Ka8^`k}(C1*=U-q@tv%Kuh?)_kVX*>nCZy`B+*{4
z?1C{1Cq^eu+!t7>ZoaR&reBdX&JW*V9L|h?2nFoGlUjk_)|p-FY}YkbmuZQT)g)wf
zpO8C*b*b20xY?a3yZS`!{5T!@5wV=%p?uwS-^l2L?74nz7fm{|)S{Jwu1$%6s*Jog
z-aLjs#YwH=BchMsi+G4tewmC0Ev^&$O&j5=+z34v{a=PCEL&>Pp7vX{C#r1E+}HZ%
zbW7-E8(JU21V6*v=!W9-jK?Jjl2pzRM`3)&$EZFhITs7k3@7J;#S~4k3c46g_3g}_
zd3KBz7{)6xO>Zb@Pkq3(CCkl<@!1wpNn_<SO;ff}45C0xp<5JgL;)GtQyS)wc_U=k
zE&Eb)_0HX@YQ0%VD1(!~44+L>w%!))M5t^aRJsx>w8J*q#x+S-nbs5W!M%Pvhh@J8
zXTY7QXnfH*7jVdZ><%4`6;rIup&h|~1nrPVyKf0U+<4M>c=9bvVYp{p9eR|ODioX{
zca)Ga@GzTYo5rfT%+`vvImV9tk$(conR}VH@h-<3zwQr^AkLich_Dbv-ZJxayyTcd
zqR}3u7YJF3LPe0gRF|t!t+C$6V@QPtA3KsYCJcyaNPGji{kisoUZceTYP}t2iOmCI
zR@yqz73<%XAMlQT<llcqCF?yrDS5CqzgHJ$Az3#1{{St(ziDDdc-o5(@+)&L&ImLP
zPfAU4^mfmSH#9EI%S_HsNsZ4;NzE%UG|DWFugFY^FD^+eDq)N#sNNK+J~=<HBr~rx
O6#&rBBnAKg0000k<R@wX

literal 0
HcmV?d00001

diff --git a/src/crypto/mod.rs b/src/crypto/mod.rs
index af0738c..904737c 100644
--- a/src/crypto/mod.rs
+++ b/src/crypto/mod.rs
@@ -191,7 +191,8 @@ impl Display for DecodeSigningKeyError {
 impl Error for DecodeSigningKeyError {}
 
 /// A (private) signing key.
-#[derive(Debug)]
+///
+/// The `Debug` form only shows the public part of the key.
 pub enum SigningKey {
     /// The RSA signing key.
     Rsa(RsaPrivateKey),
@@ -243,6 +244,17 @@ impl SigningKey {
     }
 }
 
+// `RsaPrivateKey` would print the private exponent and the primes, therefore
+// only print the public key.
+impl fmt::Debug for SigningKey {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        match self {
+            Self::Rsa(k) => f.debug_tuple("Rsa").field(&k.to_public_key()).finish(),
+            Self::Ed25519(k) => f.debug_tuple("Ed25519").field(&k.verifying_key()).finish(),
+        }
+    }
+}
+
 impl AsRef<SigningKey> for SigningKey {
     fn as_ref(&self) -> &Self {
         self
-- 
2.43.0


From 169b9c2707f99461586ebbce4078d90c706fc5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 11/12] fix: reject domain names whose U-label form does not
 convert back

---
 src/signature.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index e6244dc..ecfceb6 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -236,7 +236,12 @@ fn is_valid_domain_string(s: &str, check_tld: bool) -> bool {
     // error in both directions.
     match idna::domain_to_ascii(s) {
         Ok(ascii_s) => {
-            is_valid_dns_name(&ascii_s, check_tld) && idna::domain_to_unicode(s).1.is_ok()
+            // The U-label form must convert back, too, which for example is not
+            // the case when it is itself prefixed with ‘xn--’.
+            let (unicode_s, result) = idna::domain_to_unicode(s);
+            is_valid_dns_name(&ascii_s, check_tld)
+                && result.is_ok()
+                && matches!(idna::domain_to_ascii(&unicode_s), Ok(s) if s == ascii_s)
         }
         Err(_) => false,
     }
-- 
2.43.0


From 212177a52419dd0b3271fd27708d3bbeb035b981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:08 +0000
Subject: [PATCH 12/12] fix: select and copy header fields in linear time

A message with many header fields and as many names of signed header
fields took time proportional to the product of both numbers: 256 KiB of
fields with an h= tag as long took more than 30 s to verify.
Look up the instances of a field by name instead, and the names of
copied fields in a set.
---
 src/canonicalize.rs | 27 ++++++++++-----------------
 src/signer/sign.rs  |  1 +
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/canonicalize.rs b/src/canonicalize.rs
index 3e6297e..9c29d06 100644
--- a/src/canonicalize.rs
+++ b/src/canonicalize.rs
@@ -20,7 +20,7 @@ use crate::{
     header::{FieldBody, FieldName, HeaderFields},
     signature::CanonicalizationAlgorithm,
 };
-use std::collections::HashSet;
+use std::collections::HashMap;
 
 const SP: u8 = b' ';
 const CR: u8 = b'\r';
@@ -34,25 +34,18 @@ pub fn canonicalize_headers(
     selected_headers: &[FieldName],
 ) -> Vec<u8> {
     let mut result = vec![];
-    let mut processed_indexes = HashSet::with_capacity(selected_headers.len());
 
-    for selected_header in selected_headers {
-        for (i, (name, val)) in headers
-            .as_ref()
-            .iter()
-            .rev()
-            .enumerate()
-            .filter(|(i, _)| !processed_indexes.contains(i))
-        {
-            if name == selected_header {
-                canonicalize_header(&mut result, algorithm, name, val);
-
-                result.extend(CRLF);
+    // Instances of each field that are not yet used, the bottom-most last.
+    let mut instances: HashMap<_, Vec<_>> = HashMap::new();
+    for (name, val) in headers.as_ref() {
+        instances.entry(name).or_default().push((name, val));
+    }
 
-                processed_indexes.insert(i);
+    for selected_header in selected_headers {
+        if let Some((name, val)) = instances.get_mut(selected_header).and_then(|v| v.pop()) {
+            canonicalize_header(&mut result, algorithm, name, val);
 
-                break;
-            }
+            result.extend(CRLF);
         }
     }
 
diff --git a/src/signer/sign.rs b/src/signer/sign.rs
index fab10a7..f0a6305 100644
--- a/src/signer/sign.rs
+++ b/src/signer/sign.rs
@@ -210,6 +210,7 @@ fn prepare_copied_headers(
     headers: &HeaderFields,
     selected_headers: &[FieldName],
 ) -> Vec<(FieldName, Box<[u8]>)> {
+    let selected_headers: HashSet<_> = selected_headers.iter().collect();
     let mut result = vec![];
     for (name, value) in headers.as_ref() {
         if selected_headers.contains(name) {
-- 
2.43.0

