From 67d24192d21b9e49f35339d2326c940d6474c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 1/7] fix: encode the FETCH MODSEQ data item with parentheses,
 as the parser and RFC 7162 require

---
 imap-codec/src/codec/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-codec/src/codec/encode.rs b/imap-codec/src/codec/encode.rs
index 6433227..edbaddb 100644
--- a/imap-codec/src/codec/encode.rs
+++ b/imap-codec/src/codec/encode.rs
@@ -1777,7 +1777,7 @@ impl EncodeIntoContext for MessageDataItem<'_> {
                 size.encode_ctx(ctx)
             }
             #[cfg(feature = "ext_condstore_qresync")]
-            Self::ModSeq(value) => write!(ctx, "MODSEQ {value}"),
+            Self::ModSeq(value) => write!(ctx, "MODSEQ ({value})"),
         }
     }
 }
-- 
2.43.0


From 5ea640b2964c083bac21a21a0d99784ffe752327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 2/7] fix: do not reset the recursion budget when parsing a
 message/rfc822 body

---
 imap-codec/src/body.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-codec/src/body.rs b/imap-codec/src/body.rs
index b78f51c..13cbadd 100644
--- a/imap-codec/src/body.rs
+++ b/imap-codec/src/body.rs
@@ -70,7 +70,7 @@ fn body_type_1part_limited(
         }));
     }
 
-    let body_type_msg = |input| body_type_msg_limited(input, 8);
+    let body_type_msg = |input| body_type_msg_limited(input, remaining_recursions);
 
     let mut parser = tuple((
         alt((body_type_msg, body_type_text, body_type_basic)),
-- 
2.43.0


From 3b8a4ad09b1536b98820b095b1e5889539cd4019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 3/7] fix: recognise SCRAM-SHA3-512 and SCRAM-SHA3-512-PLUS
 when reading an authentication mechanism

---
 imap-types/src/auth.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap-types/src/auth.rs b/imap-types/src/auth.rs
index 3a7ed8a..1847b95 100644
--- a/imap-types/src/auth.rs
+++ b/imap-types/src/auth.rs
@@ -157,6 +157,8 @@ impl<'a> From<Atom<'a>> for AuthMechanism<'a> {
             "SCRAM-SHA-1-PLUS" => Self::ScramSha1Plus,
             "SCRAM-SHA-256" => Self::ScramSha256,
             "SCRAM-SHA-256-PLUS" => Self::ScramSha256Plus,
+            "SCRAM-SHA3-512" => Self::ScramSha3_512,
+            "SCRAM-SHA3-512-PLUS" => Self::ScramSha3_512Plus,
             _ => Self::Other(AuthMechanismOther(atom)),
         }
     }
-- 
2.43.0


From cd035730d3c7fcb0c482655a75f14217949f5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 4/7] fix: recognise the NAMESPACE capability

---
 imap-types/src/response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index 9517dd4..3a5c598 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1230,6 +1230,8 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
             "condstore" => Self::CondStore,
             #[cfg(feature = "ext_condstore_qresync")]
             "qresync" => Self::QResync,
+            #[cfg(feature = "ext_namespace")]
+            "namespace" => Self::Namespace,
             "uidplus" => Self::UidPlus,
             #[cfg(feature = "ext_utf8")]
             "utf8=accept" => Self::Utf8(Utf8Kind::Accept),
-- 
2.43.0


From 89f78b521420b1c1fba04f26e93d9bba50142158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 5/7] fix: keep the spelling of unknown QUOTA=RES- resources
 and require the prefix

---
 imap-types/src/response.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/imap-types/src/response.rs b/imap-types/src/response.rs
index 3a5c598..1f31581 100644
--- a/imap-types/src/response.rs
+++ b/imap-types/src/response.rs
@@ -1254,12 +1254,11 @@ impl<'a> From<Atom<'a>> for Capability<'a> {
                             }
                         }
                         "quota" => {
-                            if let Some((_, right)) =
-                                right.as_ref().to_ascii_lowercase().split_once("res-")
-                            {
-                                // TODO(efficiency)
-                                if let Ok(resource) = Resource::try_from(right.to_owned()) {
-                                    return Self::QuotaRes(resource);
+                            if let Some((prefix, name)) = split_once_cow(right, "-") {
+                                if prefix.eq_ignore_ascii_case("res") {
+                                    if let Ok(resource) = Resource::try_from(name) {
+                                        return Self::QuotaRes(resource);
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From 7d8c4c149b76c62dacab780c70e72f3467b80e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 6/7] fix: keep the start of a half-open range converted to a
 sequence

---
 imap-types/src/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/imap-types/src/sequence.rs b/imap-types/src/sequence.rs
index 73d70b0..e25fcf2 100644
--- a/imap-types/src/sequence.rs
+++ b/imap-types/src/sequence.rs
@@ -594,7 +594,7 @@ impl TryFrom<Range<NonZeroU32>> for Sequence {
 
     fn try_from(range: Range<NonZeroU32>) -> Result<Self, Self::Error> {
         Ok(Self::Range(
-            SeqOrUid::from(MIN),
+            SeqOrUid::from(range.start),
             SeqOrUid::try_from(range.end.get().saturating_sub(1))?,
         ))
     }
-- 
2.43.0


From a3d036737f431b6fae17e77bb10c0f29cdc213a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:05 +0000
Subject: [PATCH 7/7] fix: reject line breaks inside quoted UTF-8 strings

---
 imap-codec/src/extensions/utf8.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/imap-codec/src/extensions/utf8.rs b/imap-codec/src/extensions/utf8.rs
index 604c804..16ef874 100644
--- a/imap-codec/src/extensions/utf8.rs
+++ b/imap-codec/src/extensions/utf8.rs
@@ -40,7 +40,8 @@ pub(crate) fn quoted_utf8(input: &[u8]) -> IMAPResult<&[u8], QuotedUtf8> {
         dquote,
         map_res(
             escaped(
-                take_while1(|c| !is_quoted_specials(c)),
+                // A quoted string never spans lines.
+                take_while1(|c| !is_quoted_specials(c) && c != b'\r' && c != b'\n'),
                 '\\',
                 one_of("\\\""),
             ),
-- 
2.43.0

