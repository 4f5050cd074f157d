From 3a3a68427fc25a5d0053f4a132e73efb36f9ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:25 +0000
Subject: [PATCH 01/17] fix: refuse to start XXfallback+hfs without a preceding
 fallback

---
 src/protocol/handshakestate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 87ce1ea..9899142 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -804,7 +804,8 @@ int noise_handshakestate_start(NoiseHandshakeState *state)
         return NOISE_ERROR_INVALID_PARAM;
     if (state->action != NOISE_ACTION_NONE)
         return NOISE_ERROR_INVALID_STATE;
-    if (state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK &&
+    if ((state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK ||
+            state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK_HFS) &&
             (state->requirements & NOISE_REQ_FALLBACK_PREMSG) == 0)
         return NOISE_ERROR_NOT_APPLICABLE;
 
-- 
2.43.0


From 2a1ca9adad7672833f2ecbbb611a9c048bdb3ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:25 +0000
Subject: [PATCH 02/17] fix: refuse fallback between hybrid and non-hybrid
 patterns

---
 src/protocol/handshakestate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 9899142..cd022ca 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -999,6 +999,12 @@ int noise_handshakestate_fallback_to(NoiseHandshakeState *state, int pattern_id)
     if ((flags & NOISE_PAT_FLAG_REMOTE_EPHEM_REQ) == 0)
         return NOISE_ERROR_NOT_APPLICABLE;
 
+    /* The fallback pattern must involve hybrid forward secrecy if and only
+       if the original pattern did */
+    if (((flags & NOISE_PAT_FLAG_LOCAL_HYBRID) != 0) !=
+            (state->symmetric->id.hybrid_id != NOISE_DH_NONE))
+        return NOISE_ERROR_NOT_APPLICABLE;
+
     /* The initiator should be waiting for a return message from the
        responder, and the responder should have failed on the first
        handshake message from the initiator.  We also allow the
-- 
2.43.0


From 652b6f0b382c68fe2ae6ff3c397b6ffc689f9efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 03/17] fix: refuse fallback from the one-way pattern Xnoidh

---
 src/protocol/handshakestate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index cd022ca..b9c1abe 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -985,8 +985,10 @@ int noise_handshakestate_fallback_to(NoiseHandshakeState *state, int pattern_id)
     if (!state)
         return NOISE_ERROR_INVALID_PARAM;
 
-    /* The original pattern must end in "K" for fallback to be possible */
+    /* The original pattern must end in "K" for fallback to be possible,
+       and it must not be one-way */
     if (state->symmetric->id.pattern_id < NOISE_PATTERN_NN ||
+            state->symmetric->id.pattern_id == NOISE_PATTERN_X_NOIDH ||
             (state->requirements & NOISE_REQ_FALLBACK_POSSIBLE) == 0)
         return NOISE_ERROR_NOT_APPLICABLE;
 
-- 
2.43.0


From 062188d1b51651c8cf237d7327423ee78571fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 04/17] fix: do not hand out a freed handshake object when
 creation fails

---
 src/protocol/handshakestate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index b9c1abe..f1faf67 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -223,6 +223,7 @@ static int noise_handshakestate_new
     /* Bail out if we had an error trying to create the DHState objects */
     if (err != NOISE_ERROR_NONE) {
         noise_handshakestate_free(*state);
+        *state = 0;
         return err;
     }
 
-- 
2.43.0


From 51e2d8cd22abbebe468d0c5f3129346cc7f30fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 05/17] fix: do not replace an earlier error when a hybrid
 handshake cannot be created

---
 src/protocol/handshakestate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index f1faf67..f44a75d 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -177,7 +177,7 @@ static int noise_handshakestate_new
             err = noise_dhstate_new_by_id(&((*state)->dh_local_hybrid), hybrid_id);
         else
             err = NOISE_ERROR_NOT_APPLICABLE;
-    } else if (hybrid_id != NOISE_DH_NONE) {
+    } else if (hybrid_id != NOISE_DH_NONE && err == NOISE_ERROR_NONE) {
         err = NOISE_ERROR_NOT_APPLICABLE;
     }
     if ((flags & NOISE_PAT_FLAG_REMOTE_STATIC) != 0 && err == NOISE_ERROR_NONE) {
@@ -191,7 +191,7 @@ static int noise_handshakestate_new
             err = noise_dhstate_new_by_id(&((*state)->dh_remote_hybrid), hybrid_id);
         else
             err = NOISE_ERROR_NOT_APPLICABLE;
-    } else if (hybrid_id != NOISE_DH_NONE) {
+    } else if (hybrid_id != NOISE_DH_NONE && err == NOISE_ERROR_NONE) {
         err = NOISE_ERROR_NOT_APPLICABLE;
     }
 
-- 
2.43.0


From 4e9bdbbe4d0e40055c4b8419b68bd98a90e6b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 06/17] fix: step over multi-byte UTF-8 sequences when checking
 strings

noise_protobuf_is_utf8() did not advance past the continuation bytes of
three- and four-byte sequences, so every valid string containing one was
rejected by the string readers and writers.
---
 src/protobufs/protobufs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index a3826d6..b9711f2 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -874,6 +874,7 @@ static int noise_protobuf_is_utf8(const char *str, size_t size)
             if (ch < 0x80 || ch > 0xBF)
                 return 0;
             code |= ((uint32_t)(ch & 0x3F));
+            str += 2;
             size -= 2;
             if (code >= 0xD800 && code <= 0xDFFF) {
                 /* Surrogate pairs are not allowed */
@@ -899,6 +900,7 @@ static int noise_protobuf_is_utf8(const char *str, size_t size)
             if (ch < 0x80 || ch > 0xBF)
                 return 0;
             code |= ((uint32_t)(ch & 0x3F));
+            str += 3;
             size -= 3;
             if (code > 0x10FFFFUL) {
                 /* Unicode code points stop at U+10FFFF */
-- 
2.43.0


From f998f36985ea00d6301149dff5d8262d43a970d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 07/17] fix: step over the first byte when peeking at a varint

noise_protobuf_peek_varint() read the first byte of a multi-byte varint
twice, so noise_protobuf_peek_tag() and noise_protobuf_peek_size() were
wrong for every tag above 15 and every size above 127.
---
 src/protobufs/protobufs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index b9711f2..ae9ecc6 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1063,7 +1063,7 @@ static int noise_protobuf_peek_varint
     posn = pbuf->posn + *length;
     if (posn >= pbuf->size)
         return NOISE_ERROR_INVALID_FORMAT;
-    ch = pbuf->data[posn];
+    ch = pbuf->data[posn++];
     ++(*length);
     if ((ch & 0x80) == 0) {
         *value = ch;
-- 
2.43.0


From 4b40d181f9b6acee62da57f2336bb1eb78862649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 08/17] fix: report an error when reading a negative protobuf
 tag

The condition was inverted: a negative tag on a protobuf without errors
was ignored and the value was read as though it was untagged.
---
 src/protobufs/protobufs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index ae9ecc6..463d30f 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1218,7 +1218,7 @@ static int noise_protobuf_read_tag(NoiseProtobuf *pbuf, int tag, int type)
         err = pbuf->error;
     } else {
         /* The caller-supplied tag is negative, which is always an error */
-        if (pbuf->error != NOISE_ERROR_NONE)
+        if (pbuf->error == NOISE_ERROR_NONE)
             pbuf->error = NOISE_ERROR_INVALID_FORMAT;
         err = pbuf->error;
     }
-- 
2.43.0


From 2ca444a49ffe5455d8f4fd46df4425ad920ec062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 09/17] fix: refuse a NULL protobuf when reading an untagged
 field

The string, bytes and element readers are documented to return
NOISE_ERROR_INVALID_PARAM for a NULL protobuf but dereferenced it when
the tag was zero.
---
 src/protobufs/protobufs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index 463d30f..f0c3984 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1202,6 +1202,8 @@ static int noise_protobuf_read_varint(NoiseProtobuf *pbuf, uint64_t *value)
 static int noise_protobuf_read_tag(NoiseProtobuf *pbuf, int tag, int type)
 {
     int err;
+    if (!pbuf)
+        return NOISE_ERROR_INVALID_PARAM;
     if (tag > 0) {
         /* We expect a specific tag value and wire type to occur */
         uint64_t expected = (uint64_t)((((int64_t)tag) << 3) | (int64_t)type);
-- 
2.43.0


From ed9ebb219922d007f5928ecb16e374fc21ee8532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 10/17] fix: report running out of memory while reading a
 certificate or key

---
 src/keys/certificate.c           | 99 ++++++++++++++++++++++++--------
 tools/protoc/proto3-generate-c.c | 17 +++++-
 2 files changed, 89 insertions(+), 27 deletions(-)

diff --git a/src/keys/certificate.c b/src/keys/certificate.c
index 99b107b..e1ede9e 100644
--- a/src/keys/certificate.c
+++ b/src/keys/certificate.c
@@ -174,8 +174,11 @@ int Noise_Certificate_read(NoiseProtobuf *pbuf, int tag, Noise_Certificate **obj
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_Certificate_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -192,8 +195,11 @@ int Noise_Certificate_read(NoiseProtobuf *pbuf, int tag, Noise_Certificate **obj
                 int err;
                 Noise_Signature_read(pbuf, 3, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->signatures), &((*obj)->signatures_count_), &((*obj)->signatures_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_Signature_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -376,8 +382,11 @@ int Noise_CertificateChain_read(NoiseProtobuf *pbuf, int tag, Noise_CertificateC
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_CertificateChain_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -386,8 +395,11 @@ int Noise_CertificateChain_read(NoiseProtobuf *pbuf, int tag, Noise_CertificateC
                 int err;
                 Noise_Certificate_read(pbuf, 8, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->certs), &((*obj)->certs_count_), &((*obj)->certs_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_Certificate_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -520,8 +532,11 @@ int Noise_SubjectInfo_read(NoiseProtobuf *pbuf, int tag, Noise_SubjectInfo **obj
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_SubjectInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -548,16 +563,22 @@ int Noise_SubjectInfo_read(NoiseProtobuf *pbuf, int tag, Noise_SubjectInfo **obj
                 int err;
                 Noise_PublicKeyInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->keys), &((*obj)->keys_count_), &((*obj)->keys_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_PublicKeyInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             case 5: {
                 Noise_MetaInfo *value = 0;
                 int err;
                 Noise_MetaInfo_read(pbuf, 5, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_MetaInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -867,8 +888,11 @@ int Noise_PublicKeyInfo_read(NoiseProtobuf *pbuf, int tag, Noise_PublicKeyInfo *
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PublicKeyInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1027,8 +1051,11 @@ int Noise_MetaInfo_read(NoiseProtobuf *pbuf, int tag, Noise_MetaInfo **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_MetaInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1200,8 +1227,11 @@ int Noise_Signature_read(NoiseProtobuf *pbuf, int tag, Noise_Signature **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_Signature_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1552,8 +1582,11 @@ int Noise_ExtraSignedInfo_read(NoiseProtobuf *pbuf, int tag, Noise_ExtraSignedIn
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_ExtraSignedInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1580,8 +1613,11 @@ int Noise_ExtraSignedInfo_read(NoiseProtobuf *pbuf, int tag, Noise_ExtraSignedIn
                 int err;
                 Noise_MetaInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_MetaInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -1837,8 +1873,11 @@ int Noise_EncryptedPrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_Encrypted
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_EncryptedPrivateKey_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -2123,8 +2162,11 @@ int Noise_PrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKey **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PrivateKey_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -2151,16 +2193,22 @@ int Noise_PrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKey **obj)
                 int err;
                 Noise_PrivateKeyInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->keys), &((*obj)->keys_count_), &((*obj)->keys_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_PrivateKeyInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             case 5: {
                 Noise_MetaInfo *value = 0;
                 int err;
                 Noise_MetaInfo_read(pbuf, 5, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE) {
+                    Noise_MetaInfo_free(value);
+                    if (pbuf->error == NOISE_ERROR_NONE)
+                        pbuf->error = err;
+                }
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -2470,8 +2518,11 @@ int Noise_PrivateKeyInfo_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKeyInfo
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PrivateKeyInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 08732f0..9563ba9 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -837,9 +837,17 @@ static void type_named_read_field
         fprintf(output, "&((*obj)->%s_max_), &value, sizeof(value));\n",
                 field->name.name);
         print_indent();
-        fprintf(output, "if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)\n");
+        fprintf(output, "if (err != NOISE_ERROR_NONE) {\n");
         print_indent();
-        fprintf(output, "   pbuf->error = err;\n");
+        fprintf(output, "    ");
+        generate_name(output, field->type.name.name);
+        fprintf(output, "_free(value);\n");
+        print_indent();
+        fprintf(output, "    if (pbuf->error == NOISE_ERROR_NONE)\n");
+        print_indent();
+        fprintf(output, "        pbuf->error = err;\n");
+        print_indent();
+        fprintf(output, "}\n");
     } else {
         print_indent();
         generate_name(output, field->type.name.name);
@@ -1586,8 +1594,11 @@ static void generate_implement_read(FILE *output, Proto3Message *message)
     fprintf(output, "    err = ");
     generate_name(output, message->name.name);
     fprintf(output, "_new(obj);\n");
-    fprintf(output, "    if (err != NOISE_ERROR_NONE)\n");
+    fprintf(output, "    if (err != NOISE_ERROR_NONE) {\n");
+    fprintf(output, "        if (pbuf->error == NOISE_ERROR_NONE)\n");
+    fprintf(output, "            pbuf->error = err;\n");
     fprintf(output, "        return err;\n");
+    fprintf(output, "    }\n");
     fprintf(output, "    noise_protobuf_read_start_element(pbuf, tag, &end_posn);\n");
     fprintf(output, "    while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {\n");
     fprintf(output, "        switch (noise_protobuf_peek_tag(pbuf)) {\n");
-- 
2.43.0


From 935f7562313786aba4c0046c03846e0544c099d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 11/17] fix: free the certificate when it cannot be put in a
 chain

---
 src/keys/loader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 3cb2580..75bcbf4 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -333,8 +333,11 @@ int noise_load_certificate_chain_from_buffer
         if (err != NOISE_ERROR_NONE)
             return err;
         err = Noise_Certificate_read(pbuf, 0, &cert);
-        if (err == NOISE_ERROR_NONE)
+        if (err == NOISE_ERROR_NONE) {
             err = Noise_CertificateChain_insert_certs(*chain, 0, cert);
+            if (err != NOISE_ERROR_NONE)
+                Noise_Certificate_free(cert);
+        }
         if (err != NOISE_ERROR_NONE) {
             Noise_CertificateChain_free(*chain);
             *chain = 0;
-- 
2.43.0


From 7f2587efafb4f13dbb65bc16353a096060c5d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:35 +0000
Subject: [PATCH 12/17] fix: report a key or certificate file that cannot be
 completely written

---
 src/keys/loader.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 75bcbf4..8c77462 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -610,7 +610,8 @@ static int noise_save_to_file
     if (file) {
         if (fwrite(data, 1, size, file) != size)
             err = NOISE_ERROR_SYSTEM;
-        fclose(file);
+        if (fclose(file) != 0)
+            err = NOISE_ERROR_SYSTEM;
     } else {
         err = NOISE_ERROR_SYSTEM;
     }
@@ -775,7 +776,8 @@ int noise_save_private_key_to_file
             size_t len = pbuf.size - pbuf.posn;
             if (fwrite(pbuf.data + pbuf.posn, 1, len, file) != len)
                 err = NOISE_ERROR_SYSTEM;
-            fclose(file);
+            if (fclose(file) != 0)
+                err = NOISE_ERROR_SYSTEM;
         } else {
             err = NOISE_ERROR_SYSTEM;
         }
-- 
2.43.0


From 2ab2e85bcfd2573227221a01b9f40e9938bd0d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:35 +0000
Subject: [PATCH 13/17] fix: do not retry for ever when a private key is too
 large to encrypt

---
 src/keys/loader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 8c77462..91d9ccc 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -911,8 +911,8 @@ int noise_save_private_key_to_buffer
                                    pbuf->posn - pcopy.posn - mac_len,
                                    pbuf->posn - pcopy.posn);
             err = noise_cipherstate_encrypt_with_ad(cipher, 0, 0, &buf);
-            if (err != NOISE_ERROR_NONE) {
-                /* The nonce is probably the reserved value 2^64 - 1,
+            if (err == NOISE_ERROR_INVALID_NONCE) {
+                /* The nonce is the reserved value 2^64 - 1,
                    which we cannot use.  Generate a new salt and try again */
                 noise_randstate_generate_simple(salt, sizeof(salt));
                 retry = 1;
-- 
2.43.0


From 4c00130e3a79ec91c1e73fbac8cb4f42bcb64e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:33 +0000
Subject: [PATCH 14/17] fix: encrypt in place with OpenSSL instead of into an
 array of length zero for empty messages

---
 src/backend/openssl/cipher-aesgcm.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index cb11bc1..d19af48 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -99,8 +99,7 @@ static int noise_aesgcm_encrypt(NoiseCipherState *state, const uint8_t *ad, size
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
      */
-    uint8_t out[data_len];
-    if (EVP_EncryptUpdate(st->ctx, out, &len, data, data_len) != 1) {
+    if (EVP_EncryptUpdate(st->ctx, data, &len, data, data_len) != 1) {
         ERR_clear_error();
         return NOISE_ERROR_SYSTEM;
     }
@@ -109,7 +108,7 @@ static int noise_aesgcm_encrypt(NoiseCipherState *state, const uint8_t *ad, size
     /* Finalise the encryption. Normally ciphertext bytes may be written at
      * this stage, but this does not occur in GCM mode
      */
-    if (EVP_EncryptFinal_ex(st->ctx, out + len, &len) != 1) {
+    if (EVP_EncryptFinal_ex(st->ctx, data + len, &len) != 1) {
         ERR_clear_error();
         return NOISE_ERROR_SYSTEM;
     }
@@ -121,8 +120,6 @@ static int noise_aesgcm_encrypt(NoiseCipherState *state, const uint8_t *ad, size
         return NOISE_ERROR_SYSTEM;
     }
 
-    memcpy(data, out, ciphertext_len);
-
     return NOISE_ERROR_NONE;
 }
 
-- 
2.43.0


From e8fb22438c2f78b77be2201fa8d03214003791d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:33 +0000
Subject: [PATCH 15/17] fix: do not leave unauthenticated plaintext in the
 buffer when OpenSSL rejects the tag

---
 src/backend/openssl/cipher-aesgcm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index d19af48..c90b633 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -155,12 +155,14 @@ static int noise_aesgcm_decrypt(NoiseCipherState *state, const uint8_t *ad, size
      */
     if (!EVP_DecryptUpdate(st->ctx, data, &len, data, data_len)) {
         ERR_clear_error();
+        noise_clean(data, data_len);
         return NOISE_ERROR_SYSTEM;
     }
 
     /* Set expected tag value. Works in OpenSSL 1.0.1d and later */
     if (!EVP_CIPHER_CTX_ctrl(st->ctx, EVP_CTRL_GCM_SET_TAG, 16, data + len)) {
         ERR_clear_error();
+        noise_clean(data, data_len);
         return NOISE_ERROR_SYSTEM;
     }
 
@@ -169,6 +171,7 @@ static int noise_aesgcm_decrypt(NoiseCipherState *state, const uint8_t *ad, size
      */
     if (EVP_DecryptFinal_ex(st->ctx, data + len, &len) <= 0) {
         ERR_clear_error();
+        noise_clean(data, data_len);
         return NOISE_ERROR_MAC_FAILURE;
     }
 
-- 
2.43.0


From 4848f666cff8ddafb5b3fc501b9e6442acba759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:41 +0000
Subject: [PATCH 16/17] fix: release the cipher object when OpenSSL cannot
 create a context

---
 src/backend/openssl/cipher-aesgcm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index c90b633..245b360 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -190,8 +190,10 @@ NoiseCipherState *noise_aesgcm_new_openssl(void)
     NoiseAESGCMState *state = noise_new(NoiseAESGCMState);
     if (!state)
         return 0;
-    if (!(state->ctx = EVP_CIPHER_CTX_new()))
+    if (!(state->ctx = EVP_CIPHER_CTX_new())) {
+        noise_free(state, sizeof(NoiseAESGCMState));
         return 0;
+    }
     state->parent.cipher_id = NOISE_CIPHER_AESGCM;
     state->parent.key_len = 32;
     state->parent.mac_len = 16;
-- 
2.43.0


From a873c6284fc85d434c08566decf709a303daa67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:25 +0000
Subject: [PATCH 17/17] fix: clear New Hope's secret polynomial and shared
 secret with the key

---
 src/backend/ref/dh-newhope.c | 11 +++++++++++
 src/protocol/dhstate.c       |  6 ++++++
 src/protocol/internal.h      | 10 ++++++++++
 3 files changed, 27 insertions(+)

diff --git a/src/backend/ref/dh-newhope.c b/src/backend/ref/dh-newhope.c
index ff0a4ef..356e878 100644
--- a/src/backend/ref/dh-newhope.c
+++ b/src/backend/ref/dh-newhope.c
@@ -153,6 +153,16 @@ static void noise_newhope_change_role(NoiseDHState *state)
     }
 }
 
+static void noise_newhope_clear_private(NoiseDHState *state)
+{
+    /* The secret polynomial, or the shared secret in the case of Bob,
+       is kept separately from the seed that acts as the "private key" */
+    NoiseNewHopeState *st = (NoiseNewHopeState *)state;
+    memset(st->random_data, 0, sizeof(st->random_data));
+    memset(&(st->private_key), 0, sizeof(st->private_key));
+    st->generated = 0;
+}
+
 NoiseDHState *noise_newhope_new(void)
 {
     NoiseNewHopeState *state = noise_new(NoiseNewHopeState);
@@ -173,5 +183,6 @@ NoiseDHState *noise_newhope_new(void)
     state->parent.copy = noise_newhope_copy;
     state->parent.calculate = noise_newhope_calculate;
     state->parent.change_role = noise_newhope_change_role;
+    state->parent.clear_private = noise_newhope_clear_private;
     return &(state->parent);
 }
diff --git a/src/protocol/dhstate.c b/src/protocol/dhstate.c
index 45f6341..517d2e4 100644
--- a/src/protocol/dhstate.c
+++ b/src/protocol/dhstate.c
@@ -528,6 +528,8 @@ int noise_dhstate_set_public_key
 
     /* Copy the public key into place and clear the private key */
     memset(state->private_key, 0, state->private_key_len);
+    if (state->clear_private)
+        (*(state->clear_private))(state);
     memcpy(state->public_key, public_key, public_key_len);
     state->key_type = NOISE_KEY_TYPE_PUBLIC;
     return NOISE_ERROR_NONE;
@@ -582,6 +584,8 @@ int noise_dhstate_set_null_public_key(NoiseDHState *state)
     /* Clear the key to all-zeroes */
     memset(state->public_key, 0, state->public_key_len);
     memset(state->private_key, 0, state->private_key_len);
+    if (state->clear_private)
+        (*(state->clear_private))(state);
 
     /* We have a public key but no private key */
     state->key_type = NOISE_KEY_TYPE_PUBLIC;
@@ -628,6 +632,8 @@ int noise_dhstate_clear_key(NoiseDHState *state)
     /* Clear the key to all-zeroes */
     memset(state->public_key, 0, state->public_key_len);
     memset(state->private_key, 0, state->private_key_len);
+    if (state->clear_private)
+        (*(state->clear_private))(state);
 
     /* There is no key in the object now */
     state->key_type = NOISE_KEY_TYPE_NO_KEY;
diff --git a/src/protocol/internal.h b/src/protocol/internal.h
index be7c7b9..b73758d 100644
--- a/src/protocol/internal.h
+++ b/src/protocol/internal.h
@@ -341,6 +341,16 @@ struct NoiseDHState_s
      */
     void (*change_role)(NoiseDHState *state);
 
+    /**
+     * \brief Clears private key material that the back end keeps in
+     * addition to the \ref private_key buffer.
+     *
+     * \param state Points to the DHState.
+     *
+     * This pointer can be NULL if the back end does not keep any.
+     */
+    void (*clear_private)(NoiseDHState *state);
+
     /**
      * \brief Destroys this DHState prior to the memory being freed.
      *
-- 
2.43.0

