From 037ec5193d8803de51a8c54085d98d3621ff7a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 01/37] fix: do not leave a dangling HandshakeState pointer
 when creation fails

---
 src/protocol/handshakestate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 87ce1ea..371bac0 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -223,6 +223,7 @@ static int noise_handshakestate_new
     /* Bail out if we had an error trying to create the DHState objects */
     if (err != NOISE_ERROR_NONE) {
         noise_handshakestate_free(*state);
+        *state = 0;
         return err;
     }
 
-- 
2.43.0


From 852c1af431dee7e7a43fb9727f67372c77dfebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 02/37] fix: refuse to start an XXfallback+hfs handshake that
 was not fallen back to

---
 src/protocol/handshakestate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 371bac0..e085272 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -805,7 +805,8 @@ int noise_handshakestate_start(NoiseHandshakeState *state)
         return NOISE_ERROR_INVALID_PARAM;
     if (state->action != NOISE_ACTION_NONE)
         return NOISE_ERROR_INVALID_STATE;
-    if (state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK &&
+    if ((state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK ||
+         state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK_HFS) &&
             (state->requirements & NOISE_REQ_FALLBACK_PREMSG) == 0)
         return NOISE_ERROR_NOT_APPLICABLE;
 
-- 
2.43.0


From 3d039025edf121085f54ada31b0743a7af7ec056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 03/37] fix: refuse to fall back to an hfs pattern from a
 handshake without hybrid keys

---
 src/protocol/handshakestate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index e085272..a4440eb 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -1000,6 +1000,12 @@ int noise_handshakestate_fallback_to(NoiseHandshakeState *state, int pattern_id)
     if ((flags & NOISE_PAT_FLAG_REMOTE_EPHEM_REQ) == 0)
         return NOISE_ERROR_NOT_APPLICABLE;
 
+    /* A fallback pattern with hybrid forward secrecy needs the hybrid
+       key that was sent in the original handshake */
+    if ((flags & NOISE_PAT_FLAG_REMOTE_HYBRID_REQ) != 0 &&
+            !state->dh_local_hybrid)
+        return NOISE_ERROR_NOT_APPLICABLE;
+
     /* The initiator should be waiting for a return message from the
        responder, and the responder should have failed on the first
        handshake message from the initiator.  We also allow the
-- 
2.43.0


From fc8ce69c8680fe1a236565fd6c6d7072278b92f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 04/37] fix: encrypt in place in the OpenSSL AESGCM back end

The variable-length array it used had size zero for an empty plaintext,
which is undefined behaviour.
---
 src/backend/openssl/cipher-aesgcm.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index cb11bc1..d19af48 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -99,8 +99,7 @@ static int noise_aesgcm_encrypt(NoiseCipherState *state, const uint8_t *ad, size
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
      */
-    uint8_t out[data_len];
-    if (EVP_EncryptUpdate(st->ctx, out, &len, data, data_len) != 1) {
+    if (EVP_EncryptUpdate(st->ctx, data, &len, data, data_len) != 1) {
         ERR_clear_error();
         return NOISE_ERROR_SYSTEM;
     }
@@ -109,7 +108,7 @@ static int noise_aesgcm_encrypt(NoiseCipherState *state, const uint8_t *ad, size
     /* Finalise the encryption. Normally ciphertext bytes may be written at
      * this stage, but this does not occur in GCM mode
      */
-    if (EVP_EncryptFinal_ex(st->ctx, out + len, &len) != 1) {
+    if (EVP_EncryptFinal_ex(st->ctx, data + len, &len) != 1) {
         ERR_clear_error();
         return NOISE_ERROR_SYSTEM;
     }
@@ -121,8 +120,6 @@ static int noise_aesgcm_encrypt(NoiseCipherState *state, const uint8_t *ad, size
         return NOISE_ERROR_SYSTEM;
     }
 
-    memcpy(data, out, ciphertext_len);
-
     return NOISE_ERROR_NONE;
 }
 
-- 
2.43.0


From 7793a0a8721098dbe8eaec8ddb3cde1f93f5af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 05/37] fix: do not release unauthenticated plaintext in the
 OpenSSL AESGCM back end

---
 src/backend/openssl/cipher-aesgcm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index d19af48..4bba34a 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -169,6 +169,7 @@ static int noise_aesgcm_decrypt(NoiseCipherState *state, const uint8_t *ad, size
      */
     if (EVP_DecryptFinal_ex(st->ctx, data + len, &len) <= 0) {
         ERR_clear_error();
+        noise_clean(data, data_len);
         return NOISE_ERROR_MAC_FAILURE;
     }
 
-- 
2.43.0


From 2f9dda4cd029c5cfeff24393e1997ab46990fbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 06/37] fix: free the OpenSSL AESGCM state when its context
 cannot be created

---
 src/backend/openssl/cipher-aesgcm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index 4bba34a..50e963d 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -188,8 +188,10 @@ NoiseCipherState *noise_aesgcm_new_openssl(void)
     NoiseAESGCMState *state = noise_new(NoiseAESGCMState);
     if (!state)
         return 0;
-    if (!(state->ctx = EVP_CIPHER_CTX_new()))
+    if (!(state->ctx = EVP_CIPHER_CTX_new())) {
+        noise_free(state, sizeof(NoiseAESGCMState));
         return 0;
+    }
     state->parent.cipher_id = NOISE_CIPHER_AESGCM;
     state->parent.key_len = 32;
     state->parent.mac_len = 16;
-- 
2.43.0


From cd58134617bdb572b69ac589ed7306a7a94d43fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 07/37] fix: reject Ed25519 signatures whose S is not less than
 the group order

---
 src/backend/ref/sign-ed25519.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/backend/ref/sign-ed25519.c b/src/backend/ref/sign-ed25519.c
index 7ab0ea6..d6d8b93 100644
--- a/src/backend/ref/sign-ed25519.c
+++ b/src/backend/ref/sign-ed25519.c
@@ -77,12 +77,34 @@ static int noise_ed25519_sign
     return NOISE_ERROR_NONE;
 }
 
+/* Determine if the S half of a signature is less than the group order L.
+   RFC 8032 requires other values to be rejected because otherwise S + L
+   would be a second valid signature for the same message. */
+static int noise_ed25519_is_canonical_s(const uint8_t *S)
+{
+    static uint8_t const L[32] = {
+        0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58,
+        0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+        0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+        0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10
+    };
+    int index;
+    for (index = 31; index >= 0; --index) {
+        if (S[index] != L[index])
+            return S[index] < L[index];
+    }
+    return 0;
+}
+
 static int noise_ed25519_verify
         (const NoiseSignState *state, const uint8_t *message,
          size_t message_len, const uint8_t *signature)
 {
     const NoiseEd25519State *st = (const NoiseEd25519State *)state;
-    int result = ed25519_sign_open
+    int result;
+    if (!noise_ed25519_is_canonical_s(signature + 32))
+        return NOISE_ERROR_INVALID_SIGNATURE;
+    result = ed25519_sign_open
         (message, message_len, st->public_key, signature);
     return result ? NOISE_ERROR_INVALID_SIGNATURE : NOISE_ERROR_NONE;
 }
-- 
2.43.0


From 23a7b806be25da8990c9859a2c6aa55bd051106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 08/37] fix: advance past the first byte when peeking at a
 varint

noise_protobuf_peek_tag() was wrong for tags of 16 and above and
noise_protobuf_peek_size() for sizes of 128 and above.
---
 src/protobufs/protobufs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index a3826d6..c6ae1e4 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1061,7 +1061,7 @@ static int noise_protobuf_peek_varint
     posn = pbuf->posn + *length;
     if (posn >= pbuf->size)
         return NOISE_ERROR_INVALID_FORMAT;
-    ch = pbuf->data[posn];
+    ch = pbuf->data[posn++];
     ++(*length);
     if ((ch & 0x80) == 0) {
         *value = ch;
-- 
2.43.0


From 15902ce4a66a60c6557f01bd83e7fe23d86668ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 09/37] fix: step over the trailing bytes of 3 and 4 byte UTF-8
 sequences

Valid strings were refused and the last bytes of a string were never looked at.
---
 src/protobufs/protobufs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index c6ae1e4..ae9ecc6 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -874,6 +874,7 @@ static int noise_protobuf_is_utf8(const char *str, size_t size)
             if (ch < 0x80 || ch > 0xBF)
                 return 0;
             code |= ((uint32_t)(ch & 0x3F));
+            str += 2;
             size -= 2;
             if (code >= 0xD800 && code <= 0xDFFF) {
                 /* Surrogate pairs are not allowed */
@@ -899,6 +900,7 @@ static int noise_protobuf_is_utf8(const char *str, size_t size)
             if (ch < 0x80 || ch > 0xBF)
                 return 0;
             code |= ((uint32_t)(ch & 0x3F));
+            str += 3;
             size -= 3;
             if (code > 0x10FFFFUL) {
                 /* Unicode code points stop at U+10FFFF */
-- 
2.43.0


From b67646f7fb693f75fa5ca4fa348b77e2221d6281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 10/37] fix: check for a null protobuf when reading an untagged
 string or bytes

---
 src/protobufs/protobufs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index ae9ecc6..ecee47b 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1202,6 +1202,8 @@ static int noise_protobuf_read_varint(NoiseProtobuf *pbuf, uint64_t *value)
 static int noise_protobuf_read_tag(NoiseProtobuf *pbuf, int tag, int type)
 {
     int err;
+    if (!pbuf)
+        return NOISE_ERROR_INVALID_PARAM;
     if (tag > 0) {
         /* We expect a specific tag value and wire type to occur */
         uint64_t expected = (uint64_t)((((int64_t)tag) << 3) | (int64_t)type);
-- 
2.43.0


From 8691996542824000239db436c207e0bb06c661fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 11/37] fix: report negative tags when reading a protobuf field

---
 src/protobufs/protobufs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index ecee47b..f0c3984 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1220,7 +1220,7 @@ static int noise_protobuf_read_tag(NoiseProtobuf *pbuf, int tag, int type)
         err = pbuf->error;
     } else {
         /* The caller-supplied tag is negative, which is always an error */
-        if (pbuf->error != NOISE_ERROR_NONE)
+        if (pbuf->error == NOISE_ERROR_NONE)
             pbuf->error = NOISE_ERROR_INVALID_FORMAT;
         err = pbuf->error;
     }
-- 
2.43.0


From b5816997cd6047dd2528a9bc0b27e4192d4d69a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 12/37] fix: free the temporary copy of repeated string and
 bytes fields in generated readers

---
 tools/protoc/proto3-generate-c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 08732f0..45ac8fd 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -468,6 +468,8 @@ static void type_string_read_field
         print_indent();
         generate_name(output, message->name.name);
         fprintf(output, "_add_%s(*obj, value, len);\n", field->name.name);
+        print_indent();
+        fprintf(output, "noise_protobuf_free_memory(value, len);\n");
     } else {
         print_indent();
         fprintf(output, "noise_protobuf_free_memory((*obj)->%s, (*obj)->%s_size_);\n",
-- 
2.43.0


From a175ad26c190ef9268c509222ec2d550a21d52a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 13/37] fix: record memory allocation failures in generated
 protobuf readers

A nested read that ran out of memory left a null element in a repeated
field and still succeeded, or looped for ever.
---
 src/keys/certificate.c           | 106 ++++++++++++++++++++-----------
 tools/protoc/proto3-generate-c.c |  45 ++++++++-----
 2 files changed, 98 insertions(+), 53 deletions(-)

diff --git a/src/keys/certificate.c b/src/keys/certificate.c
index 99b107b..52c4aac 100644
--- a/src/keys/certificate.c
+++ b/src/keys/certificate.c
@@ -174,8 +174,11 @@ int Noise_Certificate_read(NoiseProtobuf *pbuf, int tag, Noise_Certificate **obj
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_Certificate_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -189,11 +192,11 @@ int Noise_Certificate_read(NoiseProtobuf *pbuf, int tag, Noise_Certificate **obj
             } break;
             case 3: {
                 Noise_Signature *value = 0;
-                int err;
                 Noise_Signature_read(pbuf, 3, &value);
-                err = noise_protobuf_add_to_array((void **)&((*obj)->signatures), &((*obj)->signatures_count_), &((*obj)->signatures_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (pbuf->error == NOISE_ERROR_NONE)
+                    pbuf->error = noise_protobuf_add_to_array((void **)&((*obj)->signatures), &((*obj)->signatures_count_), &((*obj)->signatures_max_), &value, sizeof(value));
+                if (pbuf->error != NOISE_ERROR_NONE)
+                    Noise_Signature_free(value);
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -376,18 +379,21 @@ int Noise_CertificateChain_read(NoiseProtobuf *pbuf, int tag, Noise_CertificateC
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_CertificateChain_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
             case 8: {
                 Noise_Certificate *value = 0;
-                int err;
                 Noise_Certificate_read(pbuf, 8, &value);
-                err = noise_protobuf_add_to_array((void **)&((*obj)->certs), &((*obj)->certs_count_), &((*obj)->certs_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (pbuf->error == NOISE_ERROR_NONE)
+                    pbuf->error = noise_protobuf_add_to_array((void **)&((*obj)->certs), &((*obj)->certs_count_), &((*obj)->certs_max_), &value, sizeof(value));
+                if (pbuf->error != NOISE_ERROR_NONE)
+                    Noise_Certificate_free(value);
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -520,8 +526,11 @@ int Noise_SubjectInfo_read(NoiseProtobuf *pbuf, int tag, Noise_SubjectInfo **obj
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_SubjectInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -545,19 +554,19 @@ int Noise_SubjectInfo_read(NoiseProtobuf *pbuf, int tag, Noise_SubjectInfo **obj
             } break;
             case 4: {
                 Noise_PublicKeyInfo *value = 0;
-                int err;
                 Noise_PublicKeyInfo_read(pbuf, 4, &value);
-                err = noise_protobuf_add_to_array((void **)&((*obj)->keys), &((*obj)->keys_count_), &((*obj)->keys_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (pbuf->error == NOISE_ERROR_NONE)
+                    pbuf->error = noise_protobuf_add_to_array((void **)&((*obj)->keys), &((*obj)->keys_count_), &((*obj)->keys_max_), &value, sizeof(value));
+                if (pbuf->error != NOISE_ERROR_NONE)
+                    Noise_PublicKeyInfo_free(value);
             } break;
             case 5: {
                 Noise_MetaInfo *value = 0;
-                int err;
                 Noise_MetaInfo_read(pbuf, 5, &value);
-                err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (pbuf->error == NOISE_ERROR_NONE)
+                    pbuf->error = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
+                if (pbuf->error != NOISE_ERROR_NONE)
+                    Noise_MetaInfo_free(value);
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -867,8 +876,11 @@ int Noise_PublicKeyInfo_read(NoiseProtobuf *pbuf, int tag, Noise_PublicKeyInfo *
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PublicKeyInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1027,8 +1039,11 @@ int Noise_MetaInfo_read(NoiseProtobuf *pbuf, int tag, Noise_MetaInfo **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_MetaInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1200,8 +1215,11 @@ int Noise_Signature_read(NoiseProtobuf *pbuf, int tag, Noise_Signature **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_Signature_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1552,8 +1570,11 @@ int Noise_ExtraSignedInfo_read(NoiseProtobuf *pbuf, int tag, Noise_ExtraSignedIn
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_ExtraSignedInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1577,11 +1598,11 @@ int Noise_ExtraSignedInfo_read(NoiseProtobuf *pbuf, int tag, Noise_ExtraSignedIn
             } break;
             case 4: {
                 Noise_MetaInfo *value = 0;
-                int err;
                 Noise_MetaInfo_read(pbuf, 4, &value);
-                err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (pbuf->error == NOISE_ERROR_NONE)
+                    pbuf->error = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
+                if (pbuf->error != NOISE_ERROR_NONE)
+                    Noise_MetaInfo_free(value);
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -1837,8 +1858,11 @@ int Noise_EncryptedPrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_Encrypted
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_EncryptedPrivateKey_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -2123,8 +2147,11 @@ int Noise_PrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKey **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PrivateKey_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -2148,19 +2175,19 @@ int Noise_PrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKey **obj)
             } break;
             case 4: {
                 Noise_PrivateKeyInfo *value = 0;
-                int err;
                 Noise_PrivateKeyInfo_read(pbuf, 4, &value);
-                err = noise_protobuf_add_to_array((void **)&((*obj)->keys), &((*obj)->keys_count_), &((*obj)->keys_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (pbuf->error == NOISE_ERROR_NONE)
+                    pbuf->error = noise_protobuf_add_to_array((void **)&((*obj)->keys), &((*obj)->keys_count_), &((*obj)->keys_max_), &value, sizeof(value));
+                if (pbuf->error != NOISE_ERROR_NONE)
+                    Noise_PrivateKeyInfo_free(value);
             } break;
             case 5: {
                 Noise_MetaInfo *value = 0;
-                int err;
                 Noise_MetaInfo_read(pbuf, 5, &value);
-                err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (pbuf->error == NOISE_ERROR_NONE)
+                    pbuf->error = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
+                if (pbuf->error != NOISE_ERROR_NONE)
+                    Noise_MetaInfo_free(value);
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -2470,8 +2497,11 @@ int Noise_PrivateKeyInfo_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKeyInfo
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PrivateKeyInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 45ac8fd..791ffb4 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -161,6 +161,22 @@ static void type_numeric_write_field
     }
 }
 
+/**
+ * \brief Adds a value that was just read to a repeated field.
+ *
+ * If the value cannot be added, then the error is recorded in the protobuf.
+ */
+static void type_add_read_value
+    (Proto3Message *message, Proto3Field *field, const char *args)
+{
+    print_indent();
+    fprintf(output, "if (pbuf->error == NOISE_ERROR_NONE)\n");
+    print_indent();
+    fprintf(output, "    pbuf->error = ");
+    generate_name(output, message->name.name);
+    fprintf(output, "_add_%s(*obj, %s);\n", field->name.name, args);
+}
+
 /**
  * \brief Reads a numeric field.
  */
@@ -173,9 +189,7 @@ static void type_numeric_read_field
         print_indent();
         fprintf(output, "noise_protobuf_read_%s(pbuf, %d, &value);\n",
                 type->proto_name, tag);
-        print_indent();
-        generate_name(output, message->name.name);
-        fprintf(output, "_add_%s(*obj, value);\n", field->name.name);
+        type_add_read_value(message, field, "value");
     } else if (field->qualifier == PROTO3_QUAL_PACKED) {
         print_indent();
         fprintf(output, "size_t end_packed = 0;\n");
@@ -189,9 +203,7 @@ static void type_numeric_read_field
         print_indent();
         fprintf(output, "noise_protobuf_read_%s(pbuf, 0, &value);\n",
                 type->proto_name);
-        print_indent();
-        generate_name(output, message->name.name);
-        fprintf(output, "_add_%s(*obj, value);\n", field->name.name);
+        type_add_read_value(message, field, "value");
         --indent_level;
         print_indent();
         fprintf(output, "}\n");
@@ -465,9 +477,7 @@ static void type_string_read_field
         } else {
             fprintf(output, "noise_protobuf_read_alloc_bytes(pbuf, %d, &value, 0, &len);\n", tag);
         }
-        print_indent();
-        generate_name(output, message->name.name);
-        fprintf(output, "_add_%s(*obj, value, len);\n", field->name.name);
+        type_add_read_value(message, field, "value, len");
         print_indent();
         fprintf(output, "noise_protobuf_free_memory(value, len);\n");
     } else {
@@ -828,20 +838,22 @@ static void type_named_read_field
         generate_name(output, field->type.name.name);
         fprintf(output, " *value = 0;\n");
         print_indent();
-        fprintf(output, "int err;\n");
-        print_indent();
         generate_name(output, field->type.name.name);
         fprintf(output, "_read(pbuf, %d, &value);\n", tag);
         print_indent();
-        fprintf(output, "err = noise_protobuf_add_to_array(");
+        fprintf(output, "if (pbuf->error == NOISE_ERROR_NONE)\n");
+        print_indent();
+        fprintf(output, "    pbuf->error = noise_protobuf_add_to_array(");
         fprintf(output, "(void **)&((*obj)->%s), &((*obj)->%s_count_), ",
                 field->name.name, field->name.name);
         fprintf(output, "&((*obj)->%s_max_), &value, sizeof(value));\n",
                 field->name.name);
         print_indent();
-        fprintf(output, "if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)\n");
+        fprintf(output, "if (pbuf->error != NOISE_ERROR_NONE)\n");
         print_indent();
-        fprintf(output, "   pbuf->error = err;\n");
+        fprintf(output, "    ");
+        generate_name(output, field->type.name.name);
+        fprintf(output, "_free(value);\n");
     } else {
         print_indent();
         generate_name(output, field->type.name.name);
@@ -1588,8 +1600,11 @@ static void generate_implement_read(FILE *output, Proto3Message *message)
     fprintf(output, "    err = ");
     generate_name(output, message->name.name);
     fprintf(output, "_new(obj);\n");
-    fprintf(output, "    if (err != NOISE_ERROR_NONE)\n");
+    fprintf(output, "    if (err != NOISE_ERROR_NONE) {\n");
+    fprintf(output, "        if (pbuf->error == NOISE_ERROR_NONE)\n");
+    fprintf(output, "            pbuf->error = err;\n");
     fprintf(output, "        return err;\n");
+    fprintf(output, "    }\n");
     fprintf(output, "    noise_protobuf_read_start_element(pbuf, tag, &end_posn);\n");
     fprintf(output, "    while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {\n");
     fprintf(output, "        switch (noise_protobuf_peek_tag(pbuf)) {\n");
-- 
2.43.0


From 50d8f782ce77dc62c899b85c7a5dceac6d6b57f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 14/37] fix: free the certificate when it cannot be added to a
 loaded chain

---
 src/keys/loader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 3cb2580..91856e4 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -336,6 +336,7 @@ int noise_load_certificate_chain_from_buffer
         if (err == NOISE_ERROR_NONE)
             err = Noise_CertificateChain_insert_certs(*chain, 0, cert);
         if (err != NOISE_ERROR_NONE) {
+            Noise_Certificate_free(cert);
             Noise_CertificateChain_free(*chain);
             *chain = 0;
         }
-- 
2.43.0


From a80c2f51860b783ec6b69981c85e6bf13d2fd9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 15/37] fix: only retry saving a private key when the nonce
 cannot be used

A private key that is too large for one packet was retried for ever.
---
 src/keys/loader.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 91856e4..32e3435 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -907,9 +907,9 @@ int noise_save_private_key_to_buffer
                                    pbuf->posn - pcopy.posn - mac_len,
                                    pbuf->posn - pcopy.posn);
             err = noise_cipherstate_encrypt_with_ad(cipher, 0, 0, &buf);
-            if (err != NOISE_ERROR_NONE) {
-                /* The nonce is probably the reserved value 2^64 - 1,
-                   which we cannot use.  Generate a new salt and try again */
+            if (err == NOISE_ERROR_INVALID_NONCE) {
+                /* The nonce is the reserved value 2^64 - 1, which
+                   we cannot use.  Generate a new salt and try again */
                 noise_randstate_generate_simple(salt, sizeof(salt));
                 retry = 1;
             }
-- 
2.43.0


From dd14b73766c0c32147ed84b75cc30a0b361f8314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 16/37] fix: report errors from closing a saved certificate or
 key file

The data is buffered until then, so a full disk went unnoticed.
---
 src/keys/loader.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 32e3435..fef14ae 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -608,7 +608,8 @@ static int noise_save_to_file
     if (file) {
         if (fwrite(data, 1, size, file) != size)
             err = NOISE_ERROR_SYSTEM;
-        fclose(file);
+        if (fclose(file) != 0)
+            err = NOISE_ERROR_SYSTEM;
     } else {
         err = NOISE_ERROR_SYSTEM;
     }
@@ -773,7 +774,8 @@ int noise_save_private_key_to_file
             size_t len = pbuf.size - pbuf.posn;
             if (fwrite(pbuf.data + pbuf.posn, 1, len, file) != len)
                 err = NOISE_ERROR_SYSTEM;
-            fclose(file);
+            if (fclose(file) != 0)
+                err = NOISE_ERROR_SYSTEM;
         } else {
             err = NOISE_ERROR_SYSTEM;
         }
-- 
2.43.0


From 22dc6e4cff70ae238ea142e7b3b1be2b7e0a3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 17/37] fix: report read errors after part of a certificate or
 key file was read

---
 src/keys/loader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index fef14ae..261bede 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -127,7 +127,7 @@ static int noise_load_file
 
     /* Read the entire contents of the file into memory */
     size = fread(pbuf->data, 1, pbuf->size, file);
-    if (!size && ferror(file)) {
+    if (ferror(file)) {
         noise_free(pbuf->data, pbuf->size);
         pbuf->data = 0;
         fclose(file);
-- 
2.43.0


From 23253df28fe6ff67217110ea4bd9ae98895d1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 18/37] fix: set the returned object to null when a file cannot
 be loaded

The *_from_buffer functions do; *_from_file left a stale pointer.
---
 src/keys/loader.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 261bede..8c9999b 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -179,7 +179,11 @@ int noise_load_certificate_from_file
     (Noise_Certificate **cert, const char *filename)
 {
     NoiseProtobuf pbuf;
-    int err = noise_load_file(filename, &pbuf);
+    int err;
+    if (!cert)
+        return NOISE_ERROR_INVALID_PARAM;
+    *cert = 0;
+    err = noise_load_file(filename, &pbuf);
     if (err != NOISE_ERROR_NONE)
         return err;
     err = noise_load_certificate_from_buffer(cert, &pbuf);
@@ -280,7 +284,11 @@ int noise_load_certificate_chain_from_file
     (Noise_CertificateChain **chain, const char *filename)
 {
     NoiseProtobuf pbuf;
-    int err = noise_load_file(filename, &pbuf);
+    int err;
+    if (!chain)
+        return NOISE_ERROR_INVALID_PARAM;
+    *chain = 0;
+    err = noise_load_file(filename, &pbuf);
     if (err != NOISE_ERROR_NONE)
         return err;
     err = noise_load_certificate_chain_from_buffer(chain, &pbuf);
@@ -378,7 +386,11 @@ int noise_load_private_key_from_file
      const void *passphrase, size_t passphrase_len)
 {
     NoiseProtobuf pbuf;
-    int err = noise_load_file(filename, &pbuf);
+    int err;
+    if (!key)
+        return NOISE_ERROR_INVALID_PARAM;
+    *key = 0;
+    err = noise_load_file(filename, &pbuf);
     if (err != NOISE_ERROR_NONE)
         return err;
     err = noise_load_private_key_from_buffer
-- 
2.43.0


From c92c4df741fbcd8d83d06b57654b213017d01484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 19/37] fix: refuse overlong key and certificate files that
 cannot be measured

Pipes were cut off after 65535 bytes instead of being rejected.
---
 src/keys/loader.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 8c9999b..9e9d866 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -133,6 +133,12 @@ static int noise_load_file
         fclose(file);
         return NOISE_ERROR_SYSTEM;
     }
+    if (size == NOISE_MAX_PAYLOAD_LEN && fgetc(file) != EOF) {
+        noise_free(pbuf->data, pbuf->size);
+        pbuf->data = 0;
+        fclose(file);
+        return NOISE_ERROR_INVALID_FORMAT;
+    }
     pbuf->size = size;
 
     /* Clean up and exit */
-- 
2.43.0


From 7195f9c94b71ce71c857754e1daa0d1791d63a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 20/37] fix: check the buffer size before hashing in
 decrypt_and_hash

---
 src/protocol/symmetricstate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/symmetricstate.c b/src/protocol/symmetricstate.c
index 8481d3a..5e3d35e 100644
--- a/src/protocol/symmetricstate.c
+++ b/src/protocol/symmetricstate.c
@@ -415,7 +415,7 @@ int noise_symmetricstate_decrypt_and_hash
         return NOISE_ERROR_INVALID_STATE;
 
     /* Validate the input data length before we hash the data */
-    if (buffer->size > NOISE_MAX_PAYLOAD_LEN)
+    if (buffer->size > buffer->max_size || buffer->size > NOISE_MAX_PAYLOAD_LEN)
         return NOISE_ERROR_INVALID_LENGTH;
     if (noise_cipherstate_has_key(state->cipher)) {
         if (buffer->size < noise_cipherstate_get_mac_length(state->cipher))
-- 
2.43.0


From a9c905f7faef1222ceeace0ba9d1446ba624b1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 21/37] fix: do not hide an allocation failure behind another
 error in handshakestate_new

---
 src/protocol/handshakestate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index a4440eb..ac9c430 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -177,7 +177,7 @@ static int noise_handshakestate_new
             err = noise_dhstate_new_by_id(&((*state)->dh_local_hybrid), hybrid_id);
         else
             err = NOISE_ERROR_NOT_APPLICABLE;
-    } else if (hybrid_id != NOISE_DH_NONE) {
+    } else if (hybrid_id != NOISE_DH_NONE && err == NOISE_ERROR_NONE) {
         err = NOISE_ERROR_NOT_APPLICABLE;
     }
     if ((flags & NOISE_PAT_FLAG_REMOTE_STATIC) != 0 && err == NOISE_ERROR_NONE) {
@@ -191,7 +191,7 @@ static int noise_handshakestate_new
             err = noise_dhstate_new_by_id(&((*state)->dh_remote_hybrid), hybrid_id);
         else
             err = NOISE_ERROR_NOT_APPLICABLE;
-    } else if (hybrid_id != NOISE_DH_NONE) {
+    } else if (hybrid_id != NOISE_DH_NONE && err == NOISE_ERROR_NONE) {
         err = NOISE_ERROR_NOT_APPLICABLE;
     }
 
-- 
2.43.0


From 36a6bf9f66f19f8363606994b21d196808151983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 22/37] fix: wipe the expanded New Hope private key when a key
 is cleared or replaced

---
 src/backend/ref/dh-newhope.c | 11 +++++++++++
 src/protocol/dhstate.c       | 18 +++++++++++++++---
 src/protocol/internal.h      | 10 ++++++++++
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/backend/ref/dh-newhope.c b/src/backend/ref/dh-newhope.c
index ff0a4ef..8eff3c3 100644
--- a/src/backend/ref/dh-newhope.c
+++ b/src/backend/ref/dh-newhope.c
@@ -68,6 +68,7 @@ static int noise_newhope_set_keypair_private
            key for Alice we cannot generate the public key for Bob yet.
            Defer key generation until the call to calculate() */
         memset(st->public_key, 0, sizeof(st->public_key));
+        noise_clean(&(st->private_key), sizeof(st->private_key));
         st->generated = 0;
     } else {
         /* Generate the key pair for Alice from the supplied random data */
@@ -153,6 +154,15 @@ static void noise_newhope_change_role(NoiseDHState *state)
     }
 }
 
+static void noise_newhope_clear_private_key(NoiseDHState *state)
+{
+    /* The expanded private key is not part of "parent.private_key" */
+    NoiseNewHopeState *st = (NoiseNewHopeState *)state;
+    noise_clean(st->random_data, sizeof(st->random_data));
+    noise_clean(&(st->private_key), sizeof(st->private_key));
+    st->generated = 0;
+}
+
 NoiseDHState *noise_newhope_new(void)
 {
     NoiseNewHopeState *state = noise_new(NoiseNewHopeState);
@@ -173,5 +183,6 @@ NoiseDHState *noise_newhope_new(void)
     state->parent.copy = noise_newhope_copy;
     state->parent.calculate = noise_newhope_calculate;
     state->parent.change_role = noise_newhope_change_role;
+    state->parent.clear_private_key = noise_newhope_clear_private_key;
     return &(state->parent);
 }
diff --git a/src/protocol/dhstate.c b/src/protocol/dhstate.c
index 45f6341..9c248dd 100644
--- a/src/protocol/dhstate.c
+++ b/src/protocol/dhstate.c
@@ -483,6 +483,18 @@ int noise_dhstate_get_keypair
     return NOISE_ERROR_NONE;
 }
 
+/**
+ * \brief Clears all private key material in a DHState object.
+ *
+ * \param state The DHState object.
+ */
+static void noise_dhstate_clear_private_key(NoiseDHState *state)
+{
+    noise_clean(state->private_key, state->private_key_len);
+    if (state->clear_private_key)
+        (*(state->clear_private_key))(state);
+}
+
 /**
  * \brief Sets the public key in a DHState object.
  *
@@ -527,7 +539,7 @@ int noise_dhstate_set_public_key
         return err;
 
     /* Copy the public key into place and clear the private key */
-    memset(state->private_key, 0, state->private_key_len);
+    noise_dhstate_clear_private_key(state);
     memcpy(state->public_key, public_key, public_key_len);
     state->key_type = NOISE_KEY_TYPE_PUBLIC;
     return NOISE_ERROR_NONE;
@@ -581,7 +593,7 @@ int noise_dhstate_set_null_public_key(NoiseDHState *state)
 
     /* Clear the key to all-zeroes */
     memset(state->public_key, 0, state->public_key_len);
-    memset(state->private_key, 0, state->private_key_len);
+    noise_dhstate_clear_private_key(state);
 
     /* We have a public key but no private key */
     state->key_type = NOISE_KEY_TYPE_PUBLIC;
@@ -627,7 +639,7 @@ int noise_dhstate_clear_key(NoiseDHState *state)
 
     /* Clear the key to all-zeroes */
     memset(state->public_key, 0, state->public_key_len);
-    memset(state->private_key, 0, state->private_key_len);
+    noise_dhstate_clear_private_key(state);
 
     /* There is no key in the object now */
     state->key_type = NOISE_KEY_TYPE_NO_KEY;
diff --git a/src/protocol/internal.h b/src/protocol/internal.h
index be7c7b9..f753f17 100644
--- a/src/protocol/internal.h
+++ b/src/protocol/internal.h
@@ -341,6 +341,16 @@ struct NoiseDHState_s
      */
     void (*change_role)(NoiseDHState *state);
 
+    /**
+     * \brief Clears private key material that the back end keeps outside
+     * of "private_key" in this DHState object.
+     *
+     * \param state Points to the DHState object.
+     *
+     * This function pointer may be NULL.
+     */
+    void (*clear_private_key)(NoiseDHState *state);
+
     /**
      * \brief Destroys this DHState prior to the memory being freed.
      *
-- 
2.43.0


From 2176e27d9b361ab0f52bc71c575644c33da12e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 23/37] fix: protoc: clearing a repeated string or bytes field
 forgets its freed size array

The generated clear function freed the array of sizes but left the pointer
to it in place.  The next addition, clear or free of the field then freed
the same memory again.
---
 tools/protoc/proto3-generate-c.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 791ffb4..c407aac 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -424,10 +424,9 @@ static void type_string_clear_field
         fprintf(output, "obj->%s_count_ = 0;\n", field->name.name);
         print_indent();
         fprintf(output, "obj->%s_max_ = 0;\n", field->name.name);
-    } else {
-        print_indent();
-        fprintf(output, "obj->%s_size_ = 0;\n", field->name.name);
     }
+    print_indent();
+    fprintf(output, "obj->%s_size_ = 0;\n", field->name.name);
 }
 
 /**
-- 
2.43.0


From ff8ed60bf04e551fc7c7da383c45177644841647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 24/37] fix: protoc: fields of an enum type produced code that
 does not compile

The type name of an enum was resolved to a message type, for which there
is no C type.  Resolve it to the enum type, which is encoded as an int32,
and pack repeated enum fields by default as for the other numeric types.
---
 tools/protoc/proto3-ast.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/tools/protoc/proto3-ast.c b/tools/protoc/proto3-ast.c
index 8d0dab7..e0792e3 100644
--- a/tools/protoc/proto3-ast.c
+++ b/tools/protoc/proto3-ast.c
@@ -488,23 +488,24 @@ void proto3_set_package_name(Proto3Name name)
  *
  * \param name The name to try.
  *
- * \return Non-zero if the name is found, zero if not.
+ * \return PROTO3_TYPE_NAMED if the name is a message, PROTO3_TYPE_ENUM if
+ * the name is an enum, or PROTO3_TYPE_INVALID if the name is not found.
  */
-static int proto3_resolve_try_name(Proto3Name name)
+static Proto3TypeId proto3_resolve_try_name(Proto3Name name)
 {
     Proto3Message *message = messages;
     Proto3Enum *enum_node = enums;
     while (message != 0) {
         if (!strcmp(message->name.name, name.name))
-            return 1;
+            return PROTO3_TYPE_NAMED;
         message = message->next;
     }
     while (enum_node != 0) {
         if (!strcmp(enum_node->name.name, name.name))
-            return 1;
+            return PROTO3_TYPE_ENUM;
         enum_node = enum_node->next;
     }
-    return 0;
+    return PROTO3_TYPE_INVALID;
 }
 
 /**
@@ -561,7 +562,9 @@ static Proto3Type proto3_resolve_type
                               type.name.name);
             return type;
         }
-        return proto3_named_type(name);
+        type.id = proto3_resolve_try_name(name);
+        type.name = name;
+        return type;
     } else if (type.id == PROTO3_TYPE_MAP) {
         /* Resolve a map type */
         Proto3Type key_type;
@@ -577,6 +580,20 @@ static Proto3Type proto3_resolve_type
     return type;
 }
 
+/**
+ * \brief Determine if a field option turns off packed encoding.
+ *
+ * \param option The field option to check.
+ *
+ * \return Non-zero if the \a option is "packed=false", zero if not.
+ */
+static int proto3_is_unpacked(const Proto3Option *option)
+{
+    return option->name.name && !strcmp(option->name.name, "packed") &&
+           option->value.type == PROTO3_VALUE_BOOL &&
+           !option->value.num_value;
+}
+
 /**
  * \brief Resolves all type name references.
  */
@@ -589,6 +606,13 @@ void proto3_resolve_types(void)
         while (field != 0) {
             field->type = proto3_resolve_type
                 (message->name, field->type, field->line);
+            if (field->type.id == PROTO3_TYPE_ENUM &&
+                    field->qualifier == PROTO3_QUAL_REPEATED &&
+                    !proto3_is_unpacked(&(field->option))) {
+                /* Enums can be packed, but the parser did not know yet
+                   that the type name refers to an enum */
+                field->qualifier = PROTO3_QUAL_PACKED;
+            }
             field = field->next;
         }
         message = message->next;
-- 
2.43.0


From 2aff05094185169e0ba1cac5ed811d4593138e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 25/37] fix: keytool generate: -a ignored the Diffie-Hellman
 algorithms

The id was only added to the list inside the branch that looks for a
signing algorithm, so "-a 25519" and "-a 448" generated all three keys.
---
 tools/keytool/generate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/keytool/generate.c b/tools/keytool/generate.c
index f6e08c1..13b1042 100644
--- a/tools/keytool/generate.c
+++ b/tools/keytool/generate.c
@@ -103,8 +103,8 @@ static int parse_algorithms(const char *names)
                     fprintf(stderr, "'\n");
                     return 0;
                 }
-                add_algorithm_id(id);
             }
+            add_algorithm_id(id);
         }
         names += len;
         if (*names == ',')
-- 
2.43.0


From d374c98de31f25079ea992498a946ddde5cd4e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 26/37] fix: keytool show: the value of meta information was
 never shown

The name was printed twice, as name=name.
---
 tools/keytool/show.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/keytool/show.c b/tools/keytool/show.c
index 4f3759d..4f510f3 100644
--- a/tools/keytool/show.c
+++ b/tools/keytool/show.c
@@ -120,7 +120,7 @@ static void dump_certificate(const Noise_Certificate *cert)
             const Noise_MetaInfo *meta =
                 Noise_SubjectInfo_get_at_meta(subject, index);
             const char *name = Noise_MetaInfo_get_name(meta);
-            const char *value = Noise_MetaInfo_get_name(meta);
+            const char *value = Noise_MetaInfo_get_value(meta);
             if (!name)
                 name = "Unknown";
             if (!value)
@@ -244,7 +244,7 @@ static void dump_private_key(const Noise_PrivateKey *priv_key)
         const Noise_MetaInfo *meta =
             Noise_PrivateKey_get_at_meta(priv_key, index);
         const char *name = Noise_MetaInfo_get_name(meta);
-        const char *value = Noise_MetaInfo_get_name(meta);
+        const char *value = Noise_MetaInfo_get_value(meta);
         if (!name)
             name = "Unknown";
         if (!value)
-- 
2.43.0


From ae405f06790990b6c2eff1f4181b9cdd98db6367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 27/37] fix: keytool show: certificate chains were shown as one
 empty certificate

The first byte of a chain is field 8 with the length-delimited wire type,
0x42.
---
 tools/keytool/show.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/keytool/show.c b/tools/keytool/show.c
index 4f510f3..ff34473 100644
--- a/tools/keytool/show.c
+++ b/tools/keytool/show.c
@@ -330,7 +330,7 @@ static int show_file(const char *filename)
     if (data[0] == 0x50) {
         /* Encrypted private key */
         ok = show_private_key(filename, &pbuf);
-    } else if (data[0] == 0x40) {
+    } else if (data[0] == 0x42) {
         /* Certificate chain */
         ok = show_certificate_chain(filename, &pbuf);
     } else {
-- 
2.43.0


From b9d7fbc0536df4f4f1a24a6ac4445a6af675ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 28/37] fix: keytool: refuse a typed passphrase that is too
 long

It was cut at 1023 bytes without a word, and the key could then not be
opened with the passphrase the user had chosen.
---
 tools/keytool/keytool.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/keytool/keytool.c b/tools/keytool/keytool.c
index f0a0d6b..81415d1 100644
--- a/tools/keytool/keytool.c
+++ b/tools/keytool/keytool.c
@@ -107,8 +107,12 @@ char *ask_for_passphrase(int confirm)
         perror("getpass");
         return 0;
     }
-    strncpy(passphrase, pp, sizeof(passphrase));
-    passphrase[sizeof(passphrase) - 1] = '\0';
+    if (strlen(pp) >= sizeof(passphrase)) {
+        noise_clean(pp, strlen(pp));
+        fprintf(stderr, "The passphrase is too long.\n");
+        return 0;
+    }
+    strcpy(passphrase, pp);
     noise_clean(pp, strlen(pp));
     if (!confirm)
         return passphrase;
-- 
2.43.0


From d70d5ec0837a5fafd8c154115f592c74b6d99f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 29/37] fix: keytool show: refuse files over 65535 bytes rather
 than showing a part

The same limit as noise_load_certificate_from_file() and friends.
---
 tools/keytool/show.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/keytool/show.c b/tools/keytool/show.c
index ff34473..18adf2e 100644
--- a/tools/keytool/show.c
+++ b/tools/keytool/show.c
@@ -322,6 +322,12 @@ static int show_file(const char *filename)
         noise_free(data, NOISE_MAX_PAYLOAD_LEN);
         return 0;
     }
+    if (len == NOISE_MAX_PAYLOAD_LEN && fgetc(file) != EOF) {
+        fprintf(stderr, "%s: File is too large\n", filename);
+        fclose(file);
+        noise_free(data, NOISE_MAX_PAYLOAD_LEN);
+        return 0;
+    }
     fclose(file);
 
     /* Based on the first tag byte, determine whether we have a
-- 
2.43.0


From 3e23a4de5772f2d1fa1d3e0eb6e3f63e793ee29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 30/37] fix: keytool help: the short option for the signing key
 is -k

---
 tools/keytool/sign.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/keytool/sign.c b/tools/keytool/sign.c
index 269b659..b68e5da 100644
--- a/tools/keytool/sign.c
+++ b/tools/keytool/sign.c
@@ -46,7 +46,7 @@ void help_sign(const char *progname)
 {
     fprintf(stdout, "Usage: %s sign [options] input-certificate output-certificate\n\n", progname);
     fprintf(stdout, "Options:\n\n");
-    fprintf(stdout, "    --signing-key=FILE, -s FILE\n");
+    fprintf(stdout, "    --signing-key=FILE, -k FILE\n");
     fprintf(stdout, "        Specifies the private key to sign the certificate with (required).\n\n");
     fprintf(stdout, "    --passphrase=PASSPHRASE, -p PASSPHRASE\n");
     fprintf(stdout, "        Specifies the passphrase to use to unlock the private key.\n");
-- 
2.43.0


From ccab567437a02dedb931dc085de6d890707a007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:28 +0000
Subject: [PATCH 31/37] fix: keep the multiplication assembly from overwriting
 its operand's address

The outputs rax and rdx of widemul(), widemul_rm() and widemul2() are written
before the memory operand is read.  Without an early clobber the compiler may
address that operand through them, and does so with -O0: X448 then crashes.
---
 src/crypto/goldilocks/src/p448/arch_x86_64/x86-64-arith.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crypto/goldilocks/src/p448/arch_x86_64/x86-64-arith.h b/src/crypto/goldilocks/src/p448/arch_x86_64/x86-64-arith.h
index 32ee832..8ff8915 100644
--- a/src/crypto/goldilocks/src/p448/arch_x86_64/x86-64-arith.h
+++ b/src/crypto/goldilocks/src/p448/arch_x86_64/x86-64-arith.h
@@ -17,7 +17,7 @@ static __inline__ __uint128_t widemul(const uint64_t *a, const uint64_t *b) {
   __asm__ volatile
       ("movq %[a], %%rax;"
        "mulq %[b];"
-       : [c]"=a"(c), [d]"=d"(d)
+       : [c]"=&a"(c), [d]"=&d"(d)
        : [b]"m"(*b), [a]"m"(*a)
        : "cc");
   return (((__uint128_t)(d))<<64) | c;
@@ -39,7 +39,7 @@ static __inline__ __uint128_t widemul_rm(uint64_t a, const uint64_t *b) {
   __asm__ volatile
       ("movq %[a], %%rax;"
        "mulq %[b];"
-       : [c]"=a"(c), [d]"=d"(d)
+       : [c]"=&a"(c), [d]"=&d"(d)
        : [b]"m"(*b), [a]"r"(a)
        : "cc");
   return (((__uint128_t)(d))<<64) | c;
@@ -60,7 +60,7 @@ static __inline__ __uint128_t widemul2(const uint64_t *a, const uint64_t *b) {
       ("movq %[a], %%rax; "
        "addq %%rax, %%rax; "
        "mulq %[b];"
-       : [c]"=a"(c), [d]"=d"(d)
+       : [c]"=&a"(c), [d]"=&d"(d)
        : [b]"m"(*b), [a]"m"(*a)
        : "cc");
   return (((__uint128_t)(d))<<64) | c;
-- 
2.43.0


From 8bec904680868874da9ff98dd0bdc09f6602a81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:28 +0000
Subject: [PATCH 32/37] fix: let vector registers alias the words of a field
 element

p448_copy() and the constant-time helpers access 64-bit limbs as vectors of
32-bit words.  With AVX2 enabled (gcc -O2 -mavx2, or -march=native) gcc makes
use of the aliasing rules and computes wrong X448 results.
---
 src/crypto/goldilocks/src/include/word.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crypto/goldilocks/src/include/word.h b/src/crypto/goldilocks/src/include/word.h
index 9ad01e1..20b94d9 100644
--- a/src/crypto/goldilocks/src/include/word.h
+++ b/src/crypto/goldilocks/src/include/word.h
@@ -115,7 +115,7 @@ typedef word_t vecmask_t __attribute__((vector_size(32)));
 
 #if __AVX2__
     #define VECTOR_ALIGNED __attribute__((aligned(32)))
-    typedef uint32x8_t big_register_t;
+    typedef uint32x8_t big_register_t __attribute__((may_alias));
     typedef uint64x4_t uint64xn_t;
     typedef uint32x8_t uint32xn_t;
 
@@ -127,7 +127,7 @@ typedef word_t vecmask_t __attribute__((vector_size(32)));
     }
 #elif __SSE2__
     #define VECTOR_ALIGNED __attribute__((aligned(16)))
-    typedef uint32x4_t big_register_t;
+    typedef uint32x4_t big_register_t __attribute__((may_alias));
     typedef uint64x2_t uint64xn_t;
     typedef uint32x4_t uint32xn_t;
 
@@ -139,7 +139,7 @@ typedef word_t vecmask_t __attribute__((vector_size(32)));
     }
 #elif __ARM_NEON__
     #define VECTOR_ALIGNED __attribute__((aligned(16)))
-    typedef uint32x4_t big_register_t;
+    typedef uint32x4_t big_register_t __attribute__((may_alias));
     typedef uint64x2_t uint64xn_t;
     typedef uint32x4_t uint32xn_t;
     static __inline__ big_register_t
-- 
2.43.0


From b5b338043fcfcd73202a7bc49d115936a9e43a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:42 +0000
Subject: [PATCH 33/37] fix: align the Ed25519 table entry that vector code
 stores

With 32-bit limbs on x86-64 the table look-up stores it with movdqa, which
needs 16-byte alignment; without optimisation the variable does not have it
and signing crashes.
---
 src/crypto/ed25519/ed25519-donna-impl-base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/ed25519/ed25519-donna-impl-base.h b/src/crypto/ed25519/ed25519-donna-impl-base.h
index 48913ed..baca5cd 100644
--- a/src/crypto/ed25519/ed25519-donna-impl-base.h
+++ b/src/crypto/ed25519/ed25519-donna-impl-base.h
@@ -335,7 +335,7 @@ static void
 ge25519_scalarmult_base_niels(ge25519 *r, const uint8_t basepoint_table[256][96], const bignum256modm s) {
 	signed char b[64];
 	uint32_t i;
-	ge25519_niels t;
+	ge25519_niels ALIGN(16) t;
 
 	contract256_window4_modm(b, s);
 
-- 
2.43.0


From a1889da18ebb5176b81991a29ded3b77c5b66b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:42 +0000
Subject: [PATCH 34/37] fix: declare that the Ed25519 table look-up changes
 xmm15

---
 src/crypto/ed25519/ed25519-donna-64bit-sse2.h      | 2 +-
 src/crypto/ed25519/ed25519-donna-64bit-x86-32bit.h | 2 +-
 src/crypto/ed25519/ed25519-donna-64bit-x86.h       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crypto/ed25519/ed25519-donna-64bit-sse2.h b/src/crypto/ed25519/ed25519-donna-64bit-sse2.h
index ca08651..8badb71 100644
--- a/src/crypto/ed25519/ed25519-donna-64bit-sse2.h
+++ b/src/crypto/ed25519/ed25519-donna-64bit-sse2.h
@@ -427,7 +427,7 @@ ge25519_scalarmult_base_choose_niels(ge25519_niels *t, const uint8_t table[256][
 		: "m"(u), "r"(&table[pos * 8]), "r"(t), "m"(sign) /* %0 = u, %1 = table, %2 = t, %3 = sign */
 		:
 			"%rax", "%rcx", "%rdx", "%rdi", "%rsi", "%r8", "%r9", "%r10", "%r11", "%r12", "%r13", 
-			"%xmm0", "%xmm1", "%xmm2", "%xmm3", "%xmm4", "%xmm5", "%xmm6", "%xmm7", "%xmm8", "%xmm9", "%xmm10", "%xmm11", "%xmm14", "%xmm14",
+			"%xmm0", "%xmm1", "%xmm2", "%xmm3", "%xmm4", "%xmm5", "%xmm6", "%xmm7", "%xmm8", "%xmm9", "%xmm10", "%xmm11", "%xmm14", "%xmm15",
 			"cc", "memory"
 	);
 }
diff --git a/src/crypto/ed25519/ed25519-donna-64bit-x86-32bit.h b/src/crypto/ed25519/ed25519-donna-64bit-x86-32bit.h
index 1ce109c..4b42058 100644
--- a/src/crypto/ed25519/ed25519-donna-64bit-x86-32bit.h
+++ b/src/crypto/ed25519/ed25519-donna-64bit-x86-32bit.h
@@ -426,7 +426,7 @@ ge25519_scalarmult_base_choose_niels(ge25519_niels *t, const uint8_t table[256][
 		: "m"(u), "r"(&table[pos * 8]), "r"(t), "m"(sign) /* %0 = u, %1 = table, %2 = t, %3 = sign */
 		:
 			"%rax", "%rcx", "%rdx", "%rdi", "%rsi", "%r8", "%r9", "%r10", "%r11", "%r12", "%r13", 
-			"%xmm0", "%xmm1", "%xmm2", "%xmm3", "%xmm4", "%xmm5", "%xmm6", "%xmm7", "%xmm8", "%xmm9", "%xmm10", "%xmm11", "%xmm14", "%xmm14",
+			"%xmm0", "%xmm1", "%xmm2", "%xmm3", "%xmm4", "%xmm5", "%xmm6", "%xmm7", "%xmm8", "%xmm9", "%xmm10", "%xmm11", "%xmm14", "%xmm15",
 			"cc", "memory"
 	);
 }
diff --git a/src/crypto/ed25519/ed25519-donna-64bit-x86.h b/src/crypto/ed25519/ed25519-donna-64bit-x86.h
index 399cd39..43d40a5 100644
--- a/src/crypto/ed25519/ed25519-donna-64bit-x86.h
+++ b/src/crypto/ed25519/ed25519-donna-64bit-x86.h
@@ -347,7 +347,7 @@ ge25519_scalarmult_base_choose_niels(ge25519_niels *t, const uint8_t table[256][
 		: "m"(u), "r"(&table[pos * 8]), "r"(t), "m"(sign) /* %0 = u, %1 = table, %2 = t, %3 = sign */
 		:
 			"%rax", "%rcx", "%rdx", "%rdi", "%rsi", "%r8", "%r9", "%r10", "%r11", "%r12", "%r13", 
-			"%xmm0", "%xmm1", "%xmm2", "%xmm3", "%xmm4", "%xmm5", "%xmm6", "%xmm7", "%xmm8", "%xmm9", "%xmm10", "%xmm11", "%xmm14", "%xmm14",
+			"%xmm0", "%xmm1", "%xmm2", "%xmm3", "%xmm4", "%xmm5", "%xmm6", "%xmm7", "%xmm8", "%xmm9", "%xmm10", "%xmm11", "%xmm14", "%xmm15",
 			"cc", "memory"
 	);
 }
-- 
2.43.0


From da3816566726b21bdfb94293383ffd879a89521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:49 +0000
Subject: [PATCH 35/37] fix: wipe the temporary Ed25519 secret keys of the
 libsodium back end

---
 src/backend/sodium/sign-ed25519.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/backend/sodium/sign-ed25519.c b/src/backend/sodium/sign-ed25519.c
index 5591860..ee8d7fb 100644
--- a/src/backend/sodium/sign-ed25519.c
+++ b/src/backend/sodium/sign-ed25519.c
@@ -54,6 +54,7 @@ static int noise_ed25519_validate_keypair
     int equal;
     crypto_sign_ed25519_seed_keypair(temp, temp_sk, private_key);
     equal = noise_is_equal(temp, public_key, sizeof(temp));
+    noise_clean(temp_sk, sizeof(temp_sk));
     return NOISE_ERROR_INVALID_PUBLIC_KEY & (equal - 1);
 }
 
@@ -70,6 +71,7 @@ static int noise_ed25519_derive_public_key
 {
     uint8_t temp_sk[crypto_sign_ed25519_SECRETKEYBYTES];
     crypto_sign_ed25519_seed_keypair(public_key, temp_sk, private_key);
+    noise_clean(temp_sk, sizeof(temp_sk));
     return NOISE_ERROR_NONE;
 }
 
-- 
2.43.0


From f70167f303a9ae8f92aa1ef4d4c05d7dacd93064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:02 +0000
Subject: [PATCH 36/37] fix: report when noise-protoc cannot write its outputs

---
 tools/protoc/main.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/tools/protoc/main.c b/tools/protoc/main.c
index ca30d33..15d1839 100644
--- a/tools/protoc/main.c
+++ b/tools/protoc/main.c
@@ -83,6 +83,20 @@ static int parse_options(int argc, char *argv[])
     return 1;
 }
 
+/* Close an output file and check that everything was written to it */
+static int close_output(FILE *file, const char *filename)
+{
+    int failed;
+    if (!file)
+        return 1;
+    failed = ferror(file);
+    if (fclose(file) != 0)
+        failed = 1;
+    if (failed)
+        perror(filename);
+    return !failed;
+}
+
 int main(int argc, char *argv[])
 {
     int retval = 0;
@@ -119,10 +133,10 @@ int main(int argc, char *argv[])
     }
 
     /* Close the output files */
-    if (output_c)
-        fclose(output_c);
-    if (output_h)
-        fclose(output_h);
+    if (!close_output(output_c, output_c_file))
+        retval = 1;
+    if (!close_output(output_h, output_h_file))
+        retval = 1;
 
     /* Clean up and exit */
     proto3_cleanup();
-- 
2.43.0


From bb04b384a3b4249822c984135ed1ddc1aa168d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:09 +0000
Subject: [PATCH 37/37] fix: pass long associated data to OpenSSL in parts

---
 src/backend/openssl/cipher-aesgcm.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index 50e963d..632e480 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -27,6 +27,10 @@
 #include <openssl/err.h>
 #include <string.h>
 
+/* The EVP functions take lengths as "int", so associated data that is
+ * longer than that is provided in parts of this many bytes */
+#define AESGCM_AD_PART 0x40000000
+
 typedef struct
 {
     struct NoiseCipherState_s parent;
@@ -89,11 +93,14 @@ static int noise_aesgcm_encrypt(NoiseCipherState *state, const uint8_t *ad, size
      * required
      */
     int len;
-    if (ad_len > 0) {
-        if (EVP_EncryptUpdate(st->ctx, NULL, &len, ad, ad_len) != 1) {
+    while (ad_len > 0) {
+        int ad_part = (ad_len < AESGCM_AD_PART) ? (int)ad_len : AESGCM_AD_PART;
+        if (EVP_EncryptUpdate(st->ctx, NULL, &len, ad, ad_part) != 1) {
             ERR_clear_error();
             return NOISE_ERROR_SYSTEM;
         }
+        ad += ad_part;
+        ad_len -= ad_part;
     }
 
     /* Provide the message to be encrypted, and obtain the encrypted output.
@@ -143,11 +150,14 @@ static int noise_aesgcm_decrypt(NoiseCipherState *state, const uint8_t *ad, size
      * required
      */
     int len;
-    if (ad_len > 0) {
-        if (!EVP_DecryptUpdate(st->ctx, NULL, &len, ad, ad_len)) {
+    while (ad_len > 0) {
+        int ad_part = (ad_len < AESGCM_AD_PART) ? (int)ad_len : AESGCM_AD_PART;
+        if (!EVP_DecryptUpdate(st->ctx, NULL, &len, ad, ad_part)) {
             ERR_clear_error();
             return NOISE_ERROR_SYSTEM;
         }
+        ad += ad_part;
+        ad_len -= ad_part;
     }
 
     /* Provide the message to be decrypted, and obtain the plaintext output.
-- 
2.43.0

