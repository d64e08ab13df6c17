From d2c2f7c123b4c1d722678d77a1c9b3946fa128e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:20 +0000
Subject: [PATCH 01/56] fix: validation loops forever on a SEI without pending
 NALUs

When SEIs are lost (e.g. a section of the video is missing) and the oldest
pending item is a SEI, verify_hashes_without_sei() marks no items and the GOP
counter never catches up. signed_video_add_nalu_and_authenticate() then never
returns.
---
 lib/src/signed_video_h26x_auth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index b4c74f5..ade9dbb 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -584,6 +584,10 @@ verify_hashes_without_sei(signed_video_t *self)
   // If we have verified a GOP without a SEI, we should increment the |global_gop_counter|.
   if (self->validation_flags.signing_present && (num_marked_items > 0)) {
     self->gop_info->latest_validated_gop++;
+  } else if (self->validation_flags.signing_present && item) {
+    // The oldest pending item is a SEI, hence there are no pending NALUs associated with the lost
+    // SEIs. Catch up with the received SEI, otherwise the validation gets stuck on it forever.
+    self->gop_info->latest_validated_gop = self->gop_info->global_gop_counter - 1;
   }
 
   return found_next_gop;
-- 
2.43.0


From 64bf81ebe2d17156d748f5280959140b87311535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:50 +0000
Subject: [PATCH 02/56] fix: RSA keys cannot sign sha384 and sha512 hashes

---
 lib/src/signed_video_openssl.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 90d83ec..4dea415 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -239,6 +239,21 @@ openssl_read_pubkey_from_private_key(sign_or_verify_data_t *sign_data, pem_pkey_
   return status;
 }
 
+/* Sets the message digest type of an RSA key to the one matching the size of the hash to sign, or
+ * verify. RSA (PKCS#1) requires them to be equal in size. Other types of keys are left untouched. */
+static svrc_t
+set_rsa_signature_md(EVP_PKEY_CTX *ctx, size_t hash_size)
+{
+  EVP_PKEY *pkey = EVP_PKEY_CTX_get0_pkey(ctx);
+  if (!pkey || EVP_PKEY_base_id(pkey) != EVP_PKEY_RSA) return SV_OK;
+
+  const EVP_MD *md = EVP_sha256();
+  if (hash_size == 48) md = EVP_sha384();
+  if (hash_size == 64) md = EVP_sha512();
+
+  return EVP_PKEY_CTX_set_signature_md(ctx, md) > 0 ? SV_OK : SV_EXTERNAL_ERROR;
+}
+
 /* Signs a hash. */
 SignedVideoReturnCode
 openssl_sign_hash(sign_or_verify_data_t *sign_data)
@@ -259,6 +274,7 @@ openssl_sign_hash(sign_or_verify_data_t *sign_data)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW_IF(!ctx, SV_INVALID_PARAMETER);
+    SV_THROW(set_rsa_signature_md(ctx, hash_size));
     // Determine required buffer length of the signature
     SV_THROW_IF(EVP_PKEY_sign(ctx, NULL, &siglen, hash_to_sign, hash_size) <= 0, SV_EXTERNAL_ERROR);
     // Check allocated space for signature
@@ -297,6 +313,7 @@ openssl_verify_hash(const sign_or_verify_data_t *verify_data, int *verified_resu
     SV_THROW_IF(!signature || signature_size == 0 || !hash_to_verify, SV_INVALID_PARAMETER);
     EVP_PKEY_CTX *ctx = (EVP_PKEY_CTX *)verify_data->key;
     SV_THROW_IF(!ctx, SV_INVALID_PARAMETER);
+    SV_THROW(set_rsa_signature_md(ctx, hash_size));
     // EVP_PKEY_verify returns 1 upon success, 0 upon failure and < 0 upon error.
     verified_hash = EVP_PKEY_verify(ctx, signature, signature_size, hash_to_verify, hash_size);
 #ifdef SIGNED_VIDEO_DEBUG
-- 
2.43.0


From 277bc86c8a2ce5f9b8fbcd5ec89bda3c75745da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:51 +0000
Subject: [PATCH 03/56] fix: hash algorithm of the SEI ignored if the public
 key is set manually

---
 lib/src/signed_video_h26x_auth.c | 4 +++-
 lib/src/signed_video_tlv.c       | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index ade9dbb..6c5364e 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -853,7 +853,9 @@ is_recurrent_data_decoded(signed_video_t *self)
 {
   h26x_nalu_list_t *nalu_list = self->nalu_list;
 
-  if (self->has_public_key || !self->validation_flags.signing_present) return true;
+  if (!self->validation_flags.signing_present) return true;
+  // A public key set manually is not enough. The hash algorithm also has to be known.
+  if (self->has_public_key && self->validation_flags.hash_algo_known) return true;
 
   bool recurrent_data_decoded = false;
   h26x_nalu_list_item_t *item = nalu_list->first_item;
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index a0945cf..6eb036c 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -1263,7 +1263,10 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    // Do not replace an existing public key here. That is done, and reported as a change of public
+    // key, when the SEI is validated.
+    bool skip_tag = (this_tag == PUBLIC_KEY_TAG) && self->has_public_key;
+    if (!tlv_tuples[this_tag].is_always_present && !skip_tag) {
       sv_tlv_decoder_t decoder = get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
-- 
2.43.0


From 264e3135f8b17d4b4668328c00e0ff0ae6e780d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:37 +0000
Subject: [PATCH 04/56] fix: hash list of a previous SEI used if the current
 one has none

---
 lib/src/signed_video_h26x_auth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 6c5364e..47c8e9b 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -82,6 +82,8 @@ decode_sei_data(signed_video_t *self, const uint8_t *payload, size_t payload_siz
       self->gop_info->latest_validated_gop + 1);
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
+    // The hash list is optional. Make sure not to use the one of a previous SEI.
+    self->gop_info->list_idx = 0;
     SV_THROW_WITH_MSG(tlv_decode(self, payload, payload_size), "Failed decoding SEI payload");
     detect_lost_sei(self);
     // Every SEI is associated with a GOP. If a lost SEI has been detected, and no GOP end has been
-- 
2.43.0


From e61bb4f19e539aaec6a4fd628bb515907dddc6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:34 +0000
Subject: [PATCH 05/56] fix: unknown hash algorithm in a SEI makes validation
 read out of bounds

---
 lib/src/signed_video_openssl.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 4dea415..e873054 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -419,7 +419,9 @@ oid_to_type(message_digest_t *self)
     SV_THROW_IF(
         !d2i_ASN1_OBJECT(&obj, &encoded_oid_ptr, self->encoded_oid_size), SV_EXTERNAL_ERROR);
     self->type = EVP_get_digestbyobj(obj);
+    SV_THROW_IF(!self->type, SV_EXTERNAL_ERROR);
     self->size = EVP_MD_size(self->type);
+    SV_THROW_IF(self->size == 0 || self->size > MAX_HASH_SIZE, SV_NOT_SUPPORTED);
   SV_CATCH()
   SV_DONE(status)
 
@@ -502,22 +504,31 @@ openssl_set_hash_algo_by_encoded_oid(void *handle,
     return SV_OK;
   }
 
-  // A new hash algorithm to set. Reset existing one.
-  free(self->hash_algo.encoded_oid);
-  self->hash_algo.encoded_oid = NULL;
-  self->hash_algo.encoded_oid_size = 0;
+  // A new hash algorithm to set. Keep the existing one if the new one is not supported.
+  message_digest_t new_hash_algo = {0};
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    self->hash_algo.encoded_oid = malloc(encoded_oid_size);
-    SV_THROW_IF(!self->hash_algo.encoded_oid, SV_MEMORY);
-    memcpy(self->hash_algo.encoded_oid, encoded_oid, encoded_oid_size);
-    self->hash_algo.encoded_oid_size = encoded_oid_size;
+    new_hash_algo.encoded_oid = malloc(encoded_oid_size);
+    SV_THROW_IF(!new_hash_algo.encoded_oid, SV_MEMORY);
+    memcpy(new_hash_algo.encoded_oid, encoded_oid, encoded_oid_size);
+    new_hash_algo.encoded_oid_size = encoded_oid_size;
+
+    SV_THROW(oid_to_type(&new_hash_algo));
 
-    SV_THROW(oid_to_type(&self->hash_algo));
+    free(self->hash_algo.encoded_oid);
+    self->hash_algo = new_hash_algo;
+    new_hash_algo.encoded_oid = NULL;
+    // Free the contexts to be able to assign a new message digest type to them.
+    EVP_MD_CTX_free(self->primary_ctx);
+    self->primary_ctx = NULL;
+    EVP_MD_CTX_free(self->secondary_ctx);
+    self->secondary_ctx = NULL;
   SV_CATCH()
   SV_DONE(status)
 
+  free(new_hash_algo.encoded_oid);
+
   return status;
 }
 
-- 
2.43.0


From 48e953d7a755c22e9125e21589913617d0564d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:34 +0000
Subject: [PATCH 06/56] fix: malformed SEIs and tiny NALUs are read out of
 bounds

---
 lib/src/legacy/legacy_h26x_auth.c   |   6 +-
 lib/src/legacy/legacy_h26x_common.c |  70 ++++++++++++-----
 lib/src/legacy/legacy_tlv.c         |  99 +++++++++++++++++-------
 lib/src/signed_video_h26x_auth.c    |   6 +-
 lib/src/signed_video_h26x_common.c  |  72 +++++++++++++-----
 lib/src/signed_video_tlv.c          | 113 ++++++++++++++++++++--------
 6 files changed, 267 insertions(+), 99 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index bc21e70..1d0cc92 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -56,7 +56,7 @@ static const char *kLegacyAuthResultValidStr[SV_AUTH_NUM_SIGNED_GOP_VALID_STATES
 static svrc_t
 legacy_decode_sei_data(legacy_sv_t *self, const uint8_t *payload, size_t payload_size)
 {
-  assert(self && payload && (payload_size > 0));
+  assert(self && payload);
   // Get the last GOP counter before updating.
   uint32_t last_gop_number = self->gop_info->global_gop_counter;
   uint32_t exp_gop_number = last_gop_number + 1;
@@ -980,8 +980,10 @@ legacy_update_hashable_data(legacy_h26x_nalu_t *nalu)
   // re-calculate hashable_data_size by subtracting the number of bytes (including potential
   // emulation prevention bytes) coresponding to that tag. This is done by scanning the TLV for that
   // tag.
+  const size_t max_tlv_size =
+      nalu->hashable_data + nalu->hashable_data_size - nalu->tlv_start_in_nalu_data;
   const uint8_t *signature_tag_ptr =
-      tlv_find_tag(nalu->tlv_start_in_nalu_data, nalu->tlv_size, SIGNATURE_TAG, nalu->with_epb);
+      tlv_find_tag(nalu->tlv_start_in_nalu_data, max_tlv_size, SIGNATURE_TAG, nalu->with_epb);
 
   if (signature_tag_ptr) nalu->hashable_data_size = signature_tag_ptr - nalu->hashable_data;
 }
diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 8d8cd5e..9853bb9 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -171,14 +171,15 @@ legacy_reset_gop_hash(legacy_sv_t *self)
 }
 
 static size_t
-legacy_get_payload_size(const uint8_t *data, size_t *payload_size)
+legacy_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  const uint8_t *data_end = data + data_size;
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
-  *payload_size += *data_ptr++;
+  if (data_ptr < data_end) *payload_size += *data_ptr++;
 
   return (data_ptr - data);
 }
@@ -204,7 +205,8 @@ legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (nalu->hashable_data_size > LEGACY_H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -275,7 +277,8 @@ legacy_parse_h265_nalu_header(legacy_h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (nalu->hashable_data_size > LEGACY_H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -389,6 +392,10 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
   nalu->tlv_start_in_nalu_data++;  // Move past the |reserved_byte|.
   nalu->tlv_size -= 1;  // Exclude the |reserved_byte| from TLV size.
   nalu->tlv_data = nalu->tlv_start_in_nalu_data;
+  // The size is read from the SEI. Make sure not to read outside the NALU if it is incomplete.
+  const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
+  const size_t max_tlv_size = hashable_data_end - nalu->tlv_start_in_nalu_data;
+  if (nalu->tlv_size > max_tlv_size) nalu->tlv_size = max_tlv_size;
   // Read flags from |reserved_byte|
   nalu->with_epb = (nalu->reserved_byte & 0x80);  // Hash with emulation prevention bytes
   nalu->is_golden_sei = (nalu->reserved_byte & 0x40);  // The NALU is a golden SEI.
@@ -399,7 +406,7 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
   uint16_t last_two_bytes = LAST_TWO_BYTES_INIT_VALUE;
   // Complete data size including stop bit (byte). Note that |payload_size| excludes the final byte
   // with the stop bit.
-  const size_t data_size = (nalu->payload - nalu->hashable_data) + nalu->payload_size + 1;
+  size_t data_size = (nalu->payload - nalu->hashable_data) + nalu->payload_size + 1;
   assert(!nalu->nalu_data_wo_epb);
   nalu->nalu_data_wo_epb = malloc(data_size);
   if (!nalu->nalu_data_wo_epb) {
@@ -409,11 +416,22 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
     // Copy everything from the NALU header to stop bit (byte) inclusive, but with the emulation
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
-    for (size_t i = 0; i < data_size; i++) {
-      nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
+    // The last byte has the stop bit, hence an emulation prevention byte cannot end the NALU.
+    size_t i = 0;
+    while (i < data_size && hashable_data_ptr < hashable_data_end - 1) {
+      nalu->nalu_data_wo_epb[i++] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
+    }
+    if (i < data_size && hashable_data_ptr < hashable_data_end) {
+      nalu->nalu_data_wo_epb[i++] = *hashable_data_ptr;
     }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
-    nalu->tlv_data = &nalu->nalu_data_wo_epb[data_size - nalu->payload_size + UUID_LEN];
+    const size_t tlv_offset = data_size - nalu->payload_size + UUID_LEN;
+    nalu->tlv_data = &nalu->nalu_data_wo_epb[tlv_offset];
+    if (i < data_size) {
+      // There were more emulation prevention bytes than expected.
+      data_size = i;
+      nalu->tlv_size = (data_size > tlv_offset) ? data_size - tlv_offset : 0;
+    }
     if (!nalu->with_epb) {
       // If the SEI was hashed before applying emulation prevention, update |hashable_data|.
       nalu->hashable_data = nalu->nalu_data_wo_epb;
@@ -460,7 +478,13 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  size_t read_bytes = 0;
+  if (nalu_data_size >= 4) {
+    read_bytes = read_32bits(nalu_data, &start_code);
+  } else if (nalu_data_size == 3) {
+    // There is only room for a 3 byte Start Code.
+    start_code = (nalu_data[0] << 24) | (nalu_data[1] << 16) | (nalu_data[2] << 8);
+  }
   bool nalu_header_is_valid = false;
 
   if (start_code != kStartCode) {
@@ -475,13 +499,18 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   }
   nalu.hashable_data = &nalu_data[read_bytes];
   nalu.start_code = start_code;
+  nalu.hashable_data_size = nalu_data_size - read_bytes;
 
+  nalu_header_len = (codec == SV_CODEC_H264) ? LEGACY_H264_NALU_HEADER_LEN : LEGACY_H265_NALU_HEADER_LEN;
+  if (nalu.hashable_data_size < nalu_header_len) {
+    // There is no NALU header to parse, mark as invalid.
+    nalu.is_valid = 0;
+    return nalu;
+  }
   if (codec == SV_CODEC_H264) {
     nalu_header_is_valid = legacy_parse_h264_nalu_header(&nalu);
-    nalu_header_len = LEGACY_H264_NALU_HEADER_LEN;
   } else {
     nalu_header_is_valid = legacy_parse_h265_nalu_header(&nalu);
-    nalu_header_len = LEGACY_H265_NALU_HEADER_LEN;
   }
   // If a correct NALU header could not be parsed, mark as invalid.
   nalu.is_valid = nalu_header_is_valid;
@@ -495,7 +524,8 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && (nalu_data_size > read_bytes + nalu_header_len) &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
@@ -505,13 +535,15 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   if (nalu.nalu_type == NALU_TYPE_SEI) {
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
+    const uint8_t *payload_end = nalu.hashable_data + nalu.hashable_data_size;
     // Check user_data_unregistered
-    uint8_t user_data_unregistered = *payload;
+    bool is_user_data_unregistered =
+        (payload < payload_end) && (*payload == LEGACY_USER_DATA_UNREGISTERED);
     payload++;
-    if (user_data_unregistered == LEGACY_USER_DATA_UNREGISTERED) {
+    if (is_user_data_unregistered) {
       // Decode payload size and compute emulation prevention bytes
       size_t payload_size = 0;
-      size_t read_bytes = legacy_get_payload_size(payload, &payload_size);
+      size_t read_bytes = legacy_get_payload_size(payload, payload_end - payload, &payload_size);
       payload += read_bytes;
       nalu.payload = payload;
       nalu.payload_size = payload_size;
@@ -527,8 +559,10 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
       nalu.emulation_prevention_bytes = epb;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
-      // Decode UUID type
-      nalu.uuid_type = legacy_get_uuid_sei_type(payload);
+      // Decode UUID type, which requires at least a UUID and the |reserved_byte|.
+      if (payload_size > UUID_LEN && payload_end - payload > UUID_LEN) {
+        nalu.uuid_type = legacy_get_uuid_sei_type(payload);
+      }
     } else {
       // We only have UUID if SEI-NALU is user_data_unregistered
       nalu.uuid_type = UUID_TYPE_UNDEFINED;
diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index ab75a40..a9d2f45 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -134,6 +134,7 @@ static legacy_sv_tlv_tuple_t
 legacy_get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length);
@@ -174,6 +175,9 @@ static svrc_t
 legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
   if (!self || !data) return SV_INVALID_PARAMETER;
+  // The fields below are present in all versions.
+  const size_t min_size = 1 + sizeof(uint32_t) + sizeof(uint16_t) + SV_VERSION_BYTES;
+  if (data_size < min_size) return SV_AUTHENTICATION_ERROR;
 
   const uint8_t *data_ptr = data;
   legacy_gop_info_t *gop_info = self->gop_info;
@@ -201,9 +205,12 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
     if (version >= 2) {
       // Read bool flags
       uint8_t flags = 0;
+      SV_THROW_IF(data_size < min_size + sizeof(flags), SV_AUTHENTICATION_ERROR);
       data_ptr += read_8bits(data_ptr, &flags);
       gop_info->has_timestamp = flags & 0x01;
       if (gop_info->has_timestamp) {
+        SV_THROW_IF(data_size < min_size + sizeof(flags) + sizeof(gop_info->timestamp),
+            SV_AUTHENTICATION_ERROR);
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
       }
       if (self->latest_validation) {
@@ -235,43 +242,53 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
   return status;
 }
 
+/**
+ * @brief Reads a null-terminated string of the PRODUCT_INFO_TAG and moves |data_ptr| past it
+ *
+ * The string is preceded by one byte representing its size, including the null-terminated character.
+ */
+static svrc_t
+legacy_decode_product_info_string(const uint8_t **data_ptr, const uint8_t *data_end, char **dst_str)
+{
+  if (*data_ptr >= data_end) return SV_AUTHENTICATION_ERROR;
+  uint8_t str_size = *(*data_ptr)++;
+  const char *str = (const char *)*data_ptr;
+  if (str_size == 0 || str_size > data_end - *data_ptr) return SV_AUTHENTICATION_ERROR;
+  if (str[str_size - 1] != '\0') return SV_AUTHENTICATION_ERROR;
+  *data_ptr += str_size;
+
+  return allocate_memory_and_copy_string(dst_str, str);
+}
+
 /**
  * @brief Decodes the PRODUCT_INFO_TAG from data
  */
 static svrc_t
 legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (!self || !self->product_info) return SV_INVALID_PARAMETER;
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   uint8_t version = *data_ptr++;
   svrc_t status = SV_UNKNOWN_FAILURE;
 
-  if (!self || !self->product_info) return SV_INVALID_PARAMETER;
-
   SV_TRY()
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
 
     signed_video_product_info_t *product_info = self->product_info;
 
-    uint8_t hardware_id_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
-    data_ptr += hardware_id_size;
-
-    uint8_t firmware_version_size = *data_ptr++;
-    SV_THROW(
-        allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
-    data_ptr += firmware_version_size;
-
-    uint8_t serial_number_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
-    data_ptr += serial_number_size;
-
-    uint8_t manufacturer_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
-    data_ptr += manufacturer_size;
-
-    uint8_t address_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
-    data_ptr += address_size;
+    SV_THROW(legacy_decode_product_info_string(
+        &data_ptr, data_end, &product_info->hardware_id));
+    SV_THROW(legacy_decode_product_info_string(
+        &data_ptr, data_end, &product_info->firmware_version));
+    SV_THROW(legacy_decode_product_info_string(
+        &data_ptr, data_end, &product_info->serial_number));
+    SV_THROW(legacy_decode_product_info_string(
+        &data_ptr, data_end, &product_info->manufacturer));
+    SV_THROW(legacy_decode_product_info_string(
+        &data_ptr, data_end, &product_info->address));
 
     // Transfer the decoded |product_info| to the authenticity report.
     SV_THROW(transfer_product_info(&self->authenticity->product_info, product_info));
@@ -298,6 +315,8 @@ legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_s
 static svrc_t
 legacy_decode_arbitrary_data(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   uint16_t arbdata_size = (uint16_t)(data_size - 1);
@@ -337,6 +356,9 @@ legacy_decode_arbitrary_data(legacy_sv_t *self, const uint8_t *data, size_t data
 static svrc_t
 legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // At least a version and, in older versions, an algo have to be present.
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   pem_pkey_t *pem_public_key = &self->pem_public_key;
   uint8_t version = *data_ptr++;
@@ -356,6 +378,7 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
 
     if (pem_public_key->key_size != pubkey_size) {
       free(pem_public_key->key);
+      pem_public_key->key_size = 0;
       pem_public_key->key = calloc(1, pubkey_size);
       SV_THROW_IF(!pem_public_key->key, SV_MEMORY);
       pem_public_key->key_size = pubkey_size;
@@ -406,6 +429,8 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
 static svrc_t
 legacy_decode_hash_list(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_list_size = data_size - (data_ptr - data);
@@ -442,6 +467,9 @@ legacy_decode_hash_list(legacy_sv_t *self, const uint8_t *data, size_t data_size
 static svrc_t
 legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // The version, info field, hash type and signature size (2 bytes) have to be present.
+  if (data_size < 5) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   legacy_gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
@@ -499,9 +527,13 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
 static svrc_t
 legacy_decode_crypto_info(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
+  if (hash_algo_encoded_oid_size > data_size - 2) return SV_AUTHENTICATION_ERROR;
+
   const unsigned char *hash_algo_encoded_oid = (const unsigned char *)data_ptr;
   char *hash_algo_name =
       openssl_encoded_oid_to_str(hash_algo_encoded_oid, hash_algo_encoded_oid_size);
@@ -556,12 +588,13 @@ legacy_decode_axis_communications(legacy_sv_t ATTR_UNUSED *self,
 
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || data_size == 0 || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
@@ -571,15 +604,25 @@ legacy_decode_tlv_header(const uint8_t *data,
     DEBUG_LOG("Parsed an invalid tag (%d) in the data", tag_from_data);
     return SV_INVALID_PARAMETER;
   }
+  if (tlv.tag == UNDEFINED_TAG || data_size < (size_t)1 + tlv.bytes_for_length) {
+    DEBUG_LOG("Parsed an undefined, or incomplete, tag (%d)", tag_from_data);
+    return SV_INVALID_PARAMETER;
+  }
   *tag = tag_from_data;
 
   if (tlv.bytes_for_length == 2) {
-    data_ptr += read_16bits(data_ptr, (uint16_t *)length);
+    uint16_t length_from_data = 0;
+    data_ptr += read_16bits(data_ptr, &length_from_data);
+    *length = length_from_data;
   } else {
     *length = *data_ptr++;
   }
 
   *data_bytes_read = (data_ptr - data);
+  if (*length > data_size - *data_bytes_read) {
+    DEBUG_LOG("The length (%zu) of tag %d exceeds available data", *length, tag_from_data);
+    return SV_INVALID_PARAMETER;
+  }
 
   return SV_OK;
 }
@@ -596,7 +639,8 @@ legacy_tlv_decode(legacy_sv_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = legacy_decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    status = legacy_decode_tlv_header(
+        data_ptr, data + data_size - data_ptr, &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -630,13 +674,14 @@ legacy_tlv_find_and_decode_optional_tags(legacy_sv_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = legacy_decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    status = legacy_decode_tlv_header(tlv_data_ptr, tlv_data + tlv_data_size - tlv_data_ptr,
+        &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!legacy_get_tlv_tuple(this_tag).is_always_present) {
       legacy_sv_tlv_decoder_t decoder = legacy_get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 47c8e9b..cd1d225 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -77,7 +77,7 @@ static const char *kAuthResultValidStr[SV_AUTH_NUM_SIGNED_GOP_VALID_STATES] = {"
 static svrc_t
 decode_sei_data(signed_video_t *self, const uint8_t *payload, size_t payload_size)
 {
-  assert(self && payload && (payload_size > 0));
+  assert(self && payload);
   DEBUG_LOG("SEI payload size = %zu, exp gop number = %u", payload_size,
       self->gop_info->latest_validated_gop + 1);
   svrc_t status = SV_UNKNOWN_FAILURE;
@@ -1066,8 +1066,10 @@ update_hashable_data(h26x_nalu_t *nalu)
   // re-calculate hashable_data_size by subtracting the number of bytes (including potential
   // emulation prevention bytes) coresponding to that tag. This is done by scanning the TLV for that
   // tag.
+  const size_t max_tlv_size =
+      nalu->hashable_data + nalu->hashable_data_size - nalu->tlv_start_in_nalu_data;
   const uint8_t *signature_tag_ptr =
-      tlv_find_tag(nalu->tlv_start_in_nalu_data, nalu->tlv_size, SIGNATURE_TAG, nalu->with_epb);
+      tlv_find_tag(nalu->tlv_start_in_nalu_data, max_tlv_size, SIGNATURE_TAG, nalu->with_epb);
 
   if (signature_tag_ptr) nalu->hashable_data_size = signature_tag_ptr - nalu->hashable_data;
 }
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index a68dad2..9f61ca5 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -58,7 +58,7 @@ static void
 gop_info_free(gop_info_t *gop_info);
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size);
+h264_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size);
 static SignedVideoUUIDType
 h264_get_uuid_sei_type(const uint8_t *uuid);
 static void
@@ -317,14 +317,15 @@ struct_member_memory_allocated_and_copy(void **member_ptr,
 }
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size)
+h264_get_payload_size(const uint8_t *data, size_t data_size, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  const uint8_t *data_end = data + data_size;
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
-  *payload_size += *data_ptr++;
+  if (data_ptr < data_end) *payload_size += *data_ptr++;
 
   return (data_ptr - data);
 }
@@ -350,7 +351,8 @@ parse_h264_nalu_header(h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (nalu->hashable_data_size > H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -421,7 +423,8 @@ parse_h265_nalu_header(h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (nalu->hashable_data_size > H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -535,6 +538,10 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
   nalu->tlv_start_in_nalu_data++;  // Move past the |reserved_byte|.
   nalu->tlv_size -= 1;  // Exclude the |reserved_byte| from TLV size.
   nalu->tlv_data = nalu->tlv_start_in_nalu_data;
+  // The size is read from the SEI. Make sure not to read outside the NALU if it is incomplete.
+  const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
+  const size_t max_tlv_size = hashable_data_end - nalu->tlv_start_in_nalu_data;
+  if (nalu->tlv_size > max_tlv_size) nalu->tlv_size = max_tlv_size;
   // Read flags from |reserved_byte|
   nalu->with_epb = (nalu->reserved_byte & 0x80);  // Hash with emulation prevention bytes
   nalu->is_golden_sei = (nalu->reserved_byte & 0x40);  // The NALU is a golden SEI.
@@ -545,7 +552,7 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
   uint16_t last_two_bytes = LAST_TWO_BYTES_INIT_VALUE;
   // Complete data size including stop bit (byte). Note that |payload_size| excludes the final byte
   // with the stop bit.
-  const size_t data_size = (nalu->payload - nalu->hashable_data) + nalu->payload_size + 1;
+  size_t data_size = (nalu->payload - nalu->hashable_data) + nalu->payload_size + 1;
   assert(!nalu->nalu_data_wo_epb);
   nalu->nalu_data_wo_epb = malloc(data_size);
   if (!nalu->nalu_data_wo_epb) {
@@ -555,11 +562,22 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
     // Copy everything from the NALU header to stop bit (byte) inclusive, but with the emulation
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
-    for (size_t i = 0; i < data_size; i++) {
-      nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
+    // The last byte has the stop bit, hence an emulation prevention byte cannot end the NALU.
+    size_t i = 0;
+    while (i < data_size && hashable_data_ptr < hashable_data_end - 1) {
+      nalu->nalu_data_wo_epb[i++] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
+    }
+    if (i < data_size && hashable_data_ptr < hashable_data_end) {
+      nalu->nalu_data_wo_epb[i++] = *hashable_data_ptr;
     }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
-    nalu->tlv_data = &nalu->nalu_data_wo_epb[data_size - nalu->payload_size + UUID_LEN];
+    const size_t tlv_offset = data_size - nalu->payload_size + UUID_LEN;
+    nalu->tlv_data = &nalu->nalu_data_wo_epb[tlv_offset];
+    if (i < data_size) {
+      // There were more emulation prevention bytes than expected.
+      data_size = i;
+      nalu->tlv_size = (data_size > tlv_offset) ? data_size - tlv_offset : 0;
+    }
     if (!nalu->with_epb) {
       // If the SEI was hashed before applying emulation prevention, update |hashable_data|.
       nalu->hashable_data = nalu->nalu_data_wo_epb;
@@ -606,7 +624,13 @@ parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  size_t read_bytes = 0;
+  if (nalu_data_size >= 4) {
+    read_bytes = read_32bits(nalu_data, &start_code);
+  } else if (nalu_data_size == 3) {
+    // There is only room for a 3 byte Start Code.
+    start_code = (nalu_data[0] << 24) | (nalu_data[1] << 16) | (nalu_data[2] << 8);
+  }
   bool nalu_header_is_valid = false;
 
   if (start_code != kStartCode) {
@@ -621,13 +645,18 @@ parse_nalu_info(const uint8_t *nalu_data,
   }
   nalu.hashable_data = &nalu_data[read_bytes];
   nalu.start_code = start_code;
+  nalu.hashable_data_size = nalu_data_size - read_bytes;
 
+  nalu_header_len = (codec == SV_CODEC_H264) ? H264_NALU_HEADER_LEN : H265_NALU_HEADER_LEN;
+  if (nalu.hashable_data_size < nalu_header_len) {
+    // There is no NALU header to parse, mark as invalid.
+    nalu.is_valid = 0;
+    return nalu;
+  }
   if (codec == SV_CODEC_H264) {
     nalu_header_is_valid = parse_h264_nalu_header(&nalu);
-    nalu_header_len = H264_NALU_HEADER_LEN;
   } else {
     nalu_header_is_valid = parse_h265_nalu_header(&nalu);
-    nalu_header_len = H265_NALU_HEADER_LEN;
   }
   // If a correct NALU header could not be parsed, mark as invalid.
   nalu.is_valid = nalu_header_is_valid;
@@ -641,7 +670,8 @@ parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && (nalu_data_size > read_bytes + nalu_header_len) &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
@@ -651,13 +681,15 @@ parse_nalu_info(const uint8_t *nalu_data,
   if (nalu.nalu_type == NALU_TYPE_SEI) {
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
+    const uint8_t *payload_end = nalu.hashable_data + nalu.hashable_data_size;
     // Check user_data_unregistered
-    uint8_t user_data_unregistered = *payload;
+    bool is_user_data_unregistered =
+        (payload < payload_end) && (*payload == USER_DATA_UNREGISTERED);
     payload++;
-    if (user_data_unregistered == USER_DATA_UNREGISTERED) {
+    if (is_user_data_unregistered) {
       // Decode payload size and compute emulation prevention bytes
       size_t payload_size = 0;
-      size_t read_bytes = h264_get_payload_size(payload, &payload_size);
+      size_t read_bytes = h264_get_payload_size(payload, payload_end - payload, &payload_size);
       payload += read_bytes;
       nalu.payload = payload;
       nalu.payload_size = payload_size;
@@ -673,8 +705,10 @@ parse_nalu_info(const uint8_t *nalu_data,
       nalu.emulation_prevention_bytes = epb;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
-      // Decode UUID type
-      nalu.uuid_type = h264_get_uuid_sei_type(payload);
+      // Decode UUID type, which requires at least a UUID and the |reserved_byte|.
+      if (payload_size > UUID_LEN && payload_end - payload > UUID_LEN) {
+        nalu.uuid_type = h264_get_uuid_sei_type(payload);
+      }
     } else {
       // We only have UUID if SEI-NALU is user_data_unregistered
       nalu.uuid_type = UUID_TYPE_UNDEFINED;
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 6eb036c..e20926b 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -178,7 +178,11 @@ get_decoder(sv_tlv_tag_t tag);
 static sv_tlv_tuple_t
 get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length);
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length);
 
 /* Selects and returns the correct decoder from either |tlv_tuples| or |vendor_tlv_tuples|. */
 static sv_tlv_decoder_t
@@ -307,6 +311,9 @@ static svrc_t
 decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
   if (!self || !data) return SV_INVALID_PARAMETER;
+  // The fields below are present in all versions.
+  const size_t min_size = 1 + sizeof(uint32_t) + sizeof(uint16_t) + SV_VERSION_BYTES;
+  if (data_size < min_size) return SV_AUTHENTICATION_ERROR;
 
   const uint8_t *data_ptr = data;
   gop_info_t *gop_info = self->gop_info;
@@ -335,9 +342,12 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
     if (version >= 2) {
       // Read bool flags
       uint8_t flags = 0;
+      SV_THROW_IF(data_size < min_size + sizeof(flags), SV_AUTHENTICATION_ERROR);
       data_ptr += read_8bits(data_ptr, &flags);
       gop_info->has_timestamp = flags & 0x01;
       if (gop_info->has_timestamp) {
+        SV_THROW_IF(data_size < min_size + sizeof(flags) + sizeof(gop_info->timestamp),
+            SV_AUTHENTICATION_ERROR);
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
       }
       if (self->latest_validation) {
@@ -349,6 +359,7 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
     }
     if (version >= 3) {
       hash_size = (data_size - (data_ptr - data)) / 2;
+      SV_THROW_IF(hash_size > MAX_HASH_SIZE, SV_AUTHENTICATION_ERROR);
       // Decode linked hash data.
       memcpy(self->received_linked_hash, data_ptr, hash_size);
       data_ptr += hash_size;
@@ -511,43 +522,48 @@ encode_product_info(signed_video_t *self, uint8_t *data)
   return (data_ptr - data);
 }
 
+/**
+ * @brief Reads a null-terminated string of the PRODUCT_INFO_TAG and moves |data_ptr| past it
+ *
+ * The string is preceded by one byte representing its size, including the null-terminated character.
+ */
+static svrc_t
+decode_product_info_string(const uint8_t **data_ptr, const uint8_t *data_end, char **dst_str)
+{
+  if (*data_ptr >= data_end) return SV_AUTHENTICATION_ERROR;
+  uint8_t str_size = *(*data_ptr)++;
+  const char *str = (const char *)*data_ptr;
+  if (str_size == 0 || str_size > data_end - *data_ptr) return SV_AUTHENTICATION_ERROR;
+  if (str[str_size - 1] != '\0') return SV_AUTHENTICATION_ERROR;
+  *data_ptr += str_size;
+
+  return allocate_memory_and_copy_string(dst_str, str);
+}
+
 /**
  * @brief Decodes the PRODUCT_INFO_TAG from data
  */
 static svrc_t
 decode_product_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (!self || !self->product_info) return SV_INVALID_PARAMETER;
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
+  const uint8_t *data_end = data + data_size;
   uint8_t version = *data_ptr++;
   svrc_t status = SV_UNKNOWN_FAILURE;
 
-  if (!self || !self->product_info) return SV_INVALID_PARAMETER;
-
   SV_TRY()
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
 
     signed_video_product_info_t *product_info = self->product_info;
 
-    uint8_t hardware_id_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
-    data_ptr += hardware_id_size;
-
-    uint8_t firmware_version_size = *data_ptr++;
-    SV_THROW(
-        allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
-    data_ptr += firmware_version_size;
-
-    uint8_t serial_number_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
-    data_ptr += serial_number_size;
-
-    uint8_t manufacturer_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
-    data_ptr += manufacturer_size;
-
-    uint8_t address_size = *data_ptr++;
-    SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
-    data_ptr += address_size;
+    SV_THROW(decode_product_info_string(&data_ptr, data_end, &product_info->hardware_id));
+    SV_THROW(decode_product_info_string(&data_ptr, data_end, &product_info->firmware_version));
+    SV_THROW(decode_product_info_string(&data_ptr, data_end, &product_info->serial_number));
+    SV_THROW(decode_product_info_string(&data_ptr, data_end, &product_info->manufacturer));
+    SV_THROW(decode_product_info_string(&data_ptr, data_end, &product_info->address));
 
     // Transfer the decoded |product_info| to the authenticity report.
     if (self->authenticity) {
@@ -607,6 +623,8 @@ encode_arbitrary_data(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_arbitrary_data(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   uint16_t arbdata_size = (uint16_t)(data_size - 1);
@@ -694,6 +712,9 @@ encode_public_key(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // At least a version and, in older versions, an algo have to be present.
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   pem_pkey_t *pem_public_key = &self->pem_public_key;
   uint8_t version = *data_ptr++;
@@ -713,6 +734,7 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
 
     if (pem_public_key->key_size != pubkey_size) {
       free(pem_public_key->key);
+      pem_public_key->key_size = 0;
       pem_public_key->key = calloc(1, pubkey_size);
       SV_THROW_IF(!pem_public_key->key, SV_MEMORY);
       pem_public_key->key_size = pubkey_size;
@@ -804,6 +826,8 @@ encode_hash_list(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_hash_list(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_list_size = data_size - (data_ptr - data);
@@ -896,6 +920,9 @@ encode_signature(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // The version, info field, hash type and signature size (2 bytes) have to be present.
+  if (data_size < 5) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
@@ -997,9 +1024,13 @@ encode_crypto_info(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_crypto_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
+  if (hash_algo_encoded_oid_size > data_size - 2) return SV_AUTHENTICATION_ERROR;
+
   const unsigned char *hash_algo_encoded_oid = (const unsigned char *)data_ptr;
   char *hash_algo_name =
       openssl_encoded_oid_to_str(hash_algo_encoded_oid, hash_algo_encoded_oid_size);
@@ -1151,10 +1182,14 @@ tlv_list_encode_or_get_size(signed_video_t *self,
 }
 
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length)
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || data_size == 0 || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
@@ -1164,15 +1199,25 @@ decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *ta
     DEBUG_LOG("Parsed an invalid tag (%d) in the data", tag_from_data);
     return SV_INVALID_PARAMETER;
   }
+  if (tlv.tag == UNDEFINED_TAG || data_size < (size_t)1 + tlv.bytes_for_length) {
+    DEBUG_LOG("Parsed an undefined, or incomplete, tag (%d)", tag_from_data);
+    return SV_INVALID_PARAMETER;
+  }
   *tag = tag_from_data;
 
   if (tlv.bytes_for_length == 2) {
-    data_ptr += read_16bits(data_ptr, (uint16_t *)length);
+    uint16_t length_from_data = 0;
+    data_ptr += read_16bits(data_ptr, &length_from_data);
+    *length = length_from_data;
   } else {
     *length = *data_ptr++;
   }
 
   *data_bytes_read = (data_ptr - data);
+  if (*length > data_size - *data_bytes_read) {
+    DEBUG_LOG("The length (%zu) of tag %d exceeds available data", *length, tag_from_data);
+    return SV_INVALID_PARAMETER;
+  }
 
   return SV_OK;
 }
@@ -1189,7 +1234,8 @@ tlv_decode(signed_video_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    status = decode_tlv_header(
+        data_ptr, data + data_size - data_ptr, &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -1216,8 +1262,10 @@ tlv_find_tag(const uint8_t *tlv_data, size_t tlv_data_size, sv_tlv_tag_t tag, bo
 
   if (!tlv_data || tlv_data_size == 0) return 0;
 
+  const uint8_t *tlv_data_end = tlv_data + tlv_data_size;
   uint16_t last_two_bytes = LAST_TWO_BYTES_INIT_VALUE;
-  while (tlv_data_ptr < tlv_data + tlv_data_size) {
+  // Reading one byte moves at most two bytes forward due to emulation prevention.
+  while (tlv_data_end - tlv_data_ptr >= 2) {
     latest_tag_location = tlv_data_ptr;
     // Read the tag
     sv_tlv_tag_t this_tag = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
@@ -1226,14 +1274,16 @@ tlv_find_tag(const uint8_t *tlv_data, size_t tlv_data_size, sv_tlv_tag_t tag, bo
     }
 
     // Read the length
+    if (tlv_data_end - tlv_data_ptr < 2) break;
     uint16_t length = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
     sv_tlv_tuple_t tlv = get_tlv_tuple(this_tag);
     if (tlv.bytes_for_length == 2) {
+      if (tlv_data_end - tlv_data_ptr < 2) break;
       length <<= 8;
       length |= read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
     }
     // Scan past the data
-    for (int i = 0; i < length; i++) {
+    for (int i = 0; i < length && tlv_data_end - tlv_data_ptr >= 2; i++) {
       read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
     }
   }
@@ -1257,7 +1307,8 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    status = decode_tlv_header(tlv_data_ptr, tlv_data + tlv_data_size - tlv_data_ptr,
+        &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
@@ -1266,7 +1317,7 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
     // Do not replace an existing public key here. That is done, and reported as a change of public
     // key, when the SEI is validated.
     bool skip_tag = (this_tag == PUBLIC_KEY_TAG) && self->has_public_key;
-    if (!tlv_tuples[this_tag].is_always_present && !skip_tag) {
+    if (!get_tlv_tuple(this_tag).is_always_present && !skip_tag) {
       sv_tlv_decoder_t decoder = get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
-- 
2.43.0


From c559489945b289be700c845bbbdc689eec9c6d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:01 +0000
Subject: [PATCH 07/56] fix: GOP validated OK if its signature is malformed

---
 lib/src/signed_video_h26x_auth.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index cd1d225..34e399b 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -515,8 +515,6 @@ verify_hashes_with_sei(signed_video_t *self, int *num_expected_nalus, int *num_r
     // An error occurred when verifying the GOP hash. Verify without a SEI.
     validation_status = 'E';
     sei->validation_status = validation_status;
-    // Remove |used_in_gop_hash| from marked NALUs.
-    remove_used_in_gop_hash(self->nalu_list);
     return verify_hashes_without_sei(self);
   }
 
-- 
2.43.0


From 9c97fc4b14bc64423f1f2cb892fed3195097fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:03 +0000
Subject: [PATCH 08/56] fix: GOP without any received pictures is validated OK

If all NALUs of a GOP but its SEI are lost, or the SEI itself fails
verification with no NALUs left to associate with it, the result was
SV_AUTH_RESULT_OK. Nothing has been verified as authentic then, hence
the result is SV_AUTH_RESULT_NOT_OK.
---
 lib/src/signed_video_h26x_auth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 34e399b..fb512d6 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -664,6 +664,10 @@ validate_authenticity(signed_video_t *self)
         (num_missed_nalus >= num_expected_nalus)) {
       valid = SV_AUTH_RESULT_NOT_OK;
     }
+    // The same applies if there were no items left to associate with the SEI.
+    if ((valid == SV_AUTH_RESULT_OK) && (num_expected_nalus != 0) && !has_valid_nalus) {
+      valid = SV_AUTH_RESULT_NOT_OK;
+    }
     self->gop_info->global_gop_counter_is_synced = true;
   }
   // Determine if this GOP is valid, but has missing information. This happens if we have detected
-- 
2.43.0


From 0e852552bf9245683f715f223168c32211e5f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:33 +0000
Subject: [PATCH 09/56] fix: change to another type of public key makes all
 validations fail with errors

---
 lib/src/signed_video_tlv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index e20926b..db02d95 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -944,7 +944,9 @@ decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
     SV_THROW_IF(hash_type < 0 || hash_type >= NUM_HASH_TYPES, SV_AUTHENTICATION_ERROR);
     SV_THROW_IF(max_signature_size < signature_size, SV_AUTHENTICATION_ERROR);
-    if (!*signature_ptr) {
+    // The size differs if the video is signed with another type of key than before.
+    if (!*signature_ptr || verify_data->max_signature_size != max_signature_size) {
+      free(*signature_ptr);
       verify_data->max_signature_size = 0;
       verify_data->signature_size = 0;
       // Allocate enough space for future signatures as well, that is, max_signature_size.
@@ -953,7 +955,6 @@ decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
       // Set memory size.
       verify_data->max_signature_size = max_signature_size;
     }
-    SV_THROW_IF(verify_data->max_signature_size != max_signature_size, SV_MEMORY);
     memcpy(*signature_ptr, data_ptr, max_signature_size);
     data_ptr += max_signature_size;
 
-- 
2.43.0


From cd04b291c6c86e5ec5b7ae8f10f721f530ce8430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:00 +0000
Subject: [PATCH 10/56] fix: last GOP is not OK if the end of stream is set
 with GOP level signing

---
 lib/src/signed_video_h26x_sign.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 50d9ffc..2044e71 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -520,7 +520,8 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
 
     // Finalize GOP hash and generate SEI if the NALU is I frame of a non-empty GOP.
     if (nalu.is_first_nalu_in_gop && nalu.is_last_nalu_part) {
-      if (self->sei_generation_enabled) {
+      // The GOP is empty (|list_idx| = 0) if it has already been signed at an end of stream.
+      if (self->sei_generation_enabled && gop_info->list_idx != 0) {
         if (timestamp) {
           self->gop_info->timestamp = *timestamp;
           self->gop_info->has_timestamp = true;
@@ -728,6 +729,10 @@ signed_video_set_end_of_stream(signed_video_t *self)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(prepare_for_nalus_to_prepend(self));
+    // Finalize the |computed_gop_hash| of the last, so far unsigned, GOP.
+    if (self->gop_info->list_idx != 0) {
+      SV_THROW(openssl_finalize_hash(self->crypto_handle, self->gop_info->computed_gop_hash, true));
+    }
     SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
     add_payload_to_buffer(self, payload, payload_signature_ptr);
     // Fetch the signature. If it is not ready we exit without generating the SEI.
-- 
2.43.0


From f1ed54878e85336b4ea9de076416b19e6f50dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:34 +0000
Subject: [PATCH 11/56] fix: a NALU refused until SEIs are fetched cannot be
 added again

---
 lib/src/signed_video_h26x_sign.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 2044e71..a1790db 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -489,11 +489,10 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     // Only check for trailing zeros if this is the last part.
     nalu = parse_nalu_info(nalu_data, nalu_data_size, self->codec, is_last_part, false);
     nalu.is_last_nalu_part = is_last_part;
-    copy_nalu_except_pointers(self->last_nalu, &nalu);
   } else {
-    self->last_nalu->is_first_nalu_part = false;
-    self->last_nalu->is_last_nalu_part = is_last_part;
     copy_nalu_except_pointers(&nalu, self->last_nalu);
+    nalu.is_first_nalu_part = false;
+    nalu.is_last_nalu_part = is_last_part;
     nalu.nalu_data = nalu_data;
     nalu.hashable_data = nalu_data;
     // Remove any trailing 0x00 bytes at the end of a NALU.
@@ -505,7 +504,14 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
+    // The user may fetch the SEIs and call again, hence verify that the NALU (part) can be processed
+    // before changing any state.
     SV_THROW(prepare_for_nalus_to_prepend(self));
+    if (nalu.is_first_nalu_in_gop && nalu.is_last_nalu_part && self->sei_generation_enabled) {
+      SV_THROW_IF_WITH_MSG(self->sei_data_buffer_idx >= MAX_SEI_DATA_BUFFER, SV_NOT_SUPPORTED,
+          "There is no room for another SEI.");
+    }
+    copy_nalu_except_pointers(self->last_nalu, &nalu);
 
     SV_THROW_IF(nalu.is_valid < 0, SV_INVALID_PARAMETER);
 
-- 
2.43.0


From f1444b1d153b8f3b09112699ecec1a256447388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:31 +0000
Subject: [PATCH 12/56] fix: last part of a NALU holding trailing zeros only is
 read out of bounds

---
 lib/src/signed_video_h26x_common.c | 3 +++
 lib/src/signed_video_h26x_sign.c   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 9f61ca5..e31906c 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -953,6 +953,9 @@ update_hash(signed_video_t *self,
   const uint8_t *hashable_data = nalu->hashable_data;
   size_t hashable_data_size = nalu->hashable_data_size;
 
+  // The last part of a NALU may consist of trailing zeros only.
+  if (hashable_data_size == 0) return SV_OK;
+
   return openssl_update_hash(self->crypto_handle, hashable_data, hashable_data_size, false);
 }
 
diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index a1790db..225b383 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -496,7 +496,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     nalu.nalu_data = nalu_data;
     nalu.hashable_data = nalu_data;
     // Remove any trailing 0x00 bytes at the end of a NALU.
-    while (is_last_part && (nalu_data[nalu_data_size - 1] == 0x00)) {
+    while (is_last_part && nalu_data_size > 0 && (nalu_data[nalu_data_size - 1] == 0x00)) {
       nalu_data_size--;
     }
     nalu.hashable_data_size = nalu_data_size;
-- 
2.43.0


From 923efaff55e7f9f86bd8a006a5fe90e4071046e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:30 +0000
Subject: [PATCH 13/56] fix: failed signing gives the next signature to the
 wrong SEI or writes to freed memory

---
 lib/src/signed_video_h26x_sign.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 225b383..0827f22 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -109,7 +109,8 @@ static svrc_t
 complete_sei_nalu_and_add_to_prepend(signed_video_t *self)
 {
   assert(self);
-  if (self->sei_data_buffer_idx < 1) return SV_NOT_SUPPORTED;
+  // There has to be a SEI waiting for a signature.
+  if (self->sei_data_buffer_idx <= self->num_of_completed_seis) return SV_NOT_SUPPORTED;
 
   // Get the oldest sei data
   assert(self->sei_data_buffer_idx <= MAX_SEI_DATA_BUFFER);
@@ -125,10 +126,7 @@ complete_sei_nalu_and_add_to_prepend(signed_video_t *self)
   // GOP.
   if (self->sign_data->signature_size == 0) {
     signed_video_nalu_data_free(payload);
-    status = SV_OK;
-    goto done;
-  } else if (!payload) {
-    // No more pending payloads. Already freed due to too many unsigned SEIs.
+    shift_sei_buffer_at_index(self, self->num_of_completed_seis);
     status = SV_OK;
     goto done;
   }
@@ -570,7 +568,7 @@ get_signature_complete_sei_and_add_to_prepend(signed_video_t *self)
   svrc_t status = SV_UNKNOWN_FAILURE;
 
   SV_TRY()
-    SignedVideoReturnCode signature_error = SV_UNKNOWN_FAILURE;
+    SignedVideoReturnCode signature_error = SV_OK;
     sign_or_verify_data_t *sign_data = self->sign_data;
     while (sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
         sign_data->max_signature_size, &sign_data->signature_size, &signature_error)) {
@@ -600,6 +598,13 @@ get_signature_complete_sei_and_add_to_prepend(signed_video_t *self)
 #endif
       SV_THROW(complete_sei_nalu_and_add_to_prepend(self));
     }
+    if (signature_error != SV_OK && self->sei_data_buffer_idx > self->num_of_completed_seis) {
+      // Signing the oldest SEI without a signature failed. Drop it, otherwise it would get the
+      // signature of the next SEI.
+      sign_data->signature_size = 0;
+      SV_THROW(complete_sei_nalu_and_add_to_prepend(self));
+      SV_THROW(signature_error);
+    }
 
   SV_CATCH()
   SV_DONE(status)
@@ -742,13 +747,7 @@ signed_video_set_end_of_stream(signed_video_t *self)
     SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
     add_payload_to_buffer(self, payload, payload_signature_ptr);
     // Fetch the signature. If it is not ready we exit without generating the SEI.
-    sign_or_verify_data_t *sign_data = self->sign_data;
-    SignedVideoReturnCode signature_error = SV_UNKNOWN_FAILURE;
-    while (sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
-        sign_data->max_signature_size, &sign_data->signature_size, &signature_error)) {
-      SV_THROW(signature_error);
-      SV_THROW(complete_sei_nalu_and_add_to_prepend(self));
-    }
+    SV_THROW(get_signature_complete_sei_and_add_to_prepend(self));
 
   SV_CATCH()
   SV_DONE(status)
-- 
2.43.0


From 66493596e484687b557ee8a1c940cdfa525451ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:45 +0000
Subject: [PATCH 14/56] fix: threaded plugin reads beyond its buffer and leaks
 if a session cannot be set up

---
 lib/plugins/threaded-signing/plugin.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index c37600b..80c4cd8 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -612,7 +612,7 @@ local_worker_thread(void *user_data)
       // Move the oldest input buffer to end of queue for reuse at a later stage.
       hash_data_t tmp = self->in[0];
       int j = 0;
-      while (self->in[j + 1].hash != NULL && j < MAX_BUFFER_LENGTH - 1) {
+      while (j < MAX_BUFFER_LENGTH - 1 && self->in[j + 1].hash != NULL) {
         self->in[j] = self->in[j + 1];
         j++;
       }
@@ -710,6 +710,7 @@ local_setup(const void *private_key, size_t private_key_size)
 
 catch_error:
   free_plugin(self);
+  free(self);
   return NULL;
 }
 
-- 
2.43.0


From 472a8e4261417518f07433c574a6bd1424e3484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:45 +0000
Subject: [PATCH 15/56] fix: a session not fetching its signatures blocks all
 other sessions of a central thread

---
 lib/plugins/threaded-signing/plugin.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 80c4cd8..efcf546 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -278,8 +278,8 @@ done:
 }
 
 /* If
- *   1. the |id| matches the oldest |out|, and
- *   2. the signature in |out| has been copied to |signature|
+ *   1. there is a signature in |out| for |id|, and
+ *   2. the oldest of them has been copied to |signature|
  * then returns true, otherwise false.
  * Moves the signatures in |out| forward when the copy is done. */
 static bool
@@ -303,30 +303,29 @@ get_signature(threaded_data_t *self,
     goto done;
   }
 
-  // Return if there are no signatures in the buffer
-  if (self->out_idx == 0) goto done;
-
-  // Return if next signature belongs to a different session.
-  if (self->out[0].id != id) goto done;
+  // Find the oldest signature that belongs to this session. Return if there is none.
+  int i = 0;
+  while (i < self->out_idx && self->out[i].id != id) i++;
+  if (i == self->out_idx) goto done;
 
   *written_signature_size = 0;
-  if (self->out[0].signing_error) {
+  if (self->out[i].signing_error) {
     // Propagate SV_EXTERNAL_ERROR when signing failed.
     status = SV_EXTERNAL_ERROR;
-  } else if (self->out[0].size > max_signature_size) {
+  } else if (self->out[i].size > max_signature_size) {
     // There is no room to copy the signature, set status to invalid parameter.
     status = SV_INVALID_PARAMETER;
   } else {
     // Copy the oldest signature
-    memcpy(signature, self->out[0].signature, self->out[0].size);
-    *written_signature_size = self->out[0].size;
+    memcpy(signature, self->out[i].signature, self->out[i].size);
+    *written_signature_size = self->out[i].size;
     // Mark as copied.
     has_copied_signature = true;
   }
   // Move buffer
-  signature_data_t tmp = self->out[0];
+  signature_data_t tmp = self->out[i];
   reset_signature_buffer(&tmp);
-  int i = 1;
+  i++;
   while (i < MAX_BUFFER_LENGTH) {
     self->out[i - 1] = self->out[i];
     i++;
-- 
2.43.0


From f7549f256e6b716093230c7537ccbdf1d4928442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:45 +0000
Subject: [PATCH 16/56] fix: full buffer of a central thread gives a session
 signatures of the wrong hashes

---
 lib/plugins/threaded-signing/plugin.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index efcf546..005ac67 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -28,8 +28,9 @@
  *
  * If the plugin is initialized, sv_signing_plugin_init(), one single central thread is spawned.
  * Each Signed Video session will then get an id to distiguish between them since they use common
- * input and output buffers. The thread is stopped if 1) the out buffer is full, 2) there was a
- * failure in the memory allocation for a new signature or 3) sv_signing_plugin_exit() is called.
+ * input and output buffers. The thread is stopped if 1) there was a failure in the memory allocation
+ * for a new signature or 2) sv_signing_plugin_exit() is called. If the out buffer is full the thread
+ * waits until signatures are fetched, and new hashes are refused when the in buffer is full as well.
  */
 
 #include <assert.h>
@@ -332,6 +333,8 @@ get_signature(threaded_data_t *self,
   }
   self->out[MAX_BUFFER_LENGTH - 1] = tmp;
   self->out_idx--;
+  // Send a signal that there is room for another signature.
+  g_cond_signal(&self->cond);
 
 done:
   g_mutex_unlock(&self->mutex);
@@ -443,7 +446,9 @@ central_worker_thread(void *user_data)
   g_cond_signal(&(central.cond));
 
   while (central.is_running) {
-    if (central.in_idx > 0) {
+    // If |out| is full, wait until signatures have been fetched. Discarding a signature would give
+    // the session the next one for the wrong hash.
+    if (central.in_idx > 0 && central.out_idx < MAX_BUFFER_LENGTH) {
       SignedVideoReturnCode status = SV_UNKNOWN_FAILURE;
       // Get the oldest hash from the input buffer
       // Copy the hash to |sign_data| and start signing.
@@ -478,15 +483,6 @@ central_worker_thread(void *user_data)
       }
 
       int idx = central.out_idx;
-      if (idx >= MAX_BUFFER_LENGTH) {
-        // |out| is full. Buffers this long are not supported.
-        // There are no means to signal an error to the signing session. Flush all buffers for this
-        // id and move on.
-        status = SV_NOT_SUPPORTED;
-        buffer_reset(id_in_signing);
-        continue;
-      }
-
       // If not successfully done with signing, set |signing_error| to true to
       // report the error when getting the signature.
       central.out[idx].signing_error = (status != SV_OK);
@@ -578,6 +574,8 @@ central_teardown(central_threaded_data_t *self)
   g_mutex_lock(&(central.mutex));
   buffer_reset(self->id);
   delete_item(self->id);
+  // Send a signal that there may be room for other signatures.
+  g_cond_signal(&(central.cond));
   g_mutex_unlock(&(central.mutex));
 
   free(self);
-- 
2.43.0


From ecda1dac1c81bffe677f4e4aa4dedeabd84ffbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:45 +0000
Subject: [PATCH 17/56] fix: sessions of a central thread with different hash
 sizes make the process abort

---
 lib/plugins/threaded-signing/plugin.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 005ac67..ac94030 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -247,6 +247,13 @@ sign_hash(threaded_data_t *self, unsigned id, const uint8_t *hash, size_t hash_s
     self->sign_data->hash_size = hash_size;
   }
 
+  // The |hash_size| has to be fixed throughout the session, and the same for all sessions using a
+  // central thread.
+  if (self->sign_data->hash_size != hash_size) {
+    status = SV_NOT_SUPPORTED;
+    goto done;
+  }
+
   if (!self->in[idx].hash) {
     self->in[idx].hash = calloc(1, hash_size);
     if (!self->in[idx].hash) {
@@ -257,12 +264,6 @@ sign_hash(threaded_data_t *self, unsigned id, const uint8_t *hash, size_t hash_s
     self->in[idx].size = hash_size;
   }
 
-  // The |hash_size| has to be fixed throughout the session.
-  if (self->in[idx].size != hash_size) {
-    status = SV_NOT_SUPPORTED;
-    goto done;
-  }
-
   // Copy the |hash| ready for signing.
   memcpy(self->in[idx].hash, hash, hash_size);
   self->in[idx].id = id;
-- 
2.43.0


From 2fca74829e83f39ddb0cdf6a21ab9c96494f6703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:45 +0000
Subject: [PATCH 18/56] fix: initializing the threaded plugin without a key
 makes the process crash

---
 lib/plugins/threaded-signing/plugin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index ac94030..21392fe 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -842,8 +842,8 @@ sv_signing_plugin_init(void *user_data)
 {
   signature_info_t *signature_info = (signature_info_t *)user_data;
 
-  if (central.thread || id_list || central.sign_data) {
-    // Central thread, id list or sign_data already exists
+  if (central.thread || id_list || central.sign_data || !user_data) {
+    // Central thread, id list or sign_data already exists. Or no |user_data| is set.
     return -1;
   }
 
-- 
2.43.0


From 97fe4aa34d6b767143fc286f16fec01fd816897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:28 +0000
Subject: [PATCH 19/56] fix: undefined shift when a NALU of three bytes is
 parsed

---
 lib/src/legacy/legacy_h26x_common.c | 2 +-
 lib/src/signed_video_h26x_common.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 9853bb9..4c13454 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -483,7 +483,7 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
     read_bytes = read_32bits(nalu_data, &start_code);
   } else if (nalu_data_size == 3) {
     // There is only room for a 3 byte Start Code.
-    start_code = (nalu_data[0] << 24) | (nalu_data[1] << 16) | (nalu_data[2] << 8);
+    start_code = ((uint32_t)nalu_data[0] << 24) | (nalu_data[1] << 16) | (nalu_data[2] << 8);
   }
   bool nalu_header_is_valid = false;
 
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index e31906c..b0687ce 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -629,7 +629,7 @@ parse_nalu_info(const uint8_t *nalu_data,
     read_bytes = read_32bits(nalu_data, &start_code);
   } else if (nalu_data_size == 3) {
     // There is only room for a 3 byte Start Code.
-    start_code = (nalu_data[0] << 24) | (nalu_data[1] << 16) | (nalu_data[2] << 8);
+    start_code = ((uint32_t)nalu_data[0] << 24) | (nalu_data[1] << 16) | (nalu_data[2] << 8);
   }
   bool nalu_header_is_valid = false;
 
-- 
2.43.0


From 11d110436e1af59fb6ad1741619bc49ae4200c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:28 +0000
Subject: [PATCH 20/56] fix: arbitrary data received in a SEI is leaked

---
 lib/src/legacy/legacy_h26x_common.c | 1 +
 lib/src/signed_video_h26x_common.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 4c13454..be88ed5 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -978,6 +978,7 @@ legacy_sv_free(legacy_sv_t *self)
 
   free(self->gop_info);
   free(self->pem_public_key.key);
+  free(self->arbitrary_data);
 
   free(self);
 }
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index b0687ce..de37e6e 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1293,6 +1293,7 @@ signed_video_free(signed_video_t *self)
   sign_or_verify_data_free(self->sign_data);
   sign_or_verify_data_free(self->verify_data);
   free(self->pem_public_key.key);
+  free(self->arbitrary_data);
 
   free(self);
 }
-- 
2.43.0


From 3db24324030f34b682f756216c263967000edae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:00 +0000
Subject: [PATCH 21/56] fix: SEI without emulation prevention is read out of
 bounds if the hash algorithm is not yet known

---
 lib/src/signed_video_h26x_nalu_list.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 0a9e3db..bbbb507 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -319,7 +319,9 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
   while (!(item->nalu)) {
     item = item->prev;
   }
-  int hashable_data_offset = item->nalu->hashable_data - item->nalu->nalu_data;
+  // The |hashable_data| of a SEI hashed without emulation prevention bytes is not part of the
+  // |nalu_data|.
+  const bool hashable_data_in_nalu_data = (item->nalu->hashable_data != item->nalu->nalu_data_wo_epb);
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
@@ -333,11 +335,16 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
     }
     // If the library does not know which hash algo to use, store the |hashable_data| for later.
     if (!hash_algo_known) {
-      nalu_data = malloc(item->nalu->nalu_data_size);
+      size_t nalu_data_size = item->nalu->nalu_data_size;
+      size_t extra_size = hashable_data_in_nalu_data ? 0 : item->nalu->hashable_data_size;
+      nalu_data = malloc(nalu_data_size + extra_size);
       SV_THROW_IF(!nalu_data, SV_MEMORY);
-      memcpy(nalu_data, item->nalu->nalu_data, item->nalu->nalu_data_size);
-      if (item->nalu->is_hashable) {
-        hashable_data = nalu_data + hashable_data_offset;
+      memcpy(nalu_data, item->nalu->nalu_data, nalu_data_size);
+      if (item->nalu->is_hashable && hashable_data_in_nalu_data) {
+        hashable_data = nalu_data + (item->nalu->hashable_data - item->nalu->nalu_data);
+      } else if (item->nalu->is_hashable) {
+        hashable_data = nalu_data + nalu_data_size;
+        memcpy(hashable_data, item->nalu->hashable_data, extra_size);
       }
     }
     copy_nalu_except_pointers(copied_nalu, item->nalu);
-- 
2.43.0


From 7bcbf7e2cc13473fbe44c7a12e067b066aeb3659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:14 +0000
Subject: [PATCH 22/56] fix: malformed attestation in a SEI is read out of
 bounds

---
 .../axis-communications/sv_vendor_axis_communications.c     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 66daf95..3e42b7a 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -604,6 +604,8 @@ svrc_t
 decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data_size)
 {
   if (!handle) return SV_INVALID_PARAMETER;
+  // At least a version and an |attestation_size| have to be present.
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
   const uint8_t *data_ptr = data;
@@ -617,6 +619,8 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
     // Read |attestation_size|.
     attestation_size = *data_ptr++;
     SV_THROW_IF(attestation_size == 0, SV_NOT_SUPPORTED);
+    // Both an |attestation| and a |certificate_chain| have to be present.
+    SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
     // Allocate memory for |attestation|.
     if (!self->attestation) {
       self->attestation = malloc(attestation_size);
@@ -636,7 +640,6 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
     //  - 1 byte for version
     //  - 1 bytes for |attestation_size|
     //  - |attestation_size| bytes for |attestation|
-    SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
     cert_size = data_size - attestation_size - 2;
 
     // Allocate memory for |certificate_chain| including null-terminated character.
@@ -646,6 +649,7 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
       memcpy(self->certificate_chain, data_ptr, cert_size);
     }
     // Compare incoming certificate chain against present and throw an error if they differ.
+    SV_THROW_IF(cert_size != strlen(self->certificate_chain), SV_NOT_SUPPORTED);
     SV_THROW_IF(memcmp(data_ptr, self->certificate_chain, cert_size), SV_NOT_SUPPORTED);
     // Move pointer past |certificate_chain|.
     data_ptr += cert_size;
-- 
2.43.0


From 778f3108b593e29689882da23469a1ecc52ff043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:08 +0000
Subject: [PATCH 23/56] fix: validation takes minutes if a SEI claims many more
 pictures than received

---
 lib/src/legacy/legacy_h26x_nalu_list.c | 9 +++++----
 lib/src/signed_video_h26x_nalu_list.c  | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_nalu_list.c b/lib/src/legacy/legacy_h26x_nalu_list.c
index 57d343e..2fe3782 100644
--- a/lib/src/legacy/legacy_h26x_nalu_list.c
+++ b/lib/src/legacy/legacy_h26x_nalu_list.c
@@ -144,11 +144,10 @@ legacy_h26x_nalu_list_remove_and_free_item(legacy_h26x_nalu_list_t *list,
   if (item->prev) item->prev->next = item->next;
   if (item->next) item->next->prev = item->prev;
 
-  // Fix the broken list. To use legacy_h26x_nalu_list_refresh(), first_item needs to be part of the
-  // list. If |item_to_remove| was that first_item, we need to set a new one.
+  // Fix the broken list.
   if (list->first_item == item) list->first_item = item->next;
   if (list->last_item == item) list->last_item = item->prev;
-  legacy_h26x_nalu_list_refresh(list);
+  list->num_items--;
 
   legacy_h26x_nalu_list_item_free(item);
 }
@@ -317,12 +316,14 @@ legacy_h26x_nalu_list_add_missing(legacy_h26x_nalu_list_t *list,
       } else {
         legacy_h26x_nalu_list_item_prepend_item(item, missing_nalu);
       }
-      legacy_h26x_nalu_list_refresh(list);
     }
 
   SV_CATCH()
   SV_DONE(status)
 
+  // Update the list once, since that goes through all its items.
+  legacy_h26x_nalu_list_refresh(list);
+
   if (added_items > 0) DEBUG_LOG("Added %d missing NALU items to list", added_items);
 
   return status;
diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index bbbb507..46f2735 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -197,11 +197,10 @@ h26x_nalu_list_remove_and_free_item(h26x_nalu_list_t *list,
   if (item->prev) item->prev->next = item->next;
   if (item->next) item->next->prev = item->prev;
 
-  // Fix the broken list. To use h26x_nalu_list_refresh(), first_item needs to be part of the list.
-  // If |item_to_remove| was that first_item, we need to set a new one.
+  // Fix the broken list.
   if (list->first_item == item) list->first_item = item->next;
   if (list->last_item == item) list->last_item = item->prev;
-  h26x_nalu_list_refresh(list);
+  list->num_items--;
 
   h26x_nalu_list_item_free(item);
 }
@@ -398,12 +397,14 @@ h26x_nalu_list_add_missing(h26x_nalu_list_t *list,
       } else {
         h26x_nalu_list_item_prepend_item(item, missing_nalu);
       }
-      h26x_nalu_list_refresh(list);
     }
 
   SV_CATCH()
   SV_DONE(status)
 
+  // Update the list once, since that goes through all its items.
+  h26x_nalu_list_refresh(list);
+
   if (added_items > 0) DEBUG_LOG("Added %d missing NALU items to list", added_items);
 
   return status;
-- 
2.43.0


From a176ad96b4462fc9e0604032de6e896776810817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:21 +0000
Subject: [PATCH 24/56] fix: message digest context of the Axis attestation is
 leaked

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 3e42b7a..b1d96c0 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -513,6 +513,7 @@ sv_vendor_axis_communications_teardown(void *handle)
   free(self->attestation);
   free(self->certificate_chain);
   X509_free(self->trusted_ca);
+  EVP_MD_CTX_free(self->md_ctx);
   free(self);
 }
 
-- 
2.43.0


From b088d1faa08f186f00e750138450e0e1129d73c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:21 +0000
Subject: [PATCH 25/56] fix: long serial number in an attestation certificate
 overflows its buffer

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index b1d96c0..2e5d0df 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -258,6 +258,8 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
     // Found serial number in certificate. Read that entry and convert to UTF8.
     entry_data = X509_NAME_ENTRY_get_data(X509_NAME_get_entry(subject, ser_no_index));
     SV_THROW_IF(ASN1_STRING_to_UTF8(&serial_number_str, entry_data) <= 0, SV_EXTERNAL_ERROR);
+    SV_THROW_IF(strlen((char *)serial_number_str) >= SV_VENDOR_AXIS_SER_NO_MAX_LENGTH,
+        SV_VENDOR_ERROR);
     // Copy only if necessary.
     if (strcmp(self->supplemental_authenticity.serial_number, (char *)serial_number_str)) {
       memset(self->supplemental_authenticity.serial_number, 0, SV_VENDOR_AXIS_SER_NO_MAX_LENGTH);
-- 
2.43.0


From 40a26cbec9776dbada08067d4315a8c876619b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:45 +0000
Subject: [PATCH 26/56] fix: surplus certificate of an attestation is leaked

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 2e5d0df..76454dd 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -227,6 +227,8 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
       // Get the next certificate.
       certificate = PEM_read_bio_X509(stackbio, NULL, NULL, NULL);
     }
+    // Any certificate left is not on the stack.
+    X509_free(certificate);
     SV_THROW_IF(num_certificates > NUM_UNTRUSTED_CERTIFICATES, SV_VENDOR_ERROR);
 
     SV_THROW(verify_certificate_chain(self->trusted_ca, untrusted_certificates));
-- 
2.43.0


From 7ef37e7f4e76e8d2f04e8257a1112b1704088532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:30 +0000
Subject: [PATCH 27/56] fix: video cannot be validated if the signature of its
 attestation is malformed

---
 .../axis-communications/sv_vendor_axis_communications.c        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 76454dd..0503b22 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -461,7 +461,8 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
     verified_signature = EVP_DigestVerify(self->md_ctx,
         self->attestation_report.attestation_list.signature,
         self->attestation_report.attestation_list.signature_size, signed_data, SIGNED_DATA_SIZE);
-    SV_THROW_IF(verified_signature < 0, SV_EXTERNAL_ERROR);
+    // A malformed signature (< 0) can never be verified successfully.
+    SV_THROW_IF(verified_signature < 0, SV_VENDOR_ERROR);
 
     // If verification fails (is 0) the result should never be overwritten with success (1) later.
     self->supplemental_authenticity.public_key_validation &= verified_signature;
-- 
2.43.0


From 5fba37d2dab3d30059a78579795697c0f2943083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:30 +0000
Subject: [PATCH 28/56] fix: video from Axis cannot be validated if signed with
 another EC key than P-256

---
 .../axis-communications/sv_vendor_axis_communications.c    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 0503b22..e457b94 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -712,9 +712,10 @@ set_axis_communications_public_key(void *handle,
     } else {
       SV_THROW_IF(EVP_PKEY_get_base_id(pkey) != EVP_PKEY_EC, SV_VENDOR_ERROR);
       char group_name[100];
-      SV_THROW_IF(EVP_PKEY_get_group_name(pkey, group_name, sizeof(group_name), NULL) != 1,
-          SV_EXTERNAL_ERROR);
-      SV_THROW_IF(strcmp(group_name, SN_X9_62_prime256v1) != 0, SV_VENDOR_ERROR);
+      if (EVP_PKEY_get_group_name(pkey, group_name, sizeof(group_name), NULL) != 1 ||
+          strcmp(group_name, SN_X9_62_prime256v1) != 0) {
+        public_key_validation = 0;
+      }
     }
 
     // The Public key is of correct type and size.
-- 
2.43.0


From 52983945a12d9b3bb078e27856d8146bddfb649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:30 +0000
Subject: [PATCH 29/56] fix: video from Axis without attestation, or without
 public key, cannot be validated

---
 lib/src/legacy/legacy_h26x_auth.c                           | 5 ++++-
 lib/src/signed_video_h26x_auth.c                            | 5 ++++-
 .../axis-communications/sv_vendor_axis_communications.c     | 6 ++++++
 .../sv_vendor_axis_communications_internal.h                | 2 +-
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 1d0cc92..f6c0e9e 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -734,7 +734,10 @@ legacy_prepare_for_validation(legacy_sv_t *self)
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
-      if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
+      if (!supplemental_authenticity) {
+        self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_FEASIBLE;
+      } else if (strcmp(self->product_info->serial_number,
+                     supplemental_authenticity->serial_number)) {
         self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_OK;
       } else {
         // Convert to SignedVideoPublicKeyValidation
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index fb512d6..dbb5daa 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -820,7 +820,10 @@ prepare_for_validation(signed_video_t *self)
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
-      if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
+      if (!supplemental_authenticity) {
+        self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_FEASIBLE;
+      } else if (strcmp(self->product_info->serial_number,
+                     supplemental_authenticity->serial_number)) {
         self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_OK;
       } else {
         // Convert to SignedVideoPublicKeyValidation
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index e457b94..54c0142 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -740,6 +740,12 @@ get_axis_communications_supplemental_authenticity(void *handle,
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
 
+  // Without an attestation, or a public key in the stream, there is nothing to validate.
+  if (!self->attestation || !self->certificate_chain || !self->public_key) {
+    *supplemental_authenticity = NULL;
+    return SV_OK;
+  }
+
   // TODO: Fill in the skeleton below step by step.
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications_internal.h b/lib/vendors/axis-communications/sv_vendor_axis_communications_internal.h
index 342b8a0..b604816 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications_internal.h
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications_internal.h
@@ -117,7 +117,7 @@ set_axis_communications_public_key(void *handle,
  *
  * @param handle The handle to Axis Communications specific information.
  * @param supplemental_authenticity Pointer to the address of supplemental autenticity report in
- *   |handle|.
+ *   |handle|. Set to NULL if there is no attestation, or no Public key, to validate.
  *
  * @returns An internal return code to catch potential errors.
  */
-- 
2.43.0


From 9d6a184fe68793ea2abe12d7420d583db5fddd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:30 +0000
Subject: [PATCH 30/56] fix: origin of a key no longer in use is reported if
 the manufacturer changes

---
 lib/src/legacy/legacy_h26x_auth.c                     |  1 +
 lib/src/legacy/legacy_tlv.c                           | 11 +++--------
 lib/src/signed_video_h26x_auth.c                      |  1 +
 lib/src/signed_video_tlv.c                            | 11 +++--------
 .../sv_vendor_axis_communications.c                   |  9 +++++----
 5 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index f6c0e9e..a4f2fd3 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -726,6 +726,7 @@ legacy_prepare_for_validation(legacy_sv_t *self)
         SV_NOT_SUPPORTED, "No public key present");
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
+    self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_FEASIBLE;
     // If "Axis Communications AB" can be identified from the |product_info|, get
     // |supplemental_authenticity| from |vendor_handle|.
     if (self->product_info->manufacturer &&
diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index a9d2f45..8a9b696 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -396,14 +396,9 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
     SV_THROW(openssl_public_key_malloc(self->verify_data, &self->pem_public_key));
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
-    // If "Axis Communications AB" can be identified from the |product_info|, set |public_key| to
-    // |vendor_handle|.
-    if (self->product_info->manufacturer &&
-        strcmp(self->product_info->manufacturer, "Axis Communications AB") == 0) {
-      // Set public key.
-      SV_THROW(set_axis_communications_public_key(self->vendor_handle, self->verify_data->key,
-          self->latest_validation->public_key_has_changed));
-    }
+    // Set |public_key| to |vendor_handle|, whatever the manufacturer is so far. It may change.
+    SV_THROW(set_axis_communications_public_key(self->vendor_handle, self->verify_data->key,
+        self->latest_validation->public_key_has_changed));
 #endif
 
     SV_THROW_IF(data_ptr != data + data_size, SV_AUTHENTICATION_ERROR);
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index dbb5daa..dbec653 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -812,6 +812,7 @@ prepare_for_validation(signed_video_t *self)
         SV_NOT_SUPPORTED, "No public key present");
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
+    self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_FEASIBLE;
     // If "Axis Communications AB" can be identified from the |product_info|, get
     // |supplemental_authenticity| from |vendor_handle|.
     if (self->product_info->manufacturer &&
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index db02d95..c849081 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -752,14 +752,9 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
     SV_THROW(openssl_public_key_malloc(self->verify_data, &self->pem_public_key));
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
-    // If "Axis Communications AB" can be identified from the |product_info|, set |public_key| to
-    // |vendor_handle|.
-    if (self->product_info->manufacturer &&
-        strcmp(self->product_info->manufacturer, "Axis Communications AB") == 0) {
-      // Set public key.
-      SV_THROW(set_axis_communications_public_key(self->vendor_handle, self->verify_data->key,
-          self->latest_validation->public_key_has_changed));
-    }
+    // Set |public_key| to |vendor_handle|, whatever the manufacturer is so far. It may change.
+    SV_THROW(set_axis_communications_public_key(self->vendor_handle, self->verify_data->key,
+        self->latest_validation && self->latest_validation->public_key_has_changed));
 #endif
 
     SV_THROW_IF(data_ptr != data + data_size, SV_AUTHENTICATION_ERROR);
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 54c0142..4becb6b 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -689,6 +689,10 @@ set_axis_communications_public_key(void *handle,
   // The |public_key| is on EVP_PKEY_CTX form.
   EVP_PKEY *pkey = EVP_PKEY_CTX_get0_pkey((EVP_PKEY_CTX *)public_key);
 
+  // Keep track of the key in use. A previous one no longer exists.
+  const bool had_public_key = (self->public_key != NULL);
+  self->public_key = public_key;
+
   // If the Public key previously has been validated unsuccessful, skip checking type and size.
   if (self->supplemental_authenticity.public_key_validation == 0) {
     return SV_OK;
@@ -697,7 +701,7 @@ set_axis_communications_public_key(void *handle,
   // Mark |public_key_validation| as invalid if the |public_key_has_changed|. It is an invalid
   // operation. Note that it is not an error, only an invalid operation and will be communicated
   // through |supplemental_authenticity|.
-  if (public_key_has_changed && self->public_key) {
+  if (public_key_has_changed && had_public_key) {
     self->supplemental_authenticity.public_key_validation = 0;
   }
 
@@ -718,11 +722,8 @@ set_axis_communications_public_key(void *handle,
       }
     }
 
-    // The Public key is of correct type and size.
-    self->public_key = public_key;
   SV_CATCH()
   {
-    self->public_key = NULL;
     public_key_validation = 0;
   }
   SV_DONE(status)
-- 
2.43.0


From f734269ab54fbe742c29464d5f3389aac014c52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:30 +0000
Subject: [PATCH 31/56] fix: video cannot be validated if the certificate chain
 has less than three certificates

---
 .../axis-communications/sv_vendor_axis_communications.c     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 4becb6b..d8eb980 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -545,7 +545,7 @@ get_untrusted_certificates_size(const sv_vendor_axis_communications_t *self)
   while (certs_left > 0 && cert_ptr) {
     cert_ptr = strstr(cert_chain_ptr, "-----BEGIN CERTIFICATE-----");
     certs_left--;
-    cert_chain_ptr = cert_ptr + 1;
+    if (cert_ptr) cert_chain_ptr = cert_ptr + 1;
   }
   // Check if |cert_ptr| points at the third (last) certificate. If not, the certificate chain is
   // incomplete.
@@ -568,8 +568,8 @@ encode_axis_communications_handle(void *handle, uint16_t *last_two_bytes, bool e
   size_t certificate_chain_encode_size = get_untrusted_certificates_size(self);
   const uint8_t version = 1;  // Increment when the change breaks the format
 
-  // If there is no attestation or certificate chain, skip encoding, that is return 0.
-  if (!self->attestation || !self->certificate_chain) return 0;
+  // If there is no attestation or (complete) certificate chain, skip encoding, that is return 0.
+  if (!self->attestation || certificate_chain_encode_size == 0) return 0;
 
   // Version 1:
   //  - version (1 byte)
-- 
2.43.0


From 85c0e26e89a03cf2a30a8a5ea4ca327e13d883e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:30 +0000
Subject: [PATCH 32/56] fix: attestation is set although setting it together
 with a certificate chain fails

---
 .../axis-communications/sv_vendor_axis_communications.c    | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index d8eb980..7702f39 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -790,12 +790,13 @@ sv_vendor_axis_communications_set_attestation_report(signed_video_t *sv,
   if (!sv->vendor_handle) return SV_NOT_SUPPORTED;
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)sv->vendor_handle;
+  // If either already exists, return error.
+  if (attestation && self->attestation) return SV_NOT_SUPPORTED;
+  if (certificate_chain && self->certificate_chain) return SV_NOT_SUPPORTED;
   bool allocated_attestation = false;
   bool allocated_certificate_chain = false;
   // The user wants to set the |attestation|.
   if (attestation) {
-    // If |attestation| already exists, return error.
-    if (self->attestation) return SV_NOT_SUPPORTED;
     // Allocate memory and copy to |self|.
     self->attestation = malloc(attestation_size);
     allocated_attestation = true;
@@ -806,8 +807,6 @@ sv_vendor_axis_communications_set_attestation_report(signed_video_t *sv,
 
   // The user wants to set the |certificate_chain|.
   if (certificate_chain) {
-    // If |certificate_chain| already exists, return error.
-    if (self->certificate_chain) return SV_NOT_SUPPORTED;
     // Check if there is anything to copy.
     size_t certificate_chain_size = strlen(certificate_chain);
     if (certificate_chain_size == 0) goto catch_error;
-- 
2.43.0


From 4e35525c6f77b92dc83b776ffe9e8ec473478567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:09 +0000
Subject: [PATCH 33/56] fix: memory no longer in use is read if pictures are
 missing in a legacy video

---
 lib/src/legacy/legacy_h26x_nalu_list.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/legacy/legacy_h26x_nalu_list.c b/lib/src/legacy/legacy_h26x_nalu_list.c
index 2fe3782..5b3deb6 100644
--- a/lib/src/legacy/legacy_h26x_nalu_list.c
+++ b/lib/src/legacy/legacy_h26x_nalu_list.c
@@ -257,10 +257,12 @@ legacy_h26x_nalu_list_copy_last_item(legacy_h26x_nalu_list_t *list)
   legacy_h26x_nalu_t *copied_nalu = NULL;
   uint8_t *nalu_data_wo_epb = NULL;
   legacy_h26x_nalu_list_item_t *item = list->last_item;
+  // Missing items may have been added after the NALU. Move back to the NALU.
+  while (item && !item->nalu) item = item->prev;
+  if (!item) return SV_UNKNOWN_FAILURE;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    SV_THROW_IF(!item->nalu, SV_UNKNOWN_FAILURE);
     copied_nalu = malloc(sizeof(legacy_h26x_nalu_t));
     SV_THROW_IF(!copied_nalu, SV_MEMORY);
     if (item->nalu->tlv_data) {
-- 
2.43.0


From cd673f6f31d4f5f3bf45a1f1cbf8097614165c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:06 +0000
Subject: [PATCH 34/56] fix: change to another type of public key makes all
 legacy validations fail with errors

---
 lib/src/legacy/legacy_tlv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index 8a9b696..01260f2 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -486,7 +486,9 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
     SV_THROW_IF(version == 0, SV_INCOMPATIBLE_VERSION);
     SV_THROW_IF(hash_type < 0 || hash_type >= LEGACY_NUM_HASH_TYPES, SV_AUTHENTICATION_ERROR);
     SV_THROW_IF(max_signature_size < signature_size, SV_AUTHENTICATION_ERROR);
-    if (!*signature_ptr) {
+    // The size differs if the video is signed with another type of key than before.
+    if (!*signature_ptr || verify_data->max_signature_size != max_signature_size) {
+      free(*signature_ptr);
       verify_data->max_signature_size = 0;
       verify_data->signature_size = 0;
       // Allocate enough space for future signatures as well, that is, max_signature_size.
@@ -495,7 +497,6 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
       // Set memory size.
       verify_data->max_signature_size = max_signature_size;
     }
-    SV_THROW_IF(verify_data->max_signature_size != max_signature_size, SV_MEMORY);
     memcpy(*signature_ptr, data_ptr, max_signature_size);
     data_ptr += max_signature_size;
 
-- 
2.43.0


From c80187876e6b2b8cbf76055b8e23cacc30bf71e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:17 +0000
Subject: [PATCH 35/56] fix: video of the present version cannot be validated
 after a legacy video and a reset

---
 lib/src/signed_video_h26x_common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index de37e6e..986e7e0 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1238,8 +1238,10 @@ signed_video_reset(signed_video_t *self)
   SV_TRY()
     SV_THROW_IF(!self, SV_INVALID_PARAMETER);
     DEBUG_LOG("Resetting signed session");
+    // Whether the next video needs legacy validation is determined anew.
+    legacy_sv_free(self->legacy_sv);
+    self->legacy_sv = NULL;
     // Reset session states
-    SV_THROW(legacy_sv_reset(self->legacy_sv));
     self->signing_started = false;
     self->sei_generation_enabled = false;
     gop_info_reset(self->gop_info);
-- 
2.43.0


From b1101eb6a3dff777e0839edbf971b499fa2f5b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:13 +0000
Subject: [PATCH 36/56] fix: creating a session crashes if memory runs out

---
 lib/src/signed_video_h26x_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 986e7e0..3d5dbfa 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1193,6 +1193,7 @@ signed_video_create(SignedVideoCodec codec)
     self->sei_epb = true;
     self->signing_started = false;
     self->sign_data = sign_or_verify_data_create();
+    SV_THROW_IF(!self->sign_data, SV_MEMORY);
     self->sign_data->hash_size = openssl_get_hash_size(self->crypto_handle);
     // Make sure the hash size matches the default hash size.
     SV_THROW_IF(self->sign_data->hash_size != DEFAULT_HASH_SIZE, SV_EXTERNAL_ERROR);
@@ -1218,6 +1219,7 @@ signed_video_create(SignedVideoCodec codec)
     self->has_public_key = false;
 
     self->verify_data = sign_or_verify_data_create();
+    SV_THROW_IF(!self->verify_data, SV_MEMORY);
     self->verify_data->hash_size = openssl_get_hash_size(self->crypto_handle);
   SV_CATCH()
   {
-- 
2.43.0


From 007f61469cfcf7a986c4c1f6f967f27e3ee922c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:13 +0000
Subject: [PATCH 37/56] fix: authenticity report lacks its version strings,
 which are used, if memory runs out

---
 lib/src/signed_video_authenticity.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 6064c86..32e551a 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -380,6 +380,10 @@ signed_video_authenticity_report_create()
   if (!auth) return NULL;
 
   authenticity_report_init(auth);
+  if (!auth->version_on_signing_side || !auth->this_version) {
+    signed_video_authenticity_report_free(auth);
+    auth = NULL;
+  }
 
   return auth;
 }
-- 
2.43.0


From 6bc3a1c7a46b73aaa39b978691a34a493e6defcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:13 +0000
Subject: [PATCH 38/56] fix: SEI is announced, but not there, if memory runs
 out

---
 lib/src/signed_video_h26x_sign.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 0827f22..4ba91b7 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -717,6 +717,10 @@ signed_video_get_nalu_to_prepend(signed_video_t *self,
   svrc_t status = get_latest_sei(self, NULL, sei_size);
   if (SV_OK == status && *sei_size != 0) {
     nalu_to_prepend->nalu_data = malloc(*sei_size);
+    if (!nalu_to_prepend->nalu_data) {
+      nalu_to_prepend->nalu_data_size = 0;
+      return SV_MEMORY;
+    }
     nalu_to_prepend->prepend_instruction = SIGNED_VIDEO_PREPEND_NALU;
     status = get_latest_sei(self, nalu_to_prepend->nalu_data, &nalu_to_prepend->nalu_data_size);
   }
-- 
2.43.0


From ee164883729ddab7316116bc0550a8e16f344d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:13 +0000
Subject: [PATCH 39/56] fix: another NALU is marked with error, or validation
 crashes, if memory runs out

---
 lib/src/signed_video_h26x_auth.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index dbec653..874d749 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1153,6 +1153,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
 
   self->accumulated_validation->number_of_received_nalus++;
 
+  bool is_appended = false;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // If there is no |nalu_list| we failed allocating memory for it.
@@ -1161,6 +1162,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
     // Append the |nalu_list| with a new item holding a pointer to |nalu|. The |validation_status|
     // is set accordingly.
     SV_THROW(h26x_nalu_list_append(nalu_list, &nalu));
+    is_appended = true;
     SV_THROW_IF(nalu.is_valid < 0, SV_UNKNOWN_FAILURE);
     update_validation_flags(&self->validation_flags, &nalu);
     SV_THROW(register_nalu(self, nalu_list->last_item));
@@ -1188,12 +1190,14 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
   SV_CATCH()
   SV_DONE(status)
 
-  // Need to make a copy of the |nalu| independently of failure.
-  svrc_t copy_nalu_status =
-      h26x_nalu_list_copy_last_item(nalu_list, self->validation_flags.hash_algo_known);
-  // Make sure to return the first failure if both operations failed.
-  status = (status == SV_OK) ? copy_nalu_status : status;
-  if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  // Need to make a copy of the |nalu| independently of failure, if it is part of the |nalu_list|.
+  if (is_appended) {
+    svrc_t copy_nalu_status =
+        h26x_nalu_list_copy_last_item(nalu_list, self->validation_flags.hash_algo_known);
+    // Make sure to return the first failure if both operations failed.
+    status = (status == SV_OK) ? copy_nalu_status : status;
+    if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  }
 
   free(nalu.nalu_data_wo_epb);
 
-- 
2.43.0


From 5bef3fb1ef97a6bf0e03cb6e903de6e959d873ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:00 +0000
Subject: [PATCH 40/56] fix: reading a key crashes if memory runs out

---
 lib/src/signed_video_openssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index e873054..5582812 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -107,6 +107,7 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
   SV_TRY()
     // Read private key
     BIO *bp = BIO_new_mem_buf(private_key, private_key_size);
+    SV_THROW_IF(!bp, SV_EXTERNAL_ERROR);
     signing_key = PEM_read_bio_PrivateKey(bp, NULL, NULL, NULL);
     BIO_free(bp);
     SV_THROW_IF(!signing_key, SV_EXTERNAL_ERROR);
@@ -165,6 +166,7 @@ openssl_public_key_malloc(sign_or_verify_data_t *verify_data, pem_pkey_t *pem_pu
     SV_THROW_IF(buf_size == 0, SV_INVALID_PARAMETER);
 
     BIO *bp = BIO_new_mem_buf(buf, buf_size);
+    SV_THROW_IF(!bp, SV_EXTERNAL_ERROR);
     verification_key = PEM_read_bio_PUBKEY(bp, NULL, NULL, NULL);
     BIO_free(bp);
     SV_THROW_IF(!verification_key, SV_EXTERNAL_ERROR);
-- 
2.43.0


From d2de0c033077f0179dacb95b8ccc459e7f384ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:00 +0000
Subject: [PATCH 41/56] fix: memory and the plugin session are leaked if a
 private key is set again

---
 lib/src/signed_video_h26x_sign.c |  2 ++
 lib/src/signed_video_openssl.c   | 12 ++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 4ba91b7..1e454c0 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -827,6 +827,8 @@ signed_video_set_private_key_new(signed_video_t *self,
     SV_THROW(openssl_private_key_malloc(self->sign_data, private_key, private_key_size));
     SV_THROW(openssl_read_pubkey_from_private_key(self->sign_data, &self->pem_public_key));
 
+    // Teardown any plugin session of a previous key.
+    sv_signing_plugin_session_teardown(self->plugin_handle);
     self->plugin_handle = sv_signing_plugin_session_setup(private_key, private_key_size);
     SV_THROW_IF(!self->plugin_handle, SV_EXTERNAL_ERROR);
   SV_CATCH()
diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 5582812..6daeb83 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -102,6 +102,7 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
 
   EVP_PKEY_CTX *ctx = NULL;
   EVP_PKEY *signing_key = NULL;
+  uint8_t *signature = NULL;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
@@ -115,8 +116,8 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
     // Read the maximum size of the signature that the |private_key| can generate
     size_t max_signature_size = EVP_PKEY_size(signing_key);
     SV_THROW_IF(max_signature_size == 0, SV_EXTERNAL_ERROR);
-    sign_data->signature = malloc(max_signature_size);
-    SV_THROW_IF(!sign_data->signature, SV_MEMORY);
+    signature = malloc(max_signature_size);
+    SV_THROW_IF(!signature, SV_MEMORY);
     // Create a context from the |signing_key|
     ctx = EVP_PKEY_CTX_new(signing_key, NULL /* no engine */);
     SV_THROW_IF(!ctx, SV_EXTERNAL_ERROR);
@@ -129,13 +130,16 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
       SV_THROW_IF(EVP_PKEY_CTX_set_signature_md(ctx, EVP_sha256()) <= 0, SV_EXTERNAL_ERROR);
     }
 
+    // Free any existing key and signature memory
+    EVP_PKEY_CTX_free(sign_data->key);
+    free(sign_data->signature);
     // Set the content in |sign_data|
+    sign_data->signature = signature;
     sign_data->max_signature_size = max_signature_size;
     sign_data->key = ctx;
   SV_CATCH()
   {
-    free(sign_data->signature);
-    sign_data->signature = NULL;
+    free(signature);
     EVP_PKEY_CTX_free(ctx);
     ctx = NULL;
   }
-- 
2.43.0


From ed26c24eb86fee185ab26db8032a7b23ba214023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:00 +0000
Subject: [PATCH 42/56] fix: checking the attestation crashes, or leaks, if
 memory runs out

---
 .../axis-communications/sv_vendor_axis_communications.c      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 7702f39..8241807 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -224,6 +224,10 @@ verify_and_parse_certificate_chain(sv_vendor_axis_communications_t *self)
     X509 *attestation_certificate = certificate;
     while (certificate && num_certificates < NUM_UNTRUSTED_CERTIFICATES + 1) {
       num_certificates = sk_X509_push(untrusted_certificates, certificate);
+      if (num_certificates <= 0) {
+        X509_free(certificate);
+        SV_THROW(SV_EXTERNAL_ERROR);
+      }
       // Get the next certificate.
       certificate = PEM_read_bio_X509(stackbio, NULL, NULL, NULL);
     }
@@ -413,6 +417,7 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
 
     // Create and fill in |signed_data|.
     signed_data = calloc(1, SIGNED_DATA_SIZE);
+    SV_THROW_IF(!signed_data, SV_MEMORY);
     uint8_t *sd_ptr = signed_data;
 
     // Add hash of |binary_raw_data|.
-- 
2.43.0


From f0653ec96a5e814385fcf1f05ddf45e2068ffb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 43/56] fix: hashing crashes if initializing it has failed
 before

---
 lib/src/signed_video_openssl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 6daeb83..ef8fef0 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -368,6 +368,11 @@ openssl_init_hash(void *handle, bool use_primary_ctx)
     if (!(*ctx)) return SV_EXTERNAL_ERROR;
     // Set a message digest type and initialize the hashing function.
     ret = EVP_DigestInit_ex(*ctx, self->hash_algo.type, NULL);
+    if (ret != 1) {
+      // Do not keep a context without message digest type.
+      EVP_MD_CTX_free(*ctx);
+      *ctx = NULL;
+    }
   }
   return ret == 1 ? SV_OK : SV_EXTERNAL_ERROR;
 }
-- 
2.43.0


From 650331173f02bdd44cadeb648b27279dc012047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 44/56] fix: validation crashes if a NALU could not be stored

---
 lib/src/signed_video_h26x_auth.c      | 9 +++++++--
 lib/src/signed_video_h26x_nalu_list.c | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 874d749..6174e11 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -165,7 +165,7 @@ update_link_hash_for_auth(signed_video_t *self)
   const size_t hash_size = self->verify_data->hash_size;
   h26x_nalu_list_item_t *item = self->nalu_list->first_item;
   while (item) {
-    if (item->used_in_gop_hash && item->nalu->is_first_nalu_in_gop) {
+    if (item->used_in_gop_hash && item->nalu && item->nalu->is_first_nalu_in_gop) {
       if (!item->used_for_linked_hash) {
         update_linked_hash(self, item->second_hash, hash_size);
         item->used_for_linked_hash = true;
@@ -1104,6 +1104,11 @@ reregister_nalus(signed_video_t *self)
   h26x_nalu_list_item_t *item = nalu_list->first_item;
   svrc_t status = SV_UNKNOWN_FAILURE;
   while (item) {
+    if (self->legacy_sv && !item->nalu) {
+      // The NALU could not be stored, hence cannot be passed on.
+      item = item->next;
+      continue;
+    }
     if (self->legacy_sv) {
       // Pass in all, but the last one (the SEI), to the created legacy session. Do this
       // without requesting an authenticity report.
@@ -1119,7 +1124,7 @@ reregister_nalus(signed_video_t *self)
       item = item->next;
       continue;
     }
-    if (item->nalu->is_valid <= 0) {
+    if (!item->nalu || item->nalu->is_valid <= 0) {
       item = item->next;
       continue;
     }
diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 46f2735..ac997bb 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -354,7 +354,8 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
     copied_nalu->hashable_data = hashable_data;
   SV_CATCH()
   {
-    free(nalu_data_wo_epb);  // At this point, nalu_data_wo_epb is actually NULL.
+    free(nalu_data);
+    free(nalu_data_wo_epb);
     free(copied_nalu);
     copied_nalu = NULL;
   }
-- 
2.43.0


From e3225a9356d61c80638dc3680c95138dfab3d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:02 +0000
Subject: [PATCH 45/56] fix: another NALU is marked with error, or legacy
 validation crashes, if memory runs out

---
 lib/src/legacy/legacy_h26x_auth.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index a4f2fd3..fbd2231 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1023,11 +1023,13 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
 
   self->accumulated_validation->number_of_received_nalus++;
 
+  bool is_appended = false;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // Append the |nalu_list| with a new item holding a pointer to |nalu|. The |validation_status|
     // is set accordingly.
     SV_THROW(legacy_h26x_nalu_list_append(nalu_list, &nalu));
+    is_appended = true;
     SV_THROW_IF(nalu.is_valid < 0, SV_UNKNOWN_FAILURE);
     legacy_update_validation_flags(&self->validation_flags, &nalu);
     SV_THROW(legacy_register_nalu(self, nalu_list->last_item));
@@ -1035,11 +1037,13 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
   SV_CATCH()
   SV_DONE(status)
 
-  // Need to make a copy of the |nalu| independently of failure.
-  svrc_t copy_nalu_status = legacy_h26x_nalu_list_copy_last_item(nalu_list);
-  // Make sure to return the first failure if both operations failed.
-  status = (status == SV_OK) ? copy_nalu_status : status;
-  if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  // Need to make a copy of the |nalu| independently of failure, if it is part of the |nalu_list|.
+  if (is_appended) {
+    svrc_t copy_nalu_status = legacy_h26x_nalu_list_copy_last_item(nalu_list);
+    // Make sure to return the first failure if both operations failed.
+    status = (status == SV_OK) ? copy_nalu_status : status;
+    if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  }
 
   free(nalu.nalu_data_wo_epb);
 
-- 
2.43.0


From a74764495ef910b1b5c90fad8d0dd30cd59b8156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:42 +0000
Subject: [PATCH 46/56] fix: a failed validation is not part of the overall
 result if memory runs out

---
 lib/src/legacy/legacy_h26x_auth.c | 7 +++++--
 lib/src/signed_video_h26x_auth.c  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index fbd2231..c84cdfb 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1065,9 +1065,12 @@ legacy_sv_add_nalu_and_authenticate(legacy_sv_t *self,
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    SV_THROW(legacy_sv_add_h26x_nalu(self, nalu_data, nalu_data_size));
+    svrc_t add_nalu_status = legacy_sv_add_h26x_nalu(self, nalu_data, nalu_data_size);
+    // Update the report, and thereby the accumulated validation, with any validation result, also
+    // if there was a failure after that.
+    if (self->validation_flags.has_auth_result) legacy_update_authenticity_report(self);
+    SV_THROW(add_nalu_status);
     if (self->validation_flags.has_auth_result) {
-      legacy_update_authenticity_report(self);
       if (authenticity) *authenticity = signed_video_get_authenticity_report(self->parent);
       // Reset the timestamp for the next report.
       self->latest_validation->has_timestamp = false;
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 6174e11..e3ed813 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1225,9 +1225,12 @@ signed_video_add_nalu_and_authenticate(signed_video_t *self,
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(create_local_authenticity_report_if_needed(self));
-    SV_THROW(signed_video_add_h26x_nalu(self, nalu_data, nalu_data_size));
+    svrc_t add_nalu_status = signed_video_add_h26x_nalu(self, nalu_data, nalu_data_size);
+    // Update the report, and thereby the accumulated validation, with any validation result, also
+    // if there was a failure after that.
+    if (self->validation_flags.has_auth_result) update_authenticity_report(self);
+    SV_THROW(add_nalu_status);
     if (self->validation_flags.has_auth_result) {
-      update_authenticity_report(self);
       if (authenticity) *authenticity = signed_video_get_authenticity_report(self);
       // Reset the timestamp for the next report.
       self->latest_validation->has_timestamp = false;
-- 
2.43.0


From f17feaad6961a46b6538914eefb29d05c3e4d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:52 +0000
Subject: [PATCH 47/56] fix: failing to update the GOP hash when signing is not
 reported

---
 lib/src/signed_video_h26x_common.c   | 11 ++++++-----
 lib/src/signed_video_h26x_internal.h |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 3d5dbfa..b3fea9a 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -862,10 +862,10 @@ update_num_nalus_in_gop_hash(signed_video_t *self, const h26x_nalu_t *nalu)
 /* Initializes and updates the GOP hash regardless of available space. If there is enough
  * room, copies the |hash| and updates |list_idx|. Otherwise, sets |list_idx| to -1.
  */
-void
+svrc_t
 check_and_copy_hash_to_hash_list(signed_video_t *self, const uint8_t *hash, size_t hash_size)
 {
-  if (!self || !hash) return;
+  if (!self || !hash) return SV_INVALID_PARAMETER;
 
   uint8_t *hash_list = &self->gop_info->hash_list[0];
   int *list_idx = &self->gop_info->list_idx;
@@ -873,7 +873,8 @@ check_and_copy_hash_to_hash_list(signed_video_t *self, const uint8_t *hash, size
   // If this is the start of the GOP, initialize |crypto_handle| to enable
   // updating the hash with each received NALU.
   if (*list_idx == 0) {
-    openssl_init_hash(self->crypto_handle, true);
+    svrc_t status = openssl_init_hash(self->crypto_handle, true);
+    if (status != SV_OK) return status;
   }
   // If the upcoming hash doesn't fit in the hash list buffer, set *list_idx to -1
   // to indicate that the hash list is full, and the hash list is no longer accessible.
@@ -886,7 +887,7 @@ check_and_copy_hash_to_hash_list(signed_video_t *self, const uint8_t *hash, size
     memcpy(&hash_list[*list_idx], hash, hash_size);
     *list_idx += hash_size;
   }
-  openssl_update_hash(self->crypto_handle, hash, hash_size, true);
+  return openssl_update_hash(self->crypto_handle, hash, hash_size, true);
 }
 
 /*
@@ -1077,7 +1078,7 @@ hash_and_add(signed_video_t *self, const h26x_nalu_t *nalu)
 #endif
     if (nalu->is_last_nalu_part) {
       // The end of the NALU has been reached. Update hash list and GOP hash.
-      check_and_copy_hash_to_hash_list(self, nalu_hash, hash_size);
+      SV_THROW(check_and_copy_hash_to_hash_list(self, nalu_hash, hash_size));
       update_num_nalus_in_gop_hash(self, nalu);
     }
   SV_CATCH()
diff --git a/lib/src/signed_video_h26x_internal.h b/lib/src/signed_video_h26x_internal.h
index a4a2a90..0433445 100644
--- a/lib/src/signed_video_h26x_internal.h
+++ b/lib/src/signed_video_h26x_internal.h
@@ -171,7 +171,7 @@ gop_state_reset(gop_state_t *gop_state);
 void
 update_num_nalus_in_gop_hash(signed_video_t *signed_video, const h26x_nalu_t *nalu);
 
-void
+svrc_t
 check_and_copy_hash_to_hash_list(signed_video_t *signed_video,
     const uint8_t *hash,
     size_t hash_size);
-- 
2.43.0


From 91ac6950648ea2edc5600c1a1344a4a3ec1544e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:29 +0000
Subject: [PATCH 48/56] fix: private key is silently not written to file if
 memory runs out

---
 lib/src/signed_video_openssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index ef8fef0..36c7f9f 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -743,6 +743,7 @@ signed_video_generate_ecdsa_private_key(const char *dir_to_key,
   char *full_path_to_private_key = NULL;
   if (dir_to_key) {
     full_path_to_private_key = get_path_to_key(dir_to_key, PRIVATE_ECDSA_KEY_FILE);
+    if (!full_path_to_private_key) return SV_MEMORY;
   }
 
   svrc_t status = create_ecdsa_private_key(full_path_to_private_key, &pem_key);
@@ -769,6 +770,7 @@ signed_video_generate_rsa_private_key(const char *dir_to_key,
   char *full_path_to_private_key = NULL;
   if (dir_to_key) {
     full_path_to_private_key = get_path_to_key(dir_to_key, PRIVATE_RSA_KEY_FILE);
+    if (!full_path_to_private_key) return SV_MEMORY;
   }
 
   svrc_t status = create_rsa_private_key(full_path_to_private_key, &pem_key);
-- 
2.43.0


From 8359386a9d7cb1877789f3e2666a1a1cd49740d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:30 +0000
Subject: [PATCH 49/56] fix: incomplete private key file is not reported

---
 lib/src/signed_video_openssl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 36c7f9f..2f18276 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -632,7 +632,11 @@ write_private_key_to_file(EVP_PKEY *pkey, const char *path_to_key)
   }
   SV_DONE(status)
 
-  if (f_private) fclose(f_private);
+  // Writing is not completed until the file has been closed.
+  if (f_private && fclose(f_private) != 0 && status == SV_OK) {
+    unlink(path_to_key);
+    status = SV_EXTERNAL_ERROR;
+  }
 
   return status;
 }
-- 
2.43.0


From 415e12dfc293d0b22844dcf8cafee0dd894741d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:30 +0000
Subject: [PATCH 50/56] fix: reads outside an empty directory name when
 generating a private key

---
 lib/src/signed_video_openssl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 2f18276..37a41a1 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -730,7 +730,7 @@ get_path_to_key(const char *dir_to_key, const char *key_filename)
 
   strcpy(str, dir_to_key);
   // Add '/' if not exists
-  if (dir_to_key[path_len - 1] != '/') strcat(str, "/");
+  if (path_len > 0 && dir_to_key[path_len - 1] != '/') strcat(str, "/");
   strcat(str, key_filename);
 
   return str;
-- 
2.43.0


From 5a414d45b43e47e9af257927b55ffa81ab2f5e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:51 +0000
Subject: [PATCH 51/56] fix: validation of a GOP without SEI crashes if a NALU
 is missing or could not be stored

---
 lib/src/legacy/legacy_h26x_auth.c | 3 ++-
 lib/src/signed_video_h26x_auth.c  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index c84cdfb..3e42f54 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -436,7 +436,8 @@ legacy_verify_hashes_without_sei(legacy_sv_t *self)
     // A new GOP starts if the NALU |is_first_nalu_in_gop|. Such a NALU is hashed twice; as an
     // initial hash AND as a linking hash between GOPs. If this is the first time is is used in
     // verification it also marks the start of a new GOP.
-    found_next_gop = item->nalu->is_first_nalu_in_gop && !item->need_second_verification;
+    found_next_gop =
+        item->nalu && item->nalu->is_first_nalu_in_gop && !item->need_second_verification;
 
     // Mark the item as 'Not Authentic' or keep it for a second verification.
     if (found_next_gop) {
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index e3ed813..a441b40 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -578,7 +578,8 @@ verify_hashes_without_sei(signed_video_t *self)
 
     item = item->next;
     if (item) {
-      found_next_gop = item->nalu->is_first_nalu_in_gop && !item->used_for_linked_hash;
+      found_next_gop =
+          item->nalu && item->nalu->is_first_nalu_in_gop && !item->used_for_linked_hash;
     }
   }
   // If we have verified a GOP without a SEI, we should increment the |global_gop_counter|.
-- 
2.43.0


From 7a17dac29a3a5883a4ff97badff86b7db6b5d342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:54 +0000
Subject: [PATCH 52/56] fix: generating a golden SEI changes the authenticity
 level set by the user

---
 lib/src/signed_video_h26x_sign.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 1e454c0..86b7ef9 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -770,6 +770,7 @@ signed_video_generate_golden_sei(signed_video_t *self)
   // recurrent data, hence |has_recurrent_data| is set to true.
   self->is_golden_sei = true;
   self->has_recurrent_data = true;
+  const SignedVideoAuthenticityLevel authenticity_level = self->authenticity_level;
   self->authenticity_level = SV_AUTHENTICITY_LEVEL_FRAME;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
@@ -783,6 +784,8 @@ signed_video_generate_golden_sei(signed_video_t *self)
   // Reset the |is_golden_sei| flag, ensuring that a golden SEI is not
   // generated outside of this API.
   self->is_golden_sei = false;
+  // Continue with the level set by the user.
+  self->authenticity_level = authenticity_level;
   return status;
 }
 
-- 
2.43.0


From 69b8eefff3a89b3f6517511dc5bccc12ad336be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:54 +0000
Subject: [PATCH 53/56] fix: video with pictures before the golden SEI cannot
 be validated

---
 lib/src/signed_video_h26x_auth.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index a441b40..3040628 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -805,8 +805,12 @@ prepare_for_validation(signed_video_t *self)
         sei->has_been_decoded = true;
         memcpy(verify_data->hash, sei->hash, hash_size);
       }
-      detect_lost_sei(self);
-      SV_THROW(prepare_for_link_and_gop_hash_verification(self, sei));
+      // A golden SEI is not associated with any GOP, hence there is nothing to link and no GOP to
+      // verify.
+      if (!sei->nalu->is_golden_sei) {
+        detect_lost_sei(self);
+        SV_THROW(prepare_for_link_and_gop_hash_verification(self, sei));
+      }
     }
 
     SV_THROW_IF_WITH_MSG(validation_flags->signing_present && !self->has_public_key,
-- 
2.43.0


From 3aa0c93a6fdde45abf7dace2e228bb7533108936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:54 +0000
Subject: [PATCH 54/56] fix: content of a golden SEI is trusted if its
 signature could not be decoded

---
 lib/src/signed_video_h26x_auth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 3040628..01488da 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -768,6 +768,10 @@ prepare_golden_sei(signed_video_t *self, h26x_nalu_list_item_t *sei)
     self->gop_state.has_sei = true;
     SV_THROW(prepare_for_validation(self));
   SV_CATCH()
+  {
+    // Do not trust anything in a golden SEI that cannot be verified.
+    self->has_public_key = false;
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From 3199bdda94310fe127d0bd796aa6ffd848980d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:32 +0000
Subject: [PATCH 55/56] fix: a public key that was refused prevents the user
 from setting a correct one

---
 lib/src/signed_video_h26x_auth.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 01488da..e8f7e43 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1271,6 +1271,12 @@ signed_video_set_public_key(signed_video_t *self, const char *public_key, size_t
     self->has_public_key = true;
 
   SV_CATCH()
+  {
+    // Do not keep a key that cannot be used.
+    free(self->pem_public_key.key);
+    self->pem_public_key.key = NULL;
+    self->pem_public_key.key_size = 0;
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From fc2911cb7a1376acbfbf542939f7f0b1c36dff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:48 +0000
Subject: [PATCH 56/56] fix: a golden SEI that was refused makes the next SEI
 have recurrent data out of turn

---
 lib/src/signed_video_h26x_sign.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 86b7ef9..ddbeef3 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -768,6 +768,7 @@ signed_video_generate_golden_sei(signed_video_t *self)
   uint8_t *payload_signature_ptr = NULL;
   // The flag |is_golden_sei| will mark the next SEI as golden and should include
   // recurrent data, hence |has_recurrent_data| is set to true.
+  const bool has_recurrent_data = self->has_recurrent_data;
   self->is_golden_sei = true;
   self->has_recurrent_data = true;
   const SignedVideoAuthenticityLevel authenticity_level = self->authenticity_level;
@@ -780,6 +781,10 @@ signed_video_generate_golden_sei(signed_video_t *self)
     add_payload_to_buffer(self, payload, payload_signature_ptr);
 
   SV_CATCH()
+  {
+    // There is no golden SEI, hence the next SEI should have recurrent data only if it is time.
+    self->has_recurrent_data = has_recurrent_data;
+  }
   SV_DONE(status)
   // Reset the |is_golden_sei| flag, ensuring that a golden SEI is not
   // generated outside of this API.
-- 
2.43.0

