From be5e286252755b0fcb33ddf2404476bdee31a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 01/47] fix: a list element that could not be filled is
 unlinked before it was linked

---
 src/voucher/array.c    | 1 +
 src/voucher/keyvalue.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/voucher/array.c b/src/voucher/array.c
index 219b92e..b90eb0f 100644
--- a/src/voucher/array.c
+++ b/src/voucher/array.c
@@ -72,6 +72,7 @@ int push_array_list(struct BinaryArrayList *arr_list, uint8_t *const arr,
     log_error("init_array_list fail");
     return -1;
   }
+  dl_list_init(&el->list, (void *)el);
 
   if ((el->arr = sys_memdup(arr, length)) == NULL) {
     log_errno("sys_memdup");
diff --git a/src/voucher/keyvalue.c b/src/voucher/keyvalue.c
index 0793024..8d8498a 100644
--- a/src/voucher/keyvalue.c
+++ b/src/voucher/keyvalue.c
@@ -88,6 +88,7 @@ int push_keyvalue_list(struct keyvalue_list *kv_list, char *const key,
     log_error("init_keyvalue_list fail");
     return -1;
   }
+  dl_list_init(&el->list, (void *)el);
 
   el->key = sys_strdup(key);
   if (el->key == NULL) {
-- 
2.43.0


From 797c2c61cd5ccd3600de2926e5eb89a854ee9124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 02/47] fix: a failed base64 decode leaves the output pointing
 at freed memory

---
 src/voucher/serialize.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/voucher/serialize.c b/src/voucher/serialize.c
index 32e0925..ba92a0c 100644
--- a/src/voucher/serialize.c
+++ b/src/voucher/serialize.c
@@ -242,6 +242,7 @@ static ssize_t base64_gen_decode(const uint8_t *src, const size_t len,
         } else {
           log_error("Invalid padding");
           sys_free(*out);
+          *out = NULL;
           return -1;
         }
         break;
-- 
2.43.0


From dc3ba232e845c37c7437c134f9fe4ab50dc515e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 03/47] fix: failed list loads leave the output pointing at the
 freed list

---
 src/brski/config.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/brski/config.c b/src/brski/config.c
index d109f39..75d492d 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -56,6 +56,7 @@ int load_config_value_list(const char *section, const char *key,
       log_errno("sys_zalloc");
       sys_free(store);
       free_array_list(*value_list);
+      *value_list = NULL;
       return -1;
     }
 
@@ -67,6 +68,7 @@ int load_config_value_list(const char *section, const char *key,
         sys_free(value);
         sys_free(store);
         free_array_list(*value_list);
+        *value_list = NULL;
         return -1;
       }
     }
@@ -694,6 +696,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
     if ((cert = file_to_x509buf(cert_path_str)) == NULL) {
       log_error("file_to_x509buf fail");
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
 
@@ -701,6 +704,7 @@ int load_cert_files(struct BinaryArrayList *cert_paths,
       log_error("push_array_list fail");
       free_binary_array(cert);
       free_array_list(*out);
+      *out = NULL;
       return -1;
     }
     free_binary_array(cert);
-- 
2.43.0


From 602ff45e71f3b8a617e9cd906fabd675d08bbb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 04/47] fix: the signers of a CMS structure are borrowed, only
 their stack is freed

---
 src/voucher/crypto_ossl.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 7b13840..f64e5b6 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1570,14 +1570,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
   int length = sk_X509_num(signers);
 
   if (!length) {
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return 0;
   }
 
   *out_certs = init_array_list();
   if (*out_certs == NULL) {
     log_error("init_buffer_list fail");
-    sk_X509_pop_free(signers, X509_free);
+    sk_X509_free(signers);
     return -1;
   }
 
@@ -1588,7 +1588,7 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
     if (cert_length < 0) {
       log_error("cert_to_derbuf fail");
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
@@ -1596,14 +1596,14 @@ static int exatract_cms_certs(CMS_ContentInfo *cms,
       log_error("push_buffer_list fail");
       sys_free(cert);
       free_array_list(*out_certs);
-      sk_X509_pop_free(signers, X509_free);
+      sk_X509_free(signers);
       *out_certs = NULL;
       return -1;
     }
     sys_free(cert);
   }
 
-  sk_X509_pop_free(signers, X509_free);
+  sk_X509_free(signers);
   return 0;
 }
 
-- 
2.43.0


From 5bf0c92eecc58bbcf9034b229deff5873bb8a207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 05/47] fix: a certificate that could not be added to the stack
 is dropped silently

---
 src/voucher/crypto_ossl.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index f64e5b6..a67ed9a 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1203,7 +1203,12 @@ static STACK_OF(X509) *
       sk_X509_pop_free(cert_stack, X509_free);
       return NULL;
     }
-    sk_X509_push(cert_stack, x509);
+    if (!sk_X509_push(cert_stack, x509)) {
+      log_error("sk_X509_push fail");
+      X509_free(x509);
+      sk_X509_pop_free(cert_stack, X509_free);
+      return NULL;
+    }
   }
 
   return cert_stack;
-- 
2.43.0


From b7c86e59e6ace2deaecc9eb35ef2503c0641e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 06/47] fix: get_certificate_store leaks the certificate it
 failed to add

---
 src/voucher/crypto_ossl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index a67ed9a..4841929 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1269,6 +1269,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
       if (!X509_STORE_add_cert(x509_store, x509)) {
         log_error("X509_STORE_add_cert fail with code=%s",
                   ERR_error_string(ERR_get_error(), NULL));
+        X509_free(x509);
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
       }
@@ -1285,6 +1286,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
       if (!X509_STORE_add_crl(x509_store, x509_crl)) {
         log_error("X509_STORE_add_crl fail with code=%s",
                   ERR_error_string(ERR_get_error(), NULL));
+        X509_CRL_free(x509_crl);
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
       }
@@ -1293,6 +1295,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
     }
     if (push_ptr_list(*x509_store_list, ptr, el->flags) < 0) {
       log_error("push_ptr_list fail");
+      free_x509_store_cert(ptr, el->flags);
       free_x509_store(x509_store, *x509_store_list);
       return NULL;
     }
-- 
2.43.0


From 4c28cea30ac29ddc48d162febc365cdfec43daf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 07/47] fix: certificate generation leaks the key and
 certificate when X509_set_pubkey fails

---
 src/voucher/crypto_ossl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 4841929..c819e42 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1018,6 +1018,8 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
     log_error("X509_set_pubkey fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
+    crypto_free_keycontext(pkey);
+    X509_free(x509);
     return -1;
   }
 
@@ -1082,6 +1084,8 @@ ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
     log_error("X509_set_pubkey fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
+    crypto_free_keycontext(pkey);
+    X509_free(x509);
     return -1;
   }
 
-- 
2.43.0


From 96c55c33ab6564f309137c6ddb083f379e716c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 08/47] fix: certificate generation writes through cert before
 checking it for NULL

---
 src/voucher/crypto_ossl.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index c819e42..5d72857 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -978,8 +978,6 @@ static int sign_sha256_certificate(X509 *x509, const EVP_PKEY *pkey) {
 ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
                                const uint8_t *key, const size_t key_length,
                                uint8_t **cert) {
-  *cert = NULL;
-
   if (meta == NULL) {
     log_error("met param is NULL");
     return -1;
@@ -995,6 +993,8 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
     return -1;
   }
 
+  *cert = NULL;
+
   X509 *x509 = X509_new();
 
   if (x509 == NULL) {
@@ -1044,8 +1044,6 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
 ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
                                 const uint8_t *key, const size_t key_length,
                                 uint8_t **cert) {
-  *cert = NULL;
-
   if (meta == NULL) {
     log_error("met aparam is NULL");
     return -1;
@@ -1061,6 +1059,8 @@ ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
     return -1;
   }
 
+  *cert = NULL;
+
   X509 *x509 = X509_new();
 
   if (x509 == NULL) {
-- 
2.43.0


From 48e4bbb14098039048ff1ddd53e9e3824a37aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 09/47] fix: key generation takes negative OpenSSL results for
 success

---
 src/voucher/crypto_ossl.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 5d72857..e1c4107 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -436,7 +436,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_keygen_init(ctx)) {
+  if (EVP_PKEY_keygen_init(ctx) <= 0) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -444,7 +444,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits)) {
+  if (EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits) <= 0) {
     log_error("EVP_PKEY_CTX_set_rsa_keygen_bits fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -452,7 +452,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
     return NULL;
   }
 
-  if (!EVP_PKEY_keygen(ctx, &pkey)) {
+  if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
     log_error("EVP_PKEY_keygen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -492,21 +492,21 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
     return -1;
   }
 
-  if (!EVP_PKEY_paramgen_init(ctx)) {
+  if (EVP_PKEY_paramgen_init(ctx) <= 0) {
     log_error("EVP_PKEY_paramgen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1)) {
+  if (EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1) <= 0) {
     log_error("EVP_PKEY_CTX_set_ec_paramgen_curve_nid fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_paramgen(ctx, &params)) {
+  if (EVP_PKEY_paramgen(ctx, &params) <= 0) {
     log_error("EVP_PKEY_paramgen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
@@ -524,14 +524,14 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
 
   EVP_PKEY_free(params);
 
-  if (!EVP_PKEY_keygen_init(ctx)) {
+  if (EVP_PKEY_keygen_init(ctx) <= 0) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
-  if (!EVP_PKEY_keygen(ctx, &pkey)) {
+  if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
     log_error("EVP_PKEY_keygen fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     EVP_PKEY_CTX_free(ctx);
-- 
2.43.0


From da72ebb995a67a3f88158fee462884b29097bce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 10/47] fix: crypto_copycert uses a failed encoding as the
 length

---
 src/voucher/crypto_ossl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index e1c4107..c8e30f4 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -603,12 +603,12 @@ CRYPTO_CERT crypto_cert2context(const uint8_t *cert, const size_t length) {
 CRYPTO_CERT crypto_copycert(CRYPTO_CERT cert) {
   X509 *x509;
   uint8_t *buf = NULL;
-  size_t length;
+  ssize_t length;
 
   if (cert == NULL)
     return NULL;
 
-  if ((length = cert_to_derbuf(cert, &buf)) == 0)
+  if ((length = cert_to_derbuf(cert, &buf)) < 0)
     return NULL;
 
   x509 = crypto_cert2context(buf, length);
-- 
2.43.0


From b23c118c06e34529d5569c9d75f5a36f3ad65cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 11/47] fix: crypto_verify_cms leaks the content when the
 signers can not be extracted

---
 src/voucher/crypto_ossl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index c8e30f4..3157ba9 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1687,6 +1687,8 @@ ssize_t crypto_verify_cms(const struct BinaryArray *cms,
     *out_certs = NULL;
     if (exatract_cms_certs(content, out_certs) < 0) {
       log_error("exatract_cms_certs fail");
+      sys_free(*data);
+      *data = NULL;
       goto crypto_verify_cms_fail;
     }
   }
-- 
2.43.0


From 67701940ed1d7b92e1c4bc6e6808a61e9377d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 12/47] fix: a pledge voucher request without serial-number
 crashes the registrar

---
 src/voucher/request.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 59bab6b..9f53250 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -130,8 +130,8 @@ sign_voucher_request(const struct BinaryArray *pledge_voucher_request_cms,
    * cert serial number */
   const char *const *pledge_serial_number =
       get_attr_str_voucher(pledge_voucher_request, ATTR_SERIAL_NUMBER);
-  if (pledge_serial_number == NULL) {
-    log_error("get_attr_str_voucher fail");
+  if (pledge_serial_number == NULL || *pledge_serial_number == NULL) {
+    log_error("serial-number is missing");
     free_voucher(pledge_voucher_request);
     return NULL;
   }
-- 
2.43.0


From a5eea2bdc3a7fbb56cad454c36a646989f3fb004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 13/47] fix: verify_masa_pledge_voucher leaks the pinned
 certificate copy on failure

---
 src/voucher/request.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/voucher/request.c b/src/voucher/request.c
index 9f53250..a6e4536 100644
--- a/src/voucher/request.c
+++ b/src/voucher/request.c
@@ -548,6 +548,7 @@ int verify_masa_pledge_voucher(
     if (push_array_list(intermediate_certs, cert_copy.array, cert_copy.length,
                         0) < 0) {
       log_error("push_array_list fail");
+      free_binary_array_content(&cert_copy);
       free_array_list(intermediate_certs);
       goto verify_masa_pledge_voucher_fail;
     }
-- 
2.43.0


From 79051fd5a93fddf0c1345257573b8ec17c7e5cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 14/47] fix: verify_masa_pledge_request frees the nonce twice
 when it does not decode

---
 src/brski/pledge/pledge_request.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 5f57818..f3c0c59 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -52,7 +52,6 @@ int verify_masa_pledge_request(struct pledge_config *pconf,
                                             strlen(pconf->nonce),
                                             &nonce->array)) < 0) {
       log_errno("serialize_base64str2array fail");
-      free_binary_array(nonce);
       goto verify_masa_pledge_request_fail;
     }
     nonce->length = length;
-- 
2.43.0


From 74e53f8c0ac665ce4aac16029bff5801a70ae3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 15/47] fix: the pledge ignores that the voucher response is
 not base64

---
 src/brski/pledge/pledge_request.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index f3c0c59..1290d2e 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -175,14 +175,16 @@ int post_voucher_pledge_request(struct pledge_config *pconf,
 
   const char *masa_pledge_voucher_str = http_res.response.c_str();
   struct BinaryArray masa_pledge_voucher_cms = {};
+  ssize_t length;
 
-  if ((masa_pledge_voucher_cms.length =
-           serialize_base64str2array((const uint8_t *)masa_pledge_voucher_str,
-                                     strlen(masa_pledge_voucher_str),
-                                     &masa_pledge_voucher_cms.array)) < 0) {
+  if ((length = serialize_base64str2array(
+           (const uint8_t *)masa_pledge_voucher_str,
+           strlen(masa_pledge_voucher_str), &masa_pledge_voucher_cms.array)) <
+      0) {
     log_errno("serialize_base64str2array fail");
     goto post_voucher_pledge_request_fail;
   }
+  masa_pledge_voucher_cms.length = length;
 
   if (verify_masa_pledge_request(pconf, &masa_pledge_voucher_cms,
                                  registrar_tls_cert, pinned_domain_cert) < 0) {
-- 
2.43.0


From a0bc1487d9923f6f36a5a9265d69fb82952e6ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 16/47] fix: generate_sign_cert ignores failed key and
 certificate generation

---
 src/brski/pledge/pledge_request.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 1290d2e..b775164 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -225,6 +225,7 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
                        struct BinaryArray *scert_key) {
   uint8_t rand[8];
   char rands[17];
+  ssize_t length;
   struct BinaryArray buf = {.array = rand, .length = 8};
 
   struct crypto_cert_meta sign_cert_meta = {
@@ -272,18 +273,20 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
     goto generate_sign_cert_err;
   }
 
-  if ((scert_key->length = (size_t)crypto_generate_eckey(&scert_key->array)) <
-      0) {
+  if ((length = crypto_generate_eckey(&scert_key->array)) < 0) {
     log_error("crypto_generate_eckey fail");
     goto generate_sign_cert_err;
   }
+  scert_key->length = (size_t)length;
 
-  if ((scert_cert->length = (size_t)crypto_generate_eccert(
-           &sign_cert_meta, scert_key->array, scert_key->length,
-           &scert_cert->array)) < 0) {
+  if ((length = crypto_generate_eccert(&sign_cert_meta, scert_key->array,
+                                       scert_key->length,
+                                       &scert_cert->array)) < 0) {
+    log_error("crypto_generate_eccert fail");
     free_binary_array_content(scert_key);
     goto generate_sign_cert_err;
   }
+  scert_cert->length = (size_t)length;
 
   free_keyvalue_list(sign_cert_meta.issuer);
   free_keyvalue_list(sign_cert_meta.subject);
-- 
2.43.0


From 79c5f42e6476532b7cd9f7f3e2d6d0bdf60e15c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 17/47] fix: concurrent MASA requests share and free one
 certificate

---
 src/brski/masa/masa_api.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index 4782073..c0cff03 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -59,7 +59,11 @@ int masa_requestvoucher(const RequestHeader &request_header,
                         CRYPTO_CERT peer_certificate,
                         ResponseHeader &response_header, std::string &response,
                         void *user_ctx) {
-  struct MasaContext *context = static_cast<struct MasaContext *>(user_ctx);
+  /* Requests run concurrently, each one uses its own copy of the context */
+  struct MasaContext request_context =
+      *static_cast<struct MasaContext *>(user_ctx);
+  struct MasaContext *context = &request_context;
+  context->ldevid_ca_cert = NULL;
   struct registrar_config *rconf = context->rconf;
   struct masa_config *mconf = context->mconf;
 
@@ -136,7 +140,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   }
 
   masa_pledge_voucher = sign_masa_pledge_voucher(
-      &voucher_request_cms, &expires_on, voucher_req_cb, user_ctx,
+      &voucher_request_cms, &expires_on, voucher_req_cb, context,
       masa_sign_cert, masa_sign_key, registrar_verify_certs,
       registrar_store_certs, pledge_verify_certs, pledge_store_certs,
       additional_masa_certs);
-- 
2.43.0


From c0bc43496d4c346ac493da385a771abddafee6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 18/47] fix: the MASA ignores that the request body is not
 base64

---
 src/brski/masa/masa_api.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/brski/masa/masa_api.cpp b/src/brski/masa/masa_api.cpp
index c0cff03..88f4f24 100644
--- a/src/brski/masa/masa_api.cpp
+++ b/src/brski/masa/masa_api.cpp
@@ -77,6 +77,7 @@ int masa_requestvoucher(const RequestHeader &request_header,
   struct BinaryArrayList *additional_masa_certs = NULL;
   struct BinaryArray *masa_pledge_voucher = NULL;
   char *base64 = NULL;
+  ssize_t length;
   const char *cms_str = request_body.c_str();
 
   log_trace("masa_requestvoucher:");
@@ -88,12 +89,13 @@ int masa_requestvoucher(const RequestHeader &request_header,
     goto masa_requestvoucher_fail;
   }
 
-  if ((voucher_request_cms.length =
+  if ((length =
            serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
                                      &voucher_request_cms.array)) < 0) {
     log_errno("serialize_base64str2array fail");
     goto masa_requestvoucher_fail;
   }
+  voucher_request_cms.length = length;
 
   if ((context->ldevid_ca_cert = file_to_x509buf(mconf->ldevid_ca_cert_path)) ==
       NULL) {
-- 
2.43.0


From 1596c985038fc9bb2571c80372c34233d30085da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 19/47] fix: the registrar ignores that the request body is not
 base64

---
 src/brski/registrar/registrar_api.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 60d8e10..34b5410 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -188,15 +188,21 @@ int registrar_requestvoucher(const RequestHeader &request_header,
 
   auto pledge_voucher_request_cms =
       std::unique_ptr<BinaryArray, void (*)(BinaryArray *)>{
-          static_cast<BinaryArray *>(std::malloc(sizeof(BinaryArray))),
+          init_binary_array(),
           [](BinaryArray *b) { free_binary_array(b); },
       };
-  if ((pledge_voucher_request_cms->length =
-           serialize_base64str2array((const uint8_t *)cms_str, strlen(cms_str),
-                                     &pledge_voucher_request_cms->array)) < 0) {
+  if (pledge_voucher_request_cms == nullptr) {
+    log_error("init_binary_array fail");
+    return 500;
+  }
+  ssize_t length;
+  if ((length = serialize_base64str2array(
+           (const uint8_t *)cms_str, strlen(cms_str),
+           &pledge_voucher_request_cms->array)) < 0) {
     log_errno("serialize_base64str2array fail");
     return 400;
   }
+  pledge_voucher_request_cms->length = length;
 
   if (get_localtime(&created_on) < 0) {
     log_error("get_localtime fail");
-- 
2.43.0


From 18cad3d75b3dfe7e2e5b28a14dafd792e12e4c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 20/47] fix: the registrar reports success when the MASA
 refuses the voucher request

---
 src/brski/registrar/registrar_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 34b5410..9f1f8bc 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -123,7 +123,7 @@ int post_voucher_request(struct BinaryArray *voucher_request_cms,
               "response: '%s'",
               status, http_res.response.c_str());
     crypto_free_certcontext(http_res.peer_certificate);
-    return 400;
+    return -1;
   }
 
   crypto_free_certcontext(http_res.peer_certificate);
-- 
2.43.0


From db5137efb72a26ce740cda576d0b1a244f2fd1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 21/47] fix: save_to_log leaks a metadata list when its pair
 can not be allocated

---
 src/brski/registrar/registrar_api.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 9f1f8bc..055b7b3 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -37,6 +37,8 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
 
   if (imeta.issuer == NULL || imeta.subject == NULL) {
     log_error("error allocation metadata");
+    free_keyvalue_list(imeta.issuer);
+    free_keyvalue_list(imeta.subject);
     return;
   }
 
@@ -57,6 +59,8 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
     log_error("error allocation metadata");
     free_keyvalue_list(imeta.issuer);
     free_keyvalue_list(imeta.subject);
+    free_keyvalue_list(lmeta.issuer);
+    free_keyvalue_list(lmeta.subject);
     return;
   }
 
-- 
2.43.0


From ac0e24b0ac00a9088ac842eb5717204bd0f1bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 22/47] fix: vmasa writes past its input buffer and ignores
 read errors

---
 src/brski/brski.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 92ab7d3..722c80b 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -227,13 +227,16 @@ void print_key(const char *key, int prefix) {
 
 int read_stdin(uint8_t buf[]) {
   int cnt = 0;
-  while (read(STDIN_FILENO, &buf[cnt], 1) > 0) {
-    cnt++;
-    if (cnt > MAX_STDIN_SIZE)
+  ssize_t ret;
+  uint8_t byte;
+  while ((ret = read(STDIN_FILENO, &byte, 1)) > 0) {
+    /* Keep one byte for the terminator */
+    if (cnt >= MAX_STDIN_SIZE - 1)
       return -1;
+    buf[cnt++] = byte;
   }
 
-  return cnt;
+  return (ret < 0) ? -1 : cnt;
 }
 
 int output_domain_cert(struct BinaryArray *pinned_domain_cert,
-- 
2.43.0


From b545d0b71e3eb1c42e576b8bf9bd74df704fd5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 23/47] fix: vmasa ignores that its input is not base64

---
 src/brski/brski.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index 722c80b..ffa0be1 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -429,13 +429,15 @@ int main(int argc, char *argv[]) {
       log_info("Read input of size %d", sz);
 
       struct BinaryArray masa_pledge_voucher_cms = {};
+      ssize_t length;
 
-      if ((masa_pledge_voucher_cms.length =
-               serialize_base64str2array((const uint8_t *)inbuf, sz,
-                                         &masa_pledge_voucher_cms.array)) < 0) {
+      if ((length = serialize_base64str2array((const uint8_t *)inbuf, sz,
+                                              &masa_pledge_voucher_cms.array)) <
+          0) {
         log_errno("serialize_base64str2array fail");
         return EXIT_FAILURE;
       }
+      masa_pledge_voucher_cms.length = length;
 
       struct BinaryArray *registrar_tls_cert =
           file_to_x509buf(in_filename.c_str());
-- 
2.43.0


From b407977cd01d711802d59ed81781877e9e7cddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 24/47] fix: a failed server start deletes the address of the
 server pointer

---
 src/brski/http/httplib_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index ee56be0..b477cbf 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -228,7 +228,8 @@ int httplib_start(struct http_config *config,
     server->listen(config->bind_address, config->port);
   } catch (...) {
     log_error("httplib::SSLServer() fail");
-    httplib_stop(srv_ctx);
+    httplib_stop(*srv_ctx);
+    *srv_ctx = nullptr;
     return -1;
   }
 
-- 
2.43.0


From ca8b6cebcd980e5739a66159d3915ea9099e539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 25/47] fix: a server that can not listen is reported as
 started

---
 src/brski/http/httplib_wrapper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index b477cbf..5c2caa3 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -225,7 +225,12 @@ int httplib_start(struct http_config *config,
     log_info("Starting the HTTPS server at %s:%d", config->bind_address,
              config->port);
 
-    server->listen(config->bind_address, config->port);
+    if (!server->listen(config->bind_address, config->port)) {
+      log_error("httplib::SSLServer::listen() fail");
+      httplib_stop(*srv_ctx);
+      *srv_ctx = nullptr;
+      return -1;
+    }
   } catch (...) {
     log_error("httplib::SSLServer() fail");
     httplib_stop(*srv_ctx);
-- 
2.43.0


From d3d233e7ce56729383490bfbe4048e0d61e20849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 26/47] fix: crypto_verify_cert accepts certificates that no
 given certificate signed

---
 src/voucher/crypto_ossl.c | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 3157ba9..a72ac8b 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -1308,6 +1308,30 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
   return x509_store;
 }
 
+/* X509_build_chain only matches the names, the signatures are checked here */
+static int verify_chain_signatures(STACK_OF(X509) *chain) {
+  for (int idx = 0; idx + 1 < sk_X509_num(chain); idx++) {
+    EVP_PKEY *pkey = X509_get0_pubkey(sk_X509_value(chain, idx + 1));
+    if (pkey == NULL || X509_verify(sk_X509_value(chain, idx), pkey) != 1) {
+      return -1;
+    }
+  }
+
+  return 0;
+}
+
+/* Without a store the chain has to end in one of the given certificates */
+static int verify_chain_end(STACK_OF(X509) *chain, STACK_OF(X509) *certs) {
+  const X509 *end = sk_X509_value(chain, sk_X509_num(chain) - 1);
+  for (int idx = 0; end != NULL && idx < sk_X509_num(certs); idx++) {
+    if (X509_cmp(end, sk_X509_value(certs, idx)) == 0) {
+      return 0;
+    }
+  }
+
+  return -1;
+}
+
 int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
                        const struct BinaryArrayList *certs,
                        const struct BinaryArrayList *store) {
@@ -1348,7 +1372,7 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
   }
 
   STACK_OF(X509) *out_cert_stack =
-      X509_build_chain(x509, cert_stack, cert_store, 0, NULL, NULL);
+      X509_build_chain(x509, cert_stack, cert_store, 1, NULL, NULL);
   if (out_cert_stack == NULL) {
     log_error("X509_build_chain fail");
   }
@@ -1360,6 +1384,17 @@ int crypto_verify_cert(const uint8_t *cert, const size_t cert_length,
     ret = -1;
   }
 
+  if (ret == 0 && verify_chain_signatures(out_cert_stack) < 0) {
+    log_error("verify_chain_signatures fail");
+    ret = -1;
+  }
+
+  if (ret == 0 && cert_store == NULL &&
+      verify_chain_end(out_cert_stack, cert_stack) < 0) {
+    log_error("verify_chain_end fail");
+    ret = -1;
+  }
+
   free_x509_store(cert_store, x509_store_list);
   sk_X509_pop_free(cert_stack, X509_free);
   sk_X509_pop_free(out_cert_stack, X509_free);
-- 
2.43.0


From f2d3b5fc0f9bbd683c5ab77cea6b85880e5d4d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 27/47] fix: the signer list leaks when the signed content is
 not a voucher

---
 src/voucher/voucher.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 50084c9..d4015d7 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -1035,6 +1035,10 @@ struct Voucher *verify_cms_voucher(const struct BinaryArray *cms,
   if (voucher == NULL) {
     log_error("deserialize_voucher fail");
     sys_free(data);
+    if (out_certs != NULL) {
+      free_array_list(*out_certs);
+      *out_certs = NULL;
+    }
     return NULL;
   }
 
-- 
2.43.0


From d4f777f1e3d4ad39f0572be34d0f40ff925e4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 28/47] fix: deserialize_voucher uses a voucher that could not
 be allocated

---
 src/voucher/voucher.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index d4015d7..bde8452 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -819,6 +819,10 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   }
 
   struct Voucher *voucher = init_voucher();
+  if (voucher == NULL) {
+    log_error("init_voucher fail");
+    return NULL;
+  }
   bool found_root = false;
 
   for (int idx = 1; idx < count; idx++) {
-- 
2.43.0


From 9786693f53cfb74615e9ae21e96a3f18294c1a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 29/47] fix: any prefix of the voucher root name is taken for
 the root

---
 src/voucher/voucher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index bde8452..f63198d 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -828,8 +828,8 @@ struct Voucher *deserialize_voucher(const uint8_t *json, const size_t length) {
   for (int idx = 1; idx < count; idx++) {
     int length = tokens[idx].end - tokens[idx].start;
     /* Find the voucher root key */
-    if (strncmp(VOUCHER_ROOT_NAME, (char *)(json + tokens[idx].start),
-                length) == 0) {
+    if (check_size_str_equal(VOUCHER_ROOT_NAME,
+                             (char *)(json + tokens[idx].start), length)) {
       idx++;
       if (idx < count && tokens[idx].type == JSMN_OBJECT) {
         /* Iterate over all the key/value pairs of the voucher root */
-- 
2.43.0


From 25e7393d095b6705c319608625aa20574179bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 30/47] fix: setting the serial-number again leaks the previous
 one

---
 src/voucher/voucher.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index f63198d..d9db700 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -182,10 +182,13 @@ static int set_attr_nstr_voucher(struct Voucher *voucher,
   }
 
   if (length < MAX_SERIAL_NUMBER_SIZE) {
-    if ((voucher->serial_number = sys_strndup(value, length)) == NULL) {
+    char *serial_number = sys_strndup(value, length);
+    if (serial_number == NULL) {
       log_errno("sys_strdup");
       return -1;
     }
+    sys_free(voucher->serial_number);
+    voucher->serial_number = serial_number;
   } else {
     log_error("Attribute value exceeds max size");
     return -1;
-- 
2.43.0


From e3f32b6a9363579f34bcca68f41c6426aeff5c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 31/47] fix: setting a binary attribute again leaks the
 previous value

---
 src/voucher/voucher.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index d9db700..1485798 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -231,6 +231,14 @@ int set_attr_array_voucher(struct Voucher *voucher,
     return -1;
   }
 
+  struct BinaryArray *field =
+      (struct BinaryArray *)get_attr_array_voucher(voucher, attr);
+  if (field == NULL) {
+    log_error("Wrong attribute name");
+    return -1;
+  }
+  struct BinaryArray previous = *field;
+
   switch (attr) {
     case ATTR_IDEVID_ISSUER:
       if (copy_binary_array(&voucher->idevid_issuer, value) < 0) {
@@ -263,9 +271,11 @@ int set_attr_array_voucher(struct Voucher *voucher,
       return -1;
   }
 
+  free_binary_array_content(&previous);
   return 0;
 set_attr_array_voucher_fail:
   log_error("copy_voucher_array fail");
+  *field = previous;
   return -1;
 }
 
-- 
2.43.0


From bb6494a5d229230ef31ac616433d6948c56dbe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 32/47] fix: setting a time attribute from NULL crashes

---
 src/voucher/voucher.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 1485798..a493fc6 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -115,6 +115,11 @@ int set_attr_time_voucher(struct Voucher *voucher,
     return -1;
   }
 
+  if (value == NULL) {
+    log_error("value param is NULL");
+    return -1;
+  }
+
   switch (attr) {
     case ATTR_CREATED_ON:
       sys_memcpy(&voucher->created_on, value, sizeof(struct tm));
-- 
2.43.0


From 96ef9e9776b84a59bd769815aa1f929a7c8d3314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 33/47] fix: is_attr_voucher_nonempty crashes without a voucher

---
 src/voucher/voucher.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index a493fc6..0bb2a54 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -366,6 +366,11 @@ static bool is_attr_time_nonempty(const struct tm *tm) {
 
 bool is_attr_voucher_nonempty(const struct Voucher *voucher,
                               const enum VoucherAttributes attr) {
+  if (voucher == NULL) {
+    log_error("voucher param is NULL");
+    return false;
+  }
+
   switch (attr) {
     case ATTR_CREATED_ON:
       return is_attr_time_nonempty(&voucher->created_on);
-- 
2.43.0


From ce23549103e42b17700123d245844f870d7995be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 34/47] fix: clearing an unknown attribute is reported as
 success

---
 src/voucher/voucher.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index 0bb2a54..a5bc5f3 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -444,6 +444,9 @@ int clear_attr_voucher(struct Voucher *voucher,
     case ATTR_DOMAIN_CERT_REVOCATION_CHECKS:
       voucher->domain_cert_revocation_checks = false;
       break;
+    default:
+      log_error("Wrong attribute name");
+      return -1;
   }
 
   return 0;
-- 
2.43.0


From 90047c3ed2ed6e0156a7e617309be838c6067993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 35/47] fix: sign_eccms_voucher logs the serialized voucher
 before checking it

---
 src/voucher/voucher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/voucher/voucher.c b/src/voucher/voucher.c
index a5bc5f3..928ab89 100644
--- a/src/voucher/voucher.c
+++ b/src/voucher/voucher.c
@@ -923,11 +923,11 @@ struct BinaryArray *sign_eccms_voucher(struct Voucher *voucher,
 
   char *serialized = serialize_voucher(voucher);
 
-  log_trace("%s", serialized);
   if (serialized == NULL) {
     log_error("serialize_voucher fail");
     return NULL;
   }
+  log_trace("%s", serialized);
 
   struct BinaryArray *cms = init_binary_array();
   if (cms == NULL) {
-- 
2.43.0


From c92b6131d473c2b126bb110b28681c0858e08b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 36/47] fix: concurrent requests share the static buffer of
 localtime

---
 src/utils/os.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/utils/os.c b/src/utils/os.c
index 59e1639..858d44b 100644
--- a/src/utils/os.c
+++ b/src/utils/os.c
@@ -94,7 +94,6 @@ size_t sys_strnlen_s(const char *const str, const size_t max_len) {
 
 int get_localtime(struct tm *current) {
   time_t ltime;
-  struct tm *newtime;
 
   if (current == NULL) {
     log_error("current is NULL");
@@ -102,11 +101,10 @@ int get_localtime(struct tm *current) {
   }
 
   time(&ltime);
-  if ((newtime = localtime(&ltime)) == NULL) {
-    log_errno("localtime");
+  if (localtime_r(&ltime, current) == NULL) {
+    log_errno("localtime_r");
     return -1;
   }
-  sys_memcpy(current, newtime, sizeof(struct tm));
 
   return 0;
 }
-- 
2.43.0


From e281096bdd61f691be3101948762626fabc4d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 37/47] fix: writing an invalid certificate or key empties the
 existing file

---
 src/voucher/crypto_ossl.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index a72ac8b..b0d8fef 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -172,18 +172,18 @@ int cmsbuf_to_file(const struct BinaryArray *cms, const char *filename) {
 }
 
 int certbuf_to_file(const struct BinaryArray *cert, const char *filename) {
-  FILE *fp = fopen(filename, "wb");
+  X509 *x509 = crypto_cert2context(cert->array, cert->length);
 
-  if (fp == NULL) {
-    log_errno("Couldn't open %s file.", filename);
+  if (x509 == NULL) {
+    log_error("crypto_cert2context fail");
     return -1;
   }
 
-  X509 *x509 = crypto_cert2context(cert->array, cert->length);
+  FILE *fp = fopen(filename, "wb");
 
-  if (x509 == NULL) {
-    log_error("crypto_cert2context fail");
-    fclose(fp);
+  if (fp == NULL) {
+    log_errno("Couldn't open %s file.", filename);
+    X509_free(x509);
     return -1;
   }
 
@@ -201,18 +201,18 @@ int certbuf_to_file(const struct BinaryArray *cert, const char *filename) {
 }
 
 int keybuf_to_file(const struct BinaryArray *key, const char *filename) {
-  FILE *fp = fopen(filename, "wb");
+  EVP_PKEY *pkey = crypto_key2context(key->array, key->length);
 
-  if (fp == NULL) {
-    log_errno("Couldn't open %s file.", filename);
+  if (pkey == NULL) {
+    log_error("crypto_key2context fail");
     return -1;
   }
 
-  EVP_PKEY *pkey = crypto_key2context(key->array, key->length);
+  FILE *fp = fopen(filename, "wb");
 
-  if (pkey == NULL) {
-    log_error("crypto_key2context fail");
-    fclose(fp);
+  if (fp == NULL) {
+    log_errno("Couldn't open %s file.", filename);
+    EVP_PKEY_free(pkey);
     return -1;
   }
 
-- 
2.43.0


From 4b5c81a06f6625a78a5acc8a1226cd82df7fca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 38/47] fix: a file that could not be written completely is
 reported as written

---
 src/voucher/crypto_ossl.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index b0d8fef..3d6c1ba 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -158,7 +158,7 @@ int cmsbuf_to_file(const struct BinaryArray *cms, const char *filename) {
     return -1;
   }
 
-  if (!SMIME_write_CMS(out, content, NULL, CMS_TEXT)) {
+  if (!SMIME_write_CMS(out, content, NULL, CMS_TEXT) || BIO_flush(out) <= 0) {
     log_error("SMIME_write_CMS fail with code=%s",
               ERR_error_string(ERR_get_error(), NULL));
     BIO_free(out);
@@ -195,8 +195,11 @@ int certbuf_to_file(const struct BinaryArray *cert, const char *filename) {
     return -1;
   }
 
-  fclose(fp);
   X509_free(x509);
+  if (fclose(fp) != 0) {
+    log_errno("fclose");
+    return -1;
+  }
   return 0;
 }
 
@@ -224,8 +227,11 @@ int keybuf_to_file(const struct BinaryArray *key, const char *filename) {
     return -1;
   }
 
-  fclose(fp);
   EVP_PKEY_free(pkey);
+  if (fclose(fp) != 0) {
+    log_errno("fclose");
+    return -1;
+  }
   return 0;
 }
 
-- 
2.43.0


From 4313d86ac94c55c266028bf94e06c04e6101c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 39/47] fix: pledges enrolling in the same second get the same
 certificate serial number

---
 src/brski/pledge/pledge_request.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index b775164..81b679f 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -210,26 +210,23 @@ std::string create_cert_string(const char *cert) {
   return out;
 }
 
-uint64_t gen_rand64(void) {
-  uint64_t value = 0x0;
-
-  srand(time(0));
-
-  for (int i = 0; i < 64; i += 15) {
-    value = value * ((uint64_t)RAND_MAX + 1) + rand();
-  }
-  return value;
-}
-
 int generate_sign_cert(struct BinaryArray *scert_cert,
                        struct BinaryArray *scert_key) {
   uint8_t rand[8];
   char rands[17];
   ssize_t length;
   struct BinaryArray buf = {.array = rand, .length = 8};
+  uint64_t serial_number;
+  struct BinaryArray serial_buf = {.array = (uint8_t *)&serial_number,
+                                   .length = sizeof(serial_number)};
+
+  if (crypto_getrand(&serial_buf) < 0) {
+    log_error("crypto_getrand fail");
+    return -1;
+  }
 
   struct crypto_cert_meta sign_cert_meta = {
-      .serial_number = gen_rand64(),
+      .serial_number = serial_number,
       .not_before = 0,
       // Long-lived pledge certificate
       .not_after_absolute = (char *)"99991231235959Z",
-- 
2.43.0


From 8adebac2be4bb4ac2cb5c58647068aa6c39a14e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 40/47] fix: the registrar throws when the MASA has no address

---
 src/brski/registrar/registrar_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 055b7b3..6d3a7df 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -97,6 +97,11 @@ int post_voucher_request(struct BinaryArray *voucher_request_cms,
                          std::string &response) {
   char *voucher_request_cms_base64 = NULL;
 
+  if (mconf->bind_address == nullptr) {
+    log_error("bind_address param is NULL");
+    return -1;
+  }
+
   if (serialize_array2base64str(voucher_request_cms->array,
                                 voucher_request_cms->length,
                                 (uint8_t **)&voucher_request_cms_base64) < 0) {
-- 
2.43.0


From 7c06c09d13474c89d78e7a9928d8c7af706d65e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 41/47] fix: load every value of a repeated configuration key

---
 src/brski/config.c | 69 +++++++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/src/brski/config.c b/src/brski/config.c
index 75d492d..aedeafe 100644
--- a/src/brski/config.c
+++ b/src/brski/config.c
@@ -17,6 +17,7 @@
 #include <fcntl.h>
 #include <minIni.h>
 #include <string.h>
+#include <strings.h>
 #include <unistd.h>
 
 #include "config.h"
@@ -31,52 +32,52 @@
 #define TIME_ISO_STR_SIZE sizeof("9999-12-31T24:59:59Z") + 1
 #define MAX_CONFIG_VALUE_SIZE 2048
 
+struct config_value_list {
+  const char *section;
+  const char *key;
+  struct BinaryArrayList *values;
+  bool failed;
+};
+
+static int push_config_value(const char *section, const char *key,
+                             const char *value, void *user_data) {
+  struct config_value_list *list = (struct config_value_list *)user_data;
+
+  if (strcasecmp(section, list->section) != 0 ||
+      strcmp(key, list->key) != 0 || !strlen(value)) {
+    return 1;
+  }
+
+  if (push_array_list(list->values, (uint8_t *)value, strlen(value) + 1, 0) <
+      0) {
+    list->failed = true;
+    return 0;
+  }
+
+  return 1;
+}
+
 int load_config_value_list(const char *section, const char *key,
                            const char *filename,
                            struct BinaryArrayList **value_list) {
   *value_list = NULL;
-  int idx = 0;
 
-  char *store = NULL;
-  if ((store = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-    log_errno("sys_zalloc");
-    return -1;
-  }
+  struct config_value_list list = {.section = section, .key = key};
 
-  if ((*value_list = init_array_list()) == NULL) {
+  if ((list.values = init_array_list()) == NULL) {
     log_error("init_array_list fail");
-    sys_free(store);
     return -1;
   }
 
-  while (ini_getkey(section, idx++, store, MAX_CONFIG_VALUE_SIZE, filename) >
-         0) {
-    char *value = NULL;
-    if ((value = sys_zalloc(MAX_CONFIG_VALUE_SIZE)) == NULL) {
-      log_errno("sys_zalloc");
-      sys_free(store);
-      free_array_list(*value_list);
-      *value_list = NULL;
-      return -1;
-    }
-
-    ini_gets(section, store, "", value, INI_BUFFERSIZE, filename);
-
-    if (strcmp(store, key) == 0 && strlen(value)) {
-      if (push_array_list(*value_list, (uint8_t *const)value, strlen(value) + 1,
-                          0) < 0) {
-        sys_free(value);
-        sys_free(store);
-        free_array_list(*value_list);
-        *value_list = NULL;
-        return -1;
-      }
-    }
-
-    sys_free(value);
+  /* ini_gets only ever finds the first of several equal keys */
+  ini_browse(push_config_value, &list, filename);
+  if (list.failed) {
+    log_error("push_array_list fail");
+    free_array_list(list.values);
+    return -1;
   }
 
-  sys_free(store);
+  *value_list = list.values;
   return 0;
 }
 
-- 
2.43.0


From 34cc4fa140cd0d05d002cb673ff73ea6501a7fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 42/47] fix: send error replies with a single text/plain
 content type

---
 src/brski/http/httplib_wrapper.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/brski/http/httplib_wrapper.cpp b/src/brski/http/httplib_wrapper.cpp
index 5c2caa3..54290e2 100644
--- a/src/brski/http/httplib_wrapper.cpp
+++ b/src/brski/http/httplib_wrapper.cpp
@@ -163,11 +163,13 @@ int httplib_register_routes(httplib::SSLServer *server,
 void set_error_handler(httplib::SSLServer *server) {
   server->set_error_handler(
       [](const httplib::Request &req, httplib::Response &res) {
-        if (res.body == "") {
-          res.body = HTTP_ERROR_REPLY; // set default error response
+        std::string body = res.body;
+        if (body == "") {
+          body = HTTP_ERROR_REPLY; // set default error response
         }
-        // according to BRSKI spec, all errors must be plain text
-        res.set_header("Content-Type", "text/plain");
+        // according to BRSKI spec, all errors must be plain text, whatever
+        // type the route had announced
+        res.set_content(body, "text/plain");
       });
 }
 
-- 
2.43.0


From 74b557cbd35df14244b3ec99dfcb359676feb1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 43/47] fix: write output files under the whole name given with
 -o

---
 src/brski/brski.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/brski/brski.cpp b/src/brski/brski.cpp
index ffa0be1..e710c72 100644
--- a/src/brski/brski.cpp
+++ b/src/brski/brski.cpp
@@ -241,8 +241,6 @@ int read_stdin(uint8_t buf[]) {
 
 int output_domain_cert(struct BinaryArray *pinned_domain_cert,
                        std::string &out_filename) {
-  char outf[255];
-
   if (out_filename.empty()) {
     char *cert_str = NULL;
     if (serialize_array2base64str(pinned_domain_cert->array,
@@ -254,8 +252,8 @@ int output_domain_cert(struct BinaryArray *pinned_domain_cert,
     print_cert(cert_str, 0);
     sys_free(cert_str);
   } else {
-    snprintf(outf, 255, "%s.crt", out_filename.c_str());
-    if (certbuf_to_file(pinned_domain_cert, outf) < 0) {
+    const std::string outf = out_filename + ".crt";
+    if (certbuf_to_file(pinned_domain_cert, outf.c_str()) < 0) {
       log_error("certbuf_to_file fail");
       return -1;
     }
@@ -270,7 +268,6 @@ int main(int argc, char *argv[]) {
   std::string config_filename, in_filename, out_filename;
   std::string address;
   CommandId command_id;
-  char outf[255];
 
   process_options(argc, argv, verbose, config_filename, in_filename,
                   out_filename, &port, address, command_id);
@@ -333,10 +330,10 @@ int main(int argc, char *argv[]) {
         sys_free(base64);
         free_binary_array(tls_cert);
       } else {
-        snprintf(outf, 255, "%s.smime", out_filename.c_str());
+        const std::string outf = out_filename + ".smime";
 
-        if (voucher_pledge_request_to_smimefile(&config.pconf, tls_cert, outf) <
-            0) {
+        if (voucher_pledge_request_to_smimefile(&config.pconf, tls_cert,
+                                                outf.c_str()) < 0) {
           log_error("voucher_pledge_request_to_smimefile fail");
           return EXIT_FAILURE;
         }
@@ -392,13 +389,13 @@ int main(int argc, char *argv[]) {
         print_cert(pki_str, 0);
         sys_free(pki_str);
       } else {
-        snprintf(outf, 255, "%s.crt", out_filename.c_str());
-        if (certbuf_to_file(&out_cert, outf) < 0) {
+        const std::string certf = out_filename + ".crt";
+        if (certbuf_to_file(&out_cert, certf.c_str()) < 0) {
           log_error("certbuf_to_file fail");
           return EXIT_FAILURE;
         }
-        snprintf(outf, 255, "%s.key", out_filename.c_str());
-        if (keybuf_to_file(&out_key, outf) < 0) {
+        const std::string keyf = out_filename + ".key";
+        if (keybuf_to_file(&out_key, keyf.c_str()) < 0) {
           log_error("certbuf_to_file fail");
           return EXIT_FAILURE;
         }
-- 
2.43.0


From 58611106267f6f4f39854262f78f584d21f7bd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 44/47] fix: concurrent requests share the static buffer of
 ERR_error_string

---
 src/voucher/crypto_ossl.c | 99 ++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 48 deletions(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 3d6c1ba..5ff314a 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -41,6 +41,9 @@ struct NID_Name {
   char *name;
 };
 
+/* Requests are handled concurrently: each thread describes its own errors */
+static _Thread_local char error_text[256];
+
 static struct NID_Name NNAMES[10] = {{NID_countryName, "C"},
                                      {NID_stateOrProvinceName, "ST"},
                                      {NID_localityName, "L"},
@@ -130,7 +133,7 @@ static CMS_ContentInfo *derbuf_to_cms(const uint8_t *cms,
   const unsigned char *pp = (unsigned char *)cms;
   if (d2i_CMS_ContentInfo(&content, &pp, cms_length) == NULL) {
     log_error("d2i_CMS_ContentInfo fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return NULL;
   }
 
@@ -153,14 +156,14 @@ int cmsbuf_to_file(const struct BinaryArray *cms, const char *filename) {
   BIO *out = BIO_new_file(filename, "w");
   if (out == NULL) {
     log_error("BIO_new_ex fail with %s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     CMS_ContentInfo_free(content);
     return -1;
   }
 
   if (!SMIME_write_CMS(out, content, NULL, CMS_TEXT) || BIO_flush(out) <= 0) {
     log_error("SMIME_write_CMS fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     BIO_free(out);
     CMS_ContentInfo_free(content);
     return -1;
@@ -221,7 +224,7 @@ int keybuf_to_file(const struct BinaryArray *key, const char *filename) {
 
   if (!PEM_write_PrivateKey(fp, pkey, NULL, NULL, 0, 0, NULL)) {
     log_error("PEM_write_bio_X509 fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     fclose(fp);
     EVP_PKEY_free(pkey);
     return -1;
@@ -259,7 +262,7 @@ static ssize_t evpkey_to_derbuf(const EVP_PKEY *pkey, uint8_t **key) {
   int length = i2d_PrivateKey(pkey, key);
   if (length < 0) {
     log_error("i2d_PrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return -1;
   }
 
@@ -300,7 +303,7 @@ struct BinaryArray *file_to_x509buf(const char *filename) {
   X509 *x509 = PEM_read_X509(fp, NULL, NULL, NULL);
   if (x509 == NULL) {
     log_error("PEM_read_X509 fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     fclose(fp);
     return NULL;
   }
@@ -338,7 +341,7 @@ struct BinaryArray *file_to_keybuf(const char *filename) {
   EVP_PKEY *pkey = PEM_read_PrivateKey(fp, NULL, NULL, NULL);
   if (pkey == NULL) {
     log_error("PEM_read_PrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     fclose(fp);
     return NULL;
   }
@@ -391,13 +394,13 @@ static ssize_t cms_to_derbuf(const CMS_ContentInfo *content, uint8_t **cms) {
 
   if (mem == NULL) {
     log_error("BIO_new_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return -1;
   }
 
   if (!i2d_CMS_bio(mem, (CMS_ContentInfo *)content)) {
     log_error("i2d_CMS_bio fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     BIO_free(mem);
     return -1;
   }
@@ -418,7 +421,7 @@ static X509_CRL *derbuf_to_crl(const uint8_t *crl, const size_t length) {
   const unsigned char *pp = (unsigned char *)crl;
   if (d2i_X509_CRL(&crl_cert, &pp, length) == NULL) {
     log_error("d2i_X509_CRL fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return NULL;
   }
 
@@ -437,14 +440,14 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
 
   if ((ctx = EVP_PKEY_CTX_new_id(EVP_PKEY_RSA, NULL)) == NULL) {
     log_error("EVP_PKEY_CTX_new_id fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     free_binary_array(key);
     return NULL;
   }
 
   if (EVP_PKEY_keygen_init(ctx) <= 0) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     EVP_PKEY_CTX_free(ctx);
     free_binary_array(key);
     return NULL;
@@ -452,7 +455,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
 
   if (EVP_PKEY_CTX_set_rsa_keygen_bits(ctx, bits) <= 0) {
     log_error("EVP_PKEY_CTX_set_rsa_keygen_bits fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     EVP_PKEY_CTX_free(ctx);
     free_binary_array(key);
     return NULL;
@@ -460,7 +463,7 @@ struct BinaryArray *crypto_generate_rsakey(const int bits) {
 
   if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
     log_error("EVP_PKEY_keygen fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     EVP_PKEY_CTX_free(ctx);
     free_binary_array(key);
     return NULL;
@@ -494,27 +497,27 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
   *key = NULL;
   if ((ctx = EVP_PKEY_CTX_new_id(EVP_PKEY_EC, NULL)) == NULL) {
     log_error("EVP_PKEY_CTX_new_id fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return -1;
   }
 
   if (EVP_PKEY_paramgen_init(ctx) <= 0) {
     log_error("EVP_PKEY_paramgen_init fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
   if (EVP_PKEY_CTX_set_ec_paramgen_curve_nid(ctx, NID_X9_62_prime256v1) <= 0) {
     log_error("EVP_PKEY_CTX_set_ec_paramgen_curve_nid fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
   if (EVP_PKEY_paramgen(ctx, &params) <= 0) {
     log_error("EVP_PKEY_paramgen fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
@@ -523,7 +526,7 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
 
   if ((ctx = EVP_PKEY_CTX_new(params, NULL)) == NULL) {
     log_error("EVP_PKEY_CTX_new fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     EVP_PKEY_free(params);
     return -1;
   }
@@ -532,14 +535,14 @@ ssize_t crypto_generate_eckey(uint8_t **key) {
 
   if (EVP_PKEY_keygen_init(ctx) <= 0) {
     log_error("EVP_PKEY_keygen_init fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
 
   if (EVP_PKEY_keygen(ctx, &pkey) <= 0) {
     log_error("EVP_PKEY_keygen fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     EVP_PKEY_CTX_free(ctx);
     return -1;
   }
@@ -562,7 +565,7 @@ CRYPTO_KEY crypto_eckey2context(const uint8_t *key, const size_t length) {
   EVP_PKEY *pkey = NULL;
   if ((pkey = d2i_PrivateKey(EVP_PKEY_EC, NULL, &key, (long)length)) == NULL) {
     log_error("d2i_PrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return NULL;
   }
 
@@ -573,7 +576,7 @@ CRYPTO_KEY crypto_rsakey2context(const uint8_t *key, const size_t length) {
   EVP_PKEY *pkey = NULL;
   if ((pkey = d2i_PrivateKey(EVP_PKEY_RSA, NULL, &key, (long)length)) == NULL) {
     log_error("d2i_PrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return NULL;
   }
 
@@ -585,7 +588,7 @@ CRYPTO_KEY crypto_key2context(const uint8_t *key, const size_t length) {
   EVP_PKEY *pkey = NULL;
   if ((pkey = d2i_AutoPrivateKey(NULL, &key, (long)length)) == NULL) {
     log_error("d2i_AutoPrivateKey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return NULL;
   }
 
@@ -663,7 +666,7 @@ int get_x509_entry(X509_NAME *name, int nid, char **out) {
   unsigned char *str = NULL;
   if (ASN1_STRING_to_UTF8(&str, d) < 0) {
     log_error("ASN1_STRING_to_UTF8 code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return -1;
   }
 
@@ -714,18 +717,18 @@ int crypto_getcert_meta(CRYPTO_CERT cert, struct crypto_cert_meta *meta) {
   asn1_serial = X509_get_serialNumber(x509);
   if (asn1_serial == NULL) {
     log_error("X509_get_serialNumber fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
   } else {
     if (!ASN1_INTEGER_get_uint64(&meta->serial_number, asn1_serial)) {
       log_error("ASN1_INTEGER_get_uint64 fail with code=%s",
-                ERR_error_string(ERR_get_error(), NULL));
+                ERR_error_string(ERR_get_error(), error_text));
     }
   }
 
   X509_NAME *issuer = X509_get_issuer_name(x509);
   if (issuer == NULL) {
     log_error("X509_get_issuer_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return -1;
   }
 
@@ -738,7 +741,7 @@ int crypto_getcert_meta(CRYPTO_CERT cert, struct crypto_cert_meta *meta) {
 
   if (subject == NULL) {
     log_error("X509_get_subject_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return -1;
   }
 
@@ -760,20 +763,20 @@ struct BinaryArray *crypto_getcert_issuer(CRYPTO_CERT cert) {
   X509_NAME *issuer = X509_get_issuer_name(x509);
   if (issuer == NULL) {
     log_error("X509_get_issuer_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return NULL;
   }
 
   BIO *mem_data = BIO_new_ex(NULL, BIO_s_mem());
   if (mem_data == NULL) {
     log_error("BIO_new_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return NULL;
   }
 
   if (X509_NAME_print_ex(mem_data, issuer, 0, XN_FLAG_ONELINE) < 0) {
     log_error("X509_NAME_print_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     BIO_free(mem_data);
     return NULL;
   }
@@ -850,7 +853,7 @@ static X509_NAME *add_x509name_keyvalues(struct keyvalue_list *pairs) {
     if (!X509_NAME_add_entry_by_txt(name, el->key, MBSTRING_ASC,
                                     (unsigned char *)el->value, -1, -1, 0)) {
       log_error("X509_NAME_add_entry_by_txt code=%s",
-                ERR_error_string(ERR_get_error(), NULL));
+                ERR_error_string(ERR_get_error(), error_text));
       X509_NAME_free(name);
       return NULL;
     }
@@ -863,7 +866,7 @@ static int set_certificate_meta(X509 *x509,
                                 const struct crypto_cert_meta *meta) {
   if (X509_set_version(x509, X509_VERSION_3) != 1) {
     log_error("X509_set_version fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return -1;
   }
 
@@ -969,7 +972,7 @@ static int sign_sha256_certificate(X509 *x509, const EVP_PKEY *pkey) {
   /* self sign the certificate with the key. */
   if (!X509_sign(x509, (EVP_PKEY *)pkey, EVP_sha256())) {
     log_error("X509_sign fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return -1;
   }
 
@@ -1023,7 +1026,7 @@ ssize_t crypto_generate_eccert(const struct crypto_cert_meta *meta,
 
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
     log_error("X509_set_pubkey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     crypto_free_keycontext(pkey);
     X509_free(x509);
     return -1;
@@ -1089,7 +1092,7 @@ ssize_t crypto_generate_rsacert(const struct crypto_cert_meta *meta,
 
   if (!X509_set_pubkey(x509, (EVP_PKEY *)pkey)) {
     log_error("X509_set_pubkey fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     crypto_free_keycontext(pkey);
     X509_free(x509);
     return -1;
@@ -1156,14 +1159,14 @@ ssize_t crypto_sign_cert(const uint8_t *sign_key, const size_t sign_key_length,
   X509_NAME *ca_subject = X509_get_subject_name(x509_ca);
   if (ca_subject == NULL) {
     log_error("X509_get_subject_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     goto crypto_sign_cert_fail;
   }
 
   /* Set the issuer to the one from the CA/intermediate certificate */
   if (!X509_set_issuer_name(x509, ca_subject)) {
     log_error("X509_set_issuer_name fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     goto crypto_sign_cert_fail;
   }
 
@@ -1201,7 +1204,7 @@ static STACK_OF(X509) *
 
   if (cert_stack == NULL) {
     log_error("sk_X509_new_null fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return NULL;
   }
 
@@ -1259,7 +1262,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
 
   if (x509_store == NULL) {
     log_error("X509_STORE_new fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     free_x509_store(x509_store, *x509_store_list);
     return NULL;
   }
@@ -1278,7 +1281,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
 
       if (!X509_STORE_add_cert(x509_store, x509)) {
         log_error("X509_STORE_add_cert fail with code=%s",
-                  ERR_error_string(ERR_get_error(), NULL));
+                  ERR_error_string(ERR_get_error(), error_text));
         X509_free(x509);
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
@@ -1295,7 +1298,7 @@ static X509_STORE *get_certificate_store(const struct BinaryArrayList *store,
 
       if (!X509_STORE_add_crl(x509_store, x509_crl)) {
         log_error("X509_STORE_add_crl fail with code=%s",
-                  ERR_error_string(ERR_get_error(), NULL));
+                  ERR_error_string(ERR_get_error(), error_text));
         X509_CRL_free(x509_crl);
         free_x509_store(x509_store, *x509_store_list);
         return NULL;
@@ -1416,13 +1419,13 @@ static ssize_t sign_withkey_cms(const uint8_t *data, const size_t data_length,
   BIO *mem_data = BIO_new_ex(NULL, BIO_s_mem());
   if (mem_data == NULL) {
     log_error("BIO_new_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return -1;
   }
 
   if (BIO_write(mem_data, data, data_length) < 0) {
     log_error("BIO_write fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     BIO_free(mem_data);
     return -1;
   }
@@ -1705,7 +1708,7 @@ ssize_t crypto_verify_cms(const struct BinaryArray *cms,
   BIO *mem_data = BIO_new_ex(NULL, BIO_s_mem());
   if (mem_data == NULL) {
     log_error("BIO_new_ex fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     goto crypto_verify_cms_fail;
   }
 
@@ -1713,7 +1716,7 @@ ssize_t crypto_verify_cms(const struct BinaryArray *cms,
 
   if (!CMS_verify(content, cert_stack, cert_store, NULL, mem_data, flags)) {
     log_error("CMS_verify fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     goto crypto_verify_cms_fail;
   }
 
@@ -1761,7 +1764,7 @@ int crypto_getrand(struct BinaryArray *buf) {
 
   if (ret != 1) {
     log_error("RAND_bytes fail with code=%s",
-              ERR_error_string(ERR_get_error(), NULL));
+              ERR_error_string(ERR_get_error(), error_text));
     return -1;
   }
 
-- 
2.43.0


From e99081297168c6c52aeee2d3e0032e4a5ad486c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 45/47] fix: crypto_getrand reports success for lengths
 RAND_bytes cannot take

---
 src/voucher/crypto_ossl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/voucher/crypto_ossl.c b/src/voucher/crypto_ossl.c
index 5ff314a..a18e8ba 100644
--- a/src/voucher/crypto_ossl.c
+++ b/src/voucher/crypto_ossl.c
@@ -9,6 +9,7 @@
  * utilities.
  */
 
+#include <limits.h>
 #include <stddef.h>
 #include <stdint.h>
 #include <openssl/cms.h>
@@ -1757,7 +1758,7 @@ int crypto_getrand(struct BinaryArray *buf) {
   if (buf == NULL)
     return -1;
 
-  if (buf->array == NULL || buf->length == 0)
+  if (buf->array == NULL || buf->length == 0 || buf->length > INT_MAX)
     return -1;
 
   ret = RAND_bytes(buf->array, buf->length);
-- 
2.43.0


From fe9d47ee0681381d2f72dc828b5c360bec260dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 46/47] fix: the subject serial number of a pledge certificate
 loses its last digit

---
 src/brski/pledge/pledge_request.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brski/pledge/pledge_request.cpp b/src/brski/pledge/pledge_request.cpp
index 81b679f..51846be 100644
--- a/src/brski/pledge/pledge_request.cpp
+++ b/src/brski/pledge/pledge_request.cpp
@@ -239,7 +239,7 @@ int generate_sign_cert(struct BinaryArray *scert_cert,
     return -1;
   }
 
-  printf_hex(rands, 16, rand, 8, 1);
+  printf_hex(rands, sizeof(rands), rand, sizeof(rand), 1);
 
   if ((sign_cert_meta.issuer = init_keyvalue_list()) == NULL) {
     log_error("init_keyvalue_list fail");
-- 
2.43.0


From 510e7d724cc3fb75734c8e0b42c4259dee7f199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:00 +0000
Subject: [PATCH 47/47] fix: names in certificates can not break the lines of
 the audit log

---
 src/brski/registrar/registrar_api.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/brski/registrar/registrar_api.cpp b/src/brski/registrar/registrar_api.cpp
index 6d3a7df..80be368 100644
--- a/src/brski/registrar/registrar_api.cpp
+++ b/src/brski/registrar/registrar_api.cpp
@@ -7,6 +7,7 @@
  * SPDX-License-Identifier: MIT
  * @brief File containing the implementation of the registrar routes.
  */
+#include <cctype>
 #include <functional>
 #include <memory>
 #include <new>
@@ -28,6 +29,21 @@ extern "C" {
 #include "../config.h"
 }
 
+/* A name may hold any character, none of them may end a field or a line */
+static const char *get_log_field(char *value) {
+  if (value == NULL) {
+    return "NULL";
+  }
+
+  for (char *c = value; *c != '\0'; c++) {
+    if (*c == '"' || *c == '\\' || !isprint((unsigned char)*c)) {
+      *c = '?';
+    }
+  }
+
+  return value;
+}
+
 void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   struct crypto_cert_meta imeta = {};
   imeta.issuer = init_keyvalue_list();
@@ -78,8 +94,8 @@ void save_to_log(CRYPTO_CERT icert, CRYPTO_CERT lcert, char *log_path) {
   FILE *f = fopen(log_path, "a");
   if (f != NULL) {
     fprintf(f, "%lu 0x%" PRIx64 " \"%s\" 0x%" PRIx64 " \"%s\"\n", time(NULL),
-            imeta.serial_number, (iserial != NULL) ? iserial : "NULL",
-            lmeta.serial_number, (lserial != NULL) ? lserial : "NULL");
+            imeta.serial_number, get_log_field(iserial),
+            lmeta.serial_number, get_log_field(lserial));
     fclose(f);
   } else {
     log_errno("fopen fail");
-- 
2.43.0

