/* loads a configuration from a file whose entries are the tables below (the minIni calls are defined
 * here over those tables) and checks what every member then holds */
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>

#include <minIni.h>

#include "brski/config.h"
#include "utils/log.h"
#include "utils/os.h"
#include "voucher/array.h"

void sa_assert(int cond, const char *what);

struct entry {
  const char *section, *key, *value;
};
static const struct entry *file;
static int entries;

#define PAD "/a-rather-long-directory-name-0123456789/a-rather-long-directory-name-0123456789/a-rather-long-directory-name-0123456789/"
#define V(s, k) PAD #s "." #k
#define E1(s, k) {#s, #k, V(s, k)},
#define E2(s, k) {#s, #k, V(s, k) "-2"},
#define LISTS(E, s) E(s, cmsAdditionalCertPath) E(s, cmsVerifyCertPath) E(s, cmsVerifyStorePath)
#define KEYS                                                                                        \
  {"pledge", "createdOn", "2024-01-02T03:04:05Z"}, E1(pledge, serialNumber) E1(pledge, nonce)      \
  E1(pledge, idevidKeyPath) E1(pledge, idevidCertPath) E1(pledge, idevidCACertPath)                \
  E1(pledge, cmsSignCertPath) E1(pledge, cmsSignKeyPath) LISTS(E1, pledge)                         \
  E1(registrar, bindAddress) {"registrar", "port", "40123"}, E1(registrar, tlsCertPath)            \
  E1(registrar, tlsKeyPath) E1(registrar, tlsCAKeyPath) E1(registrar, tlsCACertPath)               \
  E1(registrar, cmsSignCertPath) E1(registrar, cmsSignKeyPath) LISTS(E1, registrar)                \
  E1(masa, bindAddress) {"masa", "port", "40456"}, {"masa", "expiresOn", "2025-01-02T03:04:06Z"},  \
  E1(masa, ldevidCACertPath) E1(masa, tlsCertPath) E1(masa, tlsKeyPath) E1(masa, tlsCACertPath)    \
  E1(masa, cmsSignCertPath) E1(masa, cmsSignKeyPath) LISTS(E1, masa)

static const struct entry full[] = {KEYS};
static const struct entry twice[] = {KEYS LISTS(E2, pledge) LISTS(E2, registrar) LISTS(E2, masa)};
static const struct entry blank[] = {{"other", "port", "7"}, {"pledge", "cmsVerifyCertPath", ""}, {"masa", "tlsKeyPath", ""}};

#define USE(t) (file = t, entries = (int)(sizeof(t) / sizeof(t[0])))

static const char *find(const char *section, const char *key) {
  for (int i = 0; i < entries; i++)
    if (strcasecmp(file[i].section, section) == 0 && strcasecmp(file[i].key, key) == 0)
      return file[i].value;
  return NULL;
}

static int put(char *buffer, int size, const char *value) {
  size_t n = strlen(value);
  if (n > (size_t)size - 1)
    n = (size_t)size - 1;
  memcpy(buffer, value, n);
  buffer[n] = '\0';
  return (int)n;
}

int ini_gets(const char *section, const char *key, const char *def, char *buffer, int size, const char *name) {
  const char *v = find(section, key);
  return put(buffer, size, v == NULL || v[0] == '\0' ? def : v);
}

long ini_getl(const char *section, const char *key, long def, const char *name) {
  const char *v = find(section, key);
  if (v == NULL)
    return def;
  return strcmp(v, "40123") == 0 ? 40123 : strcmp(v, "40456") == 0 ? 40456 : 7;
}

int ini_getkey(const char *section, int idx, char *buffer, int size, const char *name) {
  for (int i = 0; i < entries; i++)
    if (strcasecmp(file[i].section, section) == 0 && idx-- == 0)
      return put(buffer, size, file[i].key);
  return 0;
}

int ini_browse(INI_CALLBACK cb, void *user, const char *name) {
  for (int i = 0; i < entries; i++)
    if (!cb(file[i].section, file[i].key, file[i].value, user))
      break;
  return 1;
}

#define IS(member, text) sa_assert(c.member != NULL && strcmp(c.member, text) == 0, #member " holds the value configured for it")
#define ALL_IS()                                                                                    \
  do {                                                                                              \
    IS(pconf.created_on, "2024-01-02T03:04:05Z");                                                   \
    IS(pconf.serial_number, V(pledge, serialNumber));                                               \
    IS(pconf.nonce, V(pledge, nonce));                                                              \
    IS(pconf.idevid_key_path, V(pledge, idevidKeyPath));                                            \
    IS(pconf.idevid_cert_path, V(pledge, idevidCertPath));                                          \
    IS(pconf.idevid_ca_cert_path, V(pledge, idevidCACertPath));                                     \
    IS(pconf.cms_sign_cert_path, V(pledge, cmsSignCertPath));                                       \
    IS(pconf.cms_sign_key_path, V(pledge, cmsSignKeyPath));                                         \
    IS(rconf.bind_address, V(registrar, bindAddress));                                              \
    IS(rconf.tls_cert_path, V(registrar, tlsCertPath));                                             \
    IS(rconf.tls_key_path, V(registrar, tlsKeyPath));                                               \
    IS(rconf.tls_ca_key_path, V(registrar, tlsCAKeyPath));                                          \
    IS(rconf.tls_ca_cert_path, V(registrar, tlsCACertPath));                                        \
    IS(rconf.cms_sign_cert_path, V(registrar, cmsSignCertPath));                                    \
    IS(rconf.cms_sign_key_path, V(registrar, cmsSignKeyPath));                                      \
    IS(mconf.bind_address, V(masa, bindAddress));                                                   \
    IS(mconf.expires_on, "2025-01-02T03:04:06Z");                                                   \
    IS(mconf.ldevid_ca_cert_path, V(masa, ldevidCACertPath));                                       \
    IS(mconf.tls_cert_path, V(masa, tlsCertPath));                                                  \
    IS(mconf.tls_key_path, V(masa, tlsKeyPath));                                                    \
    IS(mconf.tls_ca_cert_path, V(masa, tlsCACertPath));                                             \
    IS(mconf.cms_sign_cert_path, V(masa, cmsSignCertPath));                                         \
    IS(mconf.cms_sign_key_path, V(masa, cmsSignKeyPath));                                           \
    sa_assert(c.rconf.port == 40123, "rconf.port holds the value configured for it");               \
    sa_assert(c.mconf.port == 40456, "mconf.port holds the value configured for it");               \
  } while (0)

#define GONE(member) sa_assert(c.member == NULL, #member " is not left behind")
#define NONE(member) sa_assert(c.member == NULL, #member " is NULL when it is not configured")
#define NONE_OF()                                                                                   \
  do {                                                                                              \
    NONE(pconf.created_on); NONE(pconf.serial_number); NONE(pconf.nonce); NONE(pconf.idevid_key_path); \
    NONE(pconf.idevid_cert_path); NONE(pconf.idevid_ca_cert_path); NONE(pconf.cms_sign_cert_path);  \
    NONE(pconf.cms_sign_key_path); NONE(rconf.tls_cert_path); NONE(rconf.tls_key_path);             \
    NONE(rconf.tls_ca_key_path); NONE(rconf.tls_ca_cert_path); NONE(rconf.cms_sign_cert_path);      \
    NONE(rconf.cms_sign_key_path); NONE(mconf.expires_on); NONE(mconf.ldevid_ca_cert_path);         \
    NONE(mconf.tls_cert_path); NONE(mconf.tls_key_path); NONE(mconf.tls_ca_cert_path);              \
    NONE(mconf.cms_sign_cert_path); NONE(mconf.cms_sign_key_path);                                  \
    IS(rconf.bind_address, "0.0.0.0"); IS(mconf.bind_address, "0.0.0.0");                           \
    sa_assert(c.rconf.port == 0 && c.mconf.port == 0, "no port unless one is configured");          \
  } while (0)

#define LIST(member, text, n)                                                                       \
  do {                                                                                              \
    struct BinaryArrayList *e_;                                                                     \
    int k_ = 0;                                                                                     \
    if (c.member != NULL) {                                                                         \
      dl_list_for_each(e_, &c.member->list, struct BinaryArrayList, list) {                         \
        if (k_ == 0) {                                                                              \
          sa_assert(strcmp((char *)e_->arr, text) == 0, #member " holds the values configured for it in their order"); \
        } else {                                                                                    \
          sa_assert(strcmp((char *)e_->arr, text "-2") == 0, #member " holds the values configured for it in their order"); \
        }                                                                                           \
        sa_assert(e_->length == strlen((char *)e_->arr) + 1, #member " ends its values");           \
        k_++;                                                                                       \
      }                                                                                             \
    }                                                                                               \
    sa_assert(k_ == n, #member " holds every value configured for it once");                        \
  } while (0)
#define LIST3(conf, s, n)                                                                           \
  LIST(conf.cms_add_certs_paths, V(s, cmsAdditionalCertPath), n);                                   \
  LIST(conf.cms_verify_certs_paths, V(s, cmsVerifyCertPath), n);                                    \
  LIST(conf.cms_verify_store_paths, V(s, cmsVerifyStorePath), n)

int sa_config_full(void) {
  struct brski_config c;
  memset(&c, 0, sizeof(c));
  USE(full);
  if (load_brski_config("the configuration", &c) < 0)
    return -1;
  ALL_IS();
  LIST3(pconf, pledge, 1);
  LIST3(rconf, registrar, 1);
  LIST3(mconf, masa, 1);
  free_config_content(&c);
  return 0;
}

int sa_config_twice(void) {
  struct brski_config c;
  memset(&c, 0, sizeof(c));
  USE(twice);
  if (load_brski_config("the configuration", &c) < 0)
    return -1;
  LIST3(pconf, pledge, 2);
  LIST3(rconf, registrar, 2);
  LIST3(mconf, masa, 2);
  free_config_content(&c);
  return 0;
}

int sa_config_blank(void) {
  struct brski_config c;
  memset(&c, 0, sizeof(c));
  USE(blank);
  if (load_brski_config("the configuration", &c) < 0) {
    free_config_content(&c);
    return -1;
  }
  NONE_OF();
  LIST3(pconf, pledge, 0);
  LIST3(rconf, registrar, 0);
  LIST3(mconf, masa, 0);
  free_config_content(&c);
  free_config_content(&c);
  return 0;
}

/* every configured certificate, in order, or an error */
int sa_cert_files(const char *a, const char *b, size_t na, size_t nb) {
  struct BinaryArrayList *paths = init_array_list(), *out = NULL, *e;
  int k = 0, r;
  if (paths == NULL)
    return -1;
  r = load_cert_files(paths, &out);
  sa_assert(r == 0 && out == NULL, "no configured certificate is no certificate and no error");
  if (push_array_list(paths, (uint8_t *)"one.crt", 8, 0) < 0 || push_array_list(paths, (uint8_t *)"two.crt", 8, 0) < 0) {
    free_array_list(paths);
    return -1;
  }
  r = load_cert_files(paths, &out);
  if (r < 0) {
    sa_assert(out == NULL, "no list is left behind when a certificate can not be loaded");
    free_array_list(paths);
    return -1;
  }
  sa_assert(out != NULL, "configured certificates yield a list");
  if (out != NULL) {
    dl_list_for_each(e, &out->list, struct BinaryArrayList, list) k++;
    sa_assert(k == 2, "every configured certificate is loaded");
  }
  free_array_list(out);
  free_array_list(paths);
  return 0;
}
