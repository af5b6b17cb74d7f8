/* The lists crypto_getcert_serial is analysed on, built by the repository's own functions.
 * Never compiled into anything that runs. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "voucher/array.h"
#include "voucher/keyvalue.h"
#include "voucher/crypto.h"

void sa_assert(int cond, const char *what);

static int fill(struct keyvalue_list *l, char *const a, char *const va, char *const b, char *const vb, char *const c, char *const vc) {
  if (push_keyvalue_list(l, a, va) < 0 || push_keyvalue_list(l, b, vb) < 0 || push_keyvalue_list(l, c, vc) < 0)
    return -1;
  return 0;
}

void sa_serial_first(void) {
  struct crypto_cert_meta m = {0};
  m.issuer = init_keyvalue_list();
  m.subject = init_keyvalue_list();
  if (m.issuer != NULL && m.subject != NULL && push_keyvalue_list(m.issuer, "serialNumber", "of the issuer") == 0 &&
      fill(m.subject, "CN", "common", "serialNumber", "first", "serialNumber", "second") == 0) {
    char *s = crypto_getcert_serial(&m);
    sa_assert(s != NULL, "the serialNumber of the subject is found");
    if (s != NULL)
      sa_assert(strcmp(s, "first") == 0, "the value is that of the subject's first serialNumber");
  }
  free_keyvalue_list(m.issuer);
  free_keyvalue_list(m.subject);
}

void sa_serial_none(void) {
  struct crypto_cert_meta m = {0};
  m.issuer = init_keyvalue_list();
  m.subject = init_keyvalue_list();
  if (m.issuer != NULL && m.subject != NULL && push_keyvalue_list(m.issuer, "serialNumber", "of the issuer") == 0 &&
      fill(m.subject, "SN", "surname", "serialNumbers", "longer", "serial", "shorter") == 0) {
    sa_assert(crypto_getcert_serial(&m) == NULL, "a subject without serialNumber has none");
  }
  free_keyvalue_list(m.issuer);
  free_keyvalue_list(m.subject);
}

void sa_serial_list(void) {
  struct crypto_cert_meta m = {0};
  m.issuer = init_keyvalue_list();
  m.subject = init_keyvalue_list();
  if (m.issuer != NULL && m.subject != NULL) {
    sa_assert(crypto_getcert_serial(&m) == NULL, "an empty subject has no serialNumber");
    if (fill(m.subject, "serialNumber", "first", "CN", "common", "emailAddress", "mail") == 0) {
      char *s = crypto_getcert_serial(&m);
      sa_assert(s != NULL && strcmp(s, "first") == 0, "the first attribute is looked at");
    }
  }
  free_keyvalue_list(m.issuer);
  free_keyvalue_list(m.subject);
}
