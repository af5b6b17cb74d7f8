/* lists of zero to three pairs, as JSON */
#include "voucher/keyvalue.h"
#include "voucher/serialize.h"

static char *done(struct keyvalue_list *l) {
  char *r = serialize_keyvalue2json(l);
  free_keyvalue_list(l);
  return r;
}

char *sa_json0(void) {
  struct keyvalue_list *l = init_keyvalue_list();
  return l == NULL ? NULL : done(l);
}

char *sa_json1(const char *a, const char *b) {
  struct keyvalue_list *l = init_keyvalue_list();
  if (l == NULL)
    return NULL;
  if (push_keyvalue_list(l, a, b) < 0) {
    free_keyvalue_list(l);
    return NULL;
  }
  return done(l);
}

char *sa_json2(const char *a, const char *b, const char *c, const char *d) {
  struct keyvalue_list *l = init_keyvalue_list();
  if (l == NULL)
    return NULL;
  if (push_keyvalue_list(l, a, b) < 0 || push_keyvalue_list(l, c, d) < 0) {
    free_keyvalue_list(l);
    return NULL;
  }
  return done(l);
}

char *sa_json3(const char *a, const char *b, const char *c, const char *d, const char *e, const char *f) {
  struct keyvalue_list *l = init_keyvalue_list();
  if (l == NULL)
    return NULL;
  if (push_keyvalue_list(l, a, b) < 0 || push_keyvalue_list(l, c, d) < 0 || push_keyvalue_list(l, e, f) < 0) {
    free_keyvalue_list(l);
    return NULL;
  }
  return done(l);
}
