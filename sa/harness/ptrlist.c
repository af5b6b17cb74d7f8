/* the list of OpenSSL objects that is private to crypto_ossl.c */
#include "voucher/crypto_ossl.c"

void sa_assert(int cond, const char *what);
static void sa_cb(void *p, const int f) { free(p); }

void sa_ptr_list(int f, int g) {
  struct ptr_list *l = init_ptr_list(), *el;
  void *a, *b;
  int k = 0;
  if (l == NULL)
    return;
  sa_assert(push_ptr_list(l, NULL, f) < 0, "pushing NULL fails");
  a = malloc(1);
  b = malloc(1);
  if (a == NULL || b == NULL || push_ptr_list(l, a, f) < 0) {
    free(a);
    free(b);
    free_ptr_list(l, sa_cb);
    return;
  }
  if (push_ptr_list(l, b, g) < 0) {
    free(b);
    sa_assert(dl_list_len(&l->list) == 1, "a failed push leaves the list unchanged");
    free_ptr_list(l, sa_cb);
    return;
  }
  dl_list_for_each(el, &l->list, struct ptr_list, list) {
    if (k == 0) {
      sa_assert(el->ptr == a && el->flags == f, "elements keep their pointer, flags and order");
    } else {
      sa_assert(el->ptr == b && el->flags == g, "elements keep their pointer, flags and order");
    }
    k++;
  }
  sa_assert(k == 2, "iteration visits every element once");
  free_ptr_list(l, sa_cb);
}
