/* Shapes the list operations are analysed on: lists of 0..3 elements that are built by the
 * repository's own init/push functions. Never compiled into anything that runs. */
#include <stdint.h>
#include <stdlib.h>
#include "voucher/array.h"
#include "voucher/keyvalue.h"

void sa_assert(int cond, const char *what);

void sa_array_list(uint8_t *a, size_t n, int f, uint8_t *b, size_t m, int g) {
  struct BinaryArrayList *l = init_array_list(), *el;
  int r, k = 0;
  if (l == NULL)
    return;
  sa_assert(dl_list_len(&l->list) == 0, "a new list is empty");
  free_array_list(NULL);
  if (a == NULL || b == NULL) {
    r = push_array_list(l, NULL, n, f);
    sa_assert(r < 0, "pushing NULL fails");
    sa_assert(dl_list_len(&l->list) == 0, "a failed push leaves the list unchanged");
    free_array_list(l);
    return;
  }
  r = push_array_list(l, a, n, f);
  if (r < 0) {
    sa_assert(dl_list_len(&l->list) == 0, "a failed push leaves the list unchanged");
    free_array_list(l);
    return;
  }
  sa_assert(r == 0, "a successful push returns 0");
  r = push_array_list(l, b, m, g);
  if (r < 0) {
    sa_assert(dl_list_len(&l->list) == 1, "a failed push leaves the list unchanged");
    free_array_list(l);
    return;
  }
  sa_assert(dl_list_len(&l->list) == 2, "two pushes make two elements");
  dl_list_for_each(el, &l->list, struct BinaryArrayList, list) {
    sa_assert(el->arr != NULL && el->arr != a && el->arr != b, "an element owns a copy");
    if (k == 0) {
      sa_assert(el->length == n && el->flags == f, "elements keep their length, flags and order");
    } else {
      sa_assert(el->length == m && el->flags == g, "elements keep their length, flags and order");
    }
    k++;
  }
  sa_assert(k == 2, "iteration visits every element once");
  free_array_list(l);
}

void sa_keyvalue_list(char *a, char *b, char *c, char *d) {
  struct keyvalue_list *l = init_keyvalue_list(), *el;
  int r, k = 0;
  if (l == NULL)
    return;
  sa_assert(dl_list_len(&l->list) == 0, "a new list is empty");
  free_keyvalue_list(NULL);
  if (a == NULL || b == NULL || c == NULL || d == NULL) {
    r = push_keyvalue_list(l, NULL, b);
    sa_assert(r < 0, "pushing NULL fails");
    r = push_keyvalue_list(l, a, NULL);
    sa_assert(r < 0, "pushing NULL fails");
    sa_assert(dl_list_len(&l->list) == 0, "a failed push leaves the list unchanged");
    free_keyvalue_list(l);
    return;
  }
  r = push_keyvalue_list(l, a, b);
  if (r < 0) {
    sa_assert(dl_list_len(&l->list) == 0, "a failed push leaves the list unchanged");
    free_keyvalue_list(l);
    return;
  }
  sa_assert(r == 0, "a successful push returns 0");
  r = push_keyvalue_list(l, c, d);
  if (r < 0) {
    sa_assert(dl_list_len(&l->list) == 1, "a failed push leaves the list unchanged");
    free_keyvalue_list(l);
    return;
  }
  sa_assert(dl_list_len(&l->list) == 2, "two pushes make two elements");
  dl_list_for_each(el, &l->list, struct keyvalue_list, list) {
    sa_assert(el->key != NULL && el->value != NULL, "elements own their key and value");
    if (k == 0) {
      sa_assert(el->key != a && el->value != b, "an element owns copies");
    } else {
      sa_assert(el->key != c && el->value != d, "an element owns copies");
    }
    k++;
  }
  sa_assert(k == 2, "iteration visits every element once");
  free_keyvalue_list(l);
}

void sa_binary_array(struct BinaryArray *src) {
  struct BinaryArray dst = {0};
  struct BinaryArray *own = init_binary_array();
  int r;
  if (own == NULL)
    return;
  sa_assert(own->array == NULL && own->length == 0, "a new array is empty");
  free_binary_array(own);
  free_binary_array(NULL);
  free_binary_array_content(NULL);
  sa_assert(copy_binary_array(&dst, NULL) < 0, "copying from NULL fails");
  sa_assert(copy_binary_array(NULL, &dst) < 0, "copying to NULL fails");
  sa_assert(compare_binary_array(NULL, &dst) < 0, "comparing NULL fails");
  sa_assert(compare_binary_array(&dst, NULL) < 0, "comparing NULL fails");
  if (src == NULL)
    return;
  r = copy_binary_array(&dst, src);
  if (r < 0) {
    sa_assert(dst.array == NULL, "a failed copy leaves nothing behind");
    return;
  }
  sa_assert(r == 0, "a successful copy returns 0");
  sa_assert(dst.array != NULL && dst.array != src->array, "a copy owns its bytes");
  sa_assert(dst.length == src->length, "a copy keeps the length");
  sa_assert(compare_binary_array(src, &dst) == 1, "a copy compares equal");
  free_binary_array_content(&dst);
  sa_assert(dst.array == NULL && dst.length == 0, "released content is reset");
}
