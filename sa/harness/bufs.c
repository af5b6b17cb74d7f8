/* functions that fill a buffer of the caller are handed one that has exactly the size they are told */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>

#include "utils/log.h"
#include "utils/os.h"

void sa_strlcpy(const char *src, size_t n) {
  char *b;
  if (n == 0 || src == NULL || (b = malloc(n)) == NULL)
    return;
  sys_strlcpy(b, src, n);
  free(b);
}

void sa_hex(const uint8_t *data, size_t len, size_t n, int upper) {
  char *b = malloc(n);
  if (b == NULL)
    return;
  printf_hex(b, n, data, len, upper);
  free(b);
}
