/* sets the log up through its public functions and writes one message */
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#include "utils/log.h"

void sa_lock(bool lock);

void sa_log(int how, int level, int min, int quiet, int meta, int color, char *path, int close, int locked) {
  if (locked)
    log_set_lock(sa_lock);
  if (min >= 0)
    log_set_level((uint8_t)min);
  if (quiet >= 0)
    log_set_quiet(quiet != 0);
  if (meta >= 0)
    log_set_meta(meta != 0);
  if (path != NULL && log_open_file(path) < 0)
    return;
  if (color >= 0)
    log_set_color(color != 0);
  if (close)
    log_close_file();
  if (how == 0)
    log_levels((uint8_t)level, "sa-file", 4242, "sa-format %d", 4243);
  else if (how == 1)
    log_errno_error((uint8_t)level, "sa-file", 4242, "sa-format %d", 4243);
  else if (how == 2)
    log_error_exit((uint8_t)level, "sa-file", 4242, "sa-format %d", 4243);
  else
    log_error_exit_proc((uint8_t)level, "sa-file", 4242, "sa-format %d", 4243);
}
