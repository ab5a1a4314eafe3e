// Linked into the command-line tools: when VG_OUT=k,mode,sep is set, standard output becomes a stream on the same descriptor whose k-th write (sep: of those that end a value or field) fails once
// (mode 0: fully buffered, 1: line buffered, 2: unbuffered, n > 2: buffer of n bytes). Does nothing otherwise.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
static long vg_at, vg_calls, vg_sep;
static ssize_t vg_write(void *x, const char *b, size_t n)
{
    (void) x;
    if ((!vg_sep || n < 2 || b[n - 1] == '\n' || b[1] == 'x') && vg_calls++ == vg_at) { errno = ENOSPC; return 0; }
    for (size_t k = 0; k < n;) { ssize_t w = write(1, b + k, n - k); if (w <= 0) return 0; k += (size_t) w; }
    return (ssize_t) n;
}
__attribute__((constructor)) static void vg_stdout(void)
{
    char *e = getenv("VG_OUT"); long mode = 0;
    if (!e || sscanf(e, "%ld,%ld,%ld", &vg_at, &mode, &vg_sep) != 3) return;
    FILE *f = fopencookie(NULL, "w", (cookie_io_functions_t) {NULL, vg_write, NULL, NULL});
    if (!f) return;
    if (mode) setvbuf(f, NULL, mode == 1 ? _IOLBF : mode == 2 ? _IONBF : _IOFBF, mode > 2 ? (size_t) mode : 4096);
    stdout = f;
}
