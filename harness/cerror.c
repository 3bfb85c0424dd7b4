/* the C face of error.h, built without GNU extensions */
#undef _GNU_SOURCE
#include <stddef.h>
#include <string.h>
#include <coda/error.h>
size_t c_strerror(int err, char *out, size_t n)
{
    const char *s = coda_strerror(err);
    size_t k = strlen(s);
    if (k >= n) k = n - 1;
    memcpy(out, s, k); out[k] = 0;
    return k;
}
