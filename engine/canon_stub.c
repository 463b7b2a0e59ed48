#include <stddef.h>
size_t canon_emit(void *k, long n, long m, int u, unsigned char *b, size_t c) { return 0; }
void canon_ranges(void *k, void (*cb)(char *lo, size_t sz)) {}
