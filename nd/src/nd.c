/* Native side of the nondeterminism interface: values come from the file named by ND_REPLAY,
   in the order the symbolic run created its variables. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static FILE *in;
static int opened, nlog;
static uint64_t next(void) {
    if (!opened) {
        const char *p = getenv("ND_REPLAY");
        in = p ? fopen(p, "r") : 0;
        opened = 1;
    }
    unsigned long long v = 0;
    if (in && fscanf(in, "%llu", &v) != 1) v = 0;
    return v;
}
uint64_t __nd_sym(uint32_t bits, const char *n, uint64_t l) {
    uint64_t v = next();
    return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
uint32_t __nd_choose(uint32_t k, const char *n, uint64_t l) {
    if (k <= 1) return 0;
    return (uint32_t)next();
}
static void done(const char *what, const char *n, uint64_t l, int code) {
    printf("%s %.*s\n", what, (int)l, n);
    fflush(stdout);
    _exit(code);
}
void __nd_assume(int b) { if (!(b & 1)) done("ASSUME-FALSE", "", 0, 43); }
/* labels tagged for other properties ("C01,C02: text") are not checked */
static int skipped(const char *n, uint64_t l) {
    const char *o = getenv("ND_ONLY");
    if (!o || !*o) return 0;
    uint64_t i = 0, k = strlen(o);
    int hit = 0;
    while (i < l) {
        uint64_t j = i;
        if (!(n[j] >= 'A' && n[j] <= 'Z')) return 0;
        j++;
        while (j < l && n[j] >= '0' && n[j] <= '9') j++;
        if (j - i < 3 || j >= l) return 0;
        if (j - i == k && !memcmp(n + i, o, k)) hit = 1;
        if (n[j] == ':') return !hit;
        if (n[j] != ',') return 0;
        i = j + 1;
    }
    return 0;
}
void __nd_check(int b, const char *n, uint64_t l) { if (!(b & 1) && !skipped(n, l)) done("REPLAYED", n, l, 42); }
void __nd_fail(const char *n, uint64_t l) { if (!skipped(n, l)) done("REPLAYED", n, l, 42); }
void __nd_cover(const char *n, uint64_t l) {}
void __nd_log(uint64_t t, uint64_t v) { printf("L %llu %llu\n", (unsigned long long)t, (unsigned long long)v); }
void __nd_dbg(const char *n, uint64_t l, uint64_t v) { if (getenv("SYMX_DBG")) fprintf(stderr, "[dbg] %.*s = %llu\n", (int)l, n, (unsigned long long)v); }
uint32_t __nd_mode(void) { return 0; }
uint64_t __nd_conc(uint64_t v) { return v; }
uint64_t __nd_ite(int c, uint64_t a, uint64_t b) { return (c & 1) ? a : b; }
