/* Text buffer operations */
#include "drv.h"
#include <stdarg.h>
#include <sys/mman.h>
#define NB 8
static cbuf *B[NB];
static size_t s0, t0; static int have;
static unsigned alt;
void buf_reset_all(void)
{
    int i;
    alt = 0;
    if (!have) { cbuf_alloc_get(&s0, &t0); have = 1; }
    for (i = 0; i < NB; i++) if (B[i]) { cbuf_free(B[i]); B[i] = NULL; }
    cbuf_alloc_set(s0, t0);
}
static void st(cbuf *cb)
{
    size_t n = cbuf_len(cb);
    jb(); js("op", "bst"); ju("len", n); ju("cap", cbuf_buflen(cb)); ji("term", cbuf_get(cb)[n] == 0); ju("sl", strlen(cbuf_get(cb)));
    if (n <= 200) jsn("s", cbuf_get(cb), n);
    else { size_t i; uint32_t hsh = 5381; for (i = 0; i < n; i++) hsh = hsh * 33 + (unsigned char)cbuf_get(cb)[i]; ju("h", hsh); jsn("tail", cbuf_get(cb) + n - 50, 50); }
    je();
}
/* cprintf and vcprintf in turn: the same text is expected of both */
static int bp(cbuf *cb, const char *fmt, ...)
{
    va_list ap; int r;
    va_start(ap, fmt); r = vcprintf(cb, fmt, ap); va_end(ap);
    return r;
}
#define BP(...) ((alt++ & 1) ? bp(__VA_ARGS__) : cprintf(__VA_ARGS__))
int op_buf(const char *op, struct args *a)
{
    int i = AI(0), r = 0;
    if (op[0] != 'b') return 0;
    if (!strcmp(op, "balloc")) { cbuf_alloc_set(AI(0), AI(1)); { size_t x, y; cbuf_alloc_get(&x, &y); jb(); js("op", op); ju("start", x); ju("thr", y); je(); } return 1; }
    if (!strcmp(op, "bnew")) { if (B[i]) cbuf_free(B[i]); B[i] = cbuf_new(); st(B[i]); return 1; }
    if (!strcmp(op, "bnewa")) { if (B[i]) cbuf_free(B[i]); B[i] = cbuf_new_alloc(AI(1)); st(B[i]); return 1; }
    if (!strcmp(op, "bfree")) { if (B[i]) cbuf_free(B[i]); B[i] = NULL; return 1; }
    if (!strcmp(op, "bprintf")) { r = BP(B[i], "%s", A(1)); jb(); js("op", op); ji("rc", r); je(); st(B[i]); return 1; }
    if (!strcmp(op, "bprintf2")) { r = BP(B[i], "<%d:%s:%*d>", (int)AI(1), A(2), (int)AI(3), 7); jb(); js("op", op); ji("rc", r); je(); st(B[i]); return 1; }
    if (!strcmp(op, "bstr")) { r = cbuf_append_str(B[i], A(1)); jb(); js("op", op); ji("rc", r); je(); st(B[i]); return 1; }
    if (!strcmp(op, "bchar")) { r = cbuf_append(B[i], AI(1)); jb(); js("op", op); ji("rc", r); je(); st(B[i]); return 1; }
    if (!strcmp(op, "bbuf")) { r = cbuf_append_buf(B[i], A(1), a->len[1]); jb(); js("op", op); ji("rc", r); je(); st(B[i]); return 1; }
    if (!strcmp(op, "brep")) { /* i char count mode: long appends */
        size_t n = AI(2), k; char *s = malloc(n + 1);
        for (k = 0; k < n; k++) s[k] = 'a' + (AI(1) + k) % 26;
        s[n] = 0;
        switch (AI(3)) {
        case 0: r = BP(B[i], "%s", s); break;
        case 1: r = cbuf_append_str(B[i], s); break;
        case 2: r = cbuf_append_buf(B[i], s, n); break;
        default: for (k = 0; k < n; k++) if (cbuf_append(B[i], s[k]) < 0) r = -1; break; }
        free(s);
        jb(); js("op", op); ji("rc", r); je(); st(B[i]);
        return 1;
    }
    if (!strcmp(op, "bhuge")) { /* i size: one append of more than 2 GiB of zeroes, first and last byte marked */
        size_t n = AI(1), l0 = cbuf_len(B[i]); char *s = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *g;
        if (s == MAP_FAILED) { jb(); js("op", op); ji("skip", 1); je(); return 1; }
        s[0] = 'A'; s[n - 1] = 'Z';
        r = cbuf_append_buf(B[i], s, n);
        munmap(s, n);
        g = cbuf_get(B[i]);
        jb(); js("op", op); ji("rc", r); ju("len", cbuf_len(B[i])); ju("cap", cbuf_buflen(B[i]));
        if (r == 0) { ji("a", g[l0]); ji("m", g[l0 + n / 2]); ji("z", g[l0 + n - 1]); ji("t", g[l0 + n]); }
        je();
        cbuf_free(B[i]); B[i] = NULL;
        return 1;
    }
    if (!strcmp(op, "btrunc")) { r = cbuf_trunc(B[i], AI(1)); jb(); js("op", op); ji("rc", r); je(); st(B[i]); return 1; }
    if (!strcmp(op, "breset")) { cbuf_reset(B[i]); st(B[i]); return 1; }
    return 0;
}
