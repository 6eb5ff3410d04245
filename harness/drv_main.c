#include "drv.h"
#include <sys/prctl.h>
FILE *LOG;
cligen_handle H[NH];
int cur = 0;
static int first;
int stdin_wr(void);
static int capfd = -1, errfd = -1;
int stdin_save = -1;
static int stdin_w = -1;
static off_t cap_off, err_off;

size_t __attribute__((weak)) __sanitizer_get_current_allocated_bytes(void);
size_t heap_bytes(void)
{
    return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
}
int fd_count(void)
{
    int i, n = 0;
    for (i = 0; i < 256; i++)
        if (fcntl(i, F_GETFD) >= 0)
            n++;
    return n;
}
static void jstr(const char *s, size_t n)
{
    size_t i;
    fputc('"', LOG);
    for (i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { fputc('\\', LOG); fputc(c, LOG); }
        else if (c < 32 || c >= 127) fprintf(LOG, "\\u%04x", c);
        else fputc(c, LOG);
    }
    fputc('"', LOG);
}
static void key(const char *k) { if (!first) fputc(',', LOG); first = 0; fprintf(LOG, "\"%s\":", k); }
void jb(void) { fputc('{', LOG); first = 1; }
void js(const char *k, const char *s) { key(k); if (s) jstr(s, strlen(s)); else fputs("null", LOG); }
void jsn(const char *k, const char *s, size_t n) { key(k); if (s) jstr(s, n); else fputs("null", LOG); }
void ji(const char *k, long long v) { key(k); fprintf(LOG, "%lld", v); }
void ju(const char *k, unsigned long long v) { key(k); fprintf(LOG, "%llu", v); }
void jraw(const char *k, const char *raw) { key(k); fputs(raw, LOG); }
void jb2(const char *k) { key(k); fputc('[', LOG); }
void je(void) { fputs("}\n", LOG); }
void jcvec(const char *k, cvec *cvv)
{
    cg_var *cv = NULL;
    int n = 0;
    char *s;
    key(k);
    if (cvv == NULL) { fputs("null", LOG); return; }
    fputc('[', LOG);
    while ((cv = cvec_each(cvv, cv)) != NULL) {
        if (n++) fputc(',', LOG);
        fputc('[', LOG);
        s = cv_name_get(cv);
        if (s) jstr(s, strlen(s)); else fputs("null", LOG);
        fprintf(LOG, ",\"%s\",%d,", cv_type2str(cv_type_get(cv)) ? cv_type2str(cv_type_get(cv)) : "?", cv_const_get(cv));
        s = cv2str_dup(cv);
        if (s) { jstr(s, strlen(s)); free(s); } else fputs("null", LOG);
        fputc(']', LOG);
    }
    fputc(']', LOG);
}
/* capture: fd 1 and 2 are files from start on; a capture is a slice */
void cap_start(void)
{
    fflush(stdout); fflush(stderr);
    if (ftruncate(capfd, 0) < 0 || lseek(capfd, 0, SEEK_SET) < 0) exit(99);
    if (ftruncate(errfd, 0) < 0 || lseek(errfd, 0, SEEK_SET) < 0) exit(99);
}
static char *slurp(int fd, size_t *n)
{
    struct stat st;
    char *b;
    fstat(fd, &st);
    b = malloc(st.st_size + 1);
    *n = pread(fd, b, st.st_size, 0);
    b[*n] = 0;
    return b;
}
char *cap_end(size_t *n) { fflush(stdout); return slurp(capfd, n); }
char *err_end(size_t *n) { fflush(stderr); return slurp(errfd, n); }
void feed_stdin(const char *buf, size_t n, int keepopen)
{
    int p[2];
    if (pipe(p) < 0) exit(99);
    fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
    if (write(p[1], buf, n) != (ssize_t)n) exit(99);
    dup2(p[0], 0);
    close(p[0]);
    if (keepopen) { stdin_w = p[1]; fcntl(stdin_w, F_SETFD, FD_CLOEXEC); }
    else close(p[1]);
}
int stdin_left(void)
{
    int n = 0;
    char b[4096];
    int fl = fcntl(0, F_GETFL);
    ssize_t r;
    fcntl(0, F_SETFL, fl | O_NONBLOCK);
    while ((r = read(0, b, sizeof b)) > 0) n += r;
    fcntl(0, F_SETFL, fl);
    return n;
}
int stdin_wr(void) { return stdin_w; }
void rest_stdin(void)
{
    if (stdin_w >= 0) { close(stdin_w); stdin_w = -1; }
    dup2(stdin_save, 0);
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void parse(char *line, struct args *a)
{
    char *t, *save = NULL;
    a->n = 0;
    for (t = strtok_r(line, " ", &save); t; t = strtok_r(NULL, " ", &save)) {
        char *o; size_t i, n;
        if (a->n >= MAXARG) exit(98);
        if (t[0] == '-' && t[1] == 0) { a->v[a->n] = NULL; a->len[a->n++] = 0; continue; }
        if (t[0] == '#') { a->v[a->n] = strdup(t + 1); a->len[a->n++] = strlen(t + 1); continue; }
        /* '=' hex */
        n = strlen(t + 1) / 2;
        o = malloc(n + 1);        /* exact size: overreads are visible */
        for (i = 0; i < n; i++) o[i] = hexv(t[1 + 2 * i]) << 4 | hexv(t[2 + 2 * i]);
        o[n] = 0;
        a->v[a->n] = o; a->len[a->n++] = n;
    }
}
static void reset_all(void)
{
    int i;
    tty_clean();
    cli_reset();
    for (i = 0; i < NH; i++)
        if (H[i]) { cligen_exit(H[i]); H[i] = NULL; }
    cvec_reset_all(); val_reset(); buf_reset_all(); fd_reset();
    cur = 0;
}
int main(int argc, char **argv)
{
    FILE *f;
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;
    struct args *a = calloc(1, sizeof *a);
    char tmpl[256];

    prctl(PR_SET_PDEATHSIG, SIGKILL); /* whoever runs this may be ended */
    if (argc < 4) { fprintf(stderr, "usage: drv script log scratchdir\n"); return 99; }
    if ((f = fopen(argv[1], "r")) == NULL) return 99;
    if ((LOG = fopen(argv[2], "w")) == NULL) return 99;
    fcntl(fileno(f), F_SETFD, FD_CLOEXEC);
    fcntl(fileno(LOG), F_SETFD, FD_CLOEXEC);
    stdin_save = fcntl(0, F_DUPFD_CLOEXEC, 50);
    /* keep sanitizer reports on the original stderr through log_path */
    snprintf(tmpl, sizeof tmpl, "%s/outXXXXXX", argv[3]);
    if ((capfd = mkstemp(tmpl)) < 0) return 99;
    unlink(tmpl);
    snprintf(tmpl, sizeof tmpl, "%s/errXXXXXX", argv[3]);
    if ((errfd = mkstemp(tmpl)) < 0) return 99; /* kept: sanitizer text may end there */
    fcntl(capfd, F_SETFL, O_RDWR | O_APPEND);
    fcntl(errfd, F_SETFL, O_RDWR | O_APPEND);
    dup2(capfd, 1); dup2(errfd, 2);
    fcntl(capfd, F_SETFD, FD_CLOEXEC); fcntl(errfd, F_SETFD, FD_CLOEXEC);
    setvbuf(LOG, NULL, _IOFBF, 1 << 16);
    setvbuf(stdout, NULL, _IOLBF, 1 << 12); /* as on a terminal */
    while ((n = getline(&line, &cap, f)) > 0) {
        char *op;
        int i, r;
        if (line[n - 1] == '\n') line[n - 1] = 0;
        op = line;
        char *sp = strchr(line, ' ');
        if (sp) { *sp = 0; parse(sp + 1, a); } else a->n = 0;
        if (op[0] == 0) continue;
        if (strcmp(op, "case") == 0) {
            reset_all();
            jb(); js("case", A(0)); je();
            fflush(LOG);
            if (a->n > 1) alarm(AI(1)); else alarm(120);
            r = 1;
        }
        else if (strcmp(op, "resetall") == 0) { reset_all(); r = 1; }
        else if (strcmp(op, "flush") == 0) { fflush(LOG); r = 1; }
        else if ((r = op_cli(op, a)) == 0 && (r = op_val(op, a)) == 0 && (r = op_cvec(op, a)) == 0 &&
            (r = op_buf(op, a)) == 0 && (r = op_misc(op, a)) == 0 && (r = op_fd(op, a)) == 0 && (r = op_tty(op, a)) == 0) {
            jb(); js("badop", op); je(); fflush(LOG);
            _exit(97);
        }
        for (i = 0; i < a->n; i++) free(a->v[i]);
    }
    alarm(60);
    reset_all();
    free(line); free(a); fclose(f);
    jb(); js("done", "1"); je();
    fclose(LOG);
    return 0;
}
