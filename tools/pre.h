/* Helpers of the demonstrations: load a specification, evaluate lines, capture what callbacks get and what is printed */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <arpa/inet.h>
#include <cligen/cligen.h>
static char LOGB[1 << 16];
static int FAILS;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "broken: %s (line %d)\n", #c, __LINE__); FAILS++; } } while (0)
static void lg(const char *s) { if (strlen(LOGB) + strlen(s) < sizeof LOGB - 1) strcat(LOGB, s); }
static void lgv(cg_var *cv)
{
    char *s = cv2str_dup(cv);
    if (cv_name_get(cv)) { lg(cv_name_get(cv)); lg("="); }
    lg(s ? s : "(null)"); lg(" "); free(s);
}
/* callback: fnname(arguments) values; */
static int CBRET;
static int cb(cligen_handle h, cvec *cvv, cvec *argv)
{
    cg_var *cv = NULL; int i;
    lg(cligen_fn_str_get(h) ? cligen_fn_str_get(h) : "?"); lg("(");
    for (i = 0; argv && i < cvec_len(argv); i++) lgv(cvec_i(argv, i));
    lg(") ");
    for (i = 0; i < cvec_len(cvv); i++) lgv(cvec_i(cvv, i));
    lg("; ");
    return CBRET;
}
static cgv_fnstype_t *s2f(char *n, void *a, char **e) { return cb; }
static const char *ALTS[16]; static int NALTS;
static int ex(cligen_handle h, char *fn, cvec *cvv, cvec *argv, cvec *cmds, cvec *helps)
{
    int i;
    for (i = 0; i < NALTS; i++) { cvec_add_string(cmds, NULL, (char *)ALTS[i]); cvec_add_string(helps, NULL, "help"); }
    return 0;
}
static expandv_cb *s2e(char *n, void *a, char **e) { return ex; }
static int bind_all(cligen_handle h)
{
    pt_head *ph = NULL; parse_tree *pt;
    while ((ph = cligen_ph_each(h, ph)) != NULL) {
        if ((pt = cligen_ph_parsetree_get(ph)) == NULL) continue;
        cligen_callbackv_str2fn(pt, s2f, NULL);
        cligen_expandv_str2fn(pt, s2e, NULL);
    }
    return 0;
}
static int load(cligen_handle h, const char *spec, const char *tree)
{
    char *s = strdup(spec); int r;
    int e = dup(2), n = open("/dev/null", O_WRONLY);
    dup2(n, 2); close(n);
    r = clispec_parse_str(h, s, "demo", (char *)tree, NULL, NULL);
    dup2(e, 2); close(e);
    free(s);
    bind_all(h);
    return r;
}
static cligen_handle mk(const char *spec)
{
    cligen_handle h = cligen_init();
    if (load(h, spec, "T") < 0) { fprintf(stderr, "specification refused\n"); exit(2); }
    cligen_ph_active_set_byname(h, "T");
    return h;
}
/* evaluate a line. Returns 0 if accepted (callbacks are in LOGB), else 100 + result; REASON holds the reason */
static char REASON[1024]; static int EVRET;
static int ev(cligen_handle h, const char *line)
{
    cg_obj *co = NULL; cvec *cvv = NULL; cligen_result res = CG_ERROR; char *reason = NULL, *l = strdup(line);
    parse_tree *pt = cligen_pt_active_get(h); int r;
    LOGB[0] = 0; REASON[0] = 0; EVRET = 0;
    if (pt == NULL) { free(l); return 99; }
    r = cliread_parse(h, l, pt, &co, &cvv, &res, &reason);
    if (reason) snprintf(REASON, sizeof REASON, "%s", reason);
    if (r == 0 && res == CG_MATCH) { EVRET = cligen_eval(h, co, cvv); r = 0; }
    else r = r < 0 ? -1 : 100 + res;
    if (cvv) cvec_free(cvv);
    if (co) co_free(co, 0);
    free(reason); free(l);
    return r;
}
#define OK(h, l) (ev(h, l) == 0)
/* capture standard output of what runs between the two */
static int cap_fd = -1; static char CAPT[] = "capXXXXXX"; static char *OUT;
static void cap_on(void)
{
    strcpy(CAPT, "capXXXXXX"); int f = mkstemp(CAPT);
    fflush(stdout); cap_fd = dup(1); dup2(f, 1); close(f);
}
static char *cap_off(void)
{
    int f; ssize_t n;
    fflush(stdout); dup2(cap_fd, 1); close(cap_fd);
    free(OUT); OUT = calloc(1, 1 << 20);
    f = open(CAPT, O_RDONLY); n = read(f, OUT, (1 << 20) - 1); close(f); unlink(CAPT);
    OUT[n > 0 ? n : 0] = 0;
    return OUT;
}
/* type keys (ending in newline) at the prompt; returns the line, the terminal output is in OUT */
static char LINE[8192];
static char *keys(cligen_handle h, const char *k)
{
    int p[2], s = dup(0); char *b = NULL; pid_t pid;
    if (pipe(p) < 0) exit(2);
    if ((pid = fork()) == 0) { size_t n = strlen(k), o = 0; close(p[0]); while (o < n) { ssize_t w = write(p[1], k + o, n - o); if (w <= 0) break; o += w; } _exit(0); }
    dup2(p[0], 0); close(p[0]); close(p[1]);
    cap_on();
    LINE[0] = 0;
    if (cliread(h, &b) == 0 && b) snprintf(LINE, sizeof LINE, "%s", b);
    cap_off();
    kill(pid, SIGKILL); waitpid(pid, NULL, 0);
    dup2(s, 0); close(s);
    return LINE;
}
static int count(const char *hay, const char *needle) { int n = 0; while ((hay = strstr(hay, needle))) { n++; hay += strlen(needle); } return n; }
/* what a terminal of w columns shows after the given output: rows joined by '|' (trailing blanks removed), cursor in CROW, CCOL */
static int CROW, CCOL;
static char *screen(const char *o, int w)
{
    static char g[200][400]; static char res[80000]; int r = 0, c = 0, i, n, maxr = 0;
    memset(g, 0, sizeof g);
    for (; *o; o++) {
        if (*o == '\n') { r++; c = 0; }
        else if (*o == '\r') c = 0;
        else if (*o == '\b') { if (c) c--; }
        else if (*o == 7) ;
        else if (*o == 27 && o[1] == '[') {
            n = strtol(o + 2, (char **)&o, 10);
            if (*o == 'A') r -= n ? n : 1; else if (*o == 'C') c += n ? n : 1; else if (*o == 'D') c -= n ? n : 1; else if (*o == 'B') r += n ? n : 1;
            if (r < 0) r = 0;
            if (c >= w) c = w - 1;
            if (c < 0) c = 0;
        }
        else { if (c >= w) { r++; c = 0; } if (r < 200 && c < 400) g[r][c] = *o; c++; }
        if (r > maxr) maxr = r;
    }
    res[0] = 0;
    for (i = 0; i <= maxr && i < 200; i++) {
        for (n = 399; n >= 0 && (g[i][n] == 0 || g[i][n] == ' '); n--) ;
        for (; n >= 0; n--) if (g[i][n] == 0) g[i][n] = ' ';
        if (i) strcat(res, "|");
        strcat(res, g[i]);
    }
    CROW = r; CCOL = c;
    return res;
}
#define END return FAILS != 0
