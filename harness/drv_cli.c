/* Grammar loading, matching, evaluation, help, completion, editing */
#include "drv.h"
extern int stdin_left(void);
extern void paging_reset(void);
/* every read of standard input by the library: how much output there was before it */
static int *marks, nmarks, mmarks, marking;
extern ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    if (fd == 0) fd_keyread();
    if (fd == 0 && marking) {
        struct stat st;
        if (nmarks == mmarks) marks = realloc(marks, sizeof(int) * (mmarks = 2 * mmarks + 64));
        fflush(stdout);
        marks[nmarks++] = fstat(1, &st) == 0 ? st.st_size : -1;
    }
    return __real_read(fd, b, n);
}
#define h (H[cur])
static char *pend;             /* text the application has printed itself, without newline */
static int cb_log = 1;
static void *wrap_probe;
/* table of run-time alternatives per expansion function name */
struct expent { char *name; cvec *cmds, *helps; int ret; struct expent *next; };
static struct expent *exps;
/* texts printed by "out*" callbacks: name -> list of chunks */
struct outent { char *name; cvec *chunks; struct outent *next; };
static struct outent *outs;

static const char *hname(cligen_handle hh)
{
    int i; static char b[8];
    for (i = 0; i < NH; i++) if (H[i] == hh) { snprintf(b, 8, "%d", i); return b; }
    return "?";
}
static int cb_generic(cligen_handle hh, cvec *cvv, cvec *argv)
{
    char *fn = cligen_fn_str_get(hh);
    if (cb_log) {
        jb(); js("cb", fn); js("h", hname(hh)); jcvec("cvv", cvv); jcvec("argv", argv); if (tty_on()) ji("tty", tty_same()); je();
    }
    if (fn && strncmp(fn, "failn", 5) == 0)
        return errno = EINTR, -100;
    if (fn && strncmp(fn, "fail", 4) == 0)
        return errno = EINTR, -1;
    if (fn && strncmp(fn, "pos", 3) == 0)
        return 7;
    if (fn && strncmp(fn, "stop", 4) == 0)
        cligen_exiting_set(hh, 1);
    if (fn && strncmp(fn, "mut", 3) == 0) { /* a callback that changes what it was given */
        cg_var *cv;
        if (argv && cvec_len(argv) && cv_type_get(cvec_i(argv, 0)) == CGV_STRING) cv_string_set(cvec_i(argv, 0), "MUTATED");
        if (argv && (cv = cvec_add(argv, CGV_STRING))) cv_string_set(cv, "EXTRA");
    }
    if (fn && strncmp(fn, "out", 3) == 0) {
        struct outent *o;
        cg_var *cv = NULL;
        int found = 0;
        if (strncmp(fn, "outr", 4) == 0) cli_output_reset();
        for (o = outs; o; o = o->next)
            if (strcmp(o->name, fn) == 0 && ++found)
                while ((cv = cvec_each(o->chunks, cv)) != NULL)
                    cligen_output(stdout, "%s", cv_string_get(cv));
        while (!found) {
            cv = NULL;
            while (argv && (cv = cvec_each(argv, cv)) != NULL)
                cligen_output(stdout, "%s\n", cv_isstring(cv_type_get(cv)) ? cv_string_get(cv) : "-");
            break;
        }
    }
    return 0;
}
/* output filter functions (run in a forked child) */
static int pipe_sh(cligen_handle hh, cvec *cvv, cvec *argv)
{
    cbuf *cb = cbuf_new();
    cg_var *av = NULL, *cv;
    int n = 0;
    while ((av = cvec_each(argv, av)) != NULL) {
        if (n++ == 0) cprintf(cb, "%s", cv_string_get(av));
        else if ((cv = cvec_find_var(cvv, cv_string_get(av))) != NULL) cprintf(cb, " %s", cv_string_get(cv));
    }
    execl("/bin/sh", "sh", "-c", cbuf_get(cb), (char *)NULL);
    return -1;
}
/* in-process filters, so that no exec is involved */
static int pipe_fn(cligen_handle hh, cvec *cvv, cvec *argv)
{
    char *mode = argv && cvec_len(argv) ? cv_string_get(cvec_i(argv, 0)) : "cat";
    char b[65536], *p;
    ssize_t n, i, tot = 0;
    unsigned long sum = 0;
    int col0 = 1;
    if (strcmp(mode, "early") == 0) _exit(0);
    if (strcmp(mode, "noread") == 0) { if (write(1, "noread\n", 7)); _exit(0); }
    if (strcmp(mode, "rc3") == 0) { while (read(0, b, sizeof b) > 0); _exit(3); }
    if (strcmp(mode, "head") == 0) { /* reads a little, then goes away */
        for (n = 0; n < 10 && (i = read(0, b + n, 10 - n)) > 0; n += i) ;
        if (n > 0 && write(1, b, n)); _exit(0);
    }
    if (strcmp(mode, "ret") == 0) { /* prints through stdio and returns */
        while ((n = read(0, b, sizeof b)) > 0) { fputc('[', stdout); fwrite(b, 1, n, stdout); fputc(']', stdout); tot += n; }
        return 0;
    }
    while ((n = read(0, b, sizeof b)) > 0) {
        tot += n;
        for (i = 0; i < n; i++) sum = sum * 31 + (unsigned char)b[i];
        if (strcmp(mode, "cat") == 0)
            for (p = b, i = n; i > 0; ) { ssize_t w = write(1, p, i); if (w <= 0) _exit(0); p += w; i -= w; }
        else if (strcmp(mode, "upper") == 0 || strcmp(mode, "zero") == 0) {
            if (*mode == 'z') { for (i = 0; i < n; i++) if (b[i] == 'a') b[i] = 0; }
            else for (i = 0; i < n; i++) if (b[i] >= 'a' && b[i] <= 'z') b[i] -= 32;
            for (p = b, i = n; i > 0; ) { ssize_t w = write(1, p, i); if (w <= 0) _exit(0); p += w; i -= w; }
        }
    }
    if (strcmp(mode, "count") == 0) { n = snprintf(b, sizeof b, "count %zd sum %lu\n", tot, sum); if (write(1, b, n)); }
    if (strcmp(mode, "linger") == 0) { /* says that it is done but stays */
        n = snprintf(b, sizeof b, "linger %zd\n", tot); if (write(1, b, n)); close(0); close(1); for (i = 0; i < 40; i++) sleep(1); _exit(5);
    }
    if (strcmp(mode, "nul") == 0) { if (write(1, "a\0b\nc\0\0", 7)); }
    if (strcmp(mode, "big") == 0) { for (i = 0; i < 3000; i++) { n = snprintf(b, sizeof b, "big line %zd\n", i); if (write(1, b, n) < 0) _exit(0);} }
    _exit(0);
}
static int cb_wrap(void *arg, void **wh, const char *name, const char *fn)
{
    if (*wh == NULL) { jb(); js("wrap", "pre"); js("name", name); je(); *wh = malloc(1); }
    else { jb(); js("wrap", "post"); js("name", name); je(); free(*wh); *wh = NULL; }
    return 1;
}
static cgv_fnstype_t *str2fn(char *name, void *arg, char **err)
{
    *err = NULL;
    if (strncmp(name, "wpset", 5) == 0) return cligen_wp_set;
    if (strncmp(name, "wpup", 4) == 0) return cligen_wp_up;
    if (strncmp(name, "wptop", 5) == 0) return cligen_wp_top;
    if (strncmp(name, "wpshow", 6) == 0) return cligen_wp_show;
    if (strncmp(name, "pipesh", 6) == 0) return pipe_sh;
    if (strncmp(name, "pipefn", 6) == 0) return pipe_fn;
    if (strncmp(name, "unres", 5) == 0) { *err = "unresolved"; return NULL; }
    if (strncmp(name, "nofn", 4) == 0) { return NULL; }
    return cb_generic;
}
static cvec *gvec;
static int exp_generic(cligen_handle hh, char *name, cvec *cvv, cvec *argv, cvec *commands, cvec *helps)
{
    struct expent *e;
    cg_var *cv;
    int ret = 0;
    if (cb_log) { jb(); js("exp", name); jcvec("cvv", cvv); jcvec("argv", argv); if (h && cligen_co_match(h)) { js("mat", cligen_co_match(h)->co_command); jcvec("mlab", cligen_co_match(h)->co_cvec); } je(); }
    char nm[256];
    cv = cvec_i(argv, 0);
    snprintf(nm, sizeof nm, "%s|%s", name, cv && cv_type_get(cv) == CGV_STRING && cv_string_get(cv) ? cv_string_get(cv) : "");
    for (e = exps; e; e = e->next)
        if (strcmp(e->name, strncmp(name, "exs", 3) == 0 ? nm : name) == 0) {
            ret = e->ret;
            cv = NULL;
            while ((cv = cvec_each(e->cmds, cv)) != NULL) cvec_add_string(commands, NULL, cv_string_get(cv));
            cv = NULL;
            while ((cv = cvec_each(e->helps, cv)) != NULL) cvec_add_string(helps, NULL, cv_string_get(cv));
        }
    return ret;
}
static expandv_cb *str2exp(char *name, void *arg, char **err)
{
    *err = NULL;
    if (strncmp(name, "noexp", 5) == 0) return NULL;
    return exp_generic;
}
static int tr_upper(cligen_handle hh, cg_var *cv)
{
    char *s = cv_string_get(cv), *p;
    for (p = s; p && *p; p++) if (*p >= 'a' && *p <= 'z') *p -= 32;
    return 0;
}
static int tr_fail(cligen_handle hh, cg_var *cv) { return -1; }
static int tr_inc(cligen_handle hh, cg_var *cv) { cv_int32_set(cv, (int32_t)((uint32_t)cv_int32_get(cv) + 1)); return 0; }
static int tr_app(cligen_handle hh, cg_var *cv)
{
    char b[2000], *s = cv_string_get(cv);
    snprintf(b, sizeof b, "%s+", s ? s : "");
    return cv_string_set(cv, b) ? 0 : -1;
}
static translate_cb_t *str2tr(char *name, void *arg, char **err)
{
    *err = NULL;
    if (strcmp(name, "tr_fail") == 0) return tr_fail;
    if (strcmp(name, "tr_inc") == 0) return tr_inc;
    if (strcmp(name, "tr_app") == 0) return tr_app;
    return tr_upper;
}
static int hist_cb(cligen_handle hh, char *cmd, void *arg) { jb(); js("hist", cmd); js("h", hname(hh)); je(); return 0; }
static int resolve_cb(cligen_handle hh, char *name, cvec *cvt, void *arg, char **namep)
{
    char b[256];
    jb(); js("resolve", name); jcvec("cvt", cvt); je();
    snprintf(b, sizeof b, "%s%s", name, arg ? (char *)arg : "");
    if (cligen_ph_find(hh, b)) *namep = strdup(b); else *namep = strdup(name);
    return 0;
}
static int susp_cb(void *hh, char *s, int x, int *y) { return 0; }
static int intr_cb(cligen_handle hh) { return 0; }

static void map_all(void)
{
    pt_head *ph = NULL;
    parse_tree *pt;
    while ((ph = cligen_ph_each(h, ph)) != NULL)
        if ((pt = cligen_ph_parsetree_get(ph)) != NULL) {
            cligen_callbackv_str2fn(pt, str2fn, NULL);
            cligen_expandv_str2fn(pt, str2exp, NULL);
            cligen_translate_str2fn(pt, str2tr, NULL);
        }
}
static int ordered; /* the order of commands has been set: one per program */
void cli_reset(void)
{
    if (ordered) {
        cligen_handle t = cligen_init();
        cligen_lexicalorder_set(t, 0); cligen_ignorecase_set(t, 0); cligen_exit(t);
        ordered = 0;
    }
    struct expent *e; struct outent *o;
    while ((e = exps)) { exps = e->next; free(e->name); cvec_free(e->cmds); cvec_free(e->helps); free(e); }
    while ((o = outs)) { outs = o->next; free(o->name); cvec_free(o->chunks); free(o); }
    cb_log = 1; if (gvec) cvec_free(gvec); gvec = NULL;
    free(pend); pend = NULL;
    rest_stdin();
    gl_setscrolling(1); gl_setwidth(80);
    cli_output_reset();
    paging_reset();
}
static const char *tynam(cg_obj *co)
{
    return co->co_type == CO_COMMAND ? "cmd" : co->co_type == CO_VARIABLE ? "var" : co->co_type == CO_REFERENCE ? "ref" : "?";
}
static char *pt2str(parse_tree *pt, int brief)
{
    char *b = NULL; size_t n = 0;
    FILE *f = open_memstream(&b, &n);
    pt_print1(f, pt, brief);
    fclose(f);
    return b;
}
static parse_tree *tree_by(const char *name)
{
    pt_head *ph = cligen_ph_find(h, (char *)name);
    return ph ? cligen_ph_parsetree_get(ph) : NULL;
}
static void names_of(FILE *f, parse_tree *pt, int depth)
{
    int i, k = 0; cg_obj *co;
    if (depth > 50) return;
    for (i = 0; i < pt_len_get(pt); i++)
        if ((co = pt_vec_i_get(pt, i)) != NULL && co->co_type == CO_COMMAND) fprintf(f, "%s%s", k++ ? " " : "", co->co_command);
    if (k) fprintf(f, "\n");
    for (i = 0; i < pt_len_get(pt); i++)
        if ((co = pt_vec_i_get(pt, i)) != NULL && co_pt_get(co)) names_of(f, co_pt_get(co), depth + 1);
}
/* order and duplicate monitor: walks the tree, reports anomalies */
static int walk_mon(parse_tree *pt, cg_obj *parent, int depth, int *nodes, int *badorder, int *badparent)
{
    int i, n = pt_len_get(pt);
    cg_obj *co, *prev = NULL;
    if (depth > 200) return 0;
    for (i = 0; i < n; i++) {
        if ((co = pt_vec_i_get(pt, i)) == NULL) continue;
        (*nodes)++;
        if (co_up(co) != parent) (*badparent)++;
        if (prev && co_eq(prev, co) > 0) (*badorder)++;
        if (prev && co_eq(prev, co) == 0) (*badorder) += 1000;
        prev = co;
        if (co_pt_get(co)) walk_mon(co_pt_get(co), co, depth + 1, nodes, badorder, badparent);
    }
    return 0;
}
static void prefix_walk(parse_tree *pt, char *w, char *p, int *n, int *bad, int depth)
{
    int i;
    cg_obj *co;
    for (i = 0; depth < 100 && i < pt_len_get(pt); i++) {
        if ((co = pt_vec_i_get(pt, i)) == NULL) continue;
        if (co->co_command && strcmp(co->co_command, w) == 0) {
            if (co_prefix_set(co, p) < 0) (*bad)++;
            if ((p == NULL) != (co_prefix_get(co) == NULL) || (p && strcmp(p, co_prefix_get(co)))) (*bad)++;
            (*n)++;
        }
        if (co_pt_get(co)) prefix_walk(co_pt_get(co), w, p, n, bad, depth + 1);
    }
}
static int rwrap_fn(cligen_handle hh, char *name, cvec *cvt, void *arg, char **namep)
{
    char **m = arg;
    (void)hh; jb(); js("resolve", name); jcvec("cvt", cvt); je();
    if (strcmp(name, m[0])) return 0;
    return (*namep = strdup(m[1])) ? 1 : -1;
}
static int flagcount(cg_obj *co, void *arg)
{
    if (co_flags_get(co, CO_FLAGS_MATCH) || co_flags_get(co, CO_FLAGS_MARK)) (*(int *)arg)++;
    return 0;
}
static void log_result(int rc, cligen_result result, char *reason, cg_obj *co, cvec *cvv)
{
    ji("rc", rc); ji("res", result); js("reason", reason);
    if (result == CG_MATCH && co) { js("co", co->co_command); js("coty", tynam(co)); jcvec("lab", co->co_cvec); js("help", co->co_helpstring); if (co_prefix_get(co)) js("pfx", co_prefix_get(co)); }
    jcvec("cvv", cvv);
}
static int rd_fd = -1, rd_each, rd_n, rdat[4096], nrd;
static int rd_cb(int fd, void *arg)
{
    if (rd_each && ++rd_n % rd_each == 0 && nrd < 4096) {
        rdat[nrd++] = nmarks;
        printf("\r\n*** message %d ***", nrd); fflush(stdout);
        cligen_redraw((cligen_handle)arg);
    }
    return 0;
}
int op_cli(const char *op, struct args *a)
{
    if (!strcmp(op, "new")) {
        cur = AI(0);
        h = cligen_init();
        jb(); js("op", op); ji("ok", h != NULL); je();
        if (!tty_on()) cligen_terminal_width_set(h, 80);
        return 1;
    }
    if (!strcmp(op, "mark")) { jb(); js("op", op); js("t", A(0)); je(); return 1; }
    if (!strcmp(op, "use")) { cur = AI(0); return 1; }
    if (!strcmp(op, "exit")) { int r; cur = AI(0); r = cligen_exit(h); h = NULL; jb(); js("op", op); ji("rc", r); je(); return 1; }
    if (!strcmp(op, "cblog")) { cb_log = AI(0); return 1; }
    if (!strcmp(op, "load")) { /* spec treename globals? */
        cvec *g = cvec_new(0);
        int r;
        size_t n; char *e;
        cap_start();
        errno = 0;
        r = clispec_parse_str(h, A(0), "spec", A(1), NULL, g);
        e = err_end(&n);
        if (r == 0 && !(A(2) && A(2)[0] == 'n')) map_all();
        jb(); js("op", op); ji("rc", r); jcvec("g", g); jsn("err", e, n > 400 ? 400 : n); je();
        free(e); cvec_free(g);
        return 1;
    }
    if (!strcmp(op, "loadfile")) { /* text through the FILE interface */
        cvec *g = cvec_new(0);
        FILE *f = fmemopen(a->len[0] ? A(0) : "\n", a->len[0] ? a->len[0] : 1, "r");
        int r; size_t n; char *e;
        cap_start();
        r = clispec_parse_file(h, f, "file", A(1), NULL, g);
        fclose(f);
        e = err_end(&n);
        if (r == 0) map_all();
        jb(); js("op", op); ji("rc", r); jcvec("g", g); jsn("err", e, n > 400 ? 400 : n); je();
        free(e); cvec_free(g);
        return 1;
    }
    if (!strcmp(op, "loadinto")) { /* spec tree: adds to a loaded tree */
        parse_tree *pt = tree_by(A(1));
        int r = -9; size_t n; char *e;
        cap_start();
        if (pt) r = clispec_parse_str(h, A(0), "more", A(1), pt, NULL);
        if (r == 0) map_all();
        e = err_end(&n);
        jb(); js("op", op); ji("rc", r); jsn("err", e, n > 400 ? 400 : n); je();
        free(e);
        return 1;
    }
    if (!strcmp(op, "gvec")) { /* a vector for globals that lives over several loads; 1: start anew */
        if (gvec) cvec_free(gvec);
        gvec = AI(0) ? cvec_new(0) : NULL;
        return 1;
    }
    if (!strcmp(op, "gload")) { /* spec tree file? keyword? */
        int r; size_t n; char *e;
        cap_start();
        if (A(2) && A(2)[0] == 'f') {
            FILE *f = fmemopen(A(0), a->len[0], "r");
            r = clispec_parse_file(h, f, "file", A(1), NULL, gvec);
            fclose(f);
        }
        else r = clispec_parse_str(h, A(0), "spec", A(1), NULL, gvec);
        e = err_end(&n);
        if (r == 0) map_all();
        jb(); js("op", op); ji("rc", r); jcvec("g", gvec); jsn("err", e, n > 400 ? 400 : n); je();
        free(e);
        return 1;
    }
    if (!strcmp(op, "prefix")) { /* tree word prefix: an application marks nodes */
        parse_tree *pt = tree_by(A(0));
        char *w[2]; int n = 0, bad = 0;
        w[0] = A(1); w[1] = A(2);
        if (pt) prefix_walk(pt, w[0], w[1], &n, &bad, 0);
        jb(); js("op", op); ji("n", n); ji("bad", bad); je();
        return 1;
    }
    if (!strcmp(op, "tkw")) { int r = cligen_treename_keyword_set(h, A(0)); jb(); js("op", op); ji("rc", r); js("v", cligen_treename_keyword(h)); je(); return 1; }
    if (!strcmp(op, "loadnoglob")) {
        int r; cap_start();
        r = clispec_parse_str(h, A(0), "spec", A(1), NULL, NULL);
        if (r == 0) map_all();
        jb(); js("op", op); ji("rc", r); je();
        return 1;
    }
    if (!strcmp(op, "map")) { map_all(); return 1; }
    if (!strcmp(op, "active")) { int r = cligen_ph_active_set_byname(h, A(0)); jb(); js("op", op); ji("rc", r); je(); return 1; }
    if (!strcmp(op, "activeget")) { pt_head *ph = cligen_pt_head_active_get(h); jb(); js("op", op); js("name", ph ? cligen_ph_name_get(ph) : NULL); je(); return 1; }
    if (!strcmp(op, "trees")) {
        pt_head *ph = NULL; int n = 0;
        jb(); js("op", op);
        while ((ph = cligen_ph_each(h, ph)) != NULL) { char k[16]; snprintf(k, 16, "t%d", n); js(k, cligen_ph_name_get(ph)); 
            if (cligen_ph_i(h, n) != ph) ji("badidx", n);
            n++; }
        ji("n", n);
        je(); return 1;
    }
    if (!strcmp(op, "phset")) { /* tree, 0 prompt / 1 pipe, text or nothing */
        pt_head *ph = cligen_ph_find(h, A(0));
        int r = ph == NULL ? -2 : AI(1) ? cligen_ph_pipe_set(ph, A(2)) : cligen_ph_prompt_set(ph, A(2));
        jb(); js("op", op); ji("rc", r); je(); return 1;
    }
    if (!strcmp(op, "phget")) { /* every tree: prompt and pipe; active tree */
        pt_head *ph = NULL; int n = 0;
        jb(); js("op", op);
        while ((ph = cligen_ph_each(h, ph)) != NULL) {
            char k[32];
            snprintf(k, 32, "n%d", n); js(k, cligen_ph_name_get(ph));
            snprintf(k, 32, "p%d", n); js(k, cligen_ph_prompt_get(ph));
            snprintf(k, 32, "o%d", n); js(k, cligen_ph_pipe_get(ph));
            n++;
        }
        js("act", cligen_ph_active_get(h) ? cligen_ph_name_get(cligen_ph_active_get(h)) : NULL);
        je(); return 1;
    }
    if (!strcmp(op, "opt")) {
        long v = AI(1); int r = 0;
        char *k = A(0);
        if (!strcmp(k, "caseignore")) r = cligen_caseignore_set(h, v);
        else if (!strcmp(k, "preference_mode")) r = cligen_preference_mode_set(h, v);
        else if (!strcmp(k, "exclude_keys")) r = cligen_exclude_keys_set(h, v);
        else if (!strcmp(k, "expand_first")) r = cligen_expand_first_set(h, v);
        else if (!strcmp(k, "tabmode")) r = cligen_tabmode_set(h, v);
        else if (!strcmp(k, "comment")) r = cligen_comment_set(h, v);
        else if (!strcmp(k, "delimiter")) r = cligen_delimiter_set(h, v);
        else if (!strcmp(k, "lexicalorder")) ordered = 1, r = cligen_lexicalorder_set(h, v);
        else if (!strcmp(k, "ignorecase")) ordered = 1, r = cligen_ignorecase_set(h, v);
        else if (!strcmp(k, "regex_xsd")) r = cligen_regex_xsd_set(h, v);
        else if (!strcmp(k, "width")) r = cligen_terminal_width_set(h, v);
        else if (!strcmp(k, "rows")) r = cligen_terminal_rows_set(h, v);
        else if (!strcmp(k, "paging")) r = cligen_paging_set(h, v);
        else if (!strcmp(k, "scrolling")) r = cligen_line_scrolling_set(h, v);
        else if (!strcmp(k, "utf8")) r = cligen_utf8_set(h, v);
        else if (!strcmp(k, "helptrunc")) r = cligen_helpstring_truncate_set(h, v);
        else if (!strcmp(k, "helplines")) r = cligen_helpstring_lines_set(h, v);
        else if (!strcmp(k, "logsyntax")) r = cligen_logsyntax_set(h, v);
        else if (!strcmp(k, "prompt")) r = cligen_prompt_set(h, A(2));
        else if (!strcmp(k, "treekw")) r = cligen_treename_keyword_set(h, A(2));
        else if (!strcmp(k, "exiting")) r = cligen_exiting_set(h, v);
        else if (!strcmp(k, "wrap")) r = cligen_eval_wrap_fn_set(h, v ? cb_wrap : NULL, NULL);
        else if (!strcmp(k, "histfn")) r = cligen_hist_fn_set(h, v ? hist_cb : NULL, NULL);
        else if (!strcmp(k, "resolve")) r = cligen_tree_resolve_wrapper_set(h, v ? resolve_cb : NULL, v ? "_x" : NULL);
        else if (!strcmp(k, "fnstr")) r = cligen_fn_str_set(h, A(2));
        else if (!strcmp(k, "userhandle")) r = cligen_userhandle_set(h, v ? (void *)h : NULL);
        else return 0;
        jb(); js("op", op); ji("rc", r); je();
        return 1;
    }
    if (!strcmp(op, "optget")) {
        char cc[2] = {0, 0}, dd[2] = {0, 0};
        cc[0] = cligen_comment(h); dd[0] = cligen_delimiter(h);
        jb(); js("op", op);
        ji("caseignore", cligen_caseignore_get(h)); ji("preference_mode", cligen_preference_mode(h));
        ji("exclude_keys", cligen_exclude_keys_get(h)); ji("expand_first", cligen_expand_first_get(h));
        ji("tabmode", cligen_tabmode(h)); ji("comment", (unsigned char)cc[0]); ji("delimiter", (unsigned char)dd[0]);
        ji("lexicalorder", cligen_lexicalorder(h)); ji("ignorecase", cligen_ignorecase(h));
        ji("regex_xsd", cligen_regex_xsd(h)); ji("width", cligen_terminal_width(h)); ji("rows", cligen_terminal_rows(h));
        ji("paging", cligen_paging_get(h)); ji("scrolling", cligen_line_scrolling(h)); ji("utf8", cligen_utf8_get(h));
        ji("helptrunc", cligen_helpstring_truncate(h)); ji("helplines", cligen_helpstring_lines(h));
        ji("logsyntax", cligen_logsyntax(h)); js("prompt", cligen_prompt(h)); js("treekw", cligen_treename_keyword(h));
        js("fnstr", cligen_fn_str_get(h));
        ji("exiting", cligen_exiting(h)); ji("check", cligen_check(h));
        {
            cligen_hist_fn *hf; void *ha; cligen_eval_wrap_fn *wf; void *wa; cligen_tree_resolve_wrapper_fn *rf; void *ra;
            cligen_hist_fn_get(h, &hf, &ha); cligen_eval_wrap_fn_get(h, &wf, &wa); cligen_tree_resolve_wrapper_get(h, &rf, &ra);
            ji("histfn", hf != NULL); ji("wrap", wf != NULL); ji("resolve", rf != NULL); ji("userhandle", cligen_userhandle(h) != NULL);
        }
        je();
        return 1;
    }
    if (!strcmp(op, "parse") || !strcmp(op, "eval")) { /* line */
        char *s = A(0) ? strdup(A(0)) : NULL;
        cg_obj *co = NULL; cvec *cvv = NULL;
        cligen_result result = -9; char *reason = NULL;
        parse_tree *pt = cligen_pt_active_get(h);
        int r, er = 0; size_t n, en; char *o, *e;
        if (pt == NULL) { jb(); js("op", op); ji("nopt", 1); je(); free(s); return 1; }
        cap_start();
        r = cliread_parse(h, s, pt, &co, &cvv, &result, &reason);
        if (r == 0 && result == CG_MATCH && op[0] == 'e') {
            jb(); js("begin", "eval"); je();
            if (pend) { printf("%s", pend); free(pend); pend = NULL; }
            er = cligen_eval(h, co, cvv);
        }
        o = cap_end(&n); e = err_end(&en);
        jb(); js("op", op); log_result(r, result, reason, co, cvv);
        if (op[0] == 'e') { ji("er", er); jsn("out", o, n); }
        jsn("err", e, en > 500 ? 500 : en);
        je();
        free(o); free(e); free(s); free(reason);
        if (co) co_free(co, 0);
        if (cvv) cvec_free(cvv);
        return 1;
    }
    if (!strcmp(op, "help")) {
        int r; size_t n; char *o;
        cap_start();
        r = gl_qmark_hook(h, A(0));
        o = cap_end(&n);
        jb(); js("op", op); ji("rc", r); jsn("out", o, n); je();
        free(o);
        return 1;
    }
    if (!strcmp(op, "treehelp")) { /* the commands of a whole tree */
        int r; char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n);
        r = cligen_help(h, f, A(0) ? tree_by(A(0)) : cligen_pt_active_get(h));
        fclose(f);
        jb(); js("op", op); ji("rc", r); jsn("out", b, n); je();
        free(b);
        return 1;
    }
    if (!strcmp(op, "keys")) { /* keystrokes -> gl_getline; args: keys, maxlines, raw(0)/cliread(1) */
        char *buf; int r = 0, k = 0, left; size_t n, en; char *o, *e;
        int maxl = a->n > 1 ? AI(1) : 1, mode = a->n > 2 ? AI(2) : 0;
        cap_start();
        feed_stdin(A(0), a->len[0], 0);
        char *lb = NULL; size_t ln = 0; FILE *lf = open_memstream(&lb, &ln);
        fputc('[', lf);
        nmarks = 0; marking = a->n > 3 && AI(3);
        for (k = 0; k < maxl; k++) {
            buf = NULL;
            r = mode ? cliread(h, &buf) : gl_getline(h, &buf);
            if (r < 0 || gl_eof() || buf == NULL) break;
            fprintf(lf, "%s", k ? "," : "");
            { char *p = buf; fputc('"', lf); for (; *p; p++) fprintf(lf, "\\u%04x", (unsigned char)*p); fputc('"', lf); }
        }
        fputc(']', lf); fclose(lf); marking = 0;
        jb(); js("op", op); jraw("lines", lb); free(lb);
        ji("eof", gl_eof()); ji("rc", r); ji("n", k);
        left = stdin_left();
        ji("left", left);
        rest_stdin();
        o = cap_end(&n); e = err_end(&en);
        jsn("out", o, n); jsn("err", e, en > 500 ? 500 : en);
        if (a->n > 3 && AI(3)) { jb2("marks"); for (k = 0; k < nmarks; k++) fprintf(LOG, "%s%d", k ? "," : "", marks[k]); fprintf(LOG, "]"); }
        if (nrd) { jb2("redrawn"); for (k = 0; k < nrd; k++) fprintf(LOG, "%s%d", k ? "," : "", rdat[k]); fprintf(LOG, "]"); nrd = 0; }
        je();
        free(o); free(e);
        return 1;
    }
    if (!strcmp(op, "redraw")) { /* every k:th time a key is waited for a registered descriptor prints a message and shows the line again; 0: no more */
        rd_each = AI(0); rd_n = 0; nrd = 0;
        if (rd_each && rd_fd < 0) { rd_fd = open("/dev/zero", O_RDONLY); cligen_regfd(rd_fd, rd_cb, h); }
        if (!rd_each && rd_fd >= 0) { cligen_unregfd(rd_fd); close(rd_fd); rd_fd = -1; }
        jb(); js("op", op); je();
        return 1;
    }
    if (!strcmp(op, "readeval")) { /* keystrokes -> cliread_eval until end of input, an error or exit; one record per line */
        int r, n = 0, er, left; size_t k, en; char *o, *e;
        feed_stdin(A(0), a->len[0], 0);
        cligen_exiting_set(h, 0);
        while (!cligen_exiting(h) && n++ < 1000) {
            char *line = NULL, *reason = NULL; cligen_result result = -9;
            er = -77;
            cap_start();
            r = cliread_eval(h, &line, &er, &result, &reason);
            o = cap_end(&k); e = err_end(&en);
            jb(); js("op", "read1"); ji("rc", r); ji("res", result); ji("er", er); js("reason", reason);
            if (r == 0 && result != CG_EOF) js("line", line);
            jsn("out", o, k > 4000 ? 4000 : k); jsn("err", e, en > 500 ? 500 : en); je();
            free(o); free(e); free(reason);
            if (r < 0 || result == CG_EOF) break;
        }
        left = stdin_left(); rest_stdin();
        jb(); js("op", op); ji("n", n); ji("left", left); ji("exiting", cligen_exiting(h)); je();
        return 1;
    }
    if (!strcmp(op, "loop")) { /* run cligen_loop on keystrokes until eof */
        int r; size_t n, en; char *o, *e;
        cap_start();
        feed_stdin(A(0), a->len[0], 0);
        cligen_exiting_set(h, 0);
        r = cligen_loop(h);
        int left = stdin_left();
        rest_stdin();
        o = cap_end(&n); e = err_end(&en);
        jb(); js("op", op); ji("rc", r); ji("left", left); ji("exiting", cligen_exiting(h)); jsn("out", o, n); jsn("err", e, en > 4000 ? 4000 : en); je();
        free(o); free(e);
        return 1;
    }
    if (!strcmp(op, "print")) { /* treename brief */
        parse_tree *pt = A(0) ? tree_by(A(0)) : cligen_pt_active_get(h);
        char *s = pt ? pt2str(pt, AI(1)) : NULL;
        jb(); js("op", op); js("text", s); je();
        free(s);
        return 1;
    }
    if (!strcmp(op, "reprint")) { /* to: prints every tree of this handle and loads the texts in handle A(0) under the same names, printing again */
        int to = AI(0), from = cur; pt_head *ph = NULL;
        while ((ph = cligen_ph_each(h, ph)) != NULL) {
            parse_tree *pt = cligen_ph_parsetree_get(ph);
            char *name = cligen_ph_name_get(ph), *s = pt ? pt2str(pt, 0) : NULL, *s2 = NULL, *b = NULL, *e;
            size_t n = 0, en; int r = -2;
            FILE *f = open_memstream(&b, &n);
            if (pt) pt_print1(f, pt, 0);
            fclose(f);
            cap_start();
            if (s) {
                cur = to;
                if (AI(1)) { /* through the FILE interface */
                    FILE *pf = fmemopen(s, *s ? strlen(s) : 1, "r");
                    r = clispec_parse_file(h, pf, "printed", name, NULL, NULL);
                    fclose(pf);
                }
                else r = clispec_parse_str(h, s, "printed", name, NULL, NULL);
                if (r == 0) map_all();
                if (tree_by(name)) s2 = pt2str(tree_by(name), 0);
                cur = from;
            }
            e = err_end(&en);
            jb(); js("op", op); js("tree", name); ji("rc", r); js("text", s); js("again", s2); ji("same", s && !strcmp(s, b)); jsn("err", e, en > 300 ? 300 : en); je();
            free(s); free(s2); free(b); free(e);
        }
        return 1;
    }
    if (!strcmp(op, "printtrees")) {
        char *b = NULL; size_t n = 0;
        FILE *f = open_memstream(&b, &n);
        int r = cligen_print_trees(f, h, AI(0));
        fclose(f);
        jb(); js("op", op); ji("rc", r); js("text", b); je(); free(b);
        return 1;
    }
    if (!strcmp(op, "dump")) {
        parse_tree *pt = A(0) ? tree_by(A(0)) : cligen_pt_active_get(h);
        char *b = NULL; size_t n = 0; uint64_t nr = 0; size_t sz = 0;
        FILE *f = open_memstream(&b, &n);
        if (pt) { pt_dump(f, pt); pt_stats(pt, &nr, &sz); }
        fclose(f); free(b);
        jb(); js("op", op); ju("nr", nr); ju("sz", sz); je();
        return 1;
    }
    if (!strcmp(op, "rwrap")) { /* references to tree A(0) resolve to tree A(1) */
        static char *m[2];
        int k; for (k = 0; k < 2; k++) { free(m[k]); m[k] = strdup(A(k)); }
        jb(); js("op", op); ji("rc", cligen_tree_resolve_wrapper_set(h, rwrap_fn, m)); je();
        return 1;
    }
    if (!strcmp(op, "names")) { /* the commands of each node of a tree, in their order */
        char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n);
        if (tree_by(A(0))) names_of(f, tree_by(A(0)), 0);
        fclose(f); jb(); js("op", op); js("text", b); je(); free(b);
        return 1;
    }
    if (!strcmp(op, "mon")) { /* structural monitor over every tree */
        pt_head *ph = NULL; parse_tree *pt;
        int nodes = 0, bo = 0, bp = 0, fl = 0, one = 0; uint64_t nr = 0; size_t sz;
        if (A(0) && (pt = tree_by(A(0))) != NULL) { int x = 0; walk_mon(pt, NULL, 0, &one, &x, &x); }
        while ((ph = cligen_ph_each(h, ph)) != NULL)
            if ((pt = cligen_ph_parsetree_get(ph)) != NULL) {
                walk_mon(pt, NULL, 0, &nodes, &bo, &bp);
                pt_apply(pt, flagcount, INT32_MAX, &fl);
                sz = 0; pt_stats(pt, &nr, &sz);
            }
        jb(); js("op", op); ji("nodes", nodes); ji("one", one); ji("badorder", bo); ji("badparent", bp); ji("flags", fl); ju("statnr", nr); je();
        return 1;
    }
    if (!strcmp(op, "stats")) {
        uint64_t c = 0, n = 0;
        co_stats_global(&c, &n);
        jb(); js("op", op); ju("created", c); ju("nr", n); ju("heap", heap_bytes()); ji("fds", fd_count());
        { int st; pid_t p = waitpid(-1, &st, WNOHANG); ji("child", p > 0 ? 1 : p == 0 ? 2 : 0); }
        je();
        return 1;
    }
    if (!strcmp(op, "expset") || !strcmp(op, "expsetesc")) { /* name ret n cmds.. helps.. */
        struct expent *e;
        int i, n = AI(2);
        for (e = exps; e; e = e->next) if (!strcmp(e->name, A(0))) break;
        if (!e) { e = calloc(1, sizeof *e); e->name = strdup(A(0)); e->next = exps; exps = e; }
        else { cvec_free(e->cmds); cvec_free(e->helps); }
        e->cmds = cvec_new(0); e->helps = cvec_new(0); e->ret = AI(1);
        for (i = 0; i < n; i++) {
            char *x = NULL;
            if (op[6] && cligen_escape_need(A(3 + i)) == 1) x = cligen_escape_do(A(3 + i));
            cvec_add_string(e->cmds, NULL, x ? x : A(3 + i));
            free(x);
        }
        for (i = 3 + n; i < a->n; i++) cvec_add_string(e->helps, NULL, A(i));
        return 1;
    }
    if (!strcmp(op, "pend")) { free(pend); pend = strdup(A(0)); return 1; }
    if (!strcmp(op, "outset")) { /* name chunk... */
        struct outent *o; int i;
        for (o = outs; o; o = o->next) if (!strcmp(o->name, A(0))) break;
        if (!o) { o = calloc(1, sizeof *o); o->name = strdup(A(0)); o->next = outs; outs = o; }
        else cvec_free(o->chunks);
        o->chunks = cvec_new(0);
        for (i = 1; i < a->n; i++) cvec_add_string(o->chunks, NULL, A(i));
        return 1;
    }
    if (!strcmp(op, "outrep")) { /* name lines seed: many numbered lines */
        struct outent *o; int i, n = AI(1), w = AI(2); char b[512];
        for (o = outs; o; o = o->next) if (!strcmp(o->name, A(0))) break;
        if (!o) { o = calloc(1, sizeof *o); o->name = strdup(A(0)); o->next = outs; outs = o; }
        else cvec_free(o->chunks);
        o->chunks = cvec_new(0);
        for (i = 0; i < n; i++) {
            int k = snprintf(b, sizeof b, "line %d ", i);
            while (k < w && k < 500) { b[k] = 'a' + (i + k) % 26; k++; }
            b[k++] = '\n'; b[k] = 0;
            cvec_add_string(o->chunks, NULL, b);
        }
        return 1;
    }
    if (!strcmp(op, "merge")) { /* dst src : merge tree src into tree dst */
        parse_tree *p0 = tree_by(A(0)), *p1 = tree_by(A(1));
        int r = -9;
        if (p0 && p1) r = cligen_parsetree_merge(p0, NULL, p1);
        map_all();
        jb(); js("op", op); ji("rc", r); je();
        return 1;
    }
    if (!strcmp(op, "dup")) { /* src newname: deep copy installed as another tree */
        parse_tree *p = tree_by(A(0)), *q; pt_head *ph;
        if (!p) { jb(); js("op", op); ji("ok", -9); je(); return 1; }
        q = pt_dup(p, NULL, 0);
        ph = cligen_ph_add(h, A(1));
        cligen_ph_parsetree_set(ph, q);
        jb(); js("op", op); ji("ok", q != NULL); je();
        return 1;
    }
    if (!strcmp(op, "freetree")) { /* replace a tree by an empty one */
        pt_head *ph = cligen_ph_find(h, A(0)); parse_tree *p = cligen_ph_parsetree_get(ph);
        cligen_parsetree_free(p, 1);
        cligen_ph_parsetree_set(ph, pt_new());
        return 1;
    }
    if (!strcmp(op, "sort")) { parse_tree *p = tree_by(A(0)); if (p) cligen_parsetree_sort(p, 1); return 1; }
    if (!strcmp(op, "findone")) {
        parse_tree *p = A(1) ? tree_by(A(1)) : cligen_pt_active_get(h);
        cg_obj *co = p ? co_find_one(p, A(0)) : NULL;
        jb(); js("op", op); js("co", co ? co->co_command : NULL); je(); return 1;
    }
    if (!strcmp(op, "histinit")) { int r = cligen_hist_init(h, AI(0)); jb(); js("op", op); ji("rc", r); je(); return 1; }
    if (!strcmp(op, "histadd")) { int r = hist_add(h, A(0)); jb(); js("op", op); ji("rc", r); je(); return 1; }
    if (!strcmp(op, "histsave")) {
        char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n);
        int r = cligen_hist_file_save(h, f);
        fclose(f); jb(); js("op", op); ji("rc", r); jsn("text", b, n); je(); free(b); return 1;
    }
    if (!strcmp(op, "histload")) {
        FILE *f = fmemopen(a->len[0] ? A(0) : "\n", a->len[0] ? a->len[0] : 1, "r");
        int r = cligen_hist_file_load(h, f); fclose(f);
        jb(); js("op", op); ji("rc", r); je(); return 1;
    }
    if (!strcmp(op, "alias")) { /* tree name help command */
        int r = cligen_alias_add(h, A(0), A(1), A(2), A(3), cligen_alias_call);
        jb(); js("op", op); ji("rc", r); je(); return 1;
    }
    if (!strcmp(op, "hooks")) { cligen_susp_hook(h, AI(0) ? susp_cb : NULL); cligen_interrupt_hook(h, AI(0) ? intr_cb : NULL); return 1; }
    if (!strcmp(op, "exitchar")) { cligen_exitchar_add(h, (char)AI(0)); return 1; }
    if (!strcmp(op, "evalargs")) { /* wrappers */
        return 1;
    }
    return 0;
}
