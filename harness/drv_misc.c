/* Paged output, registered descriptors, regular expressions */
#include "drv.h"
#include <libxml/xmlregexp.h>
#include <sys/ioctl.h>
/* standard input and output are pretended to be a terminal of unknown size */
static int faketty;
extern int stdin_left(void);
extern int __real_isatty(int);
extern int __real_ioctl(int, unsigned long, ...);
int __wrap_isatty(int fd) { return faketty ? 1 : __real_isatty(fd); }
int __wrap_ioctl(int fd, unsigned long rq, void *p)
{
    if (faketty && rq == TIOCGWINSZ) { memset(p, 0, sizeof(struct winsize)); return 0; }
    return __real_ioctl(fd, rq, p);
}
void paging_reset(void) { cligen_terminal_rows_set(NULL, 0); cligen_paging_set(NULL, 1); }
int op_misc(const char *op, struct args *a)
{
    int r = 0;
    if (!strcmp(op, "paging")) { /* rows width paging: as on a terminal of unknown size */
        faketty = 1;
        cligen_terminal_rows_set(H[cur], AI(0));
        faketty = 0;
        cligen_terminal_width_set(H[cur], AI(1));
        cligen_paging_set(H[cur], AI(2));
        cli_output_reset();
        return 1;
    }
    if (!strcmp(op, "out")) { /* output session: answers chunk... ; a missing chunk is a reset, wN a new width, rN new rows, b... uses cligen_output_basic */
        size_t n; char *o; int k;
        cap_start();
        feed_stdin(A(0), a->len[0], 0);
        jb(); js("op", op); jraw("st", "[");
        for (k = 1; k < a->n; k++) {
            r = 0;
            if (a->v[k] == NULL) r = cli_output_reset();
            else if (A(k)[0] == 'w') r = cligen_terminal_width_set(H[cur], atoi(A(k) + 1));
            else if (A(k)[0] == 'r') { faketty = 1; r = cligen_terminal_rows_set(H[cur], atoi(A(k) + 1)); faketty = 0; }
            else if (A(k)[0] == 'b') r = cligen_output_basic(stdout, A(k) + 1, a->len[k] - 1);
            else r = cligen_output(stdout, "%s", A(k) + 1);
            { size_t m; char *q = cap_end(&m); free(q); fprintf(LOG, "%s[%d,%zu,%d]", k > 1 ? "," : "", r, m, cli_output_status()); }
        }
        fputs("]", LOG);
        o = cap_end(&n);
        jsn("out", o, n); ji("left", stdin_left()); je(); free(o);
        rest_stdin();
        return 1;
    }
    if (!strcmp(op, "evalkeys")) { /* line keys: evaluate with keys waiting at the terminal */
        size_t n; char *o; char *reason = NULL; cg_obj *co = NULL; cvec *cvv = NULL; cligen_result res = -9;
        char *s = strdup(A(0)); int er = -9;
        cap_start();
        feed_stdin(A(1), a->len[1], 0);
        cli_output_reset();
        r = cliread_parse(H[cur], s, cligen_pt_active_get(H[cur]), &co, &cvv, &res, &reason);
        if (r == 0 && res == CG_MATCH) er = cligen_eval(H[cur], co, cvv);
        o = cap_end(&n);
        jb(); js("op", op); ji("res", res); ji("er", er); jsn("out", o, n); ji("left", stdin_left()); je();
        free(o); free(s); free(reason);
        if (co) co_free(co, 0);
        if (cvv) cvec_free(cvv);
        rest_stdin();
        return 1;
    }
    if (!strcmp(op, "outf")) { /* output to another stream: chunks */
        char *b = NULL; size_t n = 0; int k; FILE *f = open_memstream(&b, &n);
        for (k = 0; k < a->n; k++) r = cligen_output(f, "%s", A(k));
        fclose(f); jb(); js("op", op); ji("rc", r); jsn("out", b, n); je(); free(b);
        return 1;
    }
    if (!strcmp(op, "re")) { /* pattern invert word... through match_regexp of handle */
        int k, rr[4096];
        for (k = 2; k < a->n; k++) rr[k] = match_regexp(H[cur], A(k), A(0), AI(1));
        jb(); js("op", op); jraw("m", "[");
        for (k = 2; k < a->n; k++) fprintf(LOG, "%s%d", k > 2 ? "," : "", rr[k]);
        fputs("]", LOG); je();
        return 1;
    }
    if (!strcmp(op, "rxref")) { /* the XML-schema library itself, to recognise its own defects */
        xmlRegexpPtr x = xmlRegexpCompile((xmlChar *)A(0)); int k;
        jb(); js("op", op); ji("rc", x != NULL); jraw("m", "[");
        if (x) for (k = 1; k < a->n; k++) fprintf(LOG, "%s%d", k > 1 ? "," : "", xmlRegexpExec(x, (xmlChar *)A(k)) == 1);
        fputs("]", LOG); je();
        if (x) xmlRegFreeRegexp(x);
        return 1;
    }
    if (!strcmp(op, "rec")) { /* dialect compile+exec */
        void *re = NULL; int k, xml = A(1)[0] == 'x', rr[4096];
        r = xml ? cligen_regex_libxml2_compile(A(0), &re) : cligen_regex_posix_compile(A(0), &re);
        if (r > 0) for (k = 2; k < a->n; k++) rr[k] = xml ? cligen_regex_libxml2_exec(re, A(k)) : cligen_regex_posix_exec(re, A(k));
        jb(); js("op", op); ji("rc", r); jraw("m", "[");
        if (r > 0) for (k = 2; k < a->n; k++) fprintf(LOG, "%s%d", k > 2 ? "," : "", rr[k]);
        fputs("]", LOG); je();
        if (r > 0) { if (xml) cligen_regex_libxml2_free(re); else cligen_regex_posix_free(re); if (!xml && re) free(re); }
        return 1;
    }
    return 0;
}
