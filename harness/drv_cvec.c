/* Value vector and splitting operations */
#include "drv.h"
#define NC 16
static cvec *C[NC];
void cvec_reset_all(void) { int i; for (i = 0; i < NC; i++) if (C[i]) { cvec_free(C[i]); C[i] = NULL; } }
static int index_of(cvec *c, cg_var *cv)
{
    int i;
    if (cv == NULL) return -1;
    for (i = 0; i < cvec_len(c); i++) if (cvec_i(c, i) == cv) return i;
    return -2;
}
int op_cvec(const char *op, struct args *a)
{
    int i = AI(0), r;
    cg_var *cv;
    if (op[0] != 'c') return 0;
    if (!strcmp(op, "cnew")) { if (C[i]) cvec_free(C[i]); C[i] = cvec_new(AI(1)); return 1; }
    if (!strcmp(op, "cfree")) { if (C[i]) cvec_free(C[i]); C[i] = NULL; return 1; }
    if (!strcmp(op, "cadd")) { /* i type name value */
        cv = cvec_add(C[i], cv_str2type(A(1)));
        jb(); js("op", op); ji("ix", index_of(C[i], cv));
        if (cv) { if (A(2)) cv_name_set(cv, A(2)); if (A(3)) ji("prc", cv_parse(A(3), cv)); }
        je(); return 1;
    }
    if (!strcmp(op, "caddstr")) { r = cvec_add_string(C[i], A(1), A(2)); jb(); js("op", op); ji("rc", r); je(); return 1; }
    if (!strcmp(op, "cappend")) { /* i from-vec index */
        cv = cvec_i(C[AI(1)], AI(2));
        /* value from another vector (or same: must be taken from a copy) */
        cg_var *t = cv ? cv_dup(cv) : NULL;
        cv = cvec_append_var(C[i], t);
        jb(); js("op", op); ji("ix", index_of(C[i], cv)); je();
        if (t) cv_free(t);
        return 1;
    }
    if (!strcmp(op, "cdel")) { /* i index : delete by entry pointer */
        int n;
        cv = AI(1) >= 0 && AI(1) < cvec_len(C[i]) ? cvec_i(C[i], AI(1)) : NULL;
        if (cv) cv_reset(cv);
        n = cvec_del(C[i], cv);
        jb(); js("op", op); ji("n", n); je();
        return 1;
    }
    if (!strcmp(op, "cdelforeign")) { cg_var *f = cv_new(CGV_STRING); r = cvec_del(C[i], f); jb(); js("op", op); ji("n", r); je(); cv_free(f); return 1; }
    if (!strcmp(op, "cdeli")) {
        if (AI(1) >= 0 && AI(1) < cvec_len(C[i])) cv_reset(cvec_i(C[i], AI(1)));
        r = cvec_del_i(C[i], AI(1)); jb(); js("op", op); ji("n", r); je(); return 1;
    }
    if (!strcmp(op, "ci")) {
        cv = cvec_i(C[i], AI(1));
        jb(); js("op", op); ji("null", cv == NULL); if (cv) { char *s = cv2str_dup(cv); js("name", cv_name_get(cv)); js("s", s); free(s); } je(); return 1;
    }
    if (!strcmp(op, "cistr")) { jb(); js("op", op); js("s", cvec_i_str(C[i], AI(1))); je(); return 1; }
    if (!strcmp(op, "cfind")) {
        jb(); js("op", op); ji("any", index_of(C[i], cvec_find(C[i], A(1))));
        if (A(1)) { ji("key", index_of(C[i], cvec_find_keyword(C[i], A(1)))); ji("var", index_of(C[i], cvec_find_var(C[i], A(1)))); }
        js("str", cvec_find_str(C[i], A(1)));
        je(); return 1;
    }
    if (!strcmp(op, "cconst")) { cv = cvec_i(C[i], AI(1)); if (cv) cv_const_set(cv, AI(2)); return 1; }
    if (!strcmp(op, "cset")) { cv = cvec_i(C[i], AI(1)); if (cv) { jb(); js("op", op); ji("rc", cv_parse(A(2), cv)); je(); } else { jb(); js("op", op); ji("rc", -9); je(); } return 1; }
    if (!strcmp(op, "cname")) { cvec_name_set(C[i], A(1)); return 1; }
    if (!strcmp(op, "cdup")) { int s = AI(1); if (C[i] && s != i) cvec_free(C[i]); C[i] = cvec_dup(C[s]); jb(); js("op", op); ji("ok", C[i] != NULL); je(); return 1; }
    if (!strcmp(op, "cinit")) { cvec_reset(C[i]); r = cvec_init(C[i], AI(1)); jb(); js("op", op); ji("rc", r); je(); return 1; }
    if (!strcmp(op, "ctype")) { cv = cvec_i(C[i], AI(1)); cv_type_set(cv, cv_str2type(A(2))); jb(); js("op", op); ji("rc", cv_parse(A(3), cv)); je(); return 1; }
    if (!strcmp(op, "creset")) { cvec_reset(C[i]); return 1; }
    if (!strcmp(op, "cfromvar")) { cv = cvec_i(C[AI(1)], AI(2)); if (C[i] && i != AI(1)) cvec_free(C[i]); C[i] = cvec_from_var(cv); jb(); js("op", op); ji("ok", C[i] != NULL); je(); return 1; }
    if (!strcmp(op, "cstart")) { if (C[i]) cvec_free(C[i]); C[i] = cvec_start(A(1)); return 1; }
    if (!strcmp(op, "cexclude")) { jb(); js("op", op); ji("rc", cvec_exclude_keys(C[i])); je(); return 1; }
    if (!strcmp(op, "cexpandfirst")) { jb(); js("op", op); ji("rc", cvec_expand_first(C[i])); je(); return 1; }
    if (!strcmp(op, "cdump")) { /* complete observable state */
        cbuf *cb = cbuf_new(); char *mb = NULL; size_t mn = 0; FILE *f = open_memstream(&mb, &mn);
        int n = 0, n1 = 0; cg_var *c2 = NULL;
        jb(); js("op", op); ji("len", cvec_len(C[i])); js("cname", C[i] ? cvec_name_get(C[i]) : NULL); jcvec("e", C[i]);
        while ((c2 = cvec_each(C[i], c2)) != NULL) { if (index_of(C[i], c2) != n) ji("badeach", n); n++; }
        c2 = NULL;
        while ((c2 = cvec_each1(C[i], c2)) != NULL) { if (index_of(C[i], c2) != n1 + 1) ji("badeach1", n1); n1++; }
        ji("each", n); ji("each1", n1);
        n1 = 0; c2 = cvec_next(C[i], NULL);
        while (c2 != NULL && n1 <= n) { if (index_of(C[i], c2) != n1) ji("badnext", n1); n1++; c2 = cvec_next(C[i], c2); }
        ji("next", n1);
        if (C[i]) { cvec_print(f, C[i]); fclose(f); js("pr", mb); ji("cbrc", cvec2cbuf(cb, C[i])); js("cb", cbuf_get(cb)); ji("size", cvec_size(C[i]) > 0); } else fclose(f);
        je(); free(mb); cbuf_free(cb);
        return 1;
    }
    if (!strcmp(op, "csplit")) { /* string -> tokens and rests */
        cvec *t = NULL, *rr = NULL;
        char *s = strdup(A(0));
        r = cligen_str2cvv(s, &t, &rr);
        jb(); js("op", op); ji("rc", r); jcvec("t", t); jcvec("r", rr); ji("levels", t ? cligen_cvv_levels(t) : -9); ji("same", strcmp(s, A(0)) == 0); je();
        if (t) cvec_free(t); if (rr) cvec_free(rr); free(s);
        return 1;
    }
    if (!strcmp(op, "ctxt")) { cvec *t = NULL; r = cligen_txt2cvv(A(0), &t); jb(); js("op", op); ji("rc", r); jcvec("t", t); je(); if (t) cvec_free(t); return 1; }
    if (!strcmp(op, "ctrim")) { char *s = strdup(A(0)), *s0 = s; cli_trim(&s, (char)AI(1)); jb(); js("op", op); js("s", s); je(); free(s0); return 1; }
    if (!strcmp(op, "cescape")) {
        char *s = A(0), *e = NULL; int need = cligen_escape_need(s);
        e = cligen_escape_do(s);
        jb(); js("op", op); ji("need", need); js("s", e); je();
        free(e);
        return 1;
    }
    return 0;
}
