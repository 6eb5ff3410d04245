/* Typed value operations */
#include "drv.h"
#define NV 64
static cg_var *V[NV];
cg_var *val_reg(int i) { return V[i]; }
void val_reset(void)
{
    int i;
    for (i = 0; i < NV; i++) if (V[i]) { cv_free(V[i]); V[i] = NULL; }
}
static void jval(cg_var *cv)
{
    char *s = cv2str_dup(cv), buf[64];
    cbuf *cb = cbuf_new();
    char *mb = NULL; size_t mn = 0;
    FILE *f = open_memstream(&mb, &mn);
    int r, i, n, l;
    js("s", s);
    r = cv2cbuf(cv, cb);
    js("cb", r < 0 ? NULL : cbuf_get(cb));
    r = cv_print(f, cv);
    fclose(f);
    js("pr", mb);
    ji("prrc", r);
    ji("len", (long long)cv_len(cv));
    /* bounded print: never beyond the size given, always terminated */
    n = s ? strlen(s) : 0;
    for (i = 1; i <= 40; i += (i < 4 ? 1 : 9)) {
        char *q = malloc(i);
        memset(q, 'Z', i);
        r = cv2str(cv, q, i);
        if (r >= 0) {
            l = strnlen(q, i);
            if (l == i) ji("unterminated", i);
            if (s && strncmp(q, s, l) != 0) ji("badprefix", i);
            if (s && i > n && l != n) ji("short", i);
            if (r != n) { snprintf(buf, sizeof buf, "cv2str%d", i); ji(buf, r); }
        }
        free(q);
    }
    free(s); free(mb); cbuf_free(cb);
}
/* the value as the typed accessors give it */
static void hexs(const char *k, const void *p, int n)
{
    char b[64]; int i;
    for (i = 0; i < n; i++) sprintf(b + 2*i, "%02x", ((const unsigned char *)p)[i]);
    js(k, b);
}
static void jacc(cg_var *cv)
{
    switch (cv_type_get(cv)) {
    case CGV_INT8: ji("av", cv_int8_get(cv)); break; case CGV_INT16: ji("av", cv_int16_get(cv)); break;
    case CGV_INT32: ji("av", cv_int32_get(cv)); break; case CGV_INT64: ji("av", cv_int64_get(cv)); break;
    case CGV_UINT8: ju("av", cv_uint8_get(cv)); break; case CGV_UINT16: ju("av", cv_uint16_get(cv)); break;
    case CGV_UINT32: ju("av", cv_uint32_get(cv)); break; case CGV_UINT64: ju("av", cv_uint64_get(cv)); break;
    case CGV_DEC64: ji("av", cv_dec64_i_get(cv)); ji("an", cv_dec64_n_get(cv)); break;
    case CGV_BOOL: ji("av", cv_bool_get(cv)); break;
    case CGV_STRING: case CGV_REST: case CGV_INTERFACE: js("av", cv_string_get(cv)); break;
    case CGV_IPV4ADDR: case CGV_IPV4PFX: hexs("av", cv_ipv4addr_get(cv), 4); ji("an", cv_ipv4masklen_get(cv)); break;
    case CGV_IPV6ADDR: case CGV_IPV6PFX: hexs("av", cv_ipv6addr_get(cv), 16); ji("an", cv_ipv6masklen_get(cv)); break;
    case CGV_MACADDR: hexs("av", cv_mac_get(cv), 6); break;
    case CGV_UUID: hexs("av", cv_uuid_get(cv), 16); break;
    case CGV_TIME: { struct timeval t = cv_time_get(cv); ji("av", t.tv_sec); ji("an", t.tv_usec); break; }
    case CGV_URL: js("a0", cv_urlproto_get(cv)); js("a1", cv_urladdr_get(cv)); js("a2", cv_urlpath_get(cv));
        js("a3", cv_urluser_get(cv)); js("a4", cv_urlpasswd_get(cv)); break;
    default: break; }
}
/* a new value of the same type built with the typed setters only */
static cg_var *viaset(cg_var *o)
{
    cg_var *c = cv_new(cv_type_get(o));
    switch (cv_type_get(o)) {
    case CGV_INT8: cv_int8_set(c, cv_int8_get(o)); break; case CGV_INT16: cv_int16_set(c, cv_int16_get(o)); break;
    case CGV_INT32: cv_int32_set(c, cv_int32_get(o)); break; case CGV_INT64: cv_int64_set(c, cv_int64_get(o)); break;
    case CGV_UINT8: cv_uint8_set(c, cv_uint8_get(o)); break; case CGV_UINT16: cv_uint16_set(c, cv_uint16_get(o)); break;
    case CGV_UINT32: cv_uint32_set(c, cv_uint32_get(o)); break; case CGV_UINT64: cv_uint64_set(c, cv_uint64_get(o)); break;
    case CGV_DEC64: cv_dec64_n_set(c, cv_dec64_n_get(o)); cv_dec64_i_set(c, cv_dec64_i_get(o)); break;
    case CGV_BOOL: cv_bool_set(c, cv_bool_get(o)); break;
    case CGV_STRING: case CGV_REST: case CGV_INTERFACE: cv_string_set(c, cv_string_get(o)); break;
    case CGV_IPV4ADDR: case CGV_IPV4PFX: cv_ipv4addr_set(c, cv_ipv4addr_get(o)); cv_ipv4masklen_set(c, cv_ipv4masklen_get(o)); break;
    case CGV_UUID: cv_uuid_set(c, cv_uuid_get(o)); break;
    case CGV_TIME: cv_time_set(c, cv_time_get(o)); break;
    case CGV_MACADDR: memcpy(cv_mac_get(c), cv_mac_get(o), 6); break; /* documented: pointer to the value */
    case CGV_IPV6ADDR: case CGV_IPV6PFX: cv_free(c); c = cv_dup(o); *cv_ipv6addr_get(c) = *cv_ipv6addr_get(o); break;
    case CGV_URL:
        cv_urlproto_set(c, cv_urlproto_get(o)); cv_urladdr_set(c, cv_urladdr_get(o)); cv_urlpath_set(c, cv_urlpath_get(o));
        cv_urluser_set(c, cv_urluser_get(o)); cv_urlpasswd_set(c, cv_urlpasswd_get(o)); break;
    default: cv_free(c); c = cv_dup(o); }
    return c;
}
#define PI(N, T, F, G) if (!strcmp(k, N)) { T v = 0; r = F(A(1), &v, &reason); if (r > 0) G("v", v); }
int op_val(const char *op, struct args *a)
{
    int i = AI(0), j = AI(1), r = 0;
    if (!strcmp(op, "tz")) { setenv("TZ", A(0), 1); tzset(); return 1; }
    if (!strcmp(op, "vt")) { /* type decn text: parse, print, reparse */
        enum cv_type t = cv_str2type(A(0));
        cg_var *cv = cv_new(t), *cv2;
        char *reason = NULL, *reason2 = NULL, *s;
        if (t == CGV_DEC64) cv_dec64_n_set(cv, AI(1));
        r = cv_parse1(A(2), cv, &reason);
        jb(); js("op", op); ji("rc", r); js("reason", reason);
        if (r > 0) {
            jval(cv);
            jacc(cv);
            { cg_var *vs = viaset(cv); s = cv2str_dup(vs); js("vs", s); free(s); ji("vcmp", cv_cmp(cv, vs)); cv_free(vs); }
            s = cv2str_dup(cv);
            if (s) {
                cv2 = cv_new(t);
                if (t == CGV_DEC64) cv_dec64_n_set(cv2, AI(1));
                r = cv_parse1(s, cv2, &reason2);
                ji("rt", r);
                if (r > 0) { char *s2 = cv2str_dup(cv2); js("s2", s2); free(s2); ji("cmp", cv_cmp(cv, cv2)); }
                cv_free(cv2);
                free(s);
            }
        }
        je();
        /* the variant without reason must agree */
        { cg_var *c3 = cv_new(t); int r3; if (t == CGV_DEC64) cv_dec64_n_set(c3, AI(1)); r3 = cv_parse(A(2), c3);
          jb(); js("op", "vt2"); ji("rc", r3); je(); cv_free(c3); }
        free(reason); free(reason2);
        cv_free(cv);
        return 1;
    }
    if (!strcmp(op, "pint")) {
        char *k = A(0), *reason = NULL;
        jb(); js("op", op);
        PI("int8", int8_t, parse_int8, ji) PI("int16", int16_t, parse_int16, ji)
        PI("int32", int32_t, parse_int32, ji) PI("int64", int64_t, parse_int64, ji)
        PI("uint8", uint8_t, parse_uint8, ju) PI("uint16", uint16_t, parse_uint16, ju)
        PI("uint32", uint32_t, parse_uint32, ju) PI("uint64", uint64_t, parse_uint64, ju)
        PI("bool", uint8_t, parse_bool, ju)
        if (!strncmp(k, "dec", 3)) { int64_t v = 0; r = parse_dec64(A(1), atoi(k + 3), &v, &reason); if (r > 0) ji("v", v); }
        ji("rc", r); js("reason", reason); je();
        free(reason);
        return 1;
    }
    if (!strcmp(op, "vmax")) { /* type max/min set and print */
        enum cv_type t = cv_str2type(A(0));
        cg_var *cv = cv_new(t); char *s, b[64];
        jb(); js("op", op); 
        if (t == CGV_DEC64) cv_dec64_n_set(cv, AI(1));
        ji("maxrc", cv_max_set(cv)); s = cv2str_dup(cv); js("max", s); free(s);
        ji("minrc", cv_min_set(cv)); s = cv2str_dup(cv); js("min", s); free(s);
        ji("strrc", cvtype_max2str(t, b, sizeof b) >= 0); js("maxstr", b);
        s = cvtype_max2str_dup(t); js("maxdup", s); free(s);
        js("tname", cv_type2str(t)); 
        je(); cv_free(cv);
        return 1;
    }
    if (!strcmp(op, "vnew")) { if (V[i]) cv_free(V[i]); V[i] = cv_new(cv_str2type(A(1))); return 1; }
    if (!strcmp(op, "vfree")) { if (V[i]) cv_free(V[i]); V[i] = NULL; return 1; }
    if (!strcmp(op, "vparse")) { char *reason = NULL; r = cv_parse1(A(1), V[i], &reason); jb(); js("op", op); ji("rc", r); js("reason", reason); je(); free(reason); return 1; }
    if (!strcmp(op, "vdecn")) { cv_dec64_n_set(V[i], j); return 1; }
    if (!strcmp(op, "vdeci")) { cv_dec64_i_set(V[i], strtoll(A(1), NULL, 10)); return 1; }
    if (!strcmp(op, "vname")) { cv_name_set(V[i], A(1)); return 1; }
    if (!strcmp(op, "vconst")) { cv_const_set(V[i], j); return 1; }
    if (!strcmp(op, "vflag")) { /* i set mask | i clr mask */
        if (A(1)[0] == 's') cv_flag_set(V[i], AI(2)); else cv_flag_clr(V[i], AI(2));
        return 1;
    }
    if (!strcmp(op, "vstr")) { cv_string_set(V[i], A(1)); return 1; }
    if (!strcmp(op, "vstrn")) { cv_strncpy(V[i], A(1), AI(2)); return 1; }
    if (!strcmp(op, "vstrdirect")) { if (A(1)) cv_string_set_direct(V[i], strdup(A(1))); return 1; }
    if (!strcmp(op, "vurl")) { /* i part value */
        char p = A(1)[1];
        if (!strcmp(A(1), "proto")) cv_urlproto_set(V[i], A(2));
        else if (!strcmp(A(1), "addr")) cv_urladdr_set(V[i], A(2));
        else if (!strcmp(A(1), "path")) cv_urlpath_set(V[i], A(2));
        else if (!strcmp(A(1), "user")) cv_urluser_set(V[i], A(2));
        else cv_urlpasswd_set(V[i], A(2));
        (void)p;
        return 1;
    }
    if (!strcmp(op, "vurlget")) { jb(); js("op", op); js("proto", cv_urlproto_get(V[i])); js("addr", cv_urladdr_get(V[i])); js("path", cv_urlpath_get(V[i]));
        js("user", cv_urluser_get(V[i])); js("passwd", cv_urlpasswd_get(V[i])); je(); return 1; }
    if (!strcmp(op, "vtime")) { struct timeval t; t.tv_sec = AI(1); t.tv_usec = AI(2); cv_time_set(V[i], t); return 1; }
    if (!strcmp(op, "vint")) { /* set through the typed setter */
        long long v = strtoll(A(1), NULL, 10); unsigned long long u = strtoull(A(1), NULL, 10);
        switch (cv_type_get(V[i])) {
        case CGV_INT8: cv_int8_set(V[i], v); break; case CGV_INT16: cv_int16_set(V[i], v); break;
        case CGV_INT32: cv_int32_set(V[i], v); break; case CGV_INT64: cv_int64_set(V[i], v); break;
        case CGV_UINT8: cv_uint8_set(V[i], u); break; case CGV_UINT16: cv_uint16_set(V[i], u); break;
        case CGV_UINT32: cv_uint32_set(V[i], u); break; case CGV_UINT64: cv_uint64_set(V[i], u); break;
        case CGV_BOOL: cv_bool_set(V[i], v); break;
        default: break; }
        return 1;
    }
    if (!strcmp(op, "vvoid")) { cv_void_set(V[i], (void *)(intptr_t)AI(1)); return 1; }
    if (!strcmp(op, "vcmp")) { int c = cv_cmp(V[i], V[j]); jb(); js("op", op); ji("c", c < 0 ? -1 : c > 0); je(); return 1; }
    if (!strcmp(op, "vcmpall")) { /* matrix over registers 0..n-1 */
        int n = i, x, y;
        jb(); js("op", op); jraw("m", "[");
        for (x = 0; x < n; x++) for (y = 0; y < n; y++) { int c = cv_cmp(V[x], V[y]); fprintf(LOG, "%s%d", x + y ? "," : "", c < 0 ? -1 : c > 0); }
        fputs("]", LOG); je();
        return 1;
    }
    if (!strcmp(op, "vcp")) { if (!V[i]) V[i] = cv_new(cv_type_get(V[j])); r = cv_cp(V[i], V[j]); jb(); js("op", op); ji("rc", r); je(); return 1; }
    if (!strcmp(op, "vdup")) { if (V[i]) cv_free(V[i]); V[i] = cv_dup(V[j]); jb(); js("op", op); ji("ok", V[i] != NULL); je(); return 1; }
    if (!strcmp(op, "vreset")) { cv_reset(V[i]); return 1; }
    if (!strcmp(op, "vget")) {
        cg_var *cv = V[i];
        char bf[16]; int m, k = 0;
        jb(); js("op", op); js("name", cv_name_get(cv)); js("type", cv_type2str(cv_type_get(cv))); ji("const", cv_const_get(cv));
        for (m = 1; m < 128; m <<= 1) bf[k++] = cv_flag(cv, m) ? '1' : '0'; bf[k] = 0; js("flags", bf);
        jval(cv); jacc(cv);
        ju("size", cv_size(cv));
        if (cv_type_get(cv) == CGV_VOID) ji("v", (intptr_t)cv_void_get(cv));
        je();
        return 1;
    }
    if (!strcmp(op, "tonum")) { jb(); js("op", op); ji("v", cligen_tonum(AI(0), A(1))); je(); return 1; }
    return 0;
}
