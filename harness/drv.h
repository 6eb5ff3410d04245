/* Driver for the clicon/cligen runtime monitors: shared declarations.
 * The driver executes a script of operations against the real library through
 * its public interface and writes an event log (one JSON object per line).
 */
#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <inttypes.h>
#include <signal.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <cligen/cligen.h>
#include <cligen/cligen_match.h>
#include <cligen/cligen_getline.h>
int hist_add(cligen_handle h, char *);

#define NH 8
#define MAXARG 4096
struct args { int n; char *v[MAXARG]; size_t len[MAXARG]; };
#define A(i) ((i) < a->n ? a->v[i] : NULL)
#define AI(i) (A(i) ? atoll(A(i)) : 0)

extern FILE *LOG;
extern cligen_handle H[NH];
extern int cur;

/* json output */
void jb(void);                       /* begin object */
void js(const char *k, const char *s);            /* string (NULL -> null) */
void jsn(const char *k, const char *s, size_t n); /* counted */
void ji(const char *k, long long v);
void ju(const char *k, unsigned long long v);
void jraw(const char *k, const char *raw);
void jcvec(const char *k, cvec *cvv);
void je(void); void jb2(const char *);                       /* end object, newline */

/* capture of stdout */
void cap_start(void);
char *cap_end(size_t *n);           /* malloced */
char *err_end(size_t *n);
void feed_stdin(const char *buf, size_t n, int keepopen);
void rest_stdin(void);

int  op_cli(const char *op, struct args *a);
int  op_val(const char *op, struct args *a);
int  op_cvec(const char *op, struct args *a);
int  op_buf(const char *op, struct args *a);
int  op_misc(const char *op, struct args *a);
int  op_fd(const char *op, struct args *a);
int  op_tty(const char *op, struct args *a);
int  tty_on(void); int tty_same(void); void tty_clean(void);
void fd_reset(void);
void fd_keyread(void);
void val_reset(void);
void cli_reset(void);
void cvec_reset_all(void);
void buf_reset_all(void);
cg_var *val_reg(int i);
size_t heap_bytes(void);
int  fd_count(void);
#endif
