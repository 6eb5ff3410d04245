/* Registered descriptors: pipes, callbacks that act, asynchronous writers and signals */
#include "drv.h"
#include <sys/ioctl.h>
#define NP 48
#define NG 400
int stdin_wr(void);
static struct { int r, w, reg, fly; } P[NP];
/* groups of actions; group k is run when nothing is left to be done by the library */
static struct act { int group, kind, a, b; char *s; size_t n; } *acts;
static int nacts, group, ngroups, running;
static struct { int fd, kind, a, b; } onc[64]; /* done inside the callback of a pipe, once */
static int nonc;
static pid_t kids[64];
static int nkids, budget;
static void onsig(int s) { (void)s; }
void fd_reset(void)
{
    int i;
    for (i = 0; i < NP; i++)
        if (P[i].r > 0) { cligen_unregfd(P[i].r); close(P[i].r); close(P[i].w); }
    memset(P, 0, sizeof P);
    for (i = 0; i < nacts; i++) free(acts[i].s);
    free(acts); acts = NULL; nacts = group = ngroups = running = nonc = 0;
    for (i = 0; i < nkids; i++) { kill(kids[i], SIGKILL); while (waitpid(kids[i], NULL, 0) < 0 && errno == EINTR) ; }
    nkids = 0;
    alarm(0);
}
static int avail(int fd) { int n = 0; ioctl(fd, FIONREAD, &n); return n; }
static void settle(void);
static int taking; /* a key is being read */
static int fdcb(int fd, void *arg);
static void act(int kind, int i, int b, const char *s, size_t n)
{
    int r = 0;
    switch (kind) {
    case 'w': if (write(P[i].w, s, n) < 0) exit(99); jb(); js("fdact", "write"); ji("i", i); ji("n", n); je(); break;
    case 'u': r = cligen_unregfd(P[i].r); P[i].reg = 0; jb(); js("fdact", "unreg"); ji("i", i); ji("rc", r); je(); break;
    case 'r': r = cligen_regfd(P[i].r, fdcb, (void *)(intptr_t)(i | b << 8)); if (r == 0) P[i].reg = 1;
        jb(); js("fdact", "reg"); ji("i", i); ji("tag", b); ji("fd", P[i].r); ji("rc", r); je(); break;
    case 'U': { int k; r = cligen_unregfd(i); for (k = 0; k < NP; k++) if (P[k].r == i) P[k].reg = 0; }
        jb(); js("fdact", "unregraw"); ji("i", i); ji("rc", r); je(); break;
    case 'k': if (stdin_wr() < 0 || write(stdin_wr(), s, n) < 0) exit(99); jb(); js("fdact", "key"); jsn("s", s, n); je(); break;
    case 's': { /* a signal arrives, later a byte */
        pid_t p, parent = getpid(); int w = P[i].w;
        if (nkids == 64) break;
        P[i].fly++;
        fflush(LOG);
        jb(); js("fdact", "write"); ji("i", i); ji("n", 1); ji("later", 1); je();
        fflush(LOG);
        if ((p = fork()) == 0) {
            struct timespec ts = {0, 1000000L * (b % 4) + 500000};
            nanosleep(&ts, NULL); if (b < 8) kill(parent, SIGUSR1);
            nanosleep(&ts, NULL); if (write(w, "Z", 1) < 0) _exit(1);
            _exit(0);
        }
        kids[nkids++] = p;
        break; }
    }
}
static int busy(void)
{
    int i;
    if (avail(0) > taking) return 1;
    for (i = 0; i < NP; i++) if (P[i].r > 0 && P[i].reg && (P[i].fly > 0 || avail(P[i].r) > 0)) return 1;
    return 0;
}
static void settle(void)
{
    int i;
    while (running && group <= ngroups && !busy()) {
        for (i = 0; i < nacts; i++) if (acts[i].group == group) act(acts[i].kind, acts[i].a, acts[i].b, acts[i].s, acts[i].n);
        group++;
    }
}
/* the library is about to read a key */
void fd_keyread(void)
{
    if (!running) return;
    jb(); js("fdact", "keyread"); ji("avail", avail(0)); je();
    if (avail(0) == 0) { fflush(LOG); _exit(96); } /* would block although registered descriptors may have input */
    taking = 1; settle(); taking = 0;
}
static int fdcb(int fd, void *arg)
{
    int i = (int)(intptr_t)arg & 0xff, tag = (int)((intptr_t)arg >> 8), k;
    char b[1];
    ssize_t n = 0;
    int ok = i < NP && P[i].r == fd, av = ok ? avail(fd) : -1;
    if (ok && av > 0) n = read(fd, b, 1);
    jb(); js("fdact", "served"); ji("ok", ok); ji("i", i); ji("tag", tag); ji("fd", fd); ji("avail", av); jsn("b", b, n > 0 ? 1 : 0); je();
    if (n == 1 && b[0] == 'Z') P[i].fly--;
    if (--budget < 0) { fflush(LOG); _exit(96); }
    for (k = 0; k < nonc; k++) if (onc[k].fd == i) { onc[k].fd = -1; act(onc[k].kind, onc[k].a, onc[k].b, "cc", 2); }
    settle();
    return 0;
}
static volatile unsigned nsigs;
static void nosig(int s) { (void)s; nsigs++; }
int op_fd(const char *op, struct args *a)
{
    int i = AI(0), k;
    if (!strcmp(op, "sigs")) { /* period in milliseconds, 0 to stop: a signal whose handler does nothing */
        static timer_t tid; static int on; struct sigaction sa; struct sigevent se; struct itimerspec it;
        if (on) { timer_delete(tid); on = 0; }
        if (!i) { jb(); js("op", op); ji("n", nsigs); je(); return 1; }
        memset(&sa, 0, sizeof sa); sa.sa_handler = nosig; sigaction(SIGUSR2, &sa, NULL);
        memset(&se, 0, sizeof se); se.sigev_notify = SIGEV_SIGNAL; se.sigev_signo = SIGUSR2;
        if (timer_create(CLOCK_MONOTONIC, &se, &tid) < 0) exit(99);
        on = 1; memset(&it, 0, sizeof it);
        it.it_value.tv_nsec = it.it_interval.tv_nsec = i * 1000000L;
        nsigs = 0; timer_settime(tid, 0, &it, NULL);
        return 1; }
    if (!strcmp(op, "fdnew")) { int p[2];
        if (pipe(p) < 0) exit(99);
        if ((P[i].r = fcntl(p[0], F_DUPFD_CLOEXEC, AI(1))) < 0 && (P[i].r = fcntl(p[0], F_DUPFD_CLOEXEC, 0)) < 0) exit(99);
        if ((P[i].w = fcntl(p[1], F_DUPFD_CLOEXEC, 60)) < 0) exit(99);
        close(p[0]); close(p[1]);
        jb(); js("op", op); ji("fd", P[i].r); je(); return 1; }
    if (!strcmp(op, "fdact")) { act(A(0)[0], AI(1), AI(2), A(3), a->n > 3 ? a->len[3] : 0); return 1; }
    if (!strcmp(op, "fdgroup")) { /* group kind a b s */
        acts = realloc(acts, sizeof *acts * (nacts + 1));
        acts[nacts].group = i; acts[nacts].kind = A(1)[0]; acts[nacts].a = AI(2); acts[nacts].b = AI(3);
        acts[nacts].n = a->n > 4 ? a->len[4] : 0; acts[nacts].s = malloc(acts[nacts].n + 1); memcpy(acts[nacts].s, a->n > 4 ? A(4) : "", acts[nacts].n);
        nacts++; if (i > ngroups) ngroups = i; return 1; }
    if (!strcmp(op, "fdonce")) { if (nonc < 64) { onc[nonc].fd = i; onc[nonc].kind = A(1)[0]; onc[nonc].a = AI(2); onc[nonc].b = AI(3); nonc++; } return 1; }
    if (!strcmp(op, "fdline")) { /* keys typed ahead, mode, number of lines */
        char *buf = NULL; int r = 0; size_t n; char *o; struct sigaction sa, old;
        memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sigaction(SIGUSR1, &sa, &old);
        cap_start();
        feed_stdin(A(0), a->len[0], 1);
        budget = 5000; group = 0; running = 1;
        settle();
        jb(); js("op", op); jraw("begin", "1"); je();
        for (k = 0; k < (AI(2) ? AI(2) : 1); k++) {
            buf = NULL;
            r = AI(1) ? cliread(H[cur], &buf) : gl_getline(H[cur], &buf);
            jb(); js("op", op); ji("rc", r); js("line", r < 0 ? NULL : buf); ji("groups", group); je();
            if (r < 0 || gl_eof()) break;
        }
        running = 0;
        for (k = 0; k < nkids; k++) while (waitpid(kids[k], NULL, 0) < 0 && errno == EINTR) ;
        nkids = 0;
        sigaction(SIGUSR1, &old, NULL);
        rest_stdin();
        o = cap_end(&n);
        free(o);
        for (k = 0; k < nacts; k++) free(acts[k].s);
        free(acts); acts = NULL; nacts = ngroups = 0; nonc = 0;
        return 1;
    }
    return 0;
}
