/* A terminal: the driver's standard input and output are the slave of a pty whose other side is
 * worked by a thread (it types keys when the terminal waits for them, and takes what is shown) */
#include "drv.h"
#include <pthread.h>
#include <termios.h>
#include <sys/ioctl.h>
#include <poll.h>
#ifndef TIOCSWINSZ
#include <asm/ioctls.h>
#endif
static int mfd = -1, sfd = -1, on, save1 = -1, stop;
static pthread_t thr, mainthr;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static struct termios first_t;
static unsigned char *keys; static size_t nkeys, nextkey;
static char *shown; static size_t nshown;
static int nraw, nnotraw, hung, slow;
static volatile int sigseen[2], sigsame[2];
int tty_on(void) { return on; }
static int same_t(struct termios *t)
{
    if (t->c_iflag != first_t.c_iflag) return 2;
    if (t->c_oflag != first_t.c_oflag) return 3;
    if (t->c_cflag != first_t.c_cflag) return 4;
    if (t->c_lflag != first_t.c_lflag) return t->c_lflag & ICANON ? 5 : 6;
    return memcmp(t->c_cc, first_t.c_cc, sizeof t->c_cc) ? 7 : 1;
}
int tty_same(void) /* 1: as at the beginning */
{
    struct termios t;
    memset(&t, 0, sizeof t);
    if (hung) return 1;
    if (tcgetattr(0, &t) < 0) return 0;
    return same_t(&t);
}
static void onsig(int s)
{
    int k = s == SIGQUIT, e = errno;
    sigseen[k]++; if (tty_same() == 1) sigsame[k]++;
    errno = e;
}
static void take(int ms)
{
    struct pollfd p = { mfd, POLLIN, 0 };
    char b[4096]; ssize_t n;
    if (poll(&p, 1, ms) > 0 && (n = read(mfd, b, sizeof b)) > 0) {
        pthread_mutex_lock(&mu);
        if (nshown + n < (4u << 20)) { shown = realloc(shown, nshown + n + 1); memcpy(shown + nshown, b, n); nshown += n; }
        pthread_mutex_unlock(&mu);
    }
}
static void *pump(void *x)
{
    struct termios t;
    int left, idle = 0, quiet = 0, s0, k; size_t lastshown = 0;
    struct winsize ws;
    (void)x;
    for (;;) {
        unsigned char c; int have;
        take(1);
        pthread_mutex_lock(&mu);
        have = nextkey < nkeys; c = have ? keys[nextkey] : 0;
        if (stop) { pthread_mutex_unlock(&mu); break; }
        pthread_mutex_unlock(&mu);
        if (!have || hung) { idle = 0; continue; }
        left = 0;
        if (tcgetattr(sfd, &t) < 0) continue;
        if (t.c_lflag & (ICANON | ECHO)) { if (++idle < 1500) continue; slow++; }
        else { if (ioctl(sfd, FIONREAD, &left) < 0) continue; if (left > 0 && ++idle < 1500) continue; if (idle >= 1500) slow++; }
        idle = 0;
        pthread_mutex_lock(&mu);
        if (nextkey >= nkeys) { pthread_mutex_unlock(&mu); continue; }
        c = keys[nextkey];
        if ((c == 3 || c == 4 || c == 0x18 || c == 0x1c) && (nshown != lastshown || ++quiet < 15)) { /* lost if typed while the settings are the old ones */
            if (nshown != lastshown) quiet = 0;
            lastshown = nshown; pthread_mutex_unlock(&mu); usleep(1000); continue;
        }
        quiet = 0; nextkey++;
        if (c == 0xff && nextkey < nkeys) { /* something happens to the terminal */
            k = keys[nextkey++];
            memset(&ws, 0, sizeof ws);
            if (k == 'W' && nextkey + 1 < nkeys) { ws.ws_row = keys[nextkey++]; ws.ws_col = keys[nextkey++]; pthread_mutex_unlock(&mu); ioctl(mfd, TIOCSWINSZ, &ws); pthread_kill(mainthr, SIGWINCH); take(3); continue; }
            if (k == 'U') { pthread_mutex_unlock(&mu); pthread_kill(mainthr, SIGUSR1); take(3); continue; }
            if (k == 'H') { hung = 1; pthread_mutex_unlock(&mu); take(1); close(mfd); mfd = open("/dev/null", O_RDWR | O_CLOEXEC); continue; }
            pthread_mutex_unlock(&mu); continue;
        }
        if (t.c_lflag & (ICANON | ECHO)) nnotraw++; else nraw++;
        pthread_mutex_unlock(&mu);
        s0 = sigseen[0] + sigseen[1];
        if (write(mfd, &c, 1) < 0) { }
        if (c == t.c_cc[VINTR] || c == t.c_cc[VQUIT])
            for (k = 0; k < 300 && s0 == sigseen[0] + sigseen[1]; k++) take(1);
    }
    return NULL;
}
static void usr1(int s) { (void)s; }
void tty_reset(void)
{
    int k; struct sigaction sa;
    if (!on) return;
    fflush(stdout);
    for (k = 0; k < 20 && !hung; k++) { int n = 0; if (ioctl(mfd, FIONREAD, &n) < 0 || n == 0) break; usleep(500); }
    pthread_mutex_lock(&mu); stop = 1; pthread_mutex_unlock(&mu);
    pthread_join(thr, NULL);
    on = 0;
    dup2(save1, 1); close(save1); save1 = -1;
    rest_stdin();
    close(mfd); close(sfd); mfd = sfd = -1;
    free(keys); keys = NULL; free(shown); shown = NULL;
    nkeys = nextkey = nshown = 0;
    memset(&sa, 0, sizeof sa); sa.sa_handler = SIG_DFL;
    sigaction(SIGWINCH, &sa, NULL); sigaction(SIGINT, &sa, NULL); sigaction(SIGQUIT, &sa, NULL); sigaction(SIGUSR1, &sa, NULL);
    cligen_interrupt_hook(NULL, NULL);
}
static void setkeys(const char *s, size_t n)
{
    pthread_mutex_lock(&mu);
    free(keys); keys = malloc(n + 1); memcpy(keys, s, n); nkeys = n; nextkey = 0; nraw = nnotraw = slow = 0;
    nshown = 0;
    pthread_mutex_unlock(&mu);
}
static void report(void)
{
    fflush(stdout);
    usleep(2000);
    pthread_mutex_lock(&mu);
    ji("same", tty_same()); ji("raw", nraw); ji("notraw", nnotraw); ji("slow", slow); ji("left", (long long)(nkeys - nextkey));
    ji("sigint", sigseen[0]); ji("sigintsame", sigsame[0]); ji("sigquit", sigseen[1]); ji("sigquitsame", sigsame[1]);
    ji("width", H[cur] ? cligen_terminal_width(H[cur]) : -1); ji("rows", H[cur] ? cligen_terminal_rows(H[cur]) : -1);
    nkeys = nextkey = 0; /* what was not taken is not typed any more */
    jsn("shown", shown ? shown : "", nshown > 60000 ? 60000 : nshown);
    pthread_mutex_unlock(&mu);
}
static int regout(int fd, void *arg)
{
    char b[64]; ssize_t n = read(fd, b, sizeof b), i;
    jb(); js("ttycb", "fd"); ji("n", n); je();
    cli_output_reset(); for (i = 0; i < n; i++) cligen_output(stdout, "message %d\n", (int)i);
    (void)arg;
    return 0;
}
static int pfd[2] = { -1, -1 };
int op_tty(const char *op, struct args *a)
{
    if (!strcmp(op, "tty")) { /* rows cols variant */
        struct winsize ws; struct sigaction sa; sigset_t all, old; char nm[64]; int v = AI(2), unlock = 0, pn = 0;
        tty_reset();
        if (pfd[0] >= 0) { cligen_unregfd(pfd[0]); close(pfd[0]); close(pfd[1]); pfd[0] = pfd[1] = -1; }
        fflush(stdout);
        if ((mfd = open("/dev/ptmx", O_RDWR | O_NOCTTY | O_CLOEXEC)) < 0) { jb(); js("op", op); ji("nopty", errno); je(); return 1; }
        ioctl(mfd, TIOCSPTLCK, &unlock); ioctl(mfd, TIOCGPTN, &pn); snprintf(nm, sizeof nm, "/dev/pts/%d", pn);
        if ((sfd = open(nm, O_RDWR | O_NOCTTY | O_CLOEXEC)) < 0) { jb(); js("op", op); ji("nopty", errno); je(); close(mfd); mfd = -1; return 1; }
        memset(&ws, 0, sizeof ws); ws.ws_row = AI(0); ws.ws_col = AI(1);
        ioctl(mfd, TIOCSWINSZ, &ws);
        tcgetattr(sfd, &first_t);
        if (v & 1) first_t.c_iflag ^= IXON;
        if (v & 2) first_t.c_lflag ^= ECHO;
        if (v & 4) first_t.c_cc[VINTR] = 0x18;      /* ^X */
        if (v & 8) first_t.c_cc[VEOF] = 0x07;
        if (v & 16) first_t.c_oflag ^= ONLCR;
        if (v & 32) first_t.c_lflag ^= ICANON;
        if (v & 64) { first_t.c_cc[VMIN] = 3; first_t.c_cc[VTIME] = 2; }
        if (v & 128) first_t.c_iflag ^= ICRNL | BRKINT;
        if (v & 256) first_t.c_lflag ^= IEXTEN;
        tcsetattr(sfd, TCSANOW, &first_t);
        tcgetattr(sfd, &first_t);
        save1 = fcntl(1, F_DUPFD_CLOEXEC, 50);
        dup2(sfd, 0); dup2(sfd, 1);
        memset((void *)sigseen, 0, sizeof sigseen); memset((void *)sigsame, 0, sizeof sigsame);
        memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sigaction(SIGINT, &sa, NULL); sigaction(SIGQUIT, &sa, NULL);
        sa.sa_handler = usr1; sigaction(SIGUSR1, &sa, NULL);
        hung = stop = 0; mainthr = pthread_self(); setpgid(0, 0);
        setkeys("", 0);
        sigfillset(&all); pthread_sigmask(SIG_SETMASK, &all, &old);
        if (pthread_create(&thr, NULL, pump, NULL)) exit(99);
        pthread_sigmask(SIG_SETMASK, &old, NULL);
        on = 1;
        jb(); js("op", op); ji("nopty", 0); ji("same", tty_same()); je();
        return 1;
    }
    if (!strcmp(op, "ttyread")) { /* keys maxlines mode(0 gl_getline, 1 cliread, 2 cliread_eval, 3 cligen_loop) */
        int k, n = AI(1), mode = AI(2), r = 0, er = 0; char *buf; cligen_result res; char *reason;
        setkeys(A(0), a->len[0]);
        cligen_exiting_set(H[cur], 0);
        if (mode == 3) { r = cligen_loop(H[cur]); jb(); js("op", op); ji("rc", r); ji("eof", gl_eof()); report(); je(); return 1; }
        for (k = 0; k < n; k++) {
            buf = NULL; reason = NULL;
            if (mode == 2) { res = CG_ERROR; r = cliread_eval(H[cur], &buf, &er, &res, &reason); }
            else r = mode ? cliread(H[cur], &buf) : gl_getline(H[cur], &buf);
            jb(); js("ttyline", buf); ji("rc", r); ji("eof", gl_eof()); ji("same", tty_same()); ji("width", cligen_terminal_width(H[cur])); ji("rows", cligen_terminal_rows(H[cur])); if (mode == 2) { ji("res", res); ji("er", er); } je();
            free(reason);
            if (r < 0 || gl_eof() || buf == NULL) break;
        }
        jb(); js("op", op); ji("rc", r); ji("n", k); report(); je();
        return 1;
    }
    if (!strcmp(op, "ttyout")) { /* answers chunk... : paged output */
        int k, r = 0;
        setkeys(A(0), a->len[0]);
        cli_output_reset();
        for (k = 1; k < a->n; k++) if (cligen_output(stdout, "%s", A(k)) < 0) r = -1;
        jb(); js("op", op); ji("rc", r); report(); je();
        return 1;
    }
    if (!strcmp(op, "ttysize")) {
        struct winsize ws; memset(&ws, 0, sizeof ws); ws.ws_row = AI(0); ws.ws_col = AI(1);
        ioctl(mfd, TIOCSWINSZ, &ws); raise(SIGWINCH);
        jb(); js("op", op); ji("width", cligen_terminal_width(H[cur])); ji("rows", cligen_terminal_rows(H[cur])); ji("same", tty_same()); je();
        return 1;
    }
    if (!strcmp(op, "ttyfd")) { /* n: a registered descriptor whose function prints n lines */
        char b[64]; int n = AI(0);
        if (pfd[0] < 0) { if (pipe2(pfd, O_CLOEXEC) < 0) exit(99); cligen_regfd(pfd[0], regout, NULL); }
        memset(b, 'x', sizeof b); if (n > 0 && write(pfd[1], b, n > 64 ? 64 : n) < 0) exit(99);
        return 1;
    }
    if (!strcmp(op, "ttyecho")) { struct termios t; int r; if (AI(0)) cligen_echo_on(); else cligen_echo_off(); r = tcgetattr(0, &t); jb(); js("op", op); ji("echo", r == 0 && (t.c_lflag & ECHO)); ji("same", tty_same()); je(); return 1; }
    if (!strcmp(op, "ttyend")) {
        if (pfd[0] >= 0) { cligen_unregfd(pfd[0]); close(pfd[0]); close(pfd[1]); pfd[0] = pfd[1] = -1; }
        jb(); js("op", op); ji("same", tty_same()); je();
        tty_reset(); return 1;
    }
    return 0;
}
void tty_clean(void)
{
    if (pfd[0] >= 0) { cligen_unregfd(pfd[0]); close(pfd[0]); close(pfd[1]); pfd[0] = pfd[1] = -1; }
    tty_reset();
}
