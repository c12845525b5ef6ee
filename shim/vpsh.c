/* vpsh: stands in for $SHELL. Reports its arguments and whole environment to the monitor over
 * $VPSH_SOCK, then does what it is told: print something, exit with a code, or hang. Static. */
#include <stdint.h>
#include <fcntl.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include <signal.h>
extern char **environ;
static void trace(const char *);
static void w(int fd, const void *b, size_t n) {
    const char *p = b;
    while (n) {
        ssize_t r = write(fd, p, n);
        if (r <= 0) { trace("write"); _exit(97); }
        p += r;
        n -= r;
    }
}
static void ws(int fd, const char *s) {
    uint32_t n = strlen(s);
    w(fd, &n, 4);
    w(fd, s, n);
}
static int rd(int fd, void *b, size_t n) {
    char *p = b;
    while (n) {
        ssize_t r = read(fd, p, n);
        if (r <= 0) return -1;
        p += r;
        n -= r;
    }
    return 0;
}
static void trace(const char *what) {
    const char *t = getenv("VPSH_TRACE");
    if (!t) return;
    int fd = open(t, O_WRONLY | O_CREAT | O_APPEND, 0600);
    char b[256];
    int n = snprintf(b, sizeof b, "%d %s errno %d\n", (int)getpid(), what, errno);
    if (write(fd, b, n)) {}
    close(fd);
}
int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    trace("start");
    const char *p = getenv("VPSH_SOCK");
    if (!p) return 98;
    int fd = socket(AF_UNIX, SOCK_STREAM, 0);
    struct sockaddr_un u = {0};
    u.sun_family = AF_UNIX;
    strncpy(u.sun_path, p, sizeof u.sun_path - 1);
    if (connect(fd, (void *)&u, sizeof u)) { trace("connect"); return 99; }
    uint32_t v[3];
    v[0] = getpid();
    v[1] = argc;
    v[2] = 0;
    for (char **e = environ; *e; e++) v[2]++;
    w(fd, v, 12);
    for (int i = 0; i < argc; i++) ws(fd, argv[i]);
    for (char **e = environ; *e; e++) ws(fd, *e);
    for (;;) {
        uint32_t c[2];
        if (rd(fd, c, 8)) {
            /* the monitor went away: behave like a hanging command (the monitor is gone) */
            trace("eof");
            return 96;
        }
        if (c[0] == 0) { trace("exit"); _exit(c[1]); }      /* exit code */
        if (c[0] == 1) {                 /* print c[1] bytes to stdout and stderr */
            char buf[4096];
            memset(buf, 'x', sizeof buf);
            uint32_t n = c[1];
            while (n) {
                uint32_t k = n > sizeof buf ? sizeof buf : n;
                if (write(1, buf, k) < 0) break;
                if (write(2, buf, k) < 0) break;
                n -= k;
            }
        }
        if (c[0] == 2) { kill(getpid(), c[1]); }
    }
}
