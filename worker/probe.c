/* probe: a command whose arguments are actions, run in order.  Used as the external program of
 * generated pipelines, so that what a child process sees and does is fully observable.
 *   w:FD:HEX       write the bytes to FD            W:FD:FILE:CHUNK[:US] copy FILE to FD in chunks, pausing US us
 *   s:MS           sleep                            x:N   exit with N          k:N  kill itself with signal N
 *   r              read stdin to EOF                R:FILE  the same, storing the bytes in FILE
 *   S:FILE:US      the same as R, slowly (4096 byte reads, US us apart)
 *   n:N            read N bytes from stdin          i   copy stdin to stdout
 *   O:PATH:FILE    read PATH to EOF into FILE       P:PATH:HEX / Q:PATH:SRC  write bytes / file SRC to PATH
 *   f:FILE         describe the open descriptors    a:FILE argv   e:FILE environ   c:FILE cwd
 *   T:N            start N threads that wait
 *   t:FILE         append a line with the pid       u:FILE  wait until FILE exists (max 100 s)
 *   F:I:r:FILE / F:I:w:FILE  the file named by argument I (or by what follows its =) is read into FILE / written from it
 *   -…, other      ignored (so that option-like arguments can be tested)
 * With PROBE_ARGV_DIR set, it only stores its argument vector, NUL separated, in a new file there. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>
extern char **environ;
static void die(const char *w, int n) { dprintf(2, "probe: %s: %s\n", w, strerror(errno)); _exit(n); }
static void us(long n) { struct timespec t = { n / 1000000, (n % 1000000) * 1000 }; while (nanosleep(&t, &t) && errno == EINTR); }
static void wr(int fd, const char *b, size_t n) {
  while (n) { ssize_t k = write(fd, b, n); if (k < 0) { if (errno == EINTR) continue; die("write", 101); } b += k; n -= k; }
}
static int creat_(const char *p) { int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0666); if (fd < 0) die(p, 102); return fd; }
static size_t hex(const char *h, char *o) { size_t n = 0; unsigned v; while (h[0] && h[1] && sscanf(h, "%2x", &v) == 1) { o[n++] = v; h += 2; } return n; }
static void pump(int in, int out, size_t chunk, long pause) {
  char *b = malloc(chunk ? chunk : 1);
  for (;;) { ssize_t k = read(in, b, chunk); if (k < 0) { if (errno == EINTR) continue; die("read", 103); } if (!k) break; if (out >= 0) wr(out, b, k); if (pause) us(pause); }
  free(b);
}
static void vec(const char *f, char **v) {
  char t[5000]; snprintf(t, sizeof t, "%s.part", f);
  int fd = creat_(t); for (; *v; v++) wr(fd, *v, strlen(*v) + 1); close(fd); rename(t, f);
}
static void *idle(void *x) { for (;;) pause(); return x; }
int main(int argc, char **argv) {
  const char *d = getenv("PROBE_ARGV_DIR");
  if (d && *d) { char f[4096]; snprintf(f, sizeof f, "%s/argv.%d", d, (int) getpid()); vec(f, argv); return 0; }
  char *buf = malloc(1 << 20);
  for (int i = 1; i < argc; i++) {
    char *a = strdup(argv[i]), *p[6] = { 0 }; int n = 0;
    if (strlen(a) > 1 && a[1] != ':') continue;
    if (!a[0]) continue;
    for (char *q = a; q && n < 5; ) { p[n++] = q; q = strchr(q, ':'); if (q) *q++ = 0; }
    char op = p[0][0];
    switch (op) {
    case 'w': { size_t k = strlen(p[2] ? p[2] : "") / 2 + 1; char *o = malloc(k); k = hex(p[2] ? p[2] : "", o); wr(atoi(p[1]), o, k); free(o); break; }
    case 'W': { int in = open(p[2], O_RDONLY | O_CLOEXEC); if (in < 0) die(p[2], 104); pump(in, atoi(p[1]), n > 3 ? atol(p[3]) : 4096, n > 4 ? atol(p[4]) : 0); close(in); break; }
    case 's': us(atol(p[1]) * 1000); break;
    case 'x': _exit(atoi(p[1]));
    case 'k': { struct rlimit z = { 0, 0 }; setrlimit(RLIMIT_CORE, &z); signal(atoi(p[1]), SIG_DFL); sigset_t e; sigemptyset(&e); sigprocmask(SIG_SETMASK, &e, 0); kill(getpid(), atoi(p[1])); us(50000); break; }
    case 'r': pump(0, -1, 65536, 0); break;
    case 'R': { int o = creat_(p[1]); pump(0, o, 65536, 0); close(o); break; }
    case 'S': { int o = creat_(p[1]); pump(0, o, 4096, atol(p[2])); close(o); break; }
    case 'n': { long k = atol(p[1]); while (k > 0) { ssize_t r = read(0, buf, k < (1 << 20) ? k : (1 << 20)); if (r <= 0) break; k -= r; } break; }
    case 'T': for (int k = atoi(p[1]); k > 0; k--) { pthread_t t; if (pthread_create(&t, 0, idle, 0)) die("thread", 108); } break;
    case 'i': pump(0, 1, 65536, 0); break;
    case 'O': { int in = open(p[1], O_RDONLY | O_CLOEXEC); if (in < 0) die(p[1], 105); int o = creat_(p[2]); pump(in, o, 65536, 0); close(o); close(in); break; }
    case 'P': { int o = open(p[1], O_WRONLY | O_CLOEXEC); if (o < 0) die(p[1], 106); char *t = malloc(strlen(p[2] ? p[2] : "") / 2 + 1); wr(o, t, hex(p[2] ? p[2] : "", t)); free(t); close(o); break; }
    case 'Q': { int o = open(p[1], O_WRONLY | O_CLOEXEC); if (o < 0) die(p[1], 106); int in = open(p[2], O_RDONLY | O_CLOEXEC); if (in < 0) die(p[2], 104); pump(in, o, 65536, 0); close(in); close(o); break; }
    case 'F': {
      char *q = argv[atoi(p[1])], *e = strchr(q, '='); if (*q == '-' && e) q = e + 1;
      int r = p[2][0] == 'r', fd = open(q, (r ? O_RDONLY : O_WRONLY) | O_CLOEXEC); if (fd < 0) die(q, 108);
      int o = r ? creat_(p[3]) : open(p[3], O_RDONLY | O_CLOEXEC); if (o < 0) die(p[3], 104);
      pump(r ? fd : o, r ? o : fd, 4096, 0); close(fd); close(o); break; }
    case 'f': {
      char t[5000]; snprintf(t, sizeof t, "%s.part", p[1]);
      struct stat st[1024]; int have[1024], fl[1024]; long long off[1024];
      for (int k = 0; k < 1024; k++) { have[k] = fstat(k, &st[k]) == 0; fl[k] = have[k] ? fcntl(k, F_GETFL) : 0; off[k] = have[k] ? lseek(k, 0, SEEK_CUR) : -1; }
      int fd = creat_(t);
      for (int k = 0; k < 1024; k++) if (have[k]) {
        char l[64], tgt[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", k); ssize_t m = readlink(l, tgt, sizeof tgt - 1); tgt[m < 0 ? 0 : m] = 0;
        dprintf(fd, "%d\t%llu\t%llu\t%o\t%d\t%lld\t%s\n", k, (unsigned long long) st[k].st_dev, (unsigned long long) st[k].st_ino, st[k].st_mode, fl[k], off[k], tgt);
      }
      close(fd); rename(t, p[1]); break; }
    case 'a': vec(p[1], argv); break;
    case 'e': vec(p[1], environ); break;
    case 'c': { char t[5000]; if (!getcwd(buf, 1 << 20)) strcpy(buf, "?"); snprintf(t, sizeof t, "%s.part", p[1]); int o = creat_(t); wr(o, buf, strlen(buf)); close(o); rename(t, p[1]); break; }
    case 't': { int o = open(p[1], O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666); if (o < 0) die(p[1], 107); dprintf(o, "%d\n", (int) getpid()); close(o); break; }
    case 'u': for (int k = 0; k < 100000 && access(p[1], F_OK); k++) us(1000); break;
    }
    free(a);
  }
  return 0;
}
