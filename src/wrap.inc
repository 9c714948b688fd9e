// Included once per prefix with P(name) and SYS defined.
extern "C" {
int P(open)(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT|O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); return SYS->open(p, fl, m); }
int P(open64)(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT|O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); return SYS->open(p, fl, m); }
int P(openat)(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT|O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); return SYS->openat(d, p, fl, m); }
int P(openat64)(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT|O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); return SYS->openat(d, p, fl, m); }
int P(close)(int fd) { return SYS->close(fd); }
int P(close_range)(unsigned a, unsigned b, int) { for (unsigned i = a; i <= b && i < 8192; i++) SYS->close(i); return 0; }
int P(dup)(int fd) { return SYS->dup(fd); }
int P(dup2)(int fd, int n) { return SYS->dup3(fd, n, 0, true); }
int P(dup3)(int fd, int n, int f) { return SYS->dup3(fd, n, f, false); }
int P(fcntl)(int fd, int c, ...) { va_list a; va_start(a, c); long v = va_arg(a, long); va_end(a); return SYS->fcntl(fd, c, v); }
int P(fcntl64)(int fd, int c, ...) { va_list a; va_start(a, c); long v = va_arg(a, long); va_end(a); return SYS->fcntl(fd, c, v); }
int P(ioctl)(int fd, unsigned long r, ...) { va_list a; va_start(a, r); void *v = va_arg(a, void *); va_end(a); return SYS->ioctl(fd, (unsigned)r, v); }
char *P(realpath)(const char *p, char *o) { return SYS->realpath(p, o); }
char *P(__realpath_chk)(const char *p, char *o, size_t) { return SYS->realpath(p, o); }
char *P(canonicalize_file_name)(const char *p) { return SYS->realpath(p, NULL); }
int P(poll)(struct pollfd *f, nfds_t n, int t) { return SYS->poll(f, n, t); }
int P(__poll_chk)(struct pollfd *f, nfds_t n, int t, size_t) { return SYS->poll(f, n, t); }
int P(ppoll)(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *) { return SYS->poll(f, n, t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1); }
int P(accept)(int fd, struct sockaddr *a, socklen_t *l) { return SYS->accept(fd, a, l, 0); }
int P(accept4)(int fd, struct sockaddr *a, socklen_t *l, int f) { return SYS->accept(fd, a, l, f); }
int P(socket)(int d, int t, int p) { return SYS->socket(d, t, p); }
int P(socketpair)(int d, int t, int p, int s[2]) { return SYS->socketpair(d, t, p, s); }
int P(bind)(int fd, const struct sockaddr *a, socklen_t l) { return SYS->bind(fd, a, l); }
int P(listen)(int fd, int n) { return SYS->listen(fd, n); }
int P(connect)(int fd, const struct sockaddr *a, socklen_t l) { return SYS->connect(fd, a, l); }
ssize_t P(sendmsg)(int fd, const struct msghdr *m, int f) { return SYS->sendmsg(fd, m, f); }
ssize_t P(recvmsg)(int fd, struct msghdr *m, int f) { return SYS->recvmsg(fd, m, f); }
ssize_t P(send)(int fd, const void *b, size_t n, int f) { struct iovec v = {(void *)b, n}; struct msghdr m = {}; m.msg_iov = &v; m.msg_iovlen = 1; return SYS->sendmsg(fd, &m, f); }
ssize_t P(recv)(int fd, void *b, size_t n, int f) { struct iovec v = {b, n}; struct msghdr m = {}; m.msg_iov = &v; m.msg_iovlen = 1; return SYS->recvmsg(fd, &m, f); }
ssize_t P(sendto)(int fd, const void *b, size_t n, int f, const struct sockaddr *, socklen_t) { struct iovec v = {(void *)b, n}; struct msghdr m = {}; m.msg_iov = &v; m.msg_iovlen = 1; return SYS->sendmsg(fd, &m, f); }
ssize_t P(recvfrom)(int fd, void *b, size_t n, int f, struct sockaddr *, socklen_t *) { struct iovec v = {b, n}; struct msghdr m = {}; m.msg_iov = &v; m.msg_iovlen = 1; return SYS->recvmsg(fd, &m, f); }
ssize_t P(read)(int fd, void *b, size_t n) { return SYS->read(fd, b, n); }
ssize_t P(__read_chk)(int fd, void *b, size_t n, size_t) { return SYS->read(fd, b, n); }
ssize_t P(write)(int fd, const void *b, size_t n) { return SYS->write(fd, b, n); }
ssize_t P(readv)(int fd, const struct iovec *v, int n) { return n ? SYS->read(fd, v[0].iov_base, v[0].iov_len) : 0; }
ssize_t P(writev)(int fd, const struct iovec *v, int n) { return n ? SYS->write(fd, v[0].iov_base, v[0].iov_len) : 0; }
int P(dprintf)(int fd, const char *f, ...) { char b[4096]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); return (int)SYS->write(fd, b, n < (int)sizeof b ? n : sizeof b - 1); }
int P(shutdown)(int fd, int h) { return SYS->shutdown(fd, h); }
int P(getsockopt)(int fd, int l, int o, void *v, socklen_t *n) { return SYS->getsockopt(fd, l, o, v, n); }
int P(setsockopt)(int fd, int l, int o, const void *v, socklen_t n) { return SYS->setsockopt(fd, l, o, v, n); }
int P(pipe)(int p[2]) { return SYS->pipe2(p, 0); }
int P(pipe2)(int p[2], int f) { return SYS->pipe2(p, f); }
void *P(malloc)(size_t n) { return SYS->malloc(n); }
void *P(calloc)(size_t a, size_t b) { return SYS->calloc(a, b); }
void *P(realloc)(void *p, size_t n) { return SYS->realloc(p, n); }
void *P(reallocarray)(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; } return SYS->realloc(p, n); }
void P(free)(void *p) { SYS->free(p); }
char *P(strdup)(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)SYS->malloc(n); return p ? (char *)memcpy(p, s, n) : NULL; }
char *P(__strdup)(const char *s) { return P(strdup)(s); }
char *P(strndup)(const char *s, size_t l) { size_t n = strnlen(s, l); char *p = (char *)SYS->malloc(n + 1); if (!p) return NULL; memcpy(p, s, n); p[n] = 0; return p; }
int P(vasprintf)(char **o, const char *f, va_list a) { char b[4096]; int n = vsnprintf(b, sizeof b, f, a); *o = P(strdup)(b); return *o ? n : -1; }
int P(asprintf)(char **o, const char *f, ...) { va_list a; va_start(a, f); int n = P(vasprintf)(o, f, a); va_end(a); return n; }
int P(stat)(const char *p, struct stat *s) { return SYS->stat(p, s, true); }
int P(lstat)(const char *p, struct stat *s) { return SYS->stat(p, s, false); }
int P(stat64)(const char *p, struct stat *s) { return SYS->stat(p, s, true); }
int P(lstat64)(const char *p, struct stat *s) { return SYS->stat(p, s, false); }
int P(fstat)(int fd, struct stat *s) { return SYS->fstat(fd, s); }
int P(fstat64)(int fd, struct stat *s) { return SYS->fstat(fd, s); }
int P(fstatat)(int, const char *p, struct stat *s, int fl) { return SYS->stat(p, s, !(fl & AT_SYMLINK_NOFOLLOW)); }
ssize_t P(readlink)(const char *p, char *b, size_t n) { return SYS->readlink(p, b, n); }
int P(access)(const char *p, int m) { return SYS->access(p, m); }
int P(faccessat)(int, const char *p, int m, int) { return SYS->access(p, m); }
int P(unlink)(const char *p) { return SYS->unlink(p); }
int P(unlinkat)(int, const char *p, int) { return SYS->unlink(p); }
int P(remove)(const char *p) { return SYS->unlink(p); }
int P(chmod)(const char *p, mode_t m) { return SYS->chmod(p, m); }
int P(fchmod)(int fd, mode_t m) { return SYS->fchmod(fd, m); }
int P(chown)(const char *p, uid_t u, gid_t g) { return SYS->chown(p, u, g, true); }
int P(lchown)(const char *p, uid_t u, gid_t g) { return SYS->chown(p, u, g, false); }
int P(fchown)(int fd, uid_t u, gid_t g) { return SYS->fchown(fd, u, g); }
pid_t P(fork)(void) { return SYS->fork(); }
pid_t P(waitpid)(pid_t p, int *s, int f) { return SYS->waitpid(p, s, f); }
pid_t P(wait)(int *s) { return SYS->waitpid(-1, s, 0); }
int P(kill)(pid_t p, int s) { return SYS->kill(p, s); }
void P(exit)(int c) { SYS->exit(c); __builtin_unreachable(); }
void P(_exit)(int c) { SYS->_exit(c); __builtin_unreachable(); }
void P(_Exit)(int c) { SYS->_exit(c); __builtin_unreachable(); }
int P(execve)(const char *p, char *const a[], char *const e[]) { return SYS->exec(p, a, e, false); }
int P(execv)(const char *p, char *const a[]) { return SYS->exec(p, a, ::environ, false); }
int P(execvp)(const char *p, char *const a[]) { return SYS->exec(p, a, ::environ, true); }
int P(execvpe)(const char *p, char *const a[], char *const e[]) { return SYS->exec(p, a, e, true); }
static int P(execlist)(const char *p, const char *a0, va_list l, bool path) { char *a[64]; int n = 0; a[n++] = (char *)a0; while (n < 63 && a[n - 1]) a[n++] = va_arg(l, char *); a[63] = NULL; return SYS->exec(p, a, ::environ, path); }
int P(execle)(const char *p, const char *a0, ...) { va_list l; va_start(l, a0); char *a[64]; int n = 0; a[n++] = (char *)a0; while (n < 63 && a[n - 1]) a[n++] = va_arg(l, char *); a[63] = NULL; char **e = va_arg(l, char **); va_end(l); return SYS->exec(p, a, e, false); }
int P(execl)(const char *p, const char *a0, ...) { va_list l; va_start(l, a0); int r = P(execlist)(p, a0, l, false); va_end(l); return r; }
int P(execlp)(const char *p, const char *a0, ...) { va_list l; va_start(l, a0); int r = P(execlist)(p, a0, l, true); va_end(l); return r; }
int P(setuid)(uid_t u) { return SYS->setids("setuid", (uid_t)-1, u, (uid_t)-1); }
int P(setgid)(gid_t g) { return SYS->setids("setgid", (gid_t)-1, g, (gid_t)-1); }
int P(setresuid)(uid_t r, uid_t e, uid_t s) { return SYS->setids("setresuid", r, e, s); }
int P(setresgid)(gid_t r, gid_t e, gid_t s) { return SYS->setids("setresgid", r, e, s); }
int P(setreuid)(uid_t r, uid_t e) { return SYS->setids("setreuid", r, e, 0); }
int P(setregid)(gid_t r, gid_t e) { return SYS->setids("setregid", r, e, 0); }
int P(seteuid)(uid_t e) { return SYS->setids("seteuid", 0, e, 0); }
int P(setegid)(gid_t e) { return SYS->setids("setegid", 0, e, 0); }
int P(sigaction)(int s, const struct sigaction *n, struct sigaction *o) { return SYS->sigaction(s, n, o); }
int P(sigprocmask)(int h, const sigset_t *s, sigset_t *o) { return SYS->sigprocmask(h, s, o); }
int P(pthread_sigmask)(int h, const sigset_t *s, sigset_t *o) { return SYS->sigprocmask(h, s, o); }
int P(raise)(int s) { return SYS->raise(s); }
sighandler_t P(signal)(int s, sighandler_t h) { struct sigaction n = {}, o = {}; n.sa_handler = h; n.sa_flags = SA_RESTART; return SYS->sigaction(s, &n, &o) == 0 ? o.sa_handler : SIG_ERR; }
struct passwd *P(getpwnam)(const char *n) { return SYS->getpwnam(n); }
struct group *P(getgrnam)(const char *n) { return SYS->getgrnam(n); }
uid_t P(getuid)(void) { return SYS->getuid(); }
gid_t P(getgid)(void) { return SYS->getgid(); }
char *P(getenv)(const char *n) { return SYS->getenv(n); }
char *P(secure_getenv)(const char *n) { return SYS->getenv(n); }
static int P(vout)(bool err, const char *f, va_list a) { char *b = NULL; int n = vasprintf(&b, f, a); if (n > 0) SYS->output(b, n, err); if (n >= 0) free(b); return n; }
int P(printf)(const char *f, ...) { va_list a; va_start(a, f); int n = P(vout)(false, f, a); va_end(a); return n; }
int P(vprintf)(const char *f, va_list a) { return P(vout)(false, f, a); }
int P(fprintf)(FILE *o, const char *f, ...) { va_list a; va_start(a, f); int n = P(vout)(o == stderr, f, a); va_end(a); return n; }
int P(vfprintf)(FILE *o, const char *f, va_list a) { return P(vout)(o == stderr, f, a); }
int P(isatty)(int fd) { return SYS->isatty(fd); }
int P(puts)(const char *s) { SYS->output(s, strlen(s), false); return 1; }
int P(putchar)(int c) { char b = c; SYS->output(&b, 1, false); return c; }
int P(fputs)(const char *s, FILE *o) { SYS->output(s, strlen(s), o == stderr); return 1; }
int P(fputc)(int c, FILE *o) { char b = c; SYS->output(&b, 1, o == stderr); return c; }
int P(putc)(int c, FILE *o) { char b = c; SYS->output(&b, 1, o == stderr); return c; }
size_t P(fwrite)(const void *p, size_t s, size_t n, FILE *o) { SYS->output((const char *)p, s * n, o == stderr); return n; }
void P(perror)(const char *s) { int e = errno; SYS->output(s, strlen(s), true); errno = e; }
int P(fflush)(FILE *) { return 0; }
}
