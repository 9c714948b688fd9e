#include "sys.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <sys/wait.h>

int Sys::open(const char *p, int fl, int mode) { return ::open(p, fl, mode); }
int Sys::openat(int d, const char *p, int fl, int mode) { return p[0] == '/' || d == AT_FDCWD ? open(p, fl, mode) : ::openat(d, p, fl, mode); }
int Sys::close(int fd) { return ::close(fd); }
int Sys::dup(int fd) { return ::dup(fd); }
int Sys::dup3(int fd, int n, int f, bool two) { return two ? ::dup2(fd, n) : ::dup3(fd, n, f); }
int Sys::fcntl(int fd, int c, long a) { return ::fcntl(fd, c, a); }
int Sys::ioctl(int fd, unsigned long r, void *a) { return ::ioctl(fd, r, a); }
char *Sys::realpath(const char *p, char *o) { return ::realpath(p, o); }
int Sys::poll(struct pollfd *f, nfds_t n, int t) { return ::poll(f, n, t); }
int Sys::accept(int fd, struct sockaddr *a, socklen_t *l, int f) { return ::accept4(fd, a, l, f); }
int Sys::socket(int d, int t, int p) { return ::socket(d, t, p); }
int Sys::socketpair(int d, int t, int p, int s[2]) { return ::socketpair(d, t, p, s); }
int Sys::bind(int fd, const struct sockaddr *a, socklen_t l) { return ::bind(fd, a, l); }
int Sys::listen(int fd, int n) { return ::listen(fd, n); }
int Sys::connect(int fd, const struct sockaddr *a, socklen_t l) { return ::connect(fd, a, l); }
ssize_t Sys::sendmsg(int fd, const struct msghdr *m, int f) { return ::sendmsg(fd, m, f); }
ssize_t Sys::recvmsg(int fd, struct msghdr *m, int f) { return ::recvmsg(fd, m, f); }
ssize_t Sys::read(int fd, void *b, size_t n) { return ::read(fd, b, n); }
ssize_t Sys::write(int fd, const void *b, size_t n) { return ::write(fd, b, n); }
int Sys::shutdown(int fd, int h) { return ::shutdown(fd, h); }
int Sys::getsockopt(int fd, int l, int o, void *v, socklen_t *n) { return ::getsockopt(fd, l, o, v, n); }
int Sys::setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return ::setsockopt(fd, l, o, v, n); }
int Sys::pipe2(int p[2], int f) { return ::pipe2(p, f); }
void *Sys::malloc(size_t n) { return ::malloc(n); }
void *Sys::calloc(size_t a, size_t b) { return ::calloc(a, b); }
void *Sys::realloc(void *p, size_t n) { return ::realloc(p, n); }
void Sys::free(void *p) { ::free(p); }
int Sys::stat(const char *p, struct stat *s, bool f) { return f ? ::stat(p, s) : ::lstat(p, s); }
int Sys::fstat(int fd, struct stat *s) { return ::fstat(fd, s); }
ssize_t Sys::readlink(const char *p, char *b, size_t n) { return ::readlink(p, b, n); }
int Sys::access(const char *p, int m) { return ::access(p, m); }
// Destructive calls do nothing unless a harness allows them.
int Sys::unlink(const char *) { errno = EPERM; return -1; }
int Sys::chmod(const char *, mode_t) { errno = EPERM; return -1; }
int Sys::fchmod(int, mode_t) { errno = EPERM; return -1; }
int Sys::chown(const char *, uid_t, gid_t, bool) { errno = EPERM; return -1; }
int Sys::fchown(int, uid_t, gid_t) { errno = EPERM; return -1; }
int Sys::kill(pid_t, int) { errno = EPERM; return -1; }
pid_t Sys::fork() { errno = EAGAIN; return -1; }
pid_t Sys::waitpid(pid_t p, int *s, int f) { return ::waitpid(p, s, f); }
void Sys::exit(int c) { ::exit(c); }
void Sys::_exit(int c) { ::_exit(c); }
int Sys::sigaction(int s, const struct sigaction *n, struct sigaction *o) { return ::sigaction(s, n, o); }
int Sys::sigprocmask(int h, const sigset_t *s, sigset_t *o) { return ::sigprocmask(h, s, o); }
int Sys::isatty(int) {
	errno = ENOTTY;
	return 0;
}
int Sys::raise(int s) { return kill(getpid(), s); }
struct passwd *Sys::getpwnam(const char *n) { return ::getpwnam(n); }
struct group *Sys::getgrnam(const char *n) { return ::getgrnam(n); }
uid_t Sys::getuid() { return ::getuid(); }
gid_t Sys::getgid() { return ::getgid(); }
int Sys::output(const char *, size_t n, bool) { return (int)n; }
int Sys::exec(const char *, char *const *, char *const *, bool) {
	errno = EACCES;
	return -1;
}
int Sys::setids(const char *fn, unsigned r, unsigned e, unsigned s) {
	std::string f = fn;
	return f == "setuid" ? ::setuid(e) : f == "setgid" ? ::setgid(e) : f == "setresuid" ? ::setresuid(r, e, s) : f == "setresgid" ? ::setresgid(r, e, s) :
	       f == "setreuid" ? ::setreuid(r, e) : f == "setregid" ? ::setregid(r, e) : f == "seteuid" ? ::seteuid(e) : ::setegid(e);
}
char *Sys::getenv(const char *n) { return ::getenv(n); }

static Sys default_sys;
Sys *sut_sys = &default_sys, *lib_sys = &default_sys;

#define P(x) sut_##x
#define SYS sut_sys
#include "wrap.inc"
#undef P
#undef SYS
#define P(x) lib_##x
#define SYS lib_sys
#include "wrap.inc"
