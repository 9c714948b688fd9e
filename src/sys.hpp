// The boundary between the code under test and libc. Objects of /repo are linked with these names instead of libc's
// (objcopy --redefine-sym NAME=PFX_NAME); each wrapper calls the Sys object installed by the harness, whose default
// behaviour is the real call.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <pwd.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

struct Sys {
	virtual ~Sys() {}
	virtual int open(const char *p, int fl, int mode);
	virtual int openat(int d, const char *p, int fl, int mode);
	virtual int close(int fd);
	virtual int dup(int fd);
	virtual int dup3(int fd, int nfd, int flags, bool two);
	virtual int fcntl(int fd, int cmd, long arg);
	virtual int ioctl(int fd, unsigned long req, void *arg);
	virtual char *realpath(const char *p, char *out);
	virtual int poll(struct pollfd *f, nfds_t n, int timeout);
	virtual int accept(int fd, struct sockaddr *a, socklen_t *l, int flags);
	virtual int socket(int d, int t, int p);
	virtual int socketpair(int d, int t, int p, int sv[2]);
	virtual int bind(int fd, const struct sockaddr *a, socklen_t l);
	virtual int listen(int fd, int n);
	virtual int connect(int fd, const struct sockaddr *a, socklen_t l);
	virtual ssize_t sendmsg(int fd, const struct msghdr *m, int fl);
	virtual ssize_t recvmsg(int fd, struct msghdr *m, int fl);
	virtual ssize_t read(int fd, void *b, size_t n);
	virtual ssize_t write(int fd, const void *b, size_t n);
	virtual int shutdown(int fd, int how);
	virtual int getsockopt(int fd, int l, int o, void *v, socklen_t *n);
	virtual int setsockopt(int fd, int l, int o, const void *v, socklen_t n);
	virtual int pipe2(int p[2], int flags);
	virtual void *malloc(size_t n);
	virtual void *calloc(size_t a, size_t b);
	virtual void *realloc(void *p, size_t n);
	virtual void free(void *p);
	virtual int stat(const char *p, struct stat *st, bool follow);
	virtual int fstat(int fd, struct stat *st);
	virtual ssize_t readlink(const char *p, char *b, size_t n);
	virtual int access(const char *p, int m);
	virtual int unlink(const char *p);
	virtual int chmod(const char *p, mode_t m);
	virtual int fchmod(int fd, mode_t m);
	virtual int chown(const char *p, uid_t u, gid_t g, bool follow);
	virtual int fchown(int fd, uid_t u, gid_t g);
	virtual pid_t fork();
	virtual pid_t waitpid(pid_t p, int *st, int fl);
	virtual int kill(pid_t p, int sig);
	virtual int exec(const char *p, char *const a[], char *const e[], bool search);
	virtual int setids(const char *fn, unsigned r, unsigned e, unsigned s);
	virtual void exit(int c);
	virtual void _exit(int c);
	virtual int sigaction(int s, const struct sigaction *n, struct sigaction *o);
	virtual int sigprocmask(int how, const sigset_t *s, sigset_t *o);
	virtual int raise(int sig);
	virtual int isatty(int fd);
	virtual struct passwd *getpwnam(const char *n);
	virtual struct group *getgrnam(const char *n);
	virtual uid_t getuid();
	virtual gid_t getgid();
	virtual int output(const char *s, size_t n, bool err); // everything printed
	virtual char *getenv(const char *n);
};
// installed per prefix
extern Sys *sut_sys, *lib_sys;
