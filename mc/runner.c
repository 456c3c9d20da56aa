/* Runs many short programs for one worker: reads jobs on stdin, answers on stdout.
   job: u32 timeout_ms, u32 uid, str cwd, u32 argc, str argv..., str stdin      (str: u32 length, bytes)
   answer: i32 status (-1: timeout), str stdout, str stderr */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

static void get(void *p, size_t n) {
  char *c = p;
  while (n) { ssize_t k = read(0, c, n); if (k <= 0) exit(0); c += k; n -= k; }
}
static void put(const void *p, size_t n) {
  const char *c = p;
  while (n) { ssize_t k = write(1, c, n); if (k <= 0) exit(1); c += k; n -= k; }
}
static uint32_t u32(void) { uint32_t v; get(&v, 4); return v; }
static char *str(uint32_t *len) {
  uint32_t n = u32(); char *s = malloc(n + 1);
  get(s, n); s[n] = 0; if (len) *len = n;
  return s;
}
static void answer(int fd) {
  off_t n = lseek(fd, 0, SEEK_END); uint32_t len = n > (8 << 20) ? 8 << 20 : n;
  char *b = malloc(len + 1); pread(fd, b, len, 0);
  put(&len, 4); put(b, len); free(b);
}
int main(int argc, char **argv) {
  char *envp[] = {argv[1], "LC_ALL=C", "HOME=/nonexistent", "_=/usr/bin/env", 0};
  signal(SIGPIPE, SIG_DFL);
  for (;;) {
    uint32_t timeout = u32(), uid = u32(), n, len; char *cwd = str(0);
    n = u32();
    char **av = calloc(n + 1, sizeof *av);
    for (uint32_t i = 0; i < n; i++) av[i] = str(0);
    char *in = str(&len);
    int fi = memfd_create("in", 0), fo = memfd_create("out", 0), fe = memfd_create("err", 0);
    fchmod(fi, 0666);
    if (write(fi, in, len) != len) exit(1);
    lseek(fi, 0, SEEK_SET);
    pid_t pid = fork();
    if (pid == 0) {
      struct rlimit r = {64 << 20, 64 << 20}, z = {0, 0};
      setsid();
      setrlimit(RLIMIT_FSIZE, &r); setrlimit(RLIMIT_CORE, &z);
      dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
      for (int i = 3; i < 30; i++) close(i);
      if (uid) { if (setgroups(0, 0) || setgid(uid) || setuid(uid)) _exit(125); }
      if (chdir(cwd)) _exit(126);
      execve(av[0], av, envp);
      _exit(127);
    }
    int pfd = syscall(SYS_pidfd_open, pid, 0), st; int32_t rc = -1;
    struct pollfd p = {pfd, POLLIN, 0};
    int k;
    do k = poll(&p, 1, timeout); while (k < 0 && errno == EINTR);
    if (k == 0) { kill(-pid, SIGKILL); kill(pid, SIGKILL); }
    waitpid(pid, &st, 0);
    kill(-pid, SIGKILL);
    if (k != 0) rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    put(&rc, 4); answer(fo); answer(fe);
    close(pfd); close(fi); close(fo); close(fe);
    for (uint32_t i = 0; i < n; i++) free(av[i]);
    free(av); free(in); free(cwd);
  }
}
