// rss FILE PROG ARGS...: runs PROG and writes to FILE how much memory it had at most (KiB).
// A process of its own between Python and the program: the peak of a process includes what it had before exec.
#include <cstdio>
#include <csignal>
#include <cstdlib>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
int main(int argc, char **argv)
{
  if (argc < 3) return 125;
  const pid_t p = fork();
  if (p < 0) return 125;
  if (p == 0)
  {
    execv(argv[2], argv + 2);
    _exit(126);
  }
  int st = 0;
  struct rusage ru;
  if (wait4(p, &st, 0, &ru) != p) return 125;
  if (FILE *f = fopen(argv[1], "w"))
  {
    fprintf(f, "%ld", ru.ru_maxrss);
    fclose(f);
  }
  if (WIFSIGNALED(st))
  {
    signal(WTERMSIG(st), SIG_DFL);
    kill(getpid(), WTERMSIG(st));
  }
  return WEXITSTATUS(st);
}
