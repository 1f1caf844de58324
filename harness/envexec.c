/* executes a program with exactly the environment read from fd 5 (entries
 * separated by NUL), whatever these entries look like */
#include <fcntl.h>
#include <unistd.h>
static char buf[1 << 20];
static char *env[4096];
int main(int argc, char **argv) {
  long n = 0, r, i;
  int k = 0;
  while ((r = read(5, buf + n, sizeof buf - 1 - n)) > 0) n += r;
  close(5);
  for (i = 0; i < n && k < 4095;) {
    env[k++] = buf + i;
    while (i < n && buf[i]) i++;
    i++;
  }
  execve(argv[1], argv + 1, env);
  _exit(127);
}
