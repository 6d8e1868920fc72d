// stands in for clang-format: a deterministic change to the text, and failures on demand
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int argc, char** argv) {
  int help = 0, fallback = 0;
  for (int i = 1; i < argc; ++i) {
    help |= !strcmp(argv[i], "--help");
    fallback |= !strncmp(argv[i], "-fallback-style", 15);
  }
  if (help) return 0;
  int fail = -1, mode = 0, n = 0;
  const char* c = getenv("GSIM_FORMAT");
  if (fallback && c) {
    FILE* f = fopen(c, "r");
    if (f) {
      if (fscanf(f, "%d %d %d", &fail, &mode, &n) != 3) n = 0;
      fclose(f);
      if ((f = fopen(c, "w"))) fprintf(f, "%d %d %d", fail, mode, n + 1), fclose(f);
    }
  }
  int bad = fail == n;
  if (bad && mode == 0) return 1;
  static char buf[1 << 22];
  size_t len = fread(buf, 1, sizeof buf, stdin);
  if (bad && mode == 1) fwrite(buf, 1, len / 2, stdout), fflush(stdout), kill(getpid(), SIGKILL);
  if (bad && mode == 2) fwrite(buf, 1, len / 3, stdout), exit(1);
  fwrite(buf, 1, len, stdout);
  if (fallback) fputs("// formatted\n", stdout);
  return 0;
}
