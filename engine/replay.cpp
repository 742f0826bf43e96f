// Plain run-time: runs a harness natively (uninstrumented code) on one concrete input file.
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <unistd.h>
#include <vector>
#include "sym.h"
static std::vector<uint64_t> vals;
static size_t pos = 0;
static std::vector<std::pair<const char *, void (*)()>> & regs()
{
  static std::vector<std::pair<const char *, void (*)()>> r;
  return r;
}
extern "C" {
void sym_register(const char * n, void (*f)()) { regs().push_back({n, f}); }
uint64_t sym_var(const char *, int bits)
{
  uint64_t v = pos < vals.size() ? vals[pos] : 0;
  pos++;
  return bits >= 64 ? v : v & ((1ULL << bits) - 1);
}
uint64_t sym_choice(const char * name, uint64_t n)
{
  if (n <= 1) return 0;
  int bits = 1;
  while ((1ULL << bits) < n) bits++;
  uint64_t v = sym_var(name, bits);
  return v < n ? v : 0;
}
void sym_assume_(bool c) { if (!c) { printf("REPLAY assume-failed\n"); fflush(stdout); _exit(3); } }
void sym_assert_(bool c, const char * label)
{
  if (!c) {
    printf("REPLAY-VIOLATION %s\n", label);
    fflush(stdout);
    _exit(1);
  }
}
bool sym_and(bool a, bool b) { return a & b; }
void sym_cover(const char * l) { printf("REPLAY cover %s\n", l); }
void sym_make(void * p, size_t n, const char * name)
{
  for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)sym_var(name, 8);
}
uint64_t sym_pin(uint64_t v, int) { return v; }
void sym_end() { printf("REPLAY end\n"); fflush(stdout); _exit(0); }
int sym_replaying() { return 1; }
void sym_note(const char * f, ...)
{
  va_list a;
  va_start(a, f);
  vprintf(f, a);
  va_end(a);
  printf("\n");
}
}
static void onsig(int s)
{
  const char * m = s == SIGALRM ? "REPLAY-VIOLATION path-timeout\n"
                   : s == SIGFPE ? "REPLAY-VIOLATION crash:SIGFPE\n"
                   : s == SIGABRT ? "REPLAY-VIOLATION crash:abort\n" : "REPLAY-VIOLATION crash:SIGSEGV\n";
  (void)!write(1, m, strlen(m));
  _exit(1);
}
static void onterm()
{
  printf("REPLAY-VIOLATION uncaught-exception\n");
  try {
    if (std::current_exception()) std::rethrow_exception(std::current_exception());
  } catch (const std::exception & e) {
    printf("  what: %s\n", e.what());
  } catch (...) {
  }
  fflush(stdout);
  _exit(1);
}
int main(int argc, char ** argv)
{
  if (argc < 3) return 2;
  FILE * f = fopen(argv[2], "r");
  if (!f) return 2;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') continue;
    char name[1024];
    int bits;
    unsigned long long v;
    if (sscanf(line, "%1023s %d %llu", name, &bits, &v) == 3) vals.push_back(v);
  }
  fclose(f);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}) signal(s, onsig);
  std::set_terminate(onterm);
  alarm(60);
  for (auto & r : regs())
    if (!strcmp(r.first, argv[1])) {
      r.second();
      printf("REPLAY ok\n");
      fflush(stdout);
      _exit(0);
    }
  return 2;
}
