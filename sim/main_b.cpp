#include "core.h"
#include <execinfo.h>
#include <malloc.h>
#include <signal.h>
#include <stdlib.h>
#include <unistd.h>
static void where(int s) { void *b[60]; int n = backtrace(b, 60); backtrace_symbols_fd(b, n, 2); signal(s, SIG_DFL); raise(s); }
int main(int argc, char **argv) {
  mallopt(M_PERTURB, 0xA5); // memory given back does not keep its contents
  if (getenv("SIM_BT")) { void *b[4]; backtrace(b, 4); signal(SIGSEGV, where); signal(SIGABRT, where); }
  return sim::sim_main(argc, argv);
}
