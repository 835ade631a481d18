#include "core.h"
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=99:symbolize=0:alloc_dealloc_mismatch=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_segv=1:handle_abort=0:print_legend=0:print_full_thread_history=0:max_allocation_size_mb=1024:quarantine_size_mb=8:log_to_syslog=0";
}
int main(int argc, char **argv) { return sim::sim_main(argc, argv); }
