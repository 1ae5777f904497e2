// Does a call end in the library's deliberate crash (cee_segfault)?
#pragma once
#include <csetjmp>
#include <csignal>
static sigjmp_buf trap_buf;
static void trap_hit(int s) { siglongjmp(trap_buf, s); }
template <class F> bool trapped(F f) {
  static const int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGABRT};
  struct sigaction old[5], sa = {};
  sa.sa_handler = trap_hit;
  sa.sa_flags = SA_NODEFER;
  for (int i = 0; i < 5; i++) sigaction(sigs[i], &sa, &old[i]);
  volatile bool hit = true;
  if (sigsetjmp(trap_buf, 1) == 0) { f(); hit = false; }
  for (int i = 0; i < 5; i++) sigaction(sigs[i], &old[i], nullptr);
  return hit;
}
