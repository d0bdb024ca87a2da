// Observe the library's documented reaction to a misuse, std::abort(), in process.
#pragma once
#include <csetjmp>
#include <csignal>
#include <functional>
static sigjmp_buf ab_env; static volatile sig_atomic_t ab_armed = 0;
static void ab_handler(int s) { if (ab_armed) { ab_armed = 0; siglongjmp(ab_env, 1); } signal(s, SIG_DFL); raise(s); }
// true when f calls abort(); destructors between here and the abort do not run (the leak is deliberate)
__attribute__((noinline)) static bool aborts(const std::function<void()>& f) {
	struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = ab_handler; sa.sa_flags = SA_NODEFER; sigaction(SIGABRT, &sa, &old);
	volatile bool r = false;
	if (sigsetjmp(ab_env, 1) == 0) { ab_armed = 1; f(); ab_armed = 0; } else r = true;
	ab_armed = 0; sigaction(SIGABRT, &old, 0);
	return r;
}
