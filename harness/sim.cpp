// Simulated world: deterministic clocks and sleeping.  libstdc++'s steady/system clocks, sleeps,
// yields and timed condition-variable waits are interposed so that every run is a function of the
// symbolic inputs only; whenever the code under test sleeps or waits, the harness's idle hook runs
// (this is where "the other thread" - e.g. the real-time loop - takes its steps).
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <errno.h>
#include "rosstub.hpp"
namespace sim
{
int64_t now_ns = 1000000000LL;
bool ros_ok = true;
std::function<void()> * idle_hook = nullptr;
static int depth = 0;
void idle(int64_t ns)
{
  if (ns < 1000) ns = 1000;
  now_ns += ns;
  if (idle_hook && depth == 0) {
    ++depth;
    (*idle_hook)();
    --depth;
  }
}
}  // namespace sim
// The drivers rename these symbols in every object under test (objcopy --redefine-syms sim.syms).
extern "C" {
int64_t sim_steady_now() noexcept { return sim::now_ns; }
int64_t sim_system_now() noexcept { return sim::now_ns; }
int sim_nanosleep(const struct timespec * r, struct timespec *) { sim::idle(r->tv_sec * 1000000000LL + r->tv_nsec); return 0; }
int sim_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { sim::idle(1000000); return 0; }
int sim_sched_yield() noexcept { sim::idle(1000); return 0; }
static int timed(pthread_cond_t *, pthread_mutex_t * m, const struct timespec * t)
{
  int64_t dl = t->tv_sec * 1000000000LL + t->tv_nsec;
  if (sim::now_ns >= dl) return ETIMEDOUT;
  pthread_mutex_unlock(m);
  sim::idle(1000000);
  pthread_mutex_lock(m);
  return sim::now_ns >= dl ? ETIMEDOUT : 0;
}
int sim_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const struct timespec * t) { return timed(c, m, t); }
int sim_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t) { return timed(c, m, t); }
int sim_cond_wait(pthread_cond_t *, pthread_mutex_t * m)
{
  pthread_mutex_unlock(m);
  sim::idle(1000000);
  pthread_mutex_lock(m);
  return 0;
}
void sim_cv_wait(std::condition_variable *, std::unique_lock<std::mutex> & l) noexcept
{
  l.unlock();
  sim::idle(1000000);
  l.lock();
}
}
