// How the control loop waits for its next cycle.
#include "controller_manager/sleeping_policies.hpp"
#include "cm_common.hpp"
using namespace vt;
namespace cmn = controller_manager;
// the granularity of the simulated clock
static constexpr int64_t TOL = 1000;
using tp = std::chrono::steady_clock::time_point;
static tp at(int64_t ns) { return tp(std::chrono::nanoseconds(ns)); }
static const unsigned RATE[] = {1000, 100, 3, 70, 1, 333};
SYM_HARNESS(cm_sleep_periodic)
{
  const unsigned rate = RATE[sym_choice("rate", bound(4, 6))];
  rclcpp::Parameter p("update_rate", (int)rate);
  World w({{"hw", "system", {{"x", {"position"}, {"position"}, ""}}, "", ""}}, {}, {p});
  w.hook = [] {};
  cmn::ControlLoopTimingConfig cfg;
  cfg.manage_overruns = sym_choice("manage", 2);
  cmn::ControlLoopState s;
  const int64_t P = 1000000000 / rate, due = sim::now_ns;
  s.period = std::chrono::nanoseconds(P);
  s.next_iteration_time = at(due);
  // what the cycle took since it was due (or the loop was behind already): up to eight periods, also exact multiples and just beside them
  const int64_t beside = (int64_t)sym_choice("beside", 3) - 1, work = (int64_t)sym_var("work", 10) * (P / 128) + beside * bound(1, 900);
  sym_assume(work >= 0);
  sim::now_ns += work;
  const int64_t now = sim::now_ns;
  sleep_for_periodic_cycle(w.cm, cfg, s);
  const int64_t next = s.next_iteration_time.time_since_epoch().count(), woke = sim::now_ns, expect = std::max(now, next);
  sym_assert(woke >= expect && woke <= expect + TOL, "the loop wakes up when the cycle is due");
  if (now <= due + P || !cfg.manage_overruns) sym_assert(next == due + P, "the next cycle is due one period after the last one");
  else {
    sym_assert((next - due) % P == 0, "after an overrun the cycles stay on their grid");
    sym_assert(next >= now - TOL, "missed cycles are skipped");
    sym_assert(next <= now + P + TOL, "only missed cycles are skipped");
  }
  sym_cover(now > due + P ? "overrun" : "in time");
}
SYM_HARNESS(cm_sleep_blocking)
{
  World w({{"hw", "system", {{"x", {"position"}, {"position"}, ""}}, "", ""}}, {});
  w.hook = [] {};
  static const double MIN[] = {0.0001, 0.001, 0.25, 0};
  cmn::ControlLoopTimingConfig cfg;
  cfg.expect_blocking_read_write = true;
  cfg.minimum_cycle_time = MIN[sym_choice("minimum", 4)];
  const int64_t mn = (int64_t)(cfg.minimum_cycle_time * 1e9), took = (int64_t)(sym_var("took", 32));
  cmn::ControlLoopState s;
  s.previous_time = Time(sim::now_ns, RCL_STEADY_TIME);
  sim::now_ns += took;
  s.cycle_end_time = Time(sim::now_ns, RCL_STEADY_TIME);
  const int64_t t0 = sim::now_ns;
  sleep_for_blocking_read_write(w.cm, cfg, s);
  if (took >= mn) sym_assert(sim::now_ns == t0, "a cycle that blocked long enough is not delayed");
  else sym_assert(sim::now_ns - t0 + took >= mn, "a cycle takes at least the minimum time");
  sym_assert(sim::now_ns - t0 <= mn + TOL, "a cycle is delayed at most by the minimum time");
  sym_cover(took >= mn ? "long" : "short");
}
SYM_HARNESS(cm_sleep_sim_time)
{
  World w({{"hw", "system", {{"x", {"position"}, {"position"}, ""}}, "", ""}}, {});
  w.hook = [] {};
  cmn::ControlLoopState s;
  const int64_t P = 1000000000 / 100, prev = sim::now_ns, took = (int64_t)(sym_var("took", 32));
  s.period = std::chrono::nanoseconds(P);
  s.previous_time = Time(prev, RCL_ROS_TIME);
  sim::now_ns += took;
  const int64_t t0 = sim::now_ns;
  sym_assert(sleep_for_sim_time(w.cm, s), "waiting succeeds");
  sym_assert(sim::now_ns >= std::max(t0, prev + P) && sim::now_ns <= std::max(t0, prev + P) + TOL, "the next cycle starts one period after the last one or at once");
  sym_cover("done");
}
