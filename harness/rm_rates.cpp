// Read and write rates and periods of hardware components under an irregular clock.
#include "rates.hpp"
using namespace vt;
static const uint8_t U = LS::PRIMARY_STATE_UNCONFIGURED, I = LS::PRIMARY_STATE_INACTIVE, A = LS::PRIMARY_STATE_ACTIVE;
static void set(hi::ResourceManager & rm, const std::string & n, uint8_t t)
{
  State s(t, t == A ? "active" : t == I ? "inactive" : "unconfigured");
  sym_assert(rm.set_component_state(n, s) == hi::return_type::OK, "setup");
}
SYM_HARNESS(rm_rates)
{
  const int64_t R = 100;
  const int64_t r = RATES[sym_choice("rate", bound(3, 6))];
  static const char * T[] = {"system", "actuator", "sensor"};
  const char * type = T[sym_choice("type", 3)];
  const bool writes = strcmp(type, "sensor") != 0;
  HwDesc slow{"slow", type, {{"x", {"position"}, {"position"}, ""}}, "", "rw_rate=\"" + std::to_string(r) + "\""}, full{"full", "system", {{"y", {"position"}, {"position"}, ""}}, "", ""};
  if (!writes) slow.joints[0].cmd.clear();
  std::vector<HwDesc> hws{slow, full};
  if (sym_choice("order", 2)) std::swap(hws[0], hws[1]);
  reset_world(hws);
  hi::ResourceManager rm(rm_params(urdf(hws), false, R), true);
  sym_assert(rm.are_components_initialized(), "setup");
  const int S = hw_id["slow"], Q = hw_id["full"];
  uint8_t s = sym_choice("active", 2) ? A : I;
  set(rm, "slow", s);
  set(rm, "full", A);
  const int N = bound(4, 6);
  const int what = (int)sym_choice("event", 3);
  int64_t lr = -1, lw = -1, flr = -1, flw = -1;
  for (int i = 0; i < N; ++i) {
    if (i == N / 2 && what) {
      if (s == A) { set(rm, "slow", I); s = I; }
      if (what == 2) { set(rm, "slow", A); s = A; lr = lw = -1; }
    }
    char nm[16]; snprintf(nm, sizeof nm, "dt%d", i);
    Duration p(std::chrono::nanoseconds{advance(nm)});
    size_t l = log_.size();
    auto r1 = rm.read(now_(), p);
    auto r2 = rm.write(now_(), p);
    sym_assert(r1.result == hi::return_type::OK && r2.result == hi::return_type::OK, "nothing fails");
    const double nominal = Duration::from_seconds(1.0 / (double)r).seconds();
    auto chk = [&](int who, int cb, int64_t & last, bool may, bool lower) {
      int k = count(who, cb, l);
      sym_assert(k <= 1, "nothing runs twice in a cycle");
      if (!may) { sym_assert(k == 0, "inactive hardware is not written"); return; }
      int64_t a = sim::now_ns - last;
      if (!lower) sym_assert(k == 1, "hardware without a lower rate runs in every cycle");
      else if (last < 0) sym_assert(k == 1, "hardware runs in the first cycle after its activation");
      else check_rate(k, a, R, r);
      if (!k) return;
      double period = 0;
      for (size_t j = l; j < log_.size(); ++j) if (log_[j].who == who && log_[j].cb == cb) period = log_[j].period;
      if (!lower) sym_assert(period == p.seconds(), "the period is the period of the cycle");
      else if (last >= 0) sym_assert(period == Duration(std::chrono::nanoseconds{a}).seconds(), "the period is the time since the last call");
      else sym_assert(period == nominal, "the first period is the nominal one");
      last = sim::now_ns;
    };
    chk(S, READ, lr, true, true);
    if (writes) chk(S, WRITE, lw, s == A, true);
    chk(Q, READ, flr, true, false);
    chk(Q, WRITE, flw, true, false);
  }
  sym_cover(what == 2 ? "restarted" : "running");
}
