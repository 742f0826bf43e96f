// Update rates and periods of controllers and hardware under an irregular clock.
#include "cm_common.hpp"
#include "rates.hpp"
using namespace vt;
static const std::vector<std::string> NONE;
// when a controller last ran since it was activated (-1: it did not)
static int64_t last_run(int who, size_t end)
{
  int64_t t = -1;
  for (size_t i = 0; i < end; ++i) if (log_[i].who == who) { if (log_[i].cb == ACTIVATE) t = -1; else if (log_[i].cb == UPDATE) t = log_[i].t; }
  return t;
}
SYM_HARNESS(cm_rates)
{
  const int64_t R = 100;
  const int64_t r = RATES[sym_choice("rate", bound(3, 6))];
  CtlCfg slow{"slow", {"x/position"}, {}}, full{"full", {"y/position"}, {}}, fast{"fast", {"z/position"}, {}};
  slow.rate = (unsigned)r; fast.rate = 250;
  World w({{"hw", "system", {{"x", {"position"}, {"position"}, ""}, {"y", {"position"}, {"position"}, ""}, {"z", {"position"}, {"position"}, ""}}, "", ""}}, {slow, full, fast});
  for (int i = 0; i < 3; ++i) sym_assert(w.configure(i), "configuring succeeds");
  const bool asap = sym_bool("asap");
  sym_assert(w.sw({"slow", "full", "fast"}, {}, STRICT, asap), "setup");
  const int N = bound(4, 6), again = sym_choice("restart", 2) ? N / 2 : -1;
  for (int i = 0; i < N; ++i) {
    if (i == again) sym_assert(w.sw({}, {"slow"}, STRICT, asap) && w.sw({"slow"}, {}, STRICT, asap), "setup");
    char nm[16]; snprintf(nm, sizeof nm, "dt%d", i);
    int64_t dt = advance(nm);
    size_t l = log_.size();
    Duration p(std::chrono::nanoseconds{dt});
    w.cm->update(now_(), p);
    for (int c = 0; c < 3; ++c) {
      int k = count(100 + c, UPDATE, l);
      int64_t last = last_run(100 + c, l), a = sim::now_ns - last;
      double period = 0;
      for (size_t j = l; j < log_.size(); ++j) if (log_[j].who == 100 + c && log_[j].cb == UPDATE) period = log_[j].period;
      sym_assert(k <= 1, "nothing runs twice in a cycle");
      if (c) sym_assert(k == 1, "a controller without a lower rate runs in every cycle");
      else if (last < 0) sym_assert(k == 1, "a controller runs in the first cycle after its activation");
      else check_rate(k, a, R, r);
      if (!k) continue;
      if (last >= 0) sym_assert(period == Duration(std::chrono::nanoseconds{a}).seconds(), "the period is the time since the last update");
      else sym_assert(period == (c ? p.seconds() : Duration::from_seconds(1.0 / (double)r).seconds()), "the first period is the nominal one");
    }
  }
  sym_cover(again >= 0 ? "restarted" : "running");
}
// The rate a controller runs at is the one it was configured with last.
SYM_HARNESS(cm_rate_configured)
{
  const unsigned R = 100;
  CtlCfg c{"c", {"x/position"}, {}};
  c.rate = 50;
  World w({{"hw", "system", {{"x", {"position"}, {"position"}, ""}}, "", ""}}, {c});
  const int N = bound(2, 3);
  unsigned prev = R;
  for (int i = 0; i < N; ++i) {
    static const char * NM[] = {"rate0", "rate1", "rate2"}, * CL[] = {"cleanup0", "cleanup1", "cleanup2"};
    const int r = (int)sym_var(NM[i], 8);
    w.ctl[0]->base()->get_node()->set_parameter(rclcpp::Parameter("update_rate", r));
    sym_assert(w.ctl[0]->base()->get_update_rate() == prev, "a rate takes effect when the controller is configured");
    if (i && sym_choice(CL[i], 2)) sym_assert(w.cm->cleanup_controller("c") == ci::return_type::OK, "setup");
    sym_assert(w.configure(0), "configuring succeeds");
    const unsigned u = w.ctl[0]->base()->get_update_rate();
    if (r == 0 || r >= (int)R) sym_assert(u == R, "a controller is not faster than the controller manager");
    else if (R % r == 0) sym_assert(u == (unsigned)r, "a rate dividing that of the controller manager is used as it is");
    else sym_assert(sym_and(R % u == 0 || u * (R / u + 1) > R, u >= 1 && u <= R), "other rates are replaced by an achievable one");
    prev = u;
  }
  sym_cover("done");
}
