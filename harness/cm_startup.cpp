// Bringing the system up to its initial state and down again.
#include "cm_common.hpp"
using namespace vt;
using V = std::vector<std::string>;
static const char * HW[] = {"a", "n", "s"};
static const V IF[] = {{"x/position"}, {}, {"y/position"}};
static constexpr uint8_t U = LS::PRIMARY_STATE_UNCONFIGURED, I = LS::PRIMARY_STATE_INACTIVE, A = LS::PRIMARY_STATE_ACTIVE, F = LS::PRIMARY_STATE_FINALIZED;
// Hardware starts in the configured state; what fails stays behind, alone or with its group.
SYM_HARNESS(cm_startup)
{
  static const int IN[4][3] = {{0, 0, 0}, {1, 0, 1}, {1, 1, 0}, {1, 1, 1}};
  const int g = (int)sym_choice("groups", 4);
  std::vector<HwDesc> hws{{"a", "actuator", {{"x", {"position"}, {"position"}, ""}}, "", ""}, {"n", "sensor", {{"t", {}, {"value"}, ""}}, "", ""}, {"s", "system", {{"y", {"position"}, {"position"}, ""}}, "", ""}};
  V un{""}, in{""};
  int init[3];
  for (int i = 0; i < 3; ++i) {
    if (IN[g][i]) hws[i].group = "g";
    init[i] = (int)sym_choice((std::string("initial_") + HW[i]).c_str(), i == 1 ? 2 : 3);
    if (init[i] == 1) un.push_back(HW[i]);
    if (init[i] == 2) in.push_back(HW[i]);
  }
  un.push_back("unknown");
  const bool stop = sym_choice("shutdown_on_failure", 2);
  int budget = bound(1, 2), nf = 0;
  bool failed = false;
  std::map<std::pair<int, int>, int> res;
  auto pol = [&](int who, int cb) {
    if (cb == ERRORCB) return sym_choice(("error" + std::to_string(++nf)).c_str(), 2) ? (int)FAIL : (int)OK;
    if ((cb != CONFIGURE && cb != ACTIVATE && cb != DEACTIVATE) || !budget) return (int)OK;
    int r = (int)sym_choice(("fault" + std::to_string(++nf)).c_str(), 4);
    if (r) --budget, failed = true;
    return res[{who, cb}] = r;
  };
  std::vector<rclcpp::Parameter> par{{"hardware_components_initial_state.unconfigured", un}, {"hardware_components_initial_state.inactive", in}, {"hardware_components_initial_state.shutdown_on_initial_state_failure", stop}};
  std::unique_ptr<World> w;
  bool threw = false;
  try { w = std::make_unique<World>(hws, std::vector<CtlCfg>{}, par, false, pol); } catch (const std::runtime_error &) { threw = true; }
  policy = nullptr;
  if (sym_replaying()) for (auto & e : log_) sym_note("  %d cb %d -> %d", e.who, e.cb, e.res);
  sym_assert(threw == (stop && failed), "startup is given up exactly when asked to and hardware fails");
  if (threw) { sym_cover("given up"); return; }
  uint8_t st[3];
  for (int i = 0; i < 3; ++i) st[i] = hw_obj[i]->comp()->get_lifecycle_state().id();
  auto bad = [&](int i) { for (int cb : {CONFIGURE, ACTIVATE}) { auto it = res.find({i, cb}); if (it != res.end() && it->second) return true; } return false; };
  auto bad_deact = [&](int i) { auto it = res.find({i, DEACTIVATE}); return it != res.end() && it->second; };
  for (int i = 0; i < 3; ++i) {
    bool mates_bad = false;
    for (int j = 0; j < 3; ++j) mates_bad |= j != i && IN[g][i] && IN[g][j] && init[j] == 0 && bad(j);
    if (init[i] == 1) { sym_assert(st[i] == U && count(i, CONFIGURE) == 0, "hardware that shall stay unconfigured is not touched"); continue; }
    if (init[i] == 2) { sym_assert(count(i, ACTIVATE) == 0 && (bad(i) ? st[i] != A && st[i] != I : st[i] == I), "hardware that shall be inactive is configured and not activated"); continue; }
    if (bad(i)) sym_assert(st[i] != A, "hardware that failed to start is not active");
    else if (!mates_bad) sym_assert(st[i] == A, "hardware is activated unless it or its group fails");
    else sym_assert(st[i] != A || bad_deact(i), "a group whose member failed is not left active");
    sym_assert(count(i, CONFIGURE) <= 1 && count(i, ACTIVATE) <= 1, "hardware is started once");
  }
  // members are configured before any of them is activated
  if (g) for (size_t k = 0; k < log_.size(); ++k) if (log_[k].cb == ACTIVATE && IN[g][log_[k].who])
    for (size_t m = k + 1; m < log_.size(); ++m) sym_assert(log_[m].cb != CONFIGURE || !IN[g][log_[m].who], "a group is configured before it is activated");
  for (int i = 0; i < 3; ++i) for (auto & k : IF[i]) sym_assert(w->available(k) == (st[i] == A || st[i] == I), "interfaces are available exactly while their hardware is configured");
  // only what is up is read and written from now on
  size_t l = log_.size();
  w->tick();
  for (int i = 0; i < 3; ++i) {
    sym_assert(count(i, READ, l) == (st[i] == A || st[i] == I ? 1 : 0), "configured hardware is read");
    sym_assert(count(i, WRITE, l) == (st[i] == A && i != 1 ? 1 : 0), "active hardware is written");
  }
  sym_cover(failed ? "failed" : "fine");
}
// At shutdown every controller is stopped and shut down, then the hardware; failures of some do not keep the others running.
SYM_HARNESS(cm_shutdown)
{
  CtlCfg low{"low", {"x/position"}, {}, true, {"r"}, {}}, top{"top", {"low/r"}, {}}, other{"other", {"y/position"}, {}};
  World w({{"a", "actuator", {{"x", {"position"}, {"position"}, ""}}, "", ""}, {"s", "system", {{"y", {"position"}, {"position"}, ""}}, "", ""}}, {low, top, other});
  const int start = (int)sym_choice("start", 5);
  for (int i = 0; i < 3; ++i) if (start > i) sym_assert(w.configure(i), "setup");
  if (start > 3) sym_assert(w.sw({"low", "top", "other"}, {}, STRICT, true), "setup");
  else if (start > 1 && sym_choice("low_active", 2)) sym_assert(w.sw({"low"}, {}, STRICT, true), "setup");
  bool act0[3];
  for (int i = 0; i < 3; ++i) act0[i] = w.active(i);
  int budget = bound(1, 2), nf = 0;
  std::map<std::pair<int, int>, int> res;
  policy = [&](int who, int cb) {
    if (cb == ERRORCB) return sym_choice(("error" + std::to_string(++nf)).c_str(), 2) ? (int)FAIL : (int)OK;
    if ((cb != DEACTIVATE && cb != SHUTDOWN) || !budget) return (int)OK;
    int r = (int)sym_choice(("fault" + std::to_string(++nf)).c_str(), 4);
    if (r) --budget;
    return res[{who, cb}] = r;
  };
  size_t l0 = log_.size();
  auto cbs = w.cm->get_node_base_interface()->get_context()->pre_shutdown;
  sym_assert(cbs.size() == 1, "the controller manager is told about a shutdown");
  cbs[0]();
  policy = nullptr;
  dump(w, l0);
  auto R = [&](int who, int cb) { auto it = res.find({who, cb}); return it == res.end() ? (int)OK : it->second; };
  size_t last_ctl = 0, first_hw = log_.size();
  for (size_t i = l0; i < log_.size(); ++i) { if (log_[i].who >= 100) last_ctl = i; else first_hw = std::min(first_hw, i); }
  sym_assert(last_ctl < first_hw, "controllers are stopped before the hardware");
  for (int i = 0; i < 3; ++i) {
    const int who = 100 + i;
    sym_assert(count(who, DEACTIVATE, l0) == act0[i], "active controllers are deactivated");
    const bool fine = !R(who, DEACTIVATE) && !R(who, SHUTDOWN);
    if (fine) sym_assert(w.st(i) == F && count(who, SHUTDOWN, l0) == 1, "every controller that does not fail is shut down");
    if (R(who, DEACTIVATE) == FAIL) sym_assert(!w.active(i), "a controller that refuses to be deactivated does not stay active when everything is shut down");
    sym_assert(!w.active(i), "no controller stays active");
    sym_assert(n_cmd(w.ctl[i]) == 0 && n_state(w.ctl[i]) == 0, "no controller keeps an interface");
  }
  for (int h = 0; h < 2; ++h) {
    const uint8_t s = hw_obj[h]->comp()->get_lifecycle_state().id();
    if (!R(h, DEACTIVATE) && !R(h, SHUTDOWN)) sym_assert(s == F && count(h, DEACTIVATE, l0) == 1 && count(h, SHUTDOWN, l0) == 1, "all hardware that does not fail is deactivated and shut down");
    for (auto & k : h ? V{"y/position"} : V{"x/position"}) sym_assert(!w.claimed(k), "no interface stays claimed");
  }
  size_t l = log_.size();
  w.tick();
  for (size_t i = l; i < log_.size(); ++i) sym_assert(log_[i].who < 100, "no controller runs any more");
  sym_cover(res.empty() ? "none" : "done");
}
