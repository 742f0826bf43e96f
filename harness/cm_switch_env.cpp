// Switch requests that meet the rest of the world: unknown names, hardware in any state, a control loop that does not run.
#include "cm_common.hpp"
using namespace vt;
static const std::vector<std::string> IFS = {"x/position", "y/position"};
SYM_HARNESS(cm_switch_env)
{
  // a uses component hx, b uses hy and reads hx
  const bool allow = sym_bool("allow_inactive");
  std::vector<rclcpp::Parameter> par{rclcpp::Parameter("defaults.allow_controller_activation_with_inactive_hardware", allow)};
  std::vector<HwDesc> hw = {{"hx", "system", {{"x", {"position"}, {"position"}, ""}}, "", ""}, {"hy", "actuator", {{"y", {"position"}, {"position"}, ""}}, "", ""}};
  // strictness: as asked for, or left to the manager
  const int level = (int)sym_choice("strictness", 6);
  if (level == 2 || level == 3) par.emplace_back("defaults.switch_controller.strictness", std::string(level == 2 ? "strict" : "best_effort"));
  World w(hw, {{"a", {"x/position"}, {}}, {"b", {"y/position"}, {"x/position"}}, {"c", {}, {"y/position"}}}, par);
  static const char * N[] = {"a", "b", "c"};
  bool act0[3];
  for (int i = 0; i < 3; ++i) sym_assert(w.configure(i), "setup");
  act0[0] = sym_bool("a_active"); act0[1] = sym_bool("b_active"); act0[2] = false;
  // hardware state before the switch: hx unconfigured / inactive / active when a is not running; hy likewise
  std::vector<std::string> a0;
  for (int i = 0; i < 2; ++i) if (act0[i]) a0.push_back(N[i]);
  if (!a0.empty()) sym_assert(w.sw(a0, {}, STRICT, true), "setup");
  int h[2] = {2, 2};
  static const char * HN[] = {"hx", "hy"};
  static const char * hn[] = {"hx_state", "hy_state"};
  static const uint8_t id[] = {LS::PRIMARY_STATE_UNCONFIGURED, LS::PRIMARY_STATE_INACTIVE, LS::PRIMARY_STATE_ACTIVE};
  for (int i = 0; i < 2; ++i) if (level < 2 && !act0[1] && !(i == 0 && act0[0])) {
    h[i] = 2 - (int)sym_choice(hn[i], 3);
    if (h[i] == 2) continue;
    rclcpp_lifecycle::State s(id[h[i]], "-");
    sym_assert(w.cm->rm().set_component_state(HN[i], s) == hi::return_type::OK, "setup");
  }
  // the request, with names nobody knows in front or behind
  std::vector<std::string> A, D;
  const int ua = level > 1 ? 1 : (int)sym_choice("unknown_activate", 3), ud = level > 1 ? 0 : (int)sym_choice("unknown_deactivate", 3);
  if (ua == 1) A.push_back("ghost");
  if (ud == 1) D.push_back("ghost");
  bool act[3], legal = !ua && !ud, known = false, knownA = false, knownD = false;
  static const char * wn[] = {"same_a", "same_b", "same_c"};
  static const char * rn[] = {"req_a", "req_b", "req_c"};
  for (int i = 0; i < 3; ++i) {
    act[i] = act0[i];
    if (!sym_choice(rn[i], 2)) {
      // or asked for what it already is
      if (level > 1 && i != 1 && sym_bool(wn[i])) { legal = false; known = true; (act0[i] ? knownA : knownD) = true; (act0[i] ? A : D).push_back(N[i]); }
      continue;
    }
    known = true;
    (act0[i] ? knownD : knownA) = true;
    (act0[i] ? D : A).push_back(N[i]);
    act[i] = !act0[i];
  }
  if (ua == 2) A.push_back("ghost");
  if (ud == 2) D.push_back("ghost");
  typedef controller_manager_msgs::srv::SwitchController::Request Rq;
  const int levels[] = {STRICT, BEST_EFFORT, 0, 0, Rq::AUTO, Rq::FORCE_AUTO};
  const bool strict = level == 0 || level == 2, asap = sym_bool("asap");
  // the loop may stand still for a while or for good while the switch waits; it runs again afterwards
  const int stall = level > 1 ? 0 : ua || ud ? 3 * (int)sym_choice("stalled", 2) : (int)sym_choice("stall", 4);
  const bool default_timeout = stall == 2 && sym_bool("default_timeout");
  const bool stalled = stall == 3 || (stall == 2 && !default_timeout);
  static const int ms[] = {0, 30, 70, 1000000};
  int64_t t0 = sim::now_ns;
  w.hook = [&] { if (sim::now_ns < t0 + ms[stall] * 1000000LL) sim::now_ns += 1000000; else w.tick(); };
  const size_t l0 = log_.size();
  const bool ok = w.sw(A, D, levels[level], asap, default_timeout ? 0 : 0.05);
  w.hook = [&w] { w.tick(); };
  // the hardware the controllers to be started need
  const int cmd_hw[] = {0, 1, -1}, st_hw[] = {-1, 0, 1};
  bool hw_ok = true;
  for (int i = 0; i < 3; ++i) if (act[i] && !act0[i]) {
    if (cmd_hw[i] >= 0) hw_ok &= h[cmd_hw[i]] == 2 || (allow && h[cmd_hw[i]] == 1);
    if (st_hw[i] >= 0) hw_ok &= h[st_hw[i]] >= 1;
  }
  dump(w, l0);
  bool changed = false;
  for (int i = 0; i < 3; ++i) changed |= w.active(i) != act0[i];
  const bool something = !A.empty() || !D.empty();
  // documented: a list of which nothing is loaded makes the whole request fail
  const bool hopeless = (ua && !knownA) || (ud && !knownD);
  if (stalled && known) {
    sym_assert(!ok, "a switch that could not be carried out in time is reported as failed");
    sym_assert(!changed && ctl_callbacks(l0) == 0, "a switch that timed out changes nothing");
    w.tick();
    w.tick();
    for (int i = 0; i < 3; ++i) sym_assert(w.active(i) == act0[i], "a switch that timed out is not carried out later");
    sym_cover("timed out");
  } else if (strict) {
    sym_assert(ok == (!something || (legal && hw_ok)), "a strict switch is accepted exactly when every controller exists and its hardware is ready");
    for (int i = 0; i < 3; ++i) sym_assert(w.active(i) == (ok ? act[i] : act0[i]), "a strict switch does everything requested or nothing");
    if (!ok) sym_assert(ctl_callbacks(l0) == 0, "a refused strict switch runs no controller transition");
    sym_cover("strict");
  } else if (hopeless) {
    sym_assert(!ok && !changed, "a best-effort switch of which one list names only unknown controllers fails and changes nothing");
  } else if (hw_ok) {
    for (int i = 0; i < 3; ++i) sym_assert(w.active(i) == act[i], "a best-effort switch does what is possible although other names are unknown");
    sym_assert(ok, "a best-effort switch that did all it could succeeds");
    sym_cover("best effort");
  } else {
    for (int i = 0; i < 3; ++i) if (act[i] == act0[i]) sym_assert(w.active(i) == act0[i], "a switch touches nothing it was not asked to");
  }
  inv_claims(w, IFS);
  inv_cycle(w);
  // once the hardware works, everything can be started
  for (int i = 0; i < 2; ++i) {
    rclcpp_lifecycle::State s(LS::PRIMARY_STATE_ACTIVE, "-");
    sym_assert(w.cm->rm().set_component_state(HN[i], s) == hi::return_type::OK, "the hardware can be activated");
  }
  std::vector<std::string> rest;
  for (int i = 0; i < 3; ++i) if (!w.active(i)) rest.push_back(N[i]);
  if (!rest.empty()) sym_assert(w.sw(rest, {}, STRICT, true), "after any switch request the other controllers can be started");
  for (int i = 0; i < 3; ++i) sym_assert(w.active(i), "after any switch request the other controllers can be started");
  inv_claims(w, IFS);
}
