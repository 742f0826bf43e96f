// Chained controllers: integrity of the chain, chained mode, availability of exported interfaces, order.
#include "cm_common.hpp"
using namespace vt;
static std::vector<HwDesc> one_hw() { return {{"hw", "system", {{"x", {"position"}, {"position"}, ""}, {"y", {"position"}, {"position"}, ""}}, "", ""}}; }
static const std::vector<std::string> HWIF = {"x/position", "y/position"};
struct Topo { std::vector<CtlCfg> c; };
// low, mid chainable, top not; who uses whom is symbolic, so is the order in which they were loaded
static std::vector<CtlCfg> topo(bool orders)
{
  CtlCfg low{"low", {"x/position"}, {}, true, {"r", "q"}, {"s"}};
  CtlCfg mid{"mid", {}, {}, true, {"r"}, {"s"}};
  CtlCfg top{"top", {}, {}};
  if (!bound(orders, 1) || sym_choice("mid_cmd", 2) == 0) mid.cmd = {"low/r"}; else mid.cmd = {"y/position"};
  if (sym_bool("mid_state")) mid.state = {"low/s"};
  switch (sym_choice("top_cmd", 5)) { case 3: top.cmd = {"low/q"}; break; case 0: top.cmd = {"mid/r"}; break; case 1: top.cmd = {"low/r"}; break; case 2: top.cmd = {"mid/r", "low/r"}; break; default: break; }
  switch (sym_choice("top_state", 3)) { case 0: break; case 1: top.state = {"mid/s"}; break; default: top.state = {"x/position", "low/s"}; }
  switch (orders ? sym_choice("order", 6) : 0) {
    case 0: return {low, mid, top};
    case 1: return {top, mid, low};
    case 2: return {mid, top, low};
    case 3: return {mid, low, top};
    case 4: return {low, top, mid};
    default: return {top, low, mid};
  }
}
static void inv(World & w) { inv_claims(w, HWIF); inv_chain(w); inv_modes(w, HWIF); }
static bool legal_state(const std::vector<CtlCfg> & cs, const bool * act)
{
  std::set<std::string> used;
  for (size_t i = 0; i < cs.size(); ++i) {
    if (!act[i]) continue;
    for (auto & k : cs[i].cmd) if (!used.insert(k).second) return false;
    for (auto v : {&cs[i].cmd, &cs[i].state}) for (auto & k : *v)
      for (size_t j = 0; j < cs.size(); ++j) if (k.rfind(cs[j].name + "/", 0) == 0 && !act[j]) return false;
  }
  return true;
}
static const char * SN[] = {"state0", "state1", "state2"}, * RN[2][3] = {{"req0", "req1", "req2"}, {"req_0", "req_1", "req_2"}};
// bring the system to any legal initial situation, controllers activated in dependency order
static void initial(World & w, const std::vector<CtlCfg> & cs, bool * act, bool together)
{
  const int n = (int)cs.size();
  for (int i = 0; i < n; ++i) act[i] = sym_bool(SN[i]);
  sym_assume(legal_state(cs, act));
  for (int i = 0; i < n; ++i) sym_assert(w.configure(i), "configuring succeeds");
  std::vector<std::string> all;
  for (const char * c : {"low", "mid", "top"}) for (int i = 0; i < n; ++i) if (act[i] && cs[i].name == c) {
    if (together) all.push_back(c);
    else sym_assert(w.sw({c}, {}, STRICT), "a chain can be activated from its end, one controller at a time");
  }
  if (!all.empty()) sym_assert(w.sw(all, {}, STRICT), "a whole chain can be activated at once");
  for (int i = 0; i < n; ++i) sym_assert(w.active(i) == act[i], "initial activation");
  inv(w);
}
static void one_switch(World & w, const std::vector<CtlCfg> & cs, const char * const * rn, bool strict)
{
  const int n = (int)cs.size();
  bool act[3], after[3];
  int req[3];
  bool plain = true, restart = false;
  for (int i = 0; i < n; ++i) {
    act[i] = w.active(i);
    req[i] = (int)sym_choice(rn[i], 4);
    if ((req[i] & 2) && !act[i]) plain = false;
    if (req[i] == 1 && act[i]) plain = false;
    if (req[i] == 3) restart = true;
    after[i] = req[i] == 1 || req[i] == 3 ? true : req[i] == 2 ? false : act[i];
  }
  std::vector<std::string> A, D;
  request(w, n, req, A, D);
  size_t l0 = log_.size(), m0 = modes.size();
  bool ok = w.sw(A, D, strict ? STRICT : BEST_EFFORT);
  if (strict) {
    if (ok) {
      sym_assert((plain && legal_state(cs, after)) || (A.empty() && D.empty()), "an accepted strict switch is legal");
      for (int i = 0; i < n; ++i) sym_assert(w.active(i) == after[i], "an accepted strict switch does everything requested");
      sym_cover("accepted");
    } else {
      sym_assert(!plain || restart || !legal_state(cs, after), "a legal strict switch is accepted");
      sym_assert(ctl_callbacks(l0) == 0, "a refused strict switch runs no controller transition");
      sym_assert(mode_calls(m0, true) == 0, "a refused strict switch changes no hardware command mode");
      for (int i = 0; i < n; ++i) sym_assert(w.active(i) == act[i], "a refused strict switch changes nothing");
      sym_cover("refused");
    }
  } else {
    if (plain && !restart && legal_state(cs, after)) for (int i = 0; i < n; ++i) sym_assert(w.active(i) == after[i], "a legal best-effort switch is performed");
    for (int i = 0; i < n; ++i) if (!req[i]) sym_assert(w.active(i) == act[i], "a best-effort switch never touches controllers it was not asked to");
  }
  inv(w);
}
SYM_HARNESS(cm_chain_strict)
{
  auto cs = topo(false);
  World w(one_hw(), cs);
  bool act[3];
  initial(w, cs, act, bound(1, 0) || sym_bool("together"));
  one_switch(w, cs, RN[0], true);
  inv_cycle(w);
}
SYM_HARNESS(cm_chain_best_effort)
{
  auto cs = topo(false);
  World w(one_hw(), cs);
  bool act[3];
  initial(w, cs, act, true);
  one_switch(w, cs, RN[0], false);
  inv_cycle(w);
}
SYM_HARNESS(cm_chain_history)
{
  auto cs = bound(0, 1) ? topo(false) : std::vector<CtlCfg>{{"low", {"x/position"}, {}, true, {"r", "q"}, {"s"}}, {"mid", {"low/r"}, {}, true, {"r"}, {"s"}}, {"top", {"mid/r"}, {"low/s"}}};
  World w(one_hw(), cs);
  bool act[3] = {true, true, true};
  if (bound(0, 1)) initial(w, cs, act, true);
  else {
    for (int i = 0; i < 3; ++i) sym_assert(w.configure(i), "configuring succeeds");
    sym_assert(w.sw({"top", "mid", "low"}, {}, STRICT), "a whole chain can be activated at once");
  }
  one_switch(w, cs, RN[0], bound(0, 1) && sym_bool("strict_1"));
  one_switch(w, cs, RN[1], bound(0, 1) && sym_bool("strict_2"));
  inv_cycle(w);
}
SYM_HARNESS(cm_chain_order)
{
  auto cs = topo(true);
  World w(one_hw(), cs);
  bool act[3];
  initial(w, cs, act, sym_bool("together"));
  inv_cycle(w);
  sym_cover("done");
}
// any acyclic data flow of four chainable controllers, loaded and configured in any order
SYM_HARNESS(cm_chain_order4)
{
  const int n = 4;
  static const char * E[6] = {"e01", "e02", "e03", "e12", "e13", "e23"};
  static const char * P[4] = {"p0", "p1", "p2", "p3"};
  std::vector<CtlCfg> c;
  for (int i = 0; i < n; ++i) c.push_back({std::string(1, (char)('a' + i)), {}, {}, true, {"r0", "r1", "r2"}, {"s"}});
  for (int i = 0, e = 0; i < n; ++i) for (int j = i + 1; j < n; ++j, ++e)
    switch (sym_choice(E[e], bound(2, 3))) { case 1: c[i].cmd.push_back(c[j].name + "/r" + std::to_string(i)); break; case 2: c[j].state.push_back(c[i].name + "/s"); break; default: break; }
  std::vector<CtlCfg> cs, rest = c;
  for (int i = 0; i < n; ++i) { int k = (int)sym_choice(P[i], rest.size()); cs.push_back(rest[k]); rest.erase(rest.begin() + k); }
  World w(one_hw(), cs);
  for (int i = 0; i < n; ++i) sym_assert(w.configure(i), "configuring succeeds");
  sym_assert(w.sw({"d", "c", "b", "a"}, {}, STRICT), "a whole chain can be activated at once");
  inv(w);
  inv_cycle(w);
  sym_cover("done");
}
// A controller of the chain fails or throws while it is activated, or (thorough) deactivated.
SYM_HARNESS(cm_chain_faults)
{
  CtlCfg low{"low", {"x/position"}, {}, true, {"r", "q"}, {"s"}}, mid{"mid", {"low/r"}, {}, true, {"r"}, {"s"}}, top{"top", {"mid/r"}, {}};
  if (bound(0, 1)) {
    if (sym_bool("mid_state_only")) { mid.cmd = {}; mid.state = {"low/s"}; }
    switch (sym_choice("top_uses", 3)) { case 1: top.cmd = {"mid/r", "low/q"}; break; case 2: top.cmd = {"low/q"}; top.state = {"mid/s"}; break; default: break; }
  } else if (sym_bool("top_both")) top.cmd = {"mid/r", "low/q"};
  World w(one_hw(), {low, mid, top});
  for (int i = 0; i < 3; ++i) sym_assert(w.configure(i), "configuring succeeds");
  const int n0 = (int)sym_choice("n_active", 4);  // active from the end of the chain
  static const std::vector<std::string> NM = {"low", "mid", "top"};
  if (n0) sym_assert(w.sw({NM.begin(), NM.begin() + n0}, {}, STRICT), "setup");
  std::map<std::pair<int, int>, int> res;
  policy = [&](int who, int cb) {
    if (who < 100) return (int)OK;
    static const char * nm[3][3] = {{"low_act", "low_err", "low_deact"}, {"mid_act", "mid_err", "mid_deact"}, {"top_act", "top_err", "top_deact"}};
    auto k = std::make_pair(who, cb);
    if (res.count(k)) return (int)OK;   // each callback misbehaves at most once
    int r = OK;
    switch (cb) {
      case ACTIVATE: r = (int)sym_choice(nm[who - 100][0], 4); break;
      case ERRORCB: r = (int)sym_choice(nm[who - 100][1], 2); break;
      case DEACTIVATE: if (bound(0, 1)) { r = (int)sym_choice(nm[who - 100][2], 3); if (r == FAIL) r = THROW; } break;
      default: return (int)OK;
    }
    res[k] = r;
    return r;
  };
  std::vector<std::string> A(NM.begin() + n0, NM.end()), D;
  if (n0 && sym_bool("restart")) { D.assign(NM.begin(), NM.begin() + n0); A = NM; }
  const bool strict = sym_bool("strict");
  const bool stop = n0 == 3 && A.empty();
  if (stop) D = {"mid", "top"};
  const size_t l0 = log_.size();
  bool ok = w.sw(A, D, strict ? STRICT : BEST_EFFORT);
  policy = nullptr;
  dump(w, l0);
  bool bad = false, act_bad = false;
  for (auto & r : res) { bad |= r.second != OK && r.first.second != ERRORCB; act_bad |= r.second != OK && r.first.second == ACTIVATE; }
  if (ok && !stop) for (int i = 0; i < 3; ++i) sym_assert(w.active(i), "a switch reported successful activated everything requested");
  if (!bad && D.empty()) sym_assert(ok, "a legal switch in which nothing fails succeeds");
  if (act_bad) sym_assert(!ok, "a switch with a failed activation is reported as failed");
  inv(w);
  inv_cycle(w);
  sym_cover(bad ? "faulty" : "fine");
}
