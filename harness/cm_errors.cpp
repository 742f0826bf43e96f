// Errors in the control loop: failing controllers and failing hardware are contained.
#include "cm_common.hpp"
using namespace vt;
static const std::vector<std::string> HWIF = {"x/position", "y/position", "z/position"};
static std::vector<HwDesc> hw3() { return {{"hw", "system", {{"x", {"position"}, {"position"}, ""}, {"y", {"position"}, {"position"}, ""}, {"z", {"position"}, {"position"}, ""}}, "", ""}}; }
static void inv(World & w) { inv_claims(w, HWIF); inv_chain(w); inv_modes(w, HWIF); }
static bool uses(const CtlCfg & a, const std::string & who) { for (auto v : {&a.cmd, &a.state}) for (auto & k : *v) if (k.rfind(who + "/", 0) == 0) return true; return false; }
// controllers connected through exported interfaces, whatever their state
static std::vector<char> group(World & w, int i)
{
  const int n = (int)w.ctl.size();
  std::vector<char> g(n, 0);
  g[i] = 1;
  for (bool ch = true; ch;) {
    ch = false;
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b)
      if (g[a] != g[b] && (uses(w.ctl[a]->cfg, w.ctl[b]->cfg.name) || uses(w.ctl[b]->cfg, w.ctl[a]->cfg.name))) g[a] = g[b] = 1, ch = true;
  }
  return g;
}
// Controllers whose update fails or throws: their chain stops, their fallbacks take over, the rest keeps running.
static void update_error(bool fallback_faults)
{
  enum { LOW, TOP, OTHER, F, G };
  CtlCfg low{"low", {"x/position"}, {}, true, {"r"}, {"s"}}, top{"top", {"low/r"}, {"z/position"}}, other{"other", {"y/position"}, {}, true, {"r"}, {}}, f{"f", {}, {}, true, {"r"}, {}}, g{"g", {"f/r"}, {"x/position"}};
  switch (sym_choice("top", 4)) { case 1: top.cmd = {}; top.state = {"low/s"}; break; case 2: top.cmd = {"low/r", "other/r"}; break; case 3: top.cmd = {"other/r"}; break; default: break; }
  switch (sym_choice("f", 4)) { case 0: f.cmd = {"x/position"}; break; case 1: f.cmd = {"y/position"}; break; case 2: f.cmd = {"x/position", "y/position"}; break; default: f.cmd = {"z/position"}; break; }
  static const char * FN[3] = {"low_fb", "top_fb", "other_fb"};
  CtlCfg * p[3] = {&low, &top, &other};
  for (int i = 0; i < 3; ++i) switch (sym_choice(FN[i], i == TOP ? 1 : 3)) { case 1: p[i]->fallback = {"f"}; break; case 2: p[i]->fallback = {"f", "g"}; break; default: break; }
  World w(hw3(), {low, top, other, f, g});
  const int n = 5;
  for (int i = 0; i < n; ++i) sym_assert(w.configure(i), "configuring succeeds");
  sym_assert(w.sw({"low", "top", "other"}, {}, STRICT), "setup");
  if (sym_bool("f_active")) { if (f.cmd[0] == "z/position") sym_assert(w.sw({"f"}, {}, STRICT), "setup"); }
  inv(w);
  bool act0[n];
  for (int i = 0; i < n; ++i) act0[i] = w.active(i);
  std::map<std::pair<int, int>, int> res;
  policy = [&](int who, int cb) {
    static const char * UN[n] = {"low_update", "top_update", "other_update", "f_update", "g_update"};
    int r = OK;
    auto k = std::make_pair(who, cb);
    if (res.count(k)) return (int)OK;
    if (cb == UPDATE && who < 100 + F) { r = (int)sym_choice(UN[who - 100], 3); if (r == 2) r = THROW; }
    else if (cb == ACTIVATE && fallback_faults) { static const char * AN[n] = {"", "", "", "f_act", "g_act"}; if (who >= 100 + F) { r = (int)sym_choice(AN[who - 100], 2); if (r) r = THROW; } }
    else return (int)OK;
    res[k] = r;
    return r;
  };
  size_t l0 = log_.size();
  auto ret = w.tick();
  policy = nullptr;
  dump(w, l0);
  auto R = [&](int i, int cb) { auto it = res.find({100 + i, cb}); return it == res.end() ? (int)OK : it->second; };
  bool failed = false, stop[n] = {}, fb[n] = {}, fb_failed = R(F, ACTIVATE) || R(G, ACTIVATE);
  for (int i = 0; i < n; ++i) {
    sym_assert(count(100 + i, UPDATE, l0) == act0[i], "a failing controller does not keep the others from being updated");
    if (!R(i, UPDATE)) continue;
    failed = true;
    auto gr = group(w, i);
    for (int j = 0; j < n; ++j) if (gr[j]) {
      stop[j] = true;
      if (act0[j]) for (auto & b : w.ctl[j]->cfg.fallback) for (int k = 0; k < n; ++k) fb[k] |= w.ctl[k]->cfg.name == b;
    }
  }
  sym_assert((ret != ci::return_type::OK) == failed, "the update reports an error exactly when a controller failed");
  if (!failed) for (int i = 0; i < n; ++i) sym_assert(w.active(i) == act0[i], "a cycle without errors changes no controller");
  for (int i = 0; i < n; ++i) if (stop[i] && !fb[i]) sym_assert(!w.active(i), "a controller whose chain failed is stopped in the same cycle");
  // controllers that have to make room for the fallbacks, with the chains they belong to
  bool room[n] = {};
  for (int i = 0; i < n; ++i) if (fb[i]) for (int j = 0; j < n; ++j) for (auto & k : w.ctl[i]->cfg.cmd)
    if (!fb[j] && act0[j] && std::find(w.ctl[j]->cfg.cmd.begin(), w.ctl[j]->cfg.cmd.end(), k) != w.ctl[j]->cfg.cmd.end()) { auto gr = group(w, j); for (int m = 0; m < n; ++m) room[m] |= gr[m]; }
  for (int i = 0; i < n; ++i) if (act0[i] && !stop[i] && !room[i] && !fb[i]) {
    sym_assert(w.active(i), "a controller unrelated to a failure keeps running");
    sym_assert(count(100 + i, DEACTIVATE, l0) == 0, "a controller unrelated to a failure is not restarted");
  }
  for (int i = 0; i < n; ++i) if (fb[i]) {
    if (!fb_failed) sym_assert(w.active(i), "the fallback controllers of a failed controller take over");
    else sym_assert(!w.active(i), "fallback controllers are started together or not at all");
  } else if (!act0[i]) sym_assert(!w.active(i), "no other controller is started");
  inv(w);
  inv_cycle(w);
  inv(w);
  sym_cover(failed ? "failed" : "fine");
}
SYM_HARNESS(cm_update_error) { update_error(false); }
SYM_HARNESS(cm_fallback_error) { update_error(true); }

// Hardware whose read or write fails: the controllers using it stop with their chains, everything else keeps running.
static std::vector<HwDesc> hw2()
{
  return {{"A", "system", {{"x", {"position"}, {"position"}, ""}}, "", ""}, {"B", "system", {{"y", {"position"}, {"position"}, ""}, {"z", {"position"}, {"position"}, ""}}, "", ""}};
}
static int hw_of(const std::string & k) { return k == "x/position" ? 0 : k == "y/position" || k == "z/position" ? 1 : -1; }
static const std::vector<std::string> IFS[2] = {{"x/position"}, {"y/position", "z/position"}};
// the command modes of a hardware component, unless it went through an error
static void inv_modes_hw(World & w, const bool * errored)
{
  std::set<std::string> on;
  for (auto & m : modes) if (m.perform && m.res == OK) { for (auto & k : m.stop) on.erase(k); for (auto & k : m.start) on.insert(k); }
  for (int h = 0; h < 2; ++h) if (!errored[h]) for (auto & k : IFS[h]) sym_assert(on.count(k) == (w.claimed(k) ? 1u : 0u), "the hardware's command modes are those of the active controllers");
}
static void hw_error(bool history)
{
  enum { LOW, TOP, OTHER, BC, SPARE };
  CtlCfg low{"low", {"x/position"}, {}, true, {"r"}, {"s"}}, top{"top", {"low/r"}, {}}, other{"other", {"y/position"}, {}}, bc{"bc", {}, {"x/position"}}, spare{"spare", {"x/position", "y/position"}, {}};
  switch (sym_choice("low", history ? 1 : 3)) { case 1: low.cmd = {"x/position", "z/position"}; break; case 2: low.cmd = {}; low.state = {"x/position"}; break; default: break; }
  switch (sym_choice("top", history ? 1 : 4)) { case 1: top.cmd = {}; top.state = {"low/s"}; break; case 2: top.cmd = {"low/r", "y/position"}; other.cmd = {}; other.state = {"y/position"}; break; case 3: top.state = {"x/position"}; break; default: break; }
  switch (sym_choice("bc", history ? 1 : 3)) { case 1: bc.state = {"x/position", "y/position"}; break; case 2: bc.state = {"x/position"}; bc.cmd = {}; if (low.cmd.size() < 2) bc.cmd = {"z/position"}; break; default: break; }
  if (history) other.fallback = {"spare"}, spare.cmd = sym_bool("spare_xy") ? std::vector<std::string>{"z/position"} : std::vector<std::string>{"y/position"}, spare.state = {"y/position"};
  World w(hw2(), {low, top, other, bc, spare});
  const int n = 5;
  for (int i = 0; i < n; ++i) sym_assert(w.configure(i), "configuring succeeds");
  if (!history && sym_bool("spare_before")) {  // a controller that used both and does not any more
    sym_assert(w.sw({"spare"}, {}, STRICT), "setup");
    sym_assert(w.sw({}, {"spare"}, STRICT), "setup");
  }
  if (history && sym_bool("reconfigured")) {  // a controller that used other hardware before
    auto c = w.ctl[OTHER]->cfg.cmd;
    sym_assert(w.cm->cleanup_controller("other") == ci::return_type::OK, "setup");
    w.ctl[OTHER]->cfg.cmd = {"x/position"};
    sym_assert(w.configure(OTHER) && w.sw({"other"}, {}, STRICT) && w.sw({}, {"other"}, STRICT), "setup");
    sym_assert(w.cm->cleanup_controller("other") == ci::return_type::OK, "setup");
    w.ctl[OTHER]->cfg.cmd = c;
    sym_assert(w.configure(OTHER), "setup");
  }
  sym_assert(w.sw({"low", "top", "other", "bc"}, {}, STRICT), "setup");
  if (history && sym_bool("fallback")) {  // a fallback controller that took over
    policy = [&](int who, int cb) { return who == 100 + OTHER && cb == UPDATE ? (int)ERR : (int)OK; };
    w.tick();
    policy = nullptr;
    sym_assert(w.active(SPARE) && !w.active(OTHER), "setup");
  }
  bool errored[2] = {}, deact[2] = {};
  inv_claims(w, HWIF); inv_chain(w); inv_modes_hw(w, errored);
  bool act0[n];
  for (int i = 0; i < n; ++i) act0[i] = w.active(i);
  static const char * RN[2][2] = {{"A_read", "A_write"}, {"B_read", "B_write"}};
  std::map<std::pair<int, int>, int> res;
  policy = [&](int who, int cb) {
    if (who > 1 || (cb != READ && cb != WRITE && cb != DEACTIVATE)) return (int)OK;
    auto k = std::make_pair(who, cb);
    if (res.count(k)) return (int)OK;
    int r = cb == DEACTIVATE ? (int)sym_choice(who ? "B_deact" : "A_deact", 2) : (int)sym_choice(RN[who][cb == WRITE], cb == READ ? 3 : 4);
    if (cb == READ) r = r == 0 ? OK : r == 1 ? FAIL : THROW;
    if (cb == DEACTIVATE) r = r ? ERR : OK;
    return res[k] = r;
  };
  size_t l0 = log_.size();
  w.tick();
  policy = nullptr;
  dump(w, l0);
  auto R = [&](int i, int cb) { auto it = res.find({i, cb}); return it == res.end() ? (int)OK : it->second; };
  bool must[n] = {}, may[n] = {}, any = false;
  for (int h = 0; h < 2; ++h) {
    errored[h] = R(h, READ) || R(h, WRITE) == FAIL || R(h, WRITE) == THROW || R(h, DEACTIVATE);
    deact[h] = !errored[h] && R(h, WRITE) == ERR;
    any |= errored[h] || deact[h];
    auto st = w.cm->rm().get_components_status().at(h ? "B" : "A").state.id();
    sym_assert(st == (errored[h] ? LS::PRIMARY_STATE_UNCONFIGURED : deact[h] ? LS::PRIMARY_STATE_INACTIVE : LS::PRIMARY_STATE_ACTIVE), "the failed hardware, and only it, leaves the active state");
    for (int i = 0; i < n; ++i) if (act0[i]) {
      for (auto & k : w.ctl[i]->cfg.cmd) if (hw_of(k) == h) must[i] |= errored[h] || deact[h];
      for (auto & k : w.ctl[i]->cfg.state) if (hw_of(k) == h) { must[i] |= errored[h]; may[i] |= deact[h]; }
    }
  }
  for (int i = 0; i < n; ++i) if (must[i]) {
    sym_assert(!w.active(i), "a controller using failed hardware is stopped in the same cycle");
    sym_assert(count(100 + i, DEACTIVATE, l0) == 1, "a controller using failed hardware is deactivated once");
  }
  for (int i = 0; i < n; ++i) if (must[i] || may[i]) { auto gr = group(w, i); for (int j = 0; j < n; ++j) may[j] |= gr[j]; }
  for (int i = 0; i < n; ++i) {
    sym_assert(!w.active(i) || act0[i], "no controller is started by a hardware failure");
    if (!may[i] && act0[i]) { sym_assert(w.active(i), "a controller unrelated to the failed hardware keeps running"); sym_assert(count(100 + i, DEACTIVATE, l0) == 0, "a controller unrelated to the failed hardware is not restarted"); }
  }
  inv_claims(w, HWIF); inv_chain(w); inv_modes_hw(w, errored);
  inv_cycle(w);
  for (auto & c : w.ctl) if (is_act(c)) for (auto v : {&c->cfg.cmd, &c->cfg.state}) for (auto & k : *v) if (hw_of(k) >= 0) sym_assert(!errored[hw_of(k)], "no active controller uses failed hardware");
  // recovered hardware can be used again
  if (any) {
    for (int h = 0; h < 2; ++h) if (errored[h] || deact[h]) {
      rclcpp_lifecycle::State on(LS::PRIMARY_STATE_ACTIVE, "active");
      std::string nm = h ? "B" : "A";
      sym_assert(w.cm->rm().set_component_state(nm, on) == hi::return_type::OK, "failed hardware can be activated again");
    }
    std::vector<std::string> a;
    for (int i = 0; i < n; ++i) if (act0[i] && !w.active(i)) a.push_back(w.ctl[i]->cfg.name);
    // a chain has to be started as a whole
    std::vector<std::string> d;
    for (int i = 0; i < n; ++i) if (w.active(i)) for (int j = 0; j < n; ++j) if (act0[j] && !w.active(j) && group(w, j)[i]) { d.push_back(w.ctl[i]->cfg.name); a.push_back(w.ctl[i]->cfg.name); break; }
    if (!a.empty()) sym_assert(w.sw(a, d, STRICT), "the stopped controllers can be started again");
    dump(w, log_.size());
    for (int i = 0; i < n; ++i) sym_assert(w.active(i) == act0[i], "the stopped controllers can be started again");
    inv_claims(w, HWIF); inv_chain(w);
    inv_cycle(w);
  }
  sym_cover(any ? "failed" : "fine");
}
SYM_HARNESS(cm_hw_error) { hw_error(false); }
SYM_HARNESS(cm_hw_error_fallback) { hw_error(true); }

// A controller may only be started while the fallback controllers it names could take over at once.
SYM_HARNESS(cm_fallback_ready)
{
  enum { A, F, X, U };
  // f needs hardware, x's reference, x's exported state or an interface that nobody has
  CtlCfg a{"a", {"x/position"}, {}}, f{"f", {}, {}}, x{"x", {"z/position"}, {}, true, {"r"}, {"s"}}, u{"u", {"y/position"}, {}};
  x.name = "cx";
  static const std::vector<std::string> FC[] = {{"x/position"}, {"cx/r"}, {"x/position", "cx/none"}, {"nowhere/position"}, {}}, FS[] = {{}, {"y/position"}, {"cx/s"}, {"cx/none"}, {"nowhere/position"}};
  const int fc = (int)sym_choice("f_cmd", 5), fs = (int)sym_choice("f_state", 5);
  f.cmd = FC[fc]; f.state = FS[fs];
  // the fallback list of a, and a second controller that starts with it
  switch (sym_choice("fallback", 6)) { case 1: a.fallback = {"f"}; break; case 2: a.fallback = {"f", "cx"}; break; case 3: a.fallback = {"cx", "f"}; break; case 4: a.fallback = {"ghost"}; break; case 5: a.fallback = {"f", "ghost"}; break; default: break; }
  std::vector<HwDesc> hw = {{"A", "system", {{"x", {"position"}, {"position"}, ""}}, "", ""}, {"B", "system", {{"y", {"position"}, {"position"}, ""}}, "", ""}, {"C", "system", {{"z", {"position"}, {"position"}, ""}}, "", ""}};
  World w(hw, {a, f, x, u});
  sym_assert(w.configure(A) && w.configure(U), "setup");
  const bool f_conf = sym_bool("f_configured"), x_conf = sym_bool("x_configured"), x_act = x_conf && sym_bool("x_active");
  if (x_conf) sym_assert(w.configure(X), "setup");
  if (f_conf) sym_assert(w.configure(F), "setup");
  if (x_act) sym_assert(w.sw({"cx"}, {}, STRICT, true), "setup");
  const bool b_down = sym_bool("B_down") && (fs == 1);
  if (b_down) { rclcpp_lifecycle::State s(LS::PRIMARY_STATE_UNCONFIGURED, "-"); sym_assert(w.cm->rm().set_component_state("B", s) == hi::return_type::OK, "setup"); }
  auto in = [&](const char * n) { return std::find(a.fallback.begin(), a.fallback.end(), n) != a.fallback.end(); };
  bool ready = !in("ghost") && !(in("f") && !f_conf) && !(in("cx") && !x_conf);
  if (in("f")) {
    if (fc == 1 || fs == 2) ready &= x_act || in("cx");
    if (fc == 2 || fc == 3 || fs == 3 || fs == 4 || b_down) ready = false;
  }
  const bool strict = sym_bool("strict"), with_u = !b_down && sym_bool("with_u");
  std::vector<std::string> req = {"a"};
  if (with_u) req.insert(req.begin() + sym_choice("order", 2), "u");
  size_t l0 = log_.size();
  bool ok = w.sw(req, {}, strict ? STRICT : BEST_EFFORT, true);
  dump(w, l0);
  sym_assert(w.active(A) == ready, "a controller is started exactly when its fallback controllers are ready to take over");
  if (strict) {
    sym_assert(ok == ready, "a strict switch is accepted exactly when the fallback controllers are ready to take over");
    sym_assert(w.active(U) == (with_u && ready), "a strict switch does everything or nothing");
  } else {
    sym_assert(ok, "a best-effort switch leaves out what is not possible");
    sym_assert(w.active(U) == with_u, "a best-effort switch does what is possible");
  }
  sym_assert(w.active(X) == x_act && !w.active(F), "nothing else is switched");
  inv_claims(w, HWIF);
  inv_chain(w);
  // and then they do take over
  if (w.active(A) && in("f")) {
    policy = [&](int who, int cb) { return who == 100 + A && cb == UPDATE ? (int)ERR : (int)OK; };
    w.tick();
    policy = nullptr;
    sym_assert(!w.active(A) && w.active(F), "the fallback controllers of a failed controller take over");
    inv_claims(w, HWIF);
    inv_chain(w);
    inv_cycle(w);
  }
  sym_cover(ready ? "ready" : "not ready");
}
