// Loading, configuring, cleaning up and unloading controllers, in every order and with failing callbacks.
#include "cm_common.hpp"
using namespace vt;
static const std::vector<std::string> HWIF = {"x/position", "y/position"};
enum St { NONE, U, I, A, F };
static const uint8_t ID[] = {0, LS::PRIMARY_STATE_UNCONFIGURED, LS::PRIMARY_STATE_INACTIVE, LS::PRIMARY_STATE_ACTIVE, LS::PRIMARY_STATE_FINALIZED};
enum Kind { CONF, CLEAN, UNLOAD, ACT, DEACT, NKIND };
struct Life : World
{
  static constexpr int n = 3;
  static const std::vector<CtlCfg> & cfgs()
  {
    static const std::vector<CtlCfg> c = {{"low", {"x/position"}, {}, true, {"r"}, {"e"}}, {"top", {"low/r"}, {}}, {"side", {"y/position"}, {"low/e"}}};
    return c;
  }
  St s[n] = {U, U, U};
  int budget = 0;
  int nf = 0;
  std::map<int, int> rep;                 // results of the callbacks of the running operation, in order
  Life() : World({{"hw", "system", {{"x", {"position"}, {"position"}, ""}, {"y", {"position"}, {"position"}, ""}}, "", ""}}, cfgs()) {}
  // result of a callback of controller i in state machine terms
  St after(int i, int cb, size_t & k, St from, St ok)
  {
    for (; k < log_.size(); ++k) if (log_[k].who >= 100) break;
    sym_assert(k < log_.size() && log_[k].who == 100 + i && log_[k].cb == cb, "the callback of the transition is called");
    int r = log_[k++].res;
    if (r == OK) return ok;
    if (r == FAIL) return from;
    for (; k < log_.size(); ++k) if (log_[k].who >= 100) break;
    sym_assert(k < log_.size() && log_[k].who == 100 + i && log_[k].cb == ERRORCB, "an error of a callback is handled");
    return log_[k++].res == OK ? U : F;
  }
  void faults(bool on)
  {
    if (!on) { policy = nullptr; return; }
    policy = [this](int who, int cb) {
      if (who < 100 || (cb != CONFIGURE && cb != CLEANUP && cb != SHUTDOWN && cb != ERRORCB)) return (int)OK;
      if (cb == ERRORCB) return sym_choice(("error" + std::to_string(++nf)).c_str(), 2) ? (int)FAIL : (int)OK;
      if (!budget) return (int)OK;
      int r = (int)sym_choice(("fault" + std::to_string(++nf)).c_str(), 4);
      if (r) --budget;
      return r;
    };
  }
  void replace(int i)
  {
    std::vector<std::shared_ptr<ci::ControllerInterfaceBase>> o = obj;
    std::vector<CtlBase *> c = ctl;
    add(cfgs()[i]);
    o[i] = obj.back(); c[i] = ctl.back();
    obj = o; ctl = c;
    ctl[i]->id = 100 + i;
  }
  void op(int i, int kind)
  {
    size_t l0 = log_.size(), k = l0;
    const std::string nm = cfgs()[i].name;
    St prev[n];
    for (int j = 0; j < n; ++j) prev[j] = s[j];
    bool ok = false, expect = false;
    if (kind == UNLOAD && s[i] == NONE) {      // load instead
      replace(i);
      expect = ok = true;
      s[i] = U;
      k = log_.size();
    } else if (kind == CONF) {
      ok = cm->configure_controller(nm) == ci::return_type::OK;
      if (s[i] == I) { s[i] = after(i, CLEANUP, k, I, U); if (s[i] == U) s[i] = after(i, CONFIGURE, k, U, I), expect = s[i] == I; }
      else if (s[i] == U) { s[i] = after(i, CONFIGURE, k, U, I); expect = s[i] == I; }
    } else if (kind == CLEAN) {
      ok = cm->cleanup_controller(nm) == ci::return_type::OK;
      if (s[i] == I) { s[i] = after(i, CLEANUP, k, I, U); expect = s[i] == U; }
      else expect = s[i] == U;
    } else if (kind == UNLOAD) {
      ok = cm->unload_controller(nm) == ci::return_type::OK;
      if (s[i] == I) s[i] = after(i, CLEANUP, k, I, U);
      if (s[i] == U) { after(i, SHUTDOWN, k, U, F); s[i] = NONE; expect = true; }
      else if (prev[i] == F) s[i] = NONE, expect = true;
    } else if (kind == ACT) {
      ok = sw({nm}, {}, STRICT, true);
      expect = s[i] == I && (i == 0 || s[0] == A);
      if (s[i] == A) expect = ok;    // already active: not judged here
      if (expect && s[i] == I) s[i] = A;
    } else {
      ok = sw({}, {nm}, STRICT, true);
      expect = s[i] == A && !(i == 0 && (s[1] == A || s[2] == A));
      if (s[i] == I || s[i] == U || s[i] == F) expect = ok;
      if (expect && s[i] == A) s[i] = I;
    }
    if (sym_replaying()) { sym_note("controller %d operation %d ok %d", i, kind, (int)ok); dump(*this, l0); }
    sym_assert(ok == expect, "an operation succeeds exactly when it is allowed and its callbacks succeed");
    if (kind <= UNLOAD) for (; k < log_.size(); ++k) sym_assert(log_[k].who < 100 || log_[k].cb >= UPDATE, "no other callbacks are called");
    check();
  }
  void check()
  {
    auto names = cm->get_loaded_controllers();
    for (int i = 0; i < n; ++i) {
      int found = 0;
      for (auto & c : names) found += c.info.name == cfgs()[i].name && c.c == obj[i];
      sym_assert(found == (s[i] != NONE), "exactly the loaded controllers are listed");
      if (s[i] != NONE) sym_assert(st(i) == ID[s[i]], "a controller is in the state its operations and callbacks lead to");
    }
    sym_assert((int)names.size() == (s[0] != NONE) + (s[1] != NONE) + (s[2] != NONE), "exactly the loaded controllers are listed");
    sym_assert(cm->rm().command_interface_exists("low/r") == (s[0] == I || s[0] == A), "references exist exactly while their controller is configured");
    sym_assert(cm->rm().state_interface_exists("low/e") == (s[0] == I || s[0] == A), "exported state interfaces exist exactly while their controller is configured");
    // the controllers that are loaded
    World * w = this;
    inv_claims(*w, HWIF);
    if (s[0] == I || s[0] == A) inv_chain(*w);
    inv_cycle(*w);
  }
};
static void life(int nops, int faults)
{
  Life w;
  // where it starts: nothing configured up to everything running
  const int start = (int)sym_choice("start", 6);
  if (start >= 1) sym_assert(w.configure(0), "setup"), w.s[0] = I;
  if (start >= 2) sym_assert(w.configure(1), "setup"), w.s[1] = I;
  if (start >= 3) sym_assert(w.sw({"low"}, {}, STRICT, true), "setup"), w.s[0] = A;
  if (start >= 4) sym_assert(w.configure(2), "setup"), w.s[2] = I;
  if (start >= 5) sym_assert(w.sw({"top"}, {}, STRICT, true), "setup"), w.s[1] = A;
  w.check();
  w.budget = faults;
  for (int j = 0; j < nops; ++j) {
    char cn[8] = "ctl0", kn[8] = "op0";
    cn[3] += j; kn[2] += j;
    const int i = (int)sym_choice(cn, 3), kind = (int)sym_choice(kn, NKIND);
    if (kind == ACT && w.s[i] == A) sym_end();
    if (kind == DEACT && w.s[i] != A) sym_end();
    w.faults(true);
    w.op(i, kind);
    w.faults(false);
  }
  // everything can be brought up again
  for (int i = 0; i < 3; ++i) { if (w.s[i] == F) w.op(i, UNLOAD); if (w.s[i] == NONE) w.op(i, UNLOAD); if (w.s[i] == U) w.op(i, CONF); }
  for (int i = 0; i < 3; ++i) if (w.s[i] == I) w.op(i, ACT);
  for (int i = 0; i < 3; ++i) sym_assert(w.s[i] == A, "everything can be brought up again");
  sym_assert(w.sw({}, {"low", "top", "side"}, STRICT, true), "everything can be stopped again");
  for (int i = 0; i < 3; ++i) w.s[i] = I;
  w.check();
  sym_cover("done");
}
SYM_HARNESS(cm_life) { life(bound(3, 4), 0); }
SYM_HARNESS(cm_life_faults) { life(bound(2, 3), 1); }

// Loading plugins of any kind, with any result of on_init, and configuring controllers with unusable interfaces.
SYM_HARNESS(cm_load)
{
  static const char * TYPES[] = {"vt/Ctl", "vt/ChainCtl", "vt/Nothing", ""};
  const int type = (int)sym_choice("type", 4);
  // 0 fine, 1 a command interface twice, 2 a state interface twice, 3 exports nothing (chainable only)
  const int flaw = (int)sym_choice("flaw", 4);
  const bool selffb = sym_bool("fallback_is_itself");
  std::vector<rclcpp::Parameter> par{rclcpp::Parameter("new.fallback_controllers", selffb ? std::vector<std::string>{"old", "new"} : std::vector<std::string>{"old"})};
  if (type < 3) par.emplace_back("new.type", std::string(TYPES[type]));
  World w({{"hw", "system", {{"x", {"position"}, {"position"}, ""}, {"y", {"position"}, {"position"}, ""}}, "", ""}}, {{"old", {"y/position"}, {}}}, par);
  CtlCfg cfg{"new", {"x/position"}, {"x/position"}, type == 1, {"r"}, {"e"}};
  if (type != 1) cfg.refs.clear(), cfg.exported.clear();
  if (flaw == 1) cfg.cmd.push_back("x/position");
  if (flaw == 2) cfg.state.push_back("x/position");
  if (flaw == 3) cfg.refs.clear(), cfg.exported.clear();
  std::vector<CtlBase *> made;
  auto reg = [&](auto * p) { p->id = 101 + (int)made.size(); p->cfg = cfg; made.push_back(p); return p; };
  pluginlib::factories<ci::ControllerInterface>()["vt/Ctl"] = [&]() -> ci::ControllerInterface * { return reg(new Ctl()); };
  pluginlib::factories<ci::ChainableControllerInterface>()["vt/ChainCtl"] = [&]() -> ci::ChainableControllerInterface * { return reg(new ChainCtl()); };
  sym_assert(w.configure(0), "setup");
  if (sym_bool("old_active")) sym_assert(w.sw({"old"}, {}, STRICT, true), "setup");
  const uint8_t old = w.st(0);
  auto listed = [&](const std::string & nm) { int k = 0; for (auto & c : w.cm->get_loaded_controllers()) k += c.info.name == nm; return k; };
  auto load = [&] {
    auto q = std::make_shared<controller_manager_msgs::srv::LoadController::Request>();
    auto r = std::make_shared<controller_manager_msgs::srv::LoadController::Response>();
    q->name = "new";
    w.cm->load_controller_service_cb(q, r);
    return (bool)r->ok;
  };
  const int res = (int)sym_choice("on_init", 5);
  policy = [&](int, int cb) { return cb == INIT ? res : (int)OK; };
  bool ok = load();
  policy = nullptr;
  const bool loadable = type < 2 && !selffb, expect = loadable && res == OK;
  sym_assert(ok == expect, "a controller is loaded exactly when its plugin exists, its parameters make sense and its initialisation succeeds");
  sym_assert(listed("new") == (expect ? 1 : 0) && listed("old") == 1, "exactly the loaded controllers are listed");
  if (!expect) {
    // nothing of it stays behind
    made.clear();
    sym_assert(w.cm->configure_controller("new") != ci::return_type::OK, "what is not loaded can not be configured");
    ok = load();
    sym_assert(ok == loadable, "a controller that failed to load can be loaded again");
    sym_assert(listed("new") == (loadable ? 1 : 0), "exactly the loaded controllers are listed");
  }
  if (loadable) {
    sym_assert(!load() && listed("new") == 1, "a name is not loaded twice");
    made.resize(1);   // the second one was not loaded
    CtlBase * c = nullptr;
    for (auto & s : w.cm->get_loaded_controllers()) if (s.info.name == "new") for (auto * m : made) if (m->base() == s.c.get()) c = m;
    sym_assert(c != nullptr, "the controller that is listed is the one made by its plugin");
    sym_assert(c->base()->get_lifecycle_state().id() == LS::PRIMARY_STATE_UNCONFIGURED, "a loaded controller is unconfigured");
    const bool good = flaw == 0 || (flaw == 3 && type == 0);
    sym_assert((w.cm->configure_controller("new") == ci::return_type::OK) == good, "a controller is configured exactly when its interfaces make sense");
    sym_assert(c->base()->get_lifecycle_state().id() == (good ? LS::PRIMARY_STATE_INACTIVE : LS::PRIMARY_STATE_UNCONFIGURED), "a controller with unusable interfaces stays unconfigured");
    sym_assert(w.cm->rm().command_interface_exists("new/r") == (good && type == 1), "references exist exactly while their controller is configured");
    sym_assert(w.cm->rm().state_interface_exists("new/e") == (good && type == 1), "exported state interfaces exist exactly while their controller is configured");
    sym_assert(w.sw({"new"}, {}, STRICT, true) == good, "exactly configured controllers can be activated");
    if (good) {
      w.sw({}, {"new"}, STRICT, true);
      sym_assert(w.claimed("x/position") == false, "a stopped controller holds nothing");
    } else {
      // repaired, it works
      c->cfg.cmd = {"x/position"}; c->cfg.state = {"x/position"};
      if (type == 1) c->cfg.refs = {"r"};
      sym_assert(w.cm->configure_controller("new") == ci::return_type::OK, "a controller whose interfaces were repaired can be configured");
      sym_assert(w.sw({"new"}, {}, STRICT, true) && w.sw({}, {"new"}, STRICT, true), "a controller whose interfaces were repaired runs");
    }
    sym_assert(w.cm->unload_controller("new") == ci::return_type::OK && listed("new") == 0, "a controller that is not active can be unloaded");
    sym_assert(load() && listed("new") == 1, "an unloaded controller can be loaded again");
  }
  sym_assert(w.st(0) == old, "other controllers are not affected");
  const size_t l = log_.size();
  w.tick();
  sym_assert(count(100, UPDATE, l) == (w.active(0) ? 1 : 0), "other controllers keep running");
  sym_cover("done");
}
