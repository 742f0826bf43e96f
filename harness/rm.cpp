// The resource manager on its own: lifecycle of hardware components, availability and claims of
// interfaces, containment of errors in read/write, dispatch of command mode switches.
#include "ctl.hpp"
using namespace vt;
using RM = hi::ResourceManager;
static const uint8_t U = LS::PRIMARY_STATE_UNCONFIGURED, I = LS::PRIMARY_STATE_INACTIVE, A = LS::PRIMARY_STATE_ACTIVE, F = LS::PRIMARY_STATE_FINALIZED;
static const char * LABEL[] = {"", "unconfigured", "inactive", "active", "finalized"};
static uint8_t st(RM & rm, const std::string & n) { return rm.get_components_status().at(n).state.id(); }
static bool set(RM & rm, const std::string & n, uint8_t t, bool by_label = false)
{
  State s(by_label ? 0 : t, LABEL[t]);
  return rm.set_component_state(n, s) == hi::return_type::OK;
}
static bool up(uint8_t s) { return s == I || s == A; }
struct Itfs { std::vector<std::string> cmd, state; };
static Itfs itfs(const HwDesc & h)
{
  Itfs r;
  for (auto & j : h.joints) {
    if (h.type != "sensor") for (auto & c : j.cmd) r.cmd.push_back(j.name + "/" + c);
    for (auto & c : j.state) r.state.push_back(j.name + "/" + c);
  }
  return r;
}
static void inv_available(RM & rm, const std::vector<HwDesc> & hws)
{
  for (auto & h : hws) {
    auto f = itfs(h);
    bool e = up(st(rm, h.name));
    for (auto & k : f.cmd) sym_assert(rm.command_interface_is_available(k) == e, "command interfaces are available exactly while their hardware is configured");
    for (auto & k : f.state) sym_assert(rm.state_interface_is_available(k) == e, "state interfaces are available exactly while their hardware is configured");
  }
  for (auto l : {rm.available_command_interfaces(), rm.available_state_interfaces()}) {
    std::set<std::string> s(l.begin(), l.end());
    sym_assert(s.size() == l.size(), "no interface is listed as available twice");
  }
}
static void note(RM & rm, const std::vector<HwDesc> & hws, size_t from)
{
  if (!sym_replaying()) return;
  static const char * CB[] = {"init", "configure", "activate", "deactivate", "cleanup", "shutdown", "error", "read", "write", "prepare", "perform"};
  for (size_t i = from; i < log_.size(); ++i) sym_note("  %d %s -> %d", log_[i].who, CB[log_[i].cb], log_[i].res);
  for (auto & h : hws) sym_note("  %s %s", h.name.c_str(), LABEL[st(rm, h.name)]);
}

// ---- R01: lifecycle, availability, claims
static const HwDesc SYS{"s", "system", {{"x", {"position", "velocity"}, {"position"}, ""}}, "", ""}, ACT{"a", "actuator", {{"y", {"position"}, {"position"}, ""}}, "", ""}, SEN{"n", "sensor", {{"t", {}, {"force"}, ""}}, "", ""};
// drives component 0 through requested transitions; the others must not notice
static void lifecycle(const std::vector<HwDesc> & hws, int steps)
{
  reset_world(hws);
  RM rm(rm_params(urdf(hws), false), true);
  sym_assert(rm.are_components_initialized(), "components load");
  static const uint8_t T[] = {U, I, A, F};
  uint8_t other[3] = {0, 0, 0};
  for (size_t i = 1; i < hws.size(); ++i) { other[i] = T[sym_choice("other", 3)]; sym_assert(set(rm, hws[i].name, other[i]), "transitions succeed when every callback does"); }
  const std::string & n = hws[0].name;
  uint8_t s = U;
  for (int k = 0; k < steps; ++k) {
    std::vector<std::pair<int, int>> calls;   // callback, result
    int err_res = -1, n_err = 0;
    policy = [&](int who, int cb) {
      static const char * CN[] = {"", "configure", "activate", "deactivate", "cleanup", "shutdown", "on_error"};
      if (who != 0) return (int)OK;
      int r = (int)sym_choice(CN[cb], cb == ERRORCB ? 3 : 4);
      if (cb == ERRORCB) { err_res = r; ++n_err; }
      else calls.push_back({cb, r});
      return r;
    };
    uint8_t t = T[sym_choice("target", 4)];
    bool by_label = bound(0, 1) && sym_bool("by_label");
    size_t l0 = log_.size();
    bool ok = set(rm, n, t, by_label);
    policy = nullptr;
    note(rm, hws, l0);
    // the documented path
    std::vector<std::pair<int, uint8_t>> path;   // callback, state it leads to
    if (s != F && s != t) {
      if (s == A && t != A) path.push_back({DEACTIVATE, I});
      if (t == F) path.push_back({SHUTDOWN, F});
      if (t == U) path.push_back({CLEANUP, U});
      if (t == A && s == U) path.push_back({CONFIGURE, I});
      if (t == A) path.push_back({ACTIVATE, A});
      if (t == I && s == U) path.push_back({CONFIGURE, I});
    }
    uint8_t e = s;
    bool failed = false, err = false;
    uint8_t e_at_err = I;
    size_t c = 0;
    for (auto & p : path) {
      sym_assert(c < calls.size() && calls[c].first == p.first, "a transition runs the documented callbacks in order and stops at the first failure");
      int r = calls[c++].second;
      if (r == OK) { e = p.second; continue; }
      failed = true;
      if (r == THROW) break;
      if (r == FAIL && (p.first == CONFIGURE || p.first == ACTIVATE || p.first == DEACTIVATE)) break;
      e_at_err = e;
      err = e != U;   // errors of unconfigured hardware may or may not be passed to on_error
      if (err) e = err_res == OK ? U : F;
      else if (n_err) e = err_res == OK ? U : F;
      break;
    }
    sym_assert(c == calls.size(), "a transition runs the documented callbacks in order and stops at the first failure");
    sym_assert(n_err == (err ? 1 : 0) || (e_at_err == U && n_err <= 1), "a critical error is passed to on_error exactly once");
    uint8_t now = st(rm, n);
    sym_assert(now == e, "the component ends in the state its callbacks lead to");
    sym_assert(!ok || now == t, "success is reported only when the requested state is reached");
    if (!failed && !(s == F && t != F)) sym_assert(ok, "transitions succeed when every callback does");
    s = now;
    inv_available(rm, hws);
    for (size_t i = 1; i < hws.size(); ++i) sym_assert(st(rm, hws[i].name) == other[i], "other components keep their state");
    for (size_t i = l0; i < log_.size(); ++i) sym_assert(log_[i].who == 0, "other components are not called");
  }
  sym_cover(LABEL[s]);
}
SYM_HARNESS(rm_lifecycle_system) { lifecycle({SYS, ACT}, bound(3, 4)); }
SYM_HARNESS(rm_lifecycle_actuator) { lifecycle({ACT, SEN}, bound(2, 4)); }
SYM_HARNESS(rm_lifecycle_sensor) { lifecycle({SEN, SYS}, bound(2, 4)); }

// claims against availability
SYM_HARNESS(rm_claims)
{
  std::vector<HwDesc> hws{SYS, SEN};
  reset_world(hws);
  RM rm(rm_params(urdf(hws), true), true);
  static const std::string K[] = {"x/position", "x/velocity", "none/position"};
  std::map<std::string, std::unique_ptr<hi::LoanedCommandInterface>> held;
  int faults = bound(1, 2);
  policy = [&](int, int cb) { if (cb == READ && faults && sym_bool("read_fails")) { --faults; return (int)FAIL; } return (int)OK; };
  for (int k = 0; k < bound(4, 5); ++k) {
    int op = (int)sym_choice("op", 5);
    if (op == 0) { rm.read(now_(), Duration::from_seconds(0.01)); }
    else if (op == 1) { static const uint8_t T[] = {U, I, A}; set(rm, "s", T[sym_choice("to", 3)]); }
    else {
      if (op == 2) {
        const std::string & key = K[sym_choice("key", 3)];
        bool threw = false, can = up(st(rm, "s")) && key[0] == 'x' && !held.count(key);
        std::unique_ptr<hi::LoanedCommandInterface> l;
        try { l.reset(new hi::LoanedCommandInterface(rm.claim_command_interface(key))); } catch (const std::exception &) { threw = true; }
        sym_assert(threw == !can, "an interface can be claimed exactly when it is available and not claimed");
        if (!threw) held[key] = std::move(l);
      } else {
        if (held.empty()) sym_end();
        auto it = held.begin();
        std::advance(it, held.size() > 1 ? sym_choice("held", 2) : 0);
        const std::string key = it->first;
        if (op == 3) held.erase(it);
        else { hi::LoanedCommandInterface moved(std::move(*it->second)); held.erase(it); held[key] = std::make_unique<hi::LoanedCommandInterface>(std::move(moved)); }
      }
    }
    inv_available(rm, hws);
    for (auto & key : K) sym_assert(rm.command_interface_is_claimed(key) == (held.count(key) && up(st(rm, "s"))), "an available interface is claimed exactly while somebody holds it");
  }
}

// ---- R02: errors while reading and writing
// groups: 0 no groups, 1 a+s, 2 a+n, 3 n+s, 4 all three
static void rw_errors(int cycles, int max_faults, bool vary)
{
  int g = (int)sym_choice("groups", 5);
  static const int IN[5][3] = {{0, 0, 0}, {1, 0, 1}, {1, 1, 0}, {0, 1, 1}, {1, 1, 1}};
  std::vector<HwDesc> hws{ACT, SEN, SYS};
  for (int i = 0; i < 3; ++i) if (IN[g][i]) hws[i].group = "g";
  reset_world(hws);
  RM rm(rm_params(urdf(hws), false), true);
  uint8_t s[3];
  static const uint8_t T[] = {A, I, U};
  static const char * SN[] = {"a_state", "n_state", "s_state"};
  for (int i = 0; i < 3; ++i) { uint8_t t = vary ? T[sym_choice(SN[i], 3)] : A; sym_assert(set(rm, hws[i].name, t), "setup"); s[i] = t; }
  int faults = max_faults;
  bool stuck = false;
  bool owed_err[3] = {false, false, false}, owed_deact[3] = {false, false, false};
  for (int c = 0; c < 2 * cycles + 2; ++c) {
    const bool rd = c % 2 == 0;
    if (c >= 2 * cycles) faults = 0;   // a last cycle for errors that have to reach other members of the group
    int res[3] = {OK, OK, OK}, err[3] = {-1, -1, -1}, deact[3] = {-1, -1, -1};
    policy = [&](int who, int cb) {
      static const char * RN[] = {"a_read", "n_read", "s_read"}, * WN[] = {"a_write", "n_write", "s_write"}, * EN[] = {"a_error", "n_error", "s_error"}, * DN[] = {"a_deact", "n_deact", "s_deact"};
      if (cb == ERRORCB) return err[who] = (int)sym_choice(EN[who], 2);
      if (cb == DEACTIVATE) return deact[who] = (int)sym_choice(DN[who], 2);
      if ((cb != READ && cb != WRITE) || !faults) return (int)OK;
      int r = (int)sym_choice(cb == READ ? RN[who] : WN[who], 4);   // OK, ERROR, DEACTIVATE, exception
      if (r) --faults;
      return res[who] = r;
    };
    size_t l0 = log_.size();
    if (sym_replaying()) sym_note("%s", rd ? "read" : "write");
    auto status = rd ? rm.read(now_(), Duration::from_seconds(0.01)) : rm.write(now_(), Duration::from_seconds(0.01));
    sim::now_ns += 5000000;
    policy = nullptr;
    note(rm, hws, l0);
    bool any_err = false, any_deact = false;
    for (int i = 0; i < 3; ++i) {
      bool called = rd ? up(s[i]) : s[i] == A && i != 1;
      sym_assert(count(i, rd ? READ : WRITE, l0) == (called ? 1 : 0), "each cycle reads configured and writes active components, once");
      sym_assert(count(i, rd ? WRITE : READ, l0) == 0, "reading does not write and writing does not read");
      bool own_err = rd ? res[i] != OK : res[i] == FAIL || res[i] == THROW, own_deact = !rd && res[i] == ERR;
      bool mate_err = owed_err[i], mate_deact = owed_deact[i];
      // processed in this order: errors of earlier group members reach later ones in the same phase
      for (int j = 0; j < i; ++j) if (IN[g][i] && IN[g][j]) {
        mate_err |= rd ? res[j] != OK : res[j] == FAIL || res[j] == THROW;
        mate_deact |= !rd && res[j] == ERR;
      }
      const uint8_t now = st(rm, hws[i].name);
      const int n_err = count(i, ERRORCB, l0), n_deact = count(i, DEACTIVATE, l0);
      bool named = std::find(status.failed_hardware_names.begin(), status.failed_hardware_names.end(), hws[i].name) != status.failed_hardware_names.end();
      sym_assert(count(i, CONFIGURE, l0) + count(i, ACTIVATE, l0) + count(i, CLEANUP, l0) + count(i, SHUTDOWN, l0) == 0, "the control loop only stops hardware");
      if (!up(s[i])) {
        sym_assert(n_err == 0 && n_deact == 0 && now == s[i], "hardware that is not configured is left alone");
      } else if (own_err || n_err) {
        sym_assert(own_err || mate_err, "only hardware that failed, or whose group did, is stopped with an error");
        sym_assert(n_err == 1 && now == (err[i] == OK ? U : F), "hardware that fails gets on_error once and ends unconfigured or finalized");
        sym_assert(named, "hardware that fails is reported");
        any_err = true;
        owed_err[i] = owed_deact[i] = false;
      } else if (n_deact) {
        sym_assert(!rd && s[i] == A, "only active hardware is deactivated, when it is written");
        sym_assert(own_deact || mate_deact, "only hardware that asks for it, or whose group did, is deactivated");
        sym_assert(now == (deact[i] == OK ? I : A), "hardware that asks for it is deactivated");
        sym_assert(named, "hardware that is deactivated is reported");
        (now == A ? any_err : any_deact) = true;   // what could not be deactivated has failed
        owed_deact[i] = now == A && IN[g][i];   // tried again
        stuck |= now == A;
      } else {
        sym_assert(!own_deact, "hardware that asks for it is deactivated");
        sym_assert(now == s[i], "hardware without errors keeps its state");
        sym_assert(!named || (IN[g][i] && mate_deact), "hardware without errors is not reported");
        // an error of a group member has to arrive at the next time this component is handled
        sym_assert(!(rd || i != 1) || !owed_err[i], "an error reaches every configured member of the group by the next phase");
      }
      s[i] = now;
    }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j && IN[g][i] && IN[g][j] && up(s[i])) {
      if (rd ? res[j] != OK : res[j] == FAIL || res[j] == THROW) owed_err[i] = true;
      if (!rd && res[j] == ERR) owed_deact[i] = true;
    }
    sym_assert(status.result == (any_err ? hi::return_type::ERROR : any_deact ? hi::return_type::DEACTIVATE : hi::return_type::OK), "the result says whether hardware failed");
    inv_available(rm, hws);
  }
  if (stuck) return;
  // everything that is not finalized can be brought back and works
  for (int i = 0; i < 3; ++i) if (s[i] != F) sym_assert(set(rm, hws[i].name, A), "hardware can be started again after an error");
  for (int c = 0; c < 2; ++c) {
    sym_assert(rm.read(now_(), Duration::from_seconds(0.01)).result == hi::return_type::OK, "errors are forgotten once the hardware is started again");
    sym_assert(rm.write(now_(), Duration::from_seconds(0.01)).result == hi::return_type::OK, "errors are forgotten once the hardware is started again");
  }
  for (int i = 0; i < 3; ++i) sym_assert(st(rm, hws[i].name) == (s[i] == F ? F : A), "errors are forgotten once the hardware is started again");
  inv_available(rm, hws);
}
SYM_HARNESS(rm_rw_errors) { rw_errors(2, bound(1, 2), false); }
SYM_HARNESS(rm_rw_errors_two) { rw_errors(1, 3, false); }
SYM_HARNESS(rm_rw_errors_states) { rw_errors(2, 1, true); }

// ---- R03: command mode switches
SYM_HARNESS(rm_modes)
{
  std::vector<HwDesc> hws{ACT, SYS};
  if (sym_choice("two_systems", bound(1, 2))) hws[0].type = "system";
  reset_world(hws);
  auto p = rm_params(urdf(hws), false);
  bool allow = p.allow_controller_activation_with_inactive_hardware = sym_bool("allow_inactive");
  RM rm(p, true);
  static const uint8_t T[] = {A, I, U, F};
  uint8_t s[2];
  static const char * SN[] = {"a_state", "s_state"};
  for (int i = 0; i < 2; ++i) { s[i] = T[sym_choice(SN[i], bound(3, 4))]; set(rm, hws[i].name, s[i]); }
  static const char * K[] = {"y/position", "x/position", "x/velocity", "none/position"};
  static const int OF[] = {0, 1, 1, -1};
  std::vector<std::string> start, stop;
  std::set<std::string> want[2][2];
  bool missing = false, start_na = false;
  for (int k = 0; k < 4; ++k) {
    int c = (int)sym_choice(K[k], k == 3 ? bound(2, 3) : k == 2 ? bound(3, 4) : 4);
    if (c & 1) { start.push_back(K[k]); if (k < 3) want[OF[k]][0].insert(K[k]); missing |= k == 3; start_na |= k < 3 && !up(s[OF[k]]); }
    if (c & 2) { stop.push_back(K[k]); if (k < 3) want[OF[k]][1].insert(K[k]); missing |= k == 3; }
  }
  bool perform = sym_bool("perform");
  int res[2] = {OK, OK};
  policy = [&](int who, int cb) { static const char * N[] = {"a_result", "s_result"}; return res[who] = (cb == PREPARE || cb == PERFORM) ? (int)sym_choice(N[who], bound(3, 4)) : (int)OK; };
  bool ok = perform ? rm.perform_command_mode_switch(start, stop) : rm.prepare_command_mode_switch(start, stop);
  policy = nullptr;
  bool all = true, refused = (!perform && (missing || start_na));
  int called[2] = {0, 0};
  for (auto & m : modes) {
    sym_assert(m.perform == perform, "preparing does not perform and performing does not prepare");
    sym_assert(up(s[m.who]), "only configured hardware is asked to switch modes");
    ++called[m.who];
    std::set<std::string> a(m.start.begin(), m.start.end()), d(m.stop.begin(), m.stop.end());
    sym_assert(a == want[m.who][0] && d == want[m.who][1] && a.size() == m.start.size() && d.size() == m.stop.size(), "a component is told exactly which of its own interfaces start and stop");
    sym_assert(s[m.who] == A || allow || a.empty(), "inactive hardware is not asked to start interfaces unless that is allowed");
  }
  bool blocked = false;
  for (int i = 0; i < 2; ++i) {
    bool some = !want[i][0].empty() || !want[i][1].empty(), can = some && up(s[i]) && (s[i] == A || allow || want[i][0].empty());
    if (some && !can) all = false, blocked = true;
    if (res[i] != OK) all = false;
    sym_assert(called[i] <= (can && !refused ? 1 : 0), "a component without interfaces to switch is not called, the others once");
  }
  if (!blocked && !refused) for (int i = 0; i < 2; ++i) if (!want[i][0].empty() || !want[i][1].empty()) sym_assert(called[i] == 1, "every component with interfaces to switch is called, whatever the others answer");
  sym_assert(ok == (all && !refused), "a switch is accepted exactly when every component concerned accepts it");
  for (int i = 0; i < 2; ++i) sym_assert(st(rm, hws[i].name) == s[i], "switching modes does not change hardware states");
}
