// Controller switching: exclusive claims, all-or-nothing strict switches, containment of failures.
#include "cm_common.hpp"
using namespace vt;
static std::vector<HwDesc> one_hw() { return {{"hw", "system", {{"x", {"position"}, {"position"}, ""}, {"y", {"position"}, {"position"}, ""}}, "", ""}}; }
static const char * X = "x/position";
static const char * Y = "y/position";
static const char * NAME[] = {"a", "b", "c", "d"};

static void check_claims(World & w, const std::vector<std::string> & ifs) { inv_claims(w, ifs); }
static std::vector<std::string> claims(uint64_t k)
{
  std::vector<std::string> r;
  if (k & 1) r.push_back(X);
  if (k & 2) r.push_back(Y);
  return r;
}
// One symbolic switch from a symbolic initial situation, every callback succeeds: exact outcome.
static void sw_exact(int n, bool unconf)
{
  std::vector<CtlCfg> cs;
  int cl[4];
  static const char * cn[] = {"claim0", "claim1", "claim2", "claim3"};
  static const char * sn[] = {"state0", "state1", "state2", "state3"};
  static const char * rn[] = {"req0", "req1", "req2", "req3"};
  for (int i = 0; i < n; ++i) { cl[i] = n > 2 && !bound(0, 1) ? 1 + (int)sym_choice(cn[i], 3) : (int)sym_choice(cn[i], 4); cs.push_back({NAME[i], claims(cl[i]), {X}}); }
  World w(one_hw(), cs);
  // initial situation
  int st[4];      // 0 unconfigured 1 inactive 2 active
  std::vector<std::string> a0;
  int used = 0;
  for (int i = 0; i < n; ++i) {
    st[i] = unconf ? (int)sym_choice(sn[i], 3) : 1 + (int)sym_choice(sn[i], 2);
    if (st[i] == 2) { sym_assume(!(used & cl[i])); used |= cl[i]; a0.push_back(NAME[i]); }
    if (st[i]) sym_assert(w.configure(i), "configuring a loaded controller whose callback succeeds succeeds");
  }
  if (!a0.empty()) sym_assert(w.sw(a0, {}, STRICT), "activating non-conflicting inactive controllers succeeds");
  for (int i = 0; i < n; ++i) sym_assert(w.active(i) == (st[i] == 2), "initial activation reached exactly the requested controllers");
  check_claims(w, {X, Y});
  // request
  int req[4];
  std::vector<std::string> A, D;
  for (int i = 0; i < n; ++i) req[i] = (int)sym_choice(rn[i], 4);
  bool strict = sym_bool("strict");
  bool asap = sym_bool("asap");
  request(w, n, req, A, D);
  size_t l0 = log_.size(), m0 = modes.size();
  bool ok = w.sw(A, D, strict ? STRICT : BEST_EFFORT, asap);
  // oracle
  bool legal = true;
  int after[4], fin_used = 0;
  bool conflict = false, any = false;
  for (int i = 0; i < n; ++i) {
    bool act = req[i] & 1, de = req[i] & 2;
    if (de && st[i] != 2) legal = false, de = false;
    if (act && !(st[i] == 1 || (st[i] == 2 && de))) legal = false, act = false;
    any |= act || de;
    after[i] = act ? 2 : de ? 1 : st[i];
    if (after[i] == 2) { conflict |= (fin_used & cl[i]) != 0; fin_used |= cl[i]; }
  }
  if (strict) {
    bool expect = A.empty() && D.empty() ? true : legal && !conflict;
    sym_assert(ok == expect, "a strict switch is accepted exactly when every request is legal and no interface conflict results");
    for (int i = 0; i < n; ++i) sym_assert(w.active(i) == ((ok ? after[i] : st[i]) == 2), "a strict switch does everything requested or nothing");
    if (!ok) {
      sym_assert(ctl_callbacks(l0) == 0, "a refused strict switch runs no controller transition");
      sym_assert(mode_calls(m0, true) == 0, "a refused strict switch changes no hardware command mode");
      sym_cover("strict refused");
    } else if (any) sym_cover("strict switched");
  } else {
    if (!conflict) {
      // what is possible is done
      for (int i = 0; i < n; ++i) sym_assert(w.active(i) == (after[i] == 2), "a best-effort switch performs every request that is possible");
      if (legal) sym_assert(ok, "a best-effort switch whose requests are all possible succeeds");
      sym_cover("best effort switched");
    } else {
      for (int i = 0; i < n; ++i) if (!req[i]) sym_assert(w.active(i) == (st[i] == 2), "a best-effort switch never touches controllers it was not asked to");
      sym_cover("best effort conflict");
    }
  }
  for (int i = 0; i < n; ++i) if (st[i] == 0) sym_assert(w.st(i) == LS::PRIMARY_STATE_UNCONFIGURED, "an unconfigured controller is never activated");
  check_claims(w, {X, Y});
  inv_modes(w, {X, Y});
  // the manager is not wedged: a following legal switch works
  for (int i = 0; i < n; ++i) if (w.active(i)) {
    sym_assert(w.sw({}, {NAME[i]}, STRICT), "after any switch an active controller can still be deactivated");
    sym_assert(w.inactive(i), "after any switch an active controller can still be deactivated");
    break;
  }
  check_claims(w, {X, Y});
}
SYM_HARNESS(cm_switch2) { sw_exact(2, true); }
SYM_HARNESS(cm_switch3) { sw_exact(3, false); }

// Failures: every callback of every controller and of the hardware's mode switch may fail or throw.
SYM_HARNESS(cm_switch_faults)
{
  const int n = 3;
  World w(one_hw(), {{"a", {X}, {X}}, {"b", {Y}, {}}, {"c", {X}, {Y}}});
  for (int i = 0; i < n; ++i) sym_assert(w.configure(i), "setup");
  bool c_first = sym_bool("c_active_first");
  bool b_first = sym_bool("b_active_first");
  std::vector<std::string> a0;
  if (c_first) a0.push_back("c");
  if (b_first) a0.push_back("b");
  if (!a0.empty()) sym_assert(w.sw(a0, {}, STRICT), "setup");
  int st[3] = {1, b_first ? 2 : 1, c_first ? 2 : 1};
  bool strict = sym_bool("strict");
  bool asap = sym_bool("asap");
  // request: swap c -> a, activate b (or restart it)
  std::vector<std::string> A{"a"}, D;
  int breq = (int)sym_choice("breq", 4);
  sym_assume(!(breq & 2) || b_first);
  sym_assume(breq != 1 || !b_first);
  if (breq & 1) A.push_back("b");
  if (breq & 2) D.push_back("b");
  if (c_first) D.push_back("c");
  std::map<std::pair<int, int>, int> res;
  static const char * names[4][NCB] = {};
  policy = [&](int who, int cb) {
    if (who == 0) {
      if (cb != PREPARE && cb != PERFORM) return (int)OK;
      auto k = std::make_pair(who, cb);
      if (res.count(k)) return (int)OK;                       // only the first call may be refused
      int r = (int)sym_choice(cb == PREPARE ? "hw_prepare" : "hw_perform", 2);
      res[k] = r;
      return r;
    }
    if (cb == UPDATE) return (int)OK;
    if (cb == ACTIVATE || cb == DEACTIVATE || cb == ERRORCB) {
      static const char * nm[3][3] = {{"a_act", "a_deact", "a_err"}, {"b_act", "b_deact", "b_err"}, {"c_act", "c_deact", "c_err"}};
      int r = (int)sym_choice(nm[who - 100][cb == ACTIVATE ? 0 : cb == DEACTIVATE ? 1 : 2], cb == ERRORCB ? 2 : 4);

      res[{who, cb}] = r;
      return r;
    }
    return (int)OK;
  };
  size_t l0 = log_.size();
  bool ok = w.sw(A, D, strict ? STRICT : BEST_EFFORT, asap);
  policy = nullptr;
  auto R = [&](int who, int cb) { auto it = res.find({who, cb}); return it == res.end() ? (int)OK : it->second; };
  bool hw_refused = R(0, PREPARE) || R(0, PERFORM);
  check_claims(w, {X, Y});
  if (hw_refused) {
    sym_assert(!ok, "a switch the hardware refuses is reported as failed");
    sym_assert(ctl_callbacks(l0) == 0, "a switch the hardware refuses runs no controller transition");
    for (int i = 0; i < n; ++i) sym_assert(w.active(i) == (st[i] == 2), "a switch the hardware refuses changes no controller");
    sym_cover("hw refused");
    return;
  }
  bool act_fail = R(100, ACTIVATE) || ((breq & 1) && R(101, ACTIVATE));
  bool all_active = w.active(0) && (!(breq & 1) || w.active(1));
  sym_assert(ok ? all_active : true, "a switch reported successful activated everything requested");
  if (act_fail) {
    sym_assert(!ok, "a switch with a failed activation is reported as failed");
    if (strict) {
      sym_assert((!w.active(0) || R(100, DEACTIVATE) == FAIL) && (!((breq & 1) && w.active(1)) || R(101, DEACTIVATE) == FAIL), "after a failed strict activation no requested controller that obeys stays active");
      sym_cover("strict activation failure");
    } else {
      if (!R(100, ACTIVATE) && !R(102, DEACTIVATE)) sym_assert(w.active(0), "best effort keeps the controllers whose activation succeeded");
      if ((breq & 1) && !R(101, ACTIVATE) && !R(101, DEACTIVATE)) sym_assert(w.active(1), "best effort keeps the controllers whose activation succeeded");
    }
  }
  if (c_first) sym_assert(!w.active(2) || R(102, DEACTIVATE) == FAIL, "a controller requested to stop that obeys is not left active");
  if (ok && c_first) sym_assert(!w.active(2), "a switch reported successful deactivated everything requested");
  bool obeyed = true;
  for (auto & r : res) obeyed &= r.first.second != DEACTIVATE || r.second != FAIL;
  if (obeyed) inv_modes(w, {X, Y});
  // the loop still runs and never updates a controller that is not active
  size_t l1 = log_.size();
  w.tick();
  for (int i = 0; i < n; ++i) sym_assert(count(100 + i, UPDATE, l1) == (w.active(i) ? 1 : 0), "exactly the active controllers are updated");
}
