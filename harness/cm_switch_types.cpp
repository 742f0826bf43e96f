// Controllers that ask for all interfaces, for those that exist, or by pattern, while the hardware comes and goes.
#include "cm_common.hpp"
#include <regex>
using namespace vt;
static const std::vector<std::string> IFS = {"x/position", "x/velocity", "y/position"};
static int hw_of(const std::string & k) { return k[0] == 'y'; }
static std::vector<std::string> sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; }
// what the configuration stands for when these interfaces are available
static std::vector<std::string> meant(int type, const std::vector<std::string> & names, const std::vector<std::string> & avail)
{
  if (type == 0) return names;
  std::vector<std::string> r;
  for (auto & k : avail) {
    bool in = type == 1;
    for (auto & n : names) in |= type == 2 ? n == k : (n == "x/.*" && k[0] == 'x') || (n == ".*/position" && k.find("position") != k.npos) || (n == "[xy]/velocity" && k == "x/velocity");
    if (in) r.push_back(k);
  }
  return sorted(r);
}
static const std::vector<std::string> PAT[] = {{"x/.*"}, {".*/position"}, {"position"}, {"[xy]/velocity", "position"}};
static const std::vector<std::string> BE[] = {{"x/position", "y/position"}, {"x/velocity", "z/none"}, {"z/none"}};
SYM_HARNESS(cm_switch_types)
{
  std::vector<HwDesc> hw = {{"hx", "system", {{"x", {"position", "velocity"}, {"position", "velocity"}, ""}}, "", ""}, {"hy", "system", {{"y", {"position"}, {"position"}, ""}}, "", ""}};
  CtlCfg a{"a", {}, {}}, b{"b", {"x/position"}, {}};
  a.cmd_type = (int)sym_choice("a_cmd_type", 4);
  if (a.cmd_type == 0) a.cmd = {"x/velocity", "y/position"};
  if (a.cmd_type == 2) a.cmd = BE[sym_choice("a_best_effort", 3)];
  if (a.cmd_type == 3) a.cmd = PAT[sym_choice("a_pattern", 4)];
  a.state_type = 1 + (int)sym_choice("a_state_type", 3);
  if (a.state_type == 2) a.state = {"y/position", "z/none"};
  if (a.state_type == 3) a.state = {".*/position"};
  World w(hw, {a, b});
  auto * ca = dynamic_cast<Ctl *>(w.ctl[0]);
  auto * cb = dynamic_cast<Ctl *>(w.ctl[1]);
  sym_assert(w.configure(0) && w.configure(1), "configuring succeeds");
  bool up[2] = {true, true};
  auto set_hw = [&](int h, bool on) {
    rclcpp_lifecycle::State s(on ? LS::PRIMARY_STATE_ACTIVE : LS::PRIMARY_STATE_UNCONFIGURED, "-");
    sym_assert(w.cm->rm().set_component_state(h ? "hy" : "hx", s) == hi::return_type::OK, "setup");
    up[h] = on;
  };
  auto avail = [&] { std::vector<std::string> r; for (auto & k : IFS) if (up[hw_of(k)]) r.push_back(k); return r; };
  if (sym_bool("hy_down")) set_hw(1, false);
  bool b_act = sym_bool("b_active");
  if (b_act) sym_assert(w.sw({"b"}, {}, STRICT, true), "setup");
  std::vector<std::string> owned;
  bool a_act = false;
  auto check = [&](const char * what) {
    sym_assert(w.active(0) == a_act && w.active(1) == b_act, what);
    std::vector<std::string> c, s;
    for (auto & l : ca->cmd_ifs()) c.push_back(l.get_name());
    for (auto & l : ca->state_ifs()) s.push_back(l.get_name());
    sym_assert(sorted(c) == sorted(a_act ? owned : std::vector<std::string>{}), "an active controller owns exactly the interfaces its configuration stands for");
    if (!a_act) sym_assert(s.empty(), "an inactive controller holds no interface");
    sym_assert(cb->n_cmd() == (b_act ? 1u : 0u), "an active controller owns exactly the interfaces its configuration stands for");
    for (auto & k : IFS) {
      bool used = (b_act && k == "x/position") || (a_act && std::count(owned.begin(), owned.end(), k));
      sym_assert(w.claimed(k) == used, "an interface is claimed exactly while an active controller owns it");
    }
  };
  for (int step = 0; step < bound(2, 3); ++step) {
    static const char * ON[] = {"request1", "request2", "request3"}, * SN[] = {"strict1", "strict2", "strict3"}, * HN[] = {"hw1", "hw2", "hw3"};
    // hardware that nobody uses may come and go
    if (step && !a_act && sym_bool(HN[step])) set_hw(1, !up[1]);
    // 0: toggle a, 1: toggle a and b, 2: restart a
    int op = (int)sym_choice(ON[step], a_act ? 3 : 2);
    bool strict = sym_bool(SN[step]);
    std::vector<std::string> A, D;
    if (op == 2) A = {"a"}, D = {"a"};
    else {
      (a_act ? D : A).push_back("a");
      if (op == 1) (b_act ? D : A).push_back("b");
    }
    bool a_new = op == 2 ? true : !a_act, b_new = op == 1 ? !b_act : b_act;
    auto want = meant(a.cmd_type, a.cmd, avail());
    bool ok = true;
    if (a_new) {
      for (auto & k : want) ok &= up[hw_of(k)] && !(b_new && k == "x/position");
    }
    if (op == 1 && b_new) ok &= up[0];
    size_t l0 = log_.size();
    bool r = w.sw(A, D, strict ? STRICT : BEST_EFFORT, sym_bool("asap"));
    sym_assert(r == ok, "a switch is accepted exactly when every interface its controllers stand for exists and is free");
    if (r) { a_act = a_new; b_act = b_new; if (a_act) owned = want; }
    else if (strict) sym_assert(ctl_callbacks(l0) == 0, "a refused strict switch runs no controller transition");
    check("an accepted switch does everything requested, a refused one nothing");
    if (a_act) {
      std::vector<std::string> s;
      for (auto & l : ca->state_ifs()) s.push_back(l.get_name());
      s = sorted(s);
      for (auto & k : meant(a.state_type, a.state, avail())) sym_assert(std::count(s.begin(), s.end(), k) == 1, "an active controller reads every available state interface its configuration stands for");
      if (a.state_type == 2) for (auto & k : s) sym_assert(k == "y/position", "an active controller reads only the state interfaces its configuration stands for");
      if (a.state_type == 3) for (auto & k : s) sym_assert(k.find("position") != k.npos, "an active controller reads only the state interfaces its configuration stands for");
    }
  }
  inv_modes(w, IFS);
  sym_cover(a_act ? "active" : "inactive");
}
