// The mock hardware: states are the commands, mirrored, with an offset, mimicked or integrated.
#include "ctl.hpp"
#include "mock_components/generic_system.hpp"
using namespace vt;
using RM = hi::ResourceManager;
static const double DT = 1.0 / 64;
struct M
{
  std::map<std::string, hi::LoanedCommandInterface> c;
  std::map<std::string, hi::LoanedStateInterface> s;
  std::unique_ptr<RM> rm;
  M(const std::string & params, const std::string & tags, const std::string & mimic = "", bool j10_first = false)
  {
    reset_world({});
    pluginlib::factories<hi::SystemInterface>()["mock/Sys"] = [] { return new mock_components::GenericSystem(); };
    auto j = [&](const char * n, const std::string & x) { return std::string("<link name=\"") + n + "_l\"/><joint name=\"" + n + "\" type=\"revolute\"><parent link=\"world\"/><child link=\"" + n + "_l\"/>" + x + "<limit lower=\"-1e9\" upper=\"1e9\" velocity=\"1e9\" effort=\"1e9\"/></joint>"; };
    std::string u = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"world\"/>" + j("j1", "") + j("j10", "") + j("m", mimic) +
                    "<ros2_control name=\"mock\" type=\"system\"><hardware><plugin>mock/Sys</plugin>" + params + "</hardware>" + tags + "</ros2_control></robot>";
    rm = std::make_unique<RM>(rm_params(u, true), true);
    for (auto & k : rm->command_interface_keys()) c.emplace(k, rm->claim_command_interface(k));
    for (auto & k : rm->state_interface_keys()) s.emplace(k, rm->claim_state_interface(k));
  }
  ~M() { c.clear(); s.clear(); }
  bool read() { return rm->read(now_(), Duration::from_seconds(DT)).result == hi::return_type::OK; }
  double get(const std::string & k) { return s.at(k).get_optional().value(); }
  void set(const std::string & k, double v) { (void)c.at(k).set_value(v); }
};
// NaN or a number that keeps all sums and differences exact
static double command(const char * name, bool nan_too = true, int bits = 16)
{
  static std::vector<std::string> keep;
  keep.push_back(std::string(name) + "_nan");
  if (nan_too && sym_bool(keep.back().c_str())) return std::numeric_limits<double>::quiet_NaN();
  return (double)((int32_t)(sym_var(name, bits) << (32 - bits)) >> (32 - bits)) / 8;
}
static std::string par(const char * n, const char * v) { return std::string("<param name=\"") + n + "\">" + v + "</param>"; }
static std::string ci_(const char * n, const char * t = "double") { return std::string("<command_interface name=\"") + n + "\" data_type=\"" + t + "\"/>"; }
static std::string si(const char * n, const char * t = "double", const char * init = nullptr) { return std::string("<state_interface name=\"") + n + "\" data_type=\"" + t + "\">" + (init ? par("initial_value", init) : "") + "</state_interface>"; }

SYM_HARNESS(mock_mirror)
{
  static const char * CN[3][8] = {{"p0", "v0", "e0", "q0", "w0", "g0", "s0", "u0"}, {"p1", "v1", "e1", "q1", "w1", "g1", "s1", "u1"}, {"p2", "v2", "e2", "q2", "w2", "g2", "s2", "u2"}};
  static const char * BN[] = {"b0", "b1", "b2"};
  const int off = (int)sym_choice("offset", 3);  // none, on the position, on another interface
  const int dis = (int)sym_choice("disable", 3);
  const bool mg = sym_bool("mock_gpio"), ms = sym_bool("mock_sensor");
  std::string P;
  if (off) P += par("position_state_following_offset", "0.5");
  if (off == 2) P += par("custom_interface_with_following_offset", "actual_position");
  if (dis) P += par("disable_commands", dis == 2 ? "true" : "false");
  if (mg) P += par("mock_gpio_commands", "true");
  if (ms) P += par("mock_sensor_commands", "true");
  std::string T = "<joint name=\"j1\">" + ci_("position") + ci_("velocity") + ci_("effort") + si("position", "double", "3.25") + si("velocity") + si("effort", "double", "-1.5") + si("actual_position") + "</joint>";
  T += "<joint name=\"j10\">" + ci_("position") + si("position") + si("velocity") + ci_("grip") + si("grip") + "</joint>";
  T += "<gpio name=\"g\">" + ci_("out") + si("out", "double", "0.75") + si("in", "double", "2") + ci_("flag", "bool") + si("flag", "bool") + "</gpio>";
  T += "<sensor name=\"s\">" + si("force", "double", "4") + "</sensor>";
  M m(P, T);
  const double o = off == 1 ? 0.5 : 0;
  // exactly the described interfaces, and those faked on request
  std::set<std::string> want = {"j1/position", "j1/velocity", "j1/effort", "j10/position", "j10/grip", "g/out", "g/flag"}, have;
  if (mg) want.insert("g/in");
  if (ms) want.insert("s/force");
  for (auto & k : m.c) have.insert(k.first);
  sym_assert(have == want, "the mock has the described command interfaces and those faked on request");
  // the states a reader expects
  std::map<std::string, double> e = {{"j1/position", 3.25 + o}, {"j1/velocity", 0}, {"j1/effort", -1.5}, {"j1/actual_position", 0}, {"j10/position", o}, {"j10/velocity", 0}, {"j10/grip", 0}, {"g/out", .75}, {"g/in", 2}, {"s/force", 4}};
  bool flag = false;
  auto check = [&](const char * what) {
    for (auto & k : e) sym_assert(m.get(k.first) == k.second, what);
    sym_assert(m.s.at("g/flag").get_optional<bool>().value() == flag, what);
  };
  check("states start at their initial value or zero");
  const int n = bound(2, 3);
  for (int t = 0; t < n; ++t) {
    std::vector<std::string> keys = {"j1/position", "j1/velocity", "j1/effort", "j10/position", "j10/grip", "g/out"};
    if (ms) keys.push_back("s/force");
    if (mg) keys.push_back("g/in");
    for (size_t i = 0; i < keys.size(); ++i) {
      // few symbols for NaN: one interface of each kind
      double v = command(CN[t][i], i == 0 || i == 2);
      m.set(keys[i], v);
      if (dis == 2 || std::isnan(v)) continue;
      if (keys[i] == "j1/position" && off == 2) e["j1/actual_position"] = v + 0.5;
      e[keys[i]] = v + (keys[i].find("position") != std::string::npos ? o : 0);
    }
    bool b = sym_bool(BN[t]);
    (void)m.c.at("g/flag").set_value(b);
    if (dis != 2) flag = b;
    sym_assert(m.read(), "reading the mock succeeds");
    check("each state is the last command, with the offset where configured, and nothing else changes");
  }
  sym_cover(dis == 2 ? "disconnected" : "mirrored");
}

// mimic joints follow the joint they mimic
SYM_HARNESS(mock_mimic)
{
  const bool dyn = sym_bool("dynamics");
  const int k = (int)sym_choice("mimicked", 2), c = (int)sym_choice("factor", 3);
  static const char * MUL[] = {"-2", "0.5", "1"}, * OFF[] = {"0.25", "-1", "0"};
  static const double mul[] = {-2, .5, 1}, off[] = {.25, -1, 0};
  const char * who = k ? "j10" : "j1";
  std::string mim = std::string("<mimic joint=\"") + who + "\" multiplier=\"" + MUL[c] + "\" offset=\"" + OFF[c] + "\"/>";
  // wherever the mimic joint stands in the list
  const bool first = sym_bool("mimic_first");
  std::string jt[3] = {"<joint name=\"m\">" + si("position") + si("velocity") + "</joint>", "<joint name=\"j1\">" + ci_("position") + si("position") + si("velocity") + si("acceleration") + "</joint>", "<joint name=\"j10\">" + ci_("position") + si("position") + si("velocity") + si("acceleration") + "</joint>"};
  M m(dyn ? par("calculate_dynamics", "true") : "", first ? jt[0] + jt[1] + jt[2] : jt[1] + jt[2] + jt[0], mim);
  static const char * CN[3][2] = {{"a0", "b0"}, {"a1", "b1"}, {"a2", "b2"}};
  for (int t = 0; t < bound(2, 3); ++t) {
    double v[2] = {command(CN[t][0], k == 0, 8), command(CN[t][1], k == 1, 8)};
    m.set("j1/position", v[0]);
    m.set("j10/position", v[1]);
    sym_assert(m.read(), "reading the mock succeeds");
    if (!std::isnan(v[k])) sym_assert(m.get(std::string(who) + "/position") == v[k], "each state is the last command");
    sym_assert(m.get("m/position") == off[c] + mul[c] * m.get(std::string(who) + "/position"), "a mimic joint follows the joint it mimics");
    sym_assert(m.get("m/velocity") == mul[c] * m.get(std::string(who) + "/velocity"), "a mimic joint follows the joint it mimics");
  }
}

// positions, velocities and accelerations are calculated from the commands of the active mode
SYM_HARNESS(mock_dynamics)
{
  static const char * JN[] = {"j1", "j10"};
  static const char * IN[] = {"position", "velocity", "acceleration"};
  const bool rev = sym_bool("j10_first");
  std::string T;
  for (int i = 0; i < 2; ++i) T += std::string("<joint name=\"") + JN[rev ? 1 - i : i] + "\">" + ci_("position") + ci_("velocity") + ci_("acceleration") + ci_("effort") + si("position") + si("velocity") + si("acceleration") + si("effort") + "</joint>";
  M m(par("calculate_dynamics", "true"), T);
  double x[2][3] = {}, eff[2] = {}, cmd[2][3];
  int mode[2] = {0, 0};
  static const char * MN[3][2] = {{"mode0_j1", "mode0_j10"}, {"mode1_j1", "mode1_j10"}, {"mode2_j1", "mode2_j10"}};
  static const char * CN[3] = {"c0", "c1", "c2"};
  for (int i = 0; i < 2; ++i) for (int q = 0; q < 3; ++q) { cmd[i][q] = 7 + q; m.set(std::string(JN[i]) + "/" + IN[q], cmd[i][q]); }
  for (int t = 0; t < bound(2, 3); ++t) {
    // ask for modes: unchanged, one of the three, two at once, or only one the mock can not follow
    std::vector<std::string> start, stop;
    bool legal = true;
    int nm[2] = {mode[0], mode[1]};
    for (int i = 0; i < 2; ++i) {
      int r = i && t ? (int)sym_choice(MN[t][i], 2) * 2 : (int)sym_choice(MN[t][i], i ? 4 : 6);
      auto key = [&](const char * q) { return std::string(JN[i]) + "/" + q; };
      if (r == 0) continue;
      if (r <= 3) { start.push_back(key(IN[r - 1])); nm[i] = r - 1; }
      if (r == 4) { start.push_back(key("velocity")); start.push_back(key("position")); legal = false; }
      if (r == 5) { start.push_back(key("effort")); legal = false; }
    }
    if (!start.empty()) {
      bool ok = m.rm->prepare_command_mode_switch(start, stop);
      sym_assert(ok == legal, "a joint is switched to exactly one of position, velocity and acceleration control");
      if (ok) { sym_assert(m.rm->perform_command_mode_switch(start, stop), "an accepted mode is switched to"); mode[0] = nm[0]; mode[1] = nm[1]; }
    }
    for (int i = 0; i < 2; ++i) {
      double v = i ? 5 + 3 * t : command(CN[t], true, 8);
      cmd[i][mode[i]] = v;
      m.set(std::string(JN[i]) + "/" + IN[mode[i]], v);
      const bool fin = !std::isnan(v);
      if (mode[i] == 0 && fin) {
        double vel = (v - x[i][0]) / DT;
        x[i][2] = (vel - x[i][1]) / DT;
        x[i][1] = vel;
        x[i][0] = v;
      } else if (mode[i] == 1) {
        if (fin) { x[i][2] = (v - x[i][1]) / DT; x[i][1] = v; }
        x[i][0] += x[i][1] * DT;
      } else if (mode[i] == 2) {
        if (fin) x[i][2] = v;
        x[i][1] += x[i][2] * DT;
        x[i][0] += x[i][1] * DT;
      }
    }
    sym_assert(m.read(), "reading the mock succeeds");
    for (int i = 0; i < 2; ++i) for (int q = 0; q < 3; ++q)
      sym_assert(m.get(std::string(JN[i]) + "/" + IN[q]) == x[i][q], "position, velocity and acceleration are consistent with the command of the active mode");
  }
  (void)eff;
  sym_cover(mode[0] == 0 ? "position" : mode[0] == 1 ? "velocity" : "acceleration");
}
