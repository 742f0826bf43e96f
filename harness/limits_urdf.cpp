// Limits of the robot description, its <ros2_control> tags and their combination.
#include <cstdint>
#include <map>
#include "hardware_interface/component_parser.hpp"
#include "vh.hpp"
extern std::map<std::string, double> lex_numbers;
extern int lex_used;
namespace hi = hardware_interface;
static int n_num = 0;
struct Num { bool on = false; double v = 0; std::string tag; };
// <param name="min|max"> with a symbolic number, or none
static Num num(const char * what, const std::string & itf)
{
  Num n;
  std::string nm = std::string(what) + "_" + itf;
  if (!sym_choice(("has_" + nm).c_str(), 2)) return n;
  n.on = true;
  n.v = sym_finite(nm.c_str(), 1e6);
  std::string t = std::to_string(++n_num) + ".25";
  lex_numbers[t] = n.v;
  n.tag = std::string("<param name=\"") + what + "\">" + t + "</param>";
  return n;
}
static const char * OFF = "<limits enable=\"false\"/>";
static void check_joint(const char * itf, bool second = false)
{
  lex_numbers.clear(); lex_used = 0; n_num = 0;
  static const char * TYPE[] = {"revolute", "prismatic", "continuous"};
  const char * type = TYPE[sym_choice("type", 3)];
  const bool cont = !strcmp(type, "continuous"), limit = !cont || sym_choice("limit_tag", 2);
  const bool joff = sym_choice("joint_off", 2), ioff = sym_choice("interface_off", 2), soft = sym_choice("soft", 2);
  Num mn = num("min", itf), mx = num("max", itf);
  sym_assume(mx.v >= 0); sym_assume(strcmp(itf, "position") ? mn.v <= 0 : true);
  std::string u = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"w\"/><link name=\"a\"/><link name=\"b\"/>";
  auto joint = [&](const char * n, const char * l, bool s) {
    u += std::string("<joint name=\"") + n + "\" type=\"" + type + "\"><parent link=\"w\"/><child link=\"" + l + "\"/>";
    if (limit) u += "<limit lower=\"-1.5\" upper=\"2.5\" velocity=\"3.5\" effort=\"4.5\"/>";
    if (s) u += "<safety_controller soft_lower_limit=\"-2\" soft_upper_limit=\"1\" k_position=\"5\" k_velocity=\"6\"/>";
    u += "</joint>";
  };
  joint("x", "a", soft);
  joint("y", "b", false);
  std::string jx = std::string("<joint name=\"x\">") + (joff ? OFF : "") + "<command_interface name=\"" + itf + "\">" + mn.tag + mx.tag + (ioff ? OFF : "") + "</command_interface><state_interface name=\"position\"/></joint>";
  std::string jy = "<joint name=\"y\"><command_interface name=\"position\"/><state_interface name=\"position\"/></joint>";
  u += "<ros2_control name=\"h\" type=\"system\"><hardware><plugin>p</plugin></hardware>" + (second ? jy + jx : jx + jy) + "</ros2_control></robot>";
  auto infos = hi::parse_control_resources_from_urdf(u);
  sym_assert(infos.size() == 1 && infos[0].limits.size() == 2, "every joint gets limits");
  if (lex_used == 0 && mx.on && !joff && !ioff) { sym_cover("other conversion"); sym_end(); }
  const auto & l = infos[0].limits.at("x");
  const auto & o = infos[0].limits.at("y");
  sym_assert(o.has_position_limits == (limit && !cont) && o.has_velocity_limits == limit && o.has_effort_limits == limit && !o.has_acceleration_limits && !o.has_deceleration_limits && !o.has_jerk_limits, "a joint keeps the limits of the robot description");
  if (limit) sym_assert(o.max_velocity == 3.5 && o.max_effort == 4.5 && (cont || (o.min_position == -1.5 && o.max_position == 2.5)), "a joint keeps the limits of the robot description");
  const bool is_pos = !strcmp(itf, "position"), is_vel = !strcmp(itf, "velocity"), is_eff = !strcmp(itf, "effort"), is_acc = !strcmp(itf, "acceleration"), is_jerk = !strcmp(itf, "jerk");
  const bool given = mn.on || mx.on, en = !joff && !ioff;
  sym_assert(l.has_position_limits == (is_pos ? en && ((limit && !cont) || given) : !joff && limit && !cont), "position limits apply exactly when given and not disabled");
  sym_assert(l.has_velocity_limits == (is_vel ? en && (limit || given) : !joff && limit), "velocity limits apply exactly when given and not disabled");
  sym_assert(l.has_effort_limits == (is_eff ? en && (limit || given) : !joff && limit), "effort limits apply exactly when given and not disabled");
  sym_assert(l.has_acceleration_limits == (is_acc && en && mx.on), "acceleration limits apply exactly when given and not disabled");
  sym_assert(l.has_deceleration_limits == (is_acc && en && mn.on), "deceleration limits apply exactly when given and not disabled");
  sym_assert(l.has_jerk_limits == (is_jerk && en && mx.on), "jerk limits apply exactly when given and not disabled");
  const double inf = std::numeric_limits<double>::max();
  auto tight = [&](double v, bool on, double b) { return on && b < v ? b : v; };
  if (l.has_position_limits) {
    double lo = limit && !cont ? -1.5 : -inf, hi = limit && !cont ? 2.5 : inf;
    if (is_pos && mn.on && mn.v > lo) lo = mn.v;
    if (is_pos) hi = tight(hi, mx.on, mx.v);
    sym_assert(sym_and(l.min_position == lo, l.max_position == hi), "the tighter position limits apply");
  }
  if (l.has_velocity_limits) {
    double v = limit ? 3.5 : inf;
    if (is_vel) { v = tight(v, mx.on, mx.v); v = tight(v, mn.on, -mn.v); }
    sym_assert(l.max_velocity == v, "the tighter velocity limit applies");
  }
  if (l.has_effort_limits) {
    double v = limit ? 4.5 : inf;
    if (is_eff) { v = tight(v, mx.on, mx.v); v = tight(v, mn.on, -mn.v); }
    sym_assert(l.max_effort == v, "the tighter effort limit applies");
  }
  if (l.has_acceleration_limits) sym_assert(l.max_acceleration == mx.v, "the given acceleration limit applies");
  if (l.has_deceleration_limits) sym_assert(l.max_deceleration == -mn.v, "the given deceleration limit applies");
  if (l.has_jerk_limits) sym_assert(l.max_jerk == mx.v, "the given jerk limit applies");
  sym_assert(infos[0].soft_limits.count("x") == (soft ? 1u : 0u) && infos[0].soft_limits.count("y") == 0, "soft limits exist exactly where given");
  if (soft) {
    const auto & s = infos[0].soft_limits.at("x");
    double lo = -2, hi = 1;
    if (l.has_position_limits) { if (l.min_position > lo) lo = l.min_position; hi = tight(hi, true, l.max_position); }
    sym_assert(sym_and(s.min_position == lo, s.max_position == hi), "soft limits lie within the hard limits");
    sym_assert(s.k_position == 5 && s.k_velocity == 6, "soft gains are kept");
  }
  sym_cover("done");
}
SYM_HARNESS(limits_position) { check_joint("position"); }
SYM_HARNESS(limits_velocity) { check_joint("velocity"); }
SYM_HARNESS(limits_effort) { check_joint("effort", true); }
SYM_HARNESS(limits_acceleration) { check_joint("acceleration"); }
SYM_HARNESS(limits_jerk) { check_joint("jerk", true); }
