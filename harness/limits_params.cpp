// U02: joint limits given as parameters, at start and changed while running.
#include "vh.hpp"
#include "joint_limits/joint_limiter_interface.hpp"
#include "joint_limits/joint_limits_helpers.hpp"
using namespace joint_limits;
namespace
{
struct Limiter : JointLimiterInterface<JointControlInterfacesData>
{
  std::vector<JointLimits> used;
  bool on_init() override { return true; }
  bool on_configure(const JointControlInterfacesData &) override { return true; }
  bool on_enforce(const JointControlInterfacesData &, JointControlInterfacesData &, const rclcpp::Duration &) override { used = joint_limits_; return false; }
  void reset_internals() override {}
};
static const char * KIND[] = {"position", "velocity", "acceleration", "deceleration", "jerk", "effort"};
// a limit of one kind: what a limiter uses of it
struct Lim
{
  bool has = false;
  double lo = NAN, hi = NAN;
};
Lim get(const JointLimits & l, int k)
{
  switch (k) {
    case 0: return {l.has_position_limits, l.min_position, l.max_position};
    case 1: return {l.has_velocity_limits, 0, l.max_velocity};
    case 2: return {l.has_acceleration_limits, 0, l.max_acceleration};
    case 3: return {l.has_deceleration_limits, 0, l.max_deceleration};
    case 4: return {l.has_jerk_limits, 0, l.max_jerk};
    default: return {l.has_effort_limits, 0, l.max_effort};
  }
}
const std::string J[] = {"arm", "arm_2"};
std::string flag(int j, int k) { return "joint_limits." + J[j] + ".has_" + KIND[k] + "_limits"; }
std::string hi(int j, int k) { return "joint_limits." + J[j] + ".max_" + KIND[k]; }
std::string lo(int j) { return "joint_limits." + J[j] + ".min_position"; }
bool same(double a, double b) { return a == b || (a != a && b != b); }
void is(const Limiter & l, const Lim (&m)[2][6], const char * what)
{
  for (int j = 0; j < 2; ++j)
    for (int k = 0; k < 6; ++k) {
      const Lim g = get(l.used[j], k);
      sym_assert(g.has == m[j][k].has, what);
      if (g.has) sym_assert(same(g.hi, m[j][k].hi) && (k || same(g.lo, m[j][k].lo)), what);
    }
}
bool valid(const Lim & l, int k) { return l.hi == l.hi && (k || (l.lo == l.lo && l.lo < l.hi)); }
static const char * LO[] = {"lo0", "lo1", "lo2", "lo3"};
static const char * HI[] = {"hi0", "hi1", "hi2", "hi3"};
static const char * FL[] = {"flag0", "flag1", "flag2", "flag3"};
static const char * FM[] = {"form0", "form1", "form2", "form3"};
double value(const char * n)
{
  double d = sym_f64(n);
  sym_assume(sym_and(d >= -1e9, d <= 1e9));
  return d;
}
void run(int k)
{
  auto par = std::make_shared<rclcpp::node_interfaces::NodeParametersInterface>();
  auto log = std::make_shared<rclcpp::node_interfaces::NodeLoggingInterface>();
  // the first joint's limit under test is given in part, another limit of it and one of the second joint completely
  Lim m[2][6];
  const int k2 = (k + 1) % 6;
  std::vector<rclcpp::Parameter> ov;
  auto give = [&](int j, int q, double l, double h) {
    m[j][q] = {true, l, h};
    ov.emplace_back(flag(j, q), true);
    ov.emplace_back(hi(j, q), h);
    if (!q) ov.emplace_back(lo(j), l);
  };
  give(0, k2, -3, 4);
  give(1, k, -5, 6);
  const bool f = sym_bool("has_flag"), v = sym_bool("has_max"), w = !k && sym_bool("has_min");
  Lim & t = m[0][k];
  if (f) ov.emplace_back(flag(0, k), (bool)sym_choice("flag", 2));
  if (v) ov.emplace_back(hi(0, k), value("max"));
  if (w) ov.emplace_back(lo(0), value("min"));
  for (auto & p : ov) {
    if (p.get_name() == flag(0, k)) t.has = p.as_bool();
    if (p.get_name() == hi(0, k)) t.hi = p.as_double();
    if (!k && p.get_name() == lo(0)) t.lo = p.as_double();
  }
  if (t.has && v && (k || w)) sym_assume(valid(t, k));
  par->set_overrides(ov, false);
  t.has = t.has && v && (k || w);
  // a limit that is off has no value for the limiter until one is set
  if (!t.has) t.lo = t.hi = NAN;
  Limiter l;
  sym_assert(l.init({J[0], J[1]}, par, log), "a limiter starts with the limits given by parameters");
  JointControlInterfacesData a, d;
  l.enforce(a, d, rclcpp::Duration(0, 10000000));
  is(l, m, "exactly the limits that are on and have a value apply");
  // requests to change parameters, one after the other
  const int N = bound(2, 3);
  for (int i = 0; i < N; ++i) {
    std::vector<rclcpp::Parameter> r;
    Lim n = t;
    int fl = 2;
    // 0: values only, 1: flag only, 2: both, the flag first, 3: as 2 with an unchanged value of another limit at the end, 4: other joint
    const int form = (int)sym_choice(FM[i], 5);
    if (form == 4) {
      m[1][k].hi = value(HI[i]);
      sym_assume(valid(m[1][k], k));
      r.emplace_back(hi(1, k), m[1][k].hi);
    }
    if (form >= 1 && form <= 3) { fl = (int)sym_choice(FL[i], 2); r.emplace_back(flag(0, k), (bool)fl); }
    if (form == 0 || form == 2 || form == 3) {
      n.hi = value(HI[i]);
      r.emplace_back(hi(0, k), n.hi);
      if (!k) { n.lo = value(LO[i]); r.emplace_back(lo(0), n.lo); sym_assume(form != 0 || n.lo < n.hi); }
    }
    if (form == 3) { r.emplace_back(hi(0, k2), m[0][k2].hi); r.emplace_back(flag(1, k), true); }
    // switching on needs valid values; what a refused request leaves of its values is not used
    if (fl == 1 && !valid(n, k)) { sym_assume(!t.has); n.has = false; } else if (fl < 2) n.has = fl;
    t = n;
    sym_assert(par->set_parameters_atomically(r).successful, "changes are accepted");
    if (i == N - 1 || sym_bool("cycle")) {
      l.enforce(a, d, rclcpp::Duration(0, 10000000));
      is(l, m, "all changes apply from the next cycle on, and nothing else changes");
    }
  }
}
}  // namespace
SYM_HARNESS(params_position) { run(0); }
SYM_HARNESS(params_others) { run(1 + (int)sym_choice("kind", 5)); }
// the functions on soft limits
SYM_HARNESS(params_soft)
{
  static const char * P[] = {"k_position", "k_velocity", "soft_lower_limit", "soft_upper_limit"};
  static const char * V[] = {"v0", "v1", "v2", "v3"};
  static const char * W[] = {"w0", "w1", "w2", "w3"};
  auto par = std::make_shared<rclcpp::node_interfaces::NodeParametersInterface>();
  auto log = std::make_shared<rclcpp::node_interfaces::NodeLoggingInterface>();
  const std::string base = "joint_limits.arm.";
  const int given = (int)sym_choice("given", 16), f = (int)sym_choice("flag", 3);
  double v[4];
  auto declare = [&](const std::string & n, auto x) { par->declare_parameter(n, rclcpp::ParameterValue(x)); };
  if (f < 2) declare(base + "has_soft_limits", (bool)f);
  declare("joint_limits.arm_2.has_soft_limits", true);
  for (int i = 0; i < 4; ++i) {
    v[i] = value(V[i]);
    if (given >> i & 1) declare(base + P[i], v[i]);
    declare(std::string("joint_limits.arm_2.") + P[i], 7.0);
  }
  SoftJointLimits s;
  auto are = [&](double a, double b, double c, double d, const char * what) { sym_assert(same(s.k_position, a) && same(s.k_velocity, b) && same(s.min_position, c) && same(s.max_position, d), what); };
  s.k_position = s.k_velocity = s.min_position = s.max_position = 1;
  const bool ok = f == 1 && given == 15;
  sym_assert(get_joint_limits("arm", par, log, s) == ok, "soft limits are read exactly if they are on and complete");
  if (ok) are(v[0], v[1], v[2], v[3], "soft limits are those of the parameters"); else are(1, 1, 1, 1, "incomplete soft limits change nothing");
  double c[4] = {s.k_position, s.k_velocity, s.min_position, s.max_position};
  // a change of two of them, in one request with parameters of another joint
  std::vector<rclcpp::Parameter> r;
  const int off = (int)sym_choice("off", 3), i = (int)sym_choice("first", 4), j = (int)sym_choice("second", 4);
  bool changed = false;
  const double x = value(W[0]), y = value(W[1]);
  if (off < 2) r.emplace_back(base + "has_soft_limits", (bool)off);
  r.emplace_back(base + P[i], x);
  r.emplace_back("joint_limits.arm_2.k_position", 9.0);
  if (j != i) r.emplace_back(base + P[j], y);
  if (off != 0) {
    changed = c[i] != x || (j != i && c[j] != y);
    c[i] = x;
    if (j != i) c[j] = y;
  }
  sym_assert(check_for_limits_update("arm", r, log, s) == changed, "a change of soft limits is reported exactly if something changed");
  are(c[0], c[1], c[2], c[3], "all changes of soft limits apply, and nothing else changes");
}
