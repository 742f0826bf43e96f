// J-series: saturation and soft joint limiters, one interface at a time and combined.
#include "vh.hpp"
#include "joint_limits/joint_saturation_limiter.hpp"
#include "joint_limits/joint_soft_limiter.hpp"
#include "joint_limits/joint_limits_helpers.hpp"
using namespace joint_limits;
using Data = JointControlInterfacesData;

// limits that are switched off keep an arbitrary (stale) value, as after a dynamic parameter update
static JointLimits limits(bool p, bool v, bool a, bool d, bool e, bool jk = false, bool stale = true)
{
  JointLimits l;
  l.has_position_limits = p;
  l.has_velocity_limits = v;
  l.has_acceleration_limits = a;
  l.has_deceleration_limits = d;
  l.has_effort_limits = e;
  l.has_jerk_limits = jk;
  if (p || stale) {
    l.min_position = sym_finite("min_position", 1e6);
    l.max_position = sym_finite("max_position", 1e6);
    sym_assume(l.min_position <= l.max_position);
  }
  if (v) { l.max_velocity = sym_finite("max_velocity", 1e6); sym_assume(!std::signbit(l.max_velocity)); }
  if (a) { l.max_acceleration = sym_finite("max_acceleration", 1e6); sym_assume(!std::signbit(l.max_acceleration)); }
  if (d) { l.max_deceleration = sym_finite("max_deceleration", 1e6); sym_assume(!std::signbit(l.max_deceleration)); }
  if (e) { l.max_effort = sym_finite("max_effort", 1e6); sym_assume(!std::signbit(l.max_effort)); }
  if (jk || stale) { l.max_jerk = sym_finite("max_jerk", 1e6); sym_assume(!std::signbit(l.max_jerk)); }
  return l;
}
// a measurement: absent, NaN or any double within +-1e6
static std::optional<double> opt(const char * flag, const char * n, bool nan = true)
{
  if (!sym_bool(flag)) return std::nullopt;
  double d = sym_sig(n);
  sym_assume(sym_and(!(d < -1e6), !(d > 1e6)));
  if (!nan) sym_assume(d == d);
  return d;
}
static bool num(const std::optional<double> & o) { return o.has_value() && !std::isnan(*o); }
static rclcpp::Duration period() { int64_t ns = sym_i64("dt_ns"); sym_assume(sym_and(ns > 0, ns <= 10000000000LL)); return rclcpp::Duration::from_nanoseconds(ns); }
static rclcpp::Duration cperiod(int q = 2) { static const int64_t k[] = {15625000, 250000000, 1000000}; return rclcpp::Duration::from_nanoseconds(k[sym_choice("dt", bound(q, 3))]); }
template <class L> static std::unique_ptr<L> make(const JointLimits & l, const std::vector<SoftJointLimits> & s = {})
{
  auto r = std::make_unique<L>();
  sym_assert(r->init({"j"}, {l}, s, nullptr, nullptr), "limiter initialises for one joint");
  return r;
}
using Sat = JointSaturationLimiter<Data>;
static bool beyond(const JointLimits & l, double p) { return p > l.max_position + 0.0087 || p < l.min_position - 0.0087; }
static bool few_gains = false;   // quick tier: two position gains instead of all of them
static SoftJointLimits soft()
{
  SoftJointLimits s;
  static const double lo[] = {-0.75, -4}, hi[] = {0.75, -3};
  int f = few_gains && !bound(0, 1) ? (int)sym_choice("soft_range", 2) : -1;
  s.min_position = f < 0 ? sym_finite("soft_min", 1e6) : lo[f];
  s.max_position = f < 0 ? sym_finite("soft_max", 1e6) : hi[f];
  sym_assume(s.min_position <= s.max_position);
  static const double kp[] = {8, 0.25};
  s.k_position = few_gains && !bound(0, 1) ? kp[f] : sym_finite("k_position", 1e6);
  s.k_velocity = sym_finite("k_velocity", 1e6);
  sym_assume(!std::signbit(s.k_position) && !std::signbit(s.k_velocity));
  return s;
}
enum Kind { POS, VEL, EFF, ACC, JERK };
static std::optional<double> & field(Data & d, int k) { return k == POS ? d.position : k == VEL ? d.velocity : k == EFF ? d.effort : k == ACC ? d.acceleration : d.jerk; }

template <class L, bool SOFT> static void one(int kind)
{
  bool p = sym_bool("has_pos"), v = sym_bool("has_vel"), a = kind != EFF && sym_bool("has_acc"), d = kind == ACC && sym_bool("has_dec");
  bool e = kind == EFF && sym_bool("has_eff"), jk = kind == JERK && sym_bool("has_jerk");
  auto l = limits(p, v, a, d, e, jk, kind == POS || kind == JERK);
  std::vector<SoftJointLimits> sl;
  if (SOFT) {
    sl.push_back(soft());
    // as the robot description requires, the soft range lies in the hard one
    if (kind == EFF && p) sym_assume(sym_and(l.min_position <= sl[0].min_position, sl[0].max_position <= l.max_position));
  }
  auto lim = make<L>(l, sl);
  auto dt = (SOFT || (kind == POS && bound(0, 1) == 0)) ? cperiod(SOFT ? 1 : 2) : period();
  Data act, des;
  act.position = opt("act_has_pos", "act_pos");
  act.velocity = opt("act_has_vel", "act_vel");
  double want = sym_sig("desired");
  field(des, kind) = want;
  bool r = false;
  try { r = lim->enforce(act, des, dt); } catch (const std::runtime_error &) {
    sym_cover("throws");
    sym_assert(kind == POS && p && num(act.position) && beyond(l, *act.position), "refuses only a position command while the measured position is beyond the limits");
    return;
  }
  if (kind == POS && !std::isnan(want)) sym_assert(!(p && num(act.position) && beyond(l, *act.position)), "a measured position beyond the limits is refused");
  sym_assert(field(des, kind).has_value(), "command still present");
  for (int k = POS; k <= JERK; k++) if (k != kind) sym_assert(!field(des, k).has_value(), "no command invented for another interface");
  double out = *field(des, kind);
  if (std::isnan(want)) { sym_cover("nan"); sym_assert(std::isnan(out), "NaN command stays NaN"); sym_assert(!r, "NaN command is not reported as limited"); return; }
  sym_assert(!std::isnan(out), "limited command is a number");
  sym_assert(r == (out != want), "enforced flag is exactly 'command changed'");
  if (r) sym_cover("limited"); else sym_cover("unlimited");
  switch (kind) {
    case POS:
      if (p) { sym_cover("hard"); sym_assert(sym_and(out >= l.min_position, out <= l.max_position), "position command within the hard limits"); }
      if (v && !SOFT && num(act.position)) {
        double q = *act.position, step = l.max_velocity * dt.seconds();
        if (!p || (q >= l.min_position && q <= l.max_position)) { sym_cover("step"); sym_assert(sym_and(out <= q + step, out >= q - step), "first position step bounded by max velocity times period"); }
      }
      if (SOFT && p && v && num(act.position) && sl[0].min_position + 0.01 <= sl[0].max_position && l.min_position <= sl[0].min_position && sl[0].max_position <= l.max_position && *act.position >= sl[0].min_position && *act.position <= sl[0].max_position) {
        sym_cover("soft");
        sym_assert(sym_and(out >= sl[0].min_position, out <= sl[0].max_position), "position command within the soft limits when the joint is within them");
      }
      if (!p && !v && !SOFT) sym_assert(!r, "disabled position limits pass the command through");
      break;
    case VEL:
      if (v) { sym_cover("hard"); sym_assert(sym_and(out <= l.max_velocity, out >= -l.max_velocity), "velocity command within the hard limit"); }
      else sym_assert(!r, "disabled velocity limit passes the command through");
      if (v && p && num(act.position)) {
        double q = *act.position;
        if (q > l.max_position + 0.002 || q < l.min_position - 0.002) { sym_cover("stop"); if (!a) sym_assert(out == 0.0, "no velocity is commanded while the joint is beyond its position limits"); }
        else if (!a && q >= l.max_position) sym_assert(out <= 0.0, "velocity does not push further beyond the upper position limit");
        else if (!a && q <= l.min_position) sym_assert(out >= 0.0, "velocity does not push further beyond the lower position limit");
        else if (!a && !SOFT) {
          double dts = dt.seconds();
          sym_cover("reach");
          sym_assert(sym_and(out <= (l.max_position - q) / dts, out >= (l.min_position - q) / dts), "velocity cannot carry the joint beyond its position limits in one period");
        }
      }
      break;
    case EFF:
      if (e) {
        sym_cover("hard");
        sym_assert(sym_and(out <= l.max_effort, out >= -l.max_effort), "effort command within the hard limit");
        if (p && num(act.position) && num(act.velocity)) {
          if (*act.position >= l.max_position && *act.velocity >= 0.0 && *act.position > l.min_position) sym_assert(out <= 0.0, "no effort pushing beyond the upper position limit");
          if (*act.position <= l.min_position && *act.velocity <= 0.0) sym_assert(out >= 0.0 , "no effort pushing beyond the lower position limit");
        }
        if (v && num(act.velocity)) {
          if (*act.velocity > l.max_velocity && !(p && num(act.position) && *act.position <= l.min_position)) { sym_cover("overspeed"); sym_assert(out <= 0.0, "no effort accelerating a joint above its velocity limit"); }
          if (*act.velocity < -l.max_velocity && !(p && num(act.position) && *act.position >= l.max_position)) sym_assert(out >= 0.0, "no effort accelerating a joint below its negative velocity limit");
        }
      } else sym_assert(!r, "disabled effort limit passes the command through");
      break;
    case ACC: {
      bool slowing = num(act.velocity) && ((want < 0 && *act.velocity > 0) || (want > 0 && *act.velocity < 0));
      if (d && slowing) { sym_cover("decel"); sym_assert(sym_and(out <= l.max_deceleration, out >= -l.max_deceleration), "deceleration within the hard limit"); }
      else if (a) { sym_cover("hard"); sym_assert(sym_and(out <= l.max_acceleration, out >= -l.max_acceleration), "acceleration within the hard limit"); }
      else sym_assert(!r, "disabled acceleration limits pass the command through");
      break;
    }
    case JERK:
      if (jk) sym_assert(sym_and(out <= l.max_jerk, out >= -l.max_jerk), "jerk within the hard limit");
      else sym_assert(!r, "disabled jerk limit passes the command through");
      break;
  }
}
SYM_HARNESS(sat_position) { g_sig = bound(6, 23); one<Sat, false>(POS); }
SYM_HARNESS(sat_velocity) { one<Sat, false>(VEL); }
SYM_HARNESS(sat_effort) { one<Sat, false>(EFF); }
SYM_HARNESS(sat_acceleration) { one<Sat, false>(ACC); }
SYM_HARNESS(sat_jerk) { one<Sat, false>(JERK); }
SYM_HARNESS(soft_position) { few_gains = true; g_sig = bound(6, 23); one<JointSoftLimiter, true>(POS); }
SYM_HARNESS(soft_velocity) { few_gains = true; g_sig = bound(6, 23); one<JointSoftLimiter, true>(VEL); }
SYM_HARNESS(soft_effort) { few_gains = true; g_sig = bound(6, 23); one<JointSoftLimiter, true>(EFF); }
SYM_HARNESS(soft_acceleration) { one<JointSoftLimiter, true>(ACC); }

// Histories: several cycles; each step is relative to the previously *limited* command.
template <class L> static void seq_pos(bool softl)
{
  g_sig = bound(6, 23);
  auto l = limits(sym_bool("has_pos"), true, false, false, false, false, false);
  std::vector<SoftJointLimits> sl;
  if (softl) sl.push_back(soft());
  auto lim = make<L>(l, sl);
  auto dt = cperiod(softl ? 1 : 2);
  double prev = 0;
  bool have = false;
  int n = bound(2, 3);
  for (int i = 0; i < n; i++) {
    Data act, des;
    act.position = opt("act_has_pos", "act_pos", false);
    if (i) sym_assume(!act.position.has_value() || !l.has_position_limits || !beyond(l, *act.position));
    double want = sym_finite("desired", 1e6);
    des.position = want;
    try { lim->enforce(act, des, dt); } catch (const std::runtime_error &) { sym_end(); }
    double out = *des.position;
    if (l.has_position_limits) sym_assert(sym_and(out >= l.min_position, out <= l.max_position), "position command within the hard limits at every cycle");
    if (have && !softl) { sym_cover("step"); double s = l.max_velocity * dt.seconds(); sym_assert(sym_and(out <= prev + s, out >= prev - s), "position command moves at most max velocity times period per cycle"); }
    prev = out;
    have = true;
  }
}
SYM_HARNESS(sat_position_seq) { seq_pos<Sat>(false); }
SYM_HARNESS(soft_position_seq) { seq_pos<JointSoftLimiter>(true); }
SYM_HARNESS(sat_velocity_seq)
{
  g_sig = bound(6, 23);
  auto l = limits(false, true, true, false, false, false, false);
  auto lim = make<Sat>(l);
  auto dt = cperiod();
  double prev = 0;
  bool have = false;
  int n = bound(2, 3);
  for (int i = 0; i < n; i++) {
    Data act, des;
    act.velocity = opt("act_has_vel", "act_vel", false);
    double want = sym_finite("desired", 1e6);
    des.velocity = want;
    lim->enforce(act, des, dt);
    double out = *des.velocity;
    sym_assert(sym_and(out <= l.max_velocity, out >= -l.max_velocity), "velocity command within the hard limit at every cycle");
    if (have) { sym_cover("step"); double s = l.max_acceleration * dt.seconds(); sym_assert(sym_and(out <= prev + s, out >= prev - s), "velocity command changes at most max acceleration times period per cycle"); }
    prev = out;
    have = true;
  }
}
// a zero or negative period changes nothing
template <class L> static void no_time(bool s)
{
  auto l = limits(true, true, true, true, true, true, true);
  std::vector<SoftJointLimits> sl;
  if (s) sl.push_back(soft());
  auto lim = make<L>(l, sl);
  int64_t ns = sym_i64("dt_ns");
  sym_assume(ns <= 0);
  Data act, des;
  act.position = opt("act_has_pos", "act_pos");
  for (int k = POS; k <= JERK; k++) field(des, k) = sym_f64("desired");
  Data w = des;
  bool r = lim->enforce(act, des, rclcpp::Duration::from_nanoseconds(ns));
  sym_assert(!r, "a non-positive period is not reported as limiting");
  for (int k = POS; k <= JERK; k++) sym_assert(!memcmp(&*field(w, k), &*field(des, k), 8), "a non-positive period leaves every command untouched");
  sym_cover("done");
}
SYM_HARNESS(sat_no_time) { no_time<Sat>(false); }
SYM_HARNESS(soft_no_time) { no_time<JointSoftLimiter>(true); }
// limits on several interfaces at once: each is bounded and the flag says whether any changed
SYM_HARNESS(sat_combined)
{
  auto l = limits(true, true, false, false, true, true, true);
  l.has_acceleration_limits = true;
  l.max_acceleration = 2.0;
  auto lim = make<Sat>(l);
  auto dt = cperiod();
  Data act, des;
  for (int k = POS; k <= JERK; k++) { double d = sym_finite("desired", 1e6); field(des, k) = d; }
  Data w = des;
  bool r = lim->enforce(act, des, dt);
  sym_assert(sym_and(*des.position >= l.min_position, *des.position <= l.max_position), "combined: position within limits");
  sym_assert(sym_and(*des.velocity >= -l.max_velocity, *des.velocity <= l.max_velocity), "combined: velocity within limits");
  sym_assert(sym_and(*des.effort >= -l.max_effort, *des.effort <= l.max_effort), "combined: effort within limits");
  sym_assert(sym_and(*des.acceleration >= -2.0, *des.acceleration <= 2.0), "combined: acceleration within limits");
  sym_assert(sym_and(*des.jerk >= -l.max_jerk, *des.jerk <= l.max_jerk), "combined: jerk within limits");
  bool ch = false;
  for (int k = POS; k <= JERK; k++) ch = ch | (*field(w, k) != *field(des, k));
  sym_assert(r == ch, "combined: flag says whether any command changed");
  sym_cover("done");
}
SYM_HARNESS(soft_combined)
{
  g_sig = bound(5, 23);
  JointLimits l;
  l.has_position_limits = l.has_velocity_limits = l.has_acceleration_limits = l.has_effort_limits = l.has_jerk_limits = true;
  l.min_position = -1; l.max_position = 1; l.max_velocity = 2; l.max_acceleration = 4; l.max_effort = 10; l.max_jerk = 5;
  SoftJointLimits s;
  s.min_position = -0.75; s.max_position = 0.75; s.k_position = 8; s.k_velocity = 4;
  auto lim = make<JointSoftLimiter>(l, {s});
  auto dt = cperiod(1);
  Data act, des;
  if (sym_bool("act")) {
    static const double ps[] = {0, 0.7, -0.9}, vs[] = {0, 1.5};
    act.position = bound(0, 1) ? sym_finite("act_pos", 0.995) : ps[sym_choice("act_pos", 3)];
    act.velocity = bound(0, 1) ? sym_finite("act_vel", 2) : vs[sym_choice("act_vel", 2)];
  }
  bool hasv[5];
  for (int k = POS; k <= JERK; k++) if ((hasv[k] = k == POS || sym_bool("has_cmd"))) field(des, k) = sym_finite("desired", 1e6);
  Data w = des;
  bool r = lim->enforce(act, des, dt);
  const double mx[5] = {1, 2, 10, 4, 5};
  bool ch = false;
  for (int k = POS; k <= JERK; k++) {
    sym_assert(field(des, k).has_value() == hasv[k], "combined: no command appears or disappears");
    if (!hasv[k]) continue;
    sym_assert(sym_and(*field(des, k) >= -mx[k], *field(des, k) <= mx[k]), "combined: every command within its hard limits");
    ch = ch | (*field(w, k) != *field(des, k));
  }
  sym_assert(r == ch, "combined: flag says whether any command changed");
  sym_cover("done");
}
