// Semantic components: each field of a message is the value of the interface named for it, whatever is offered in which order.
#include "ctl.hpp"
#include "semantic_components/force_torque_sensor.hpp"
#include "semantic_components/gps_sensor.hpp"
#include "semantic_components/imu_sensor.hpp"
#include "semantic_components/led_rgb_device.hpp"
#include "semantic_components/magnetic_field_sensor.hpp"
#include "semantic_components/pose_sensor.hpp"
#include "semantic_components/range_sensor.hpp"
using namespace vt;
namespace
{
using V = std::vector<double>;
bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
hi::InterfaceDescription descr(const std::string & full)
{
  const auto p = full.rfind('/');
  hi::InterfaceInfo info;
  info.name = full.substr(p + 1);
  info.data_type = "double";
  return hi::InterfaceDescription(full.substr(0, p), info);
}
static const char * VAL[] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9"};
static const char * NEW[] = {"w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7", "w8", "w9"};
// the interfaces of one kind, in an order that is not the component's, between others of similar names
template <class H, class L> struct Offer
{
  std::vector<std::string> names;
  std::vector<std::shared_ptr<H>> hs;
  std::vector<std::shared_ptr<H>> others;
  V val;
  std::vector<L> loans;
  explicit Offer(const std::vector<std::string> & n) : names(n)
  {
    for (auto & s : n) hs.push_back(std::make_shared<H>(descr(s)));
    for (auto & s : n) {
      others.push_back(std::make_shared<H>(descr("other_" + s)));
      others.push_back(std::make_shared<H>(descr(s + "_2")));
      for (size_t k = others.size() - 2; k < others.size(); ++k) (void)others[k]->set_value(-77.0);
    }
    val.resize(n.size(), NAN);
  }
  // 0: as named, 1: reversed, 2: rotated; without number `missing`
  void offer(int order, int missing)
  {
    loans.clear();
    const int n = (int)hs.size();
    for (int k = 0; k < n; ++k) {
      const int i = order == 1 ? n - 1 - k : order == 2 ? (k + 1 + n / 2) % n : k;
      loans.emplace_back(others[2 * i]);
      if (i != missing) loans.emplace_back(hs[i]);
      loans.emplace_back(others[2 * i + 1]);
    }
  }
};
using States = Offer<hi::StateInterface, hi::LoanedStateInterface>;
using Commands = Offer<hi::CommandInterface, hi::LoanedCommandInterface>;
// `fields` gives what the component reports, `start` what it reports for an interface it never read
template <class C> void sensor(C & c, const std::vector<std::string> & names, const std::function<V()> & fields, const std::function<V(const V &)> & want, const V & start, double limit = 0)
{
  sym_assert(c.get_state_interface_names() == names, "a component asks for exactly its interfaces");
  States o(names);
  const int n = (int)names.size(), order = (int)sym_choice("order", 3), missing = (int)sym_choice("missing", (uint64_t)n + 1);
  auto write = [&](const char ** s) {
    for (int i = 0; i < n; ++i) {
      double v = sym_f64(s[i]);
      if (limit > 0 && i < 2) sym_assume(sym_and(v >= 0, v <= limit));
      (void)o.hs[i]->set_value(v);
      o.val[i] = v;
    }
  };
  auto is = [&](const V & vals, const char * what) {
    const V w = want(vals), g = fields();
    bool ok = w.size() == g.size();
    for (size_t i = 0; ok && i < w.size(); ++i) ok = same(w[i], g[i]);
    sym_assert(ok, what);
  };
  write(VAL);
  o.offer(order, missing);
  sym_assert(c.assign_loaned_state_interfaces(o.loans) == (missing == n), "a component takes interfaces exactly if all of its own are offered");
  if (missing < n) {
    if (sym_bool("released")) c.release_interfaces();
    o.offer((order + 1) % 3, n);
    sym_assert(c.assign_loaned_state_interfaces(o.loans), "a component takes interfaces exactly if all of its own are offered");
  }
  V vals = o.val;
  // the first reading, possibly while somebody else uses one of the interfaces
  const int busy = (int)sym_choice("busy", (uint64_t)n + 1);
  if (busy < n) {
    std::unique_lock<std::shared_mutex> l(o.hs[busy]->get_mutex());
    vals[busy] = start[busy];
    is(vals, "an interface in use leaves its field as it was");
    l.unlock();
    vals = o.val;
  }
  is(vals, "every field is the value of the interface named for it");
  write(NEW);
  is(o.val, "every field follows its interface");
  V out;
  out.reserve((size_t)n + 1);
  sym_assert(!c.get_values(out) && out.empty(), "values are not given to a vector of another size");
  V fit;
  fit.reserve((size_t)n);
  bool ok = c.get_values(fit) && (int)fit.size() == n;
  for (int i = 0; ok && i < n; ++i) ok = same(fit[i], o.val[i]);
  sym_assert(ok, "values are given in the order of the names");
  c.release_interfaces();
  o.offer(0, n);
  sym_assert(c.assign_loaned_state_interfaces(o.loans), "a component takes its interfaces again after it gave them back");
  write(VAL);
  is(o.val, "every field follows its interface");
}
std::vector<std::string> pre(const std::string & p, std::initializer_list<const char *> l)
{
  std::vector<std::string> r;
  for (auto s : l) r.push_back(p + "/" + s);
  return r;
}
V ident(const V & v) { return v; }
template <class A> void put(V & v, const A & a) { v.insert(v.end(), a.begin(), a.end()); }
}  // namespace
SYM_HARNESS(semantic_imu)
{
  semantic_components::IMUSensor s("imu");
  sensor(s, pre("imu", {"orientation.x", "orientation.y", "orientation.z", "orientation.w", "angular_velocity.x", "angular_velocity.y", "angular_velocity.z", "linear_acceleration.x", "linear_acceleration.y", "linear_acceleration.z"}), [&] {
    sensor_msgs::msg::Imu m;
    s.get_values_as_message(m);
    V v{m.orientation.x, m.orientation.y, m.orientation.z, m.orientation.w, m.angular_velocity.x, m.angular_velocity.y, m.angular_velocity.z, m.linear_acceleration.x, m.linear_acceleration.y, m.linear_acceleration.z};
    put(v, s.get_orientation()); put(v, s.get_angular_velocity()); put(v, s.get_linear_acceleration());
    return v; }, [](const V & v) { V w = v; put(w, v); return w; }, {0, 0, 0, 1, 0, 0, 0, 0, 0, 0});
}
SYM_HARNESS(semantic_pose)
{
  semantic_components::PoseSensor s("pose");
  sensor(s, pre("pose", {"position.x", "position.y", "position.z", "orientation.x", "orientation.y", "orientation.z", "orientation.w"}), [&] {
    geometry_msgs::msg::Pose m;
    s.get_values_as_message(m);
    V v{m.position.x, m.position.y, m.position.z, m.orientation.x, m.orientation.y, m.orientation.z, m.orientation.w};
    put(v, s.get_position()); put(v, s.get_orientation());
    return v; }, [](const V & v) { V w = v; put(w, v); return w; }, {0, 0, 0, 1, 0, 0, 0});
}
SYM_HARNESS(semantic_others)
{
  switch (sym_choice("component", 4)) {
    case 0: {
      semantic_components::MagneticFieldSensor s("mag");
      sensor(s, pre("mag", {"magnetic_field.x", "magnetic_field.y", "magnetic_field.z"}), [&] { sensor_msgs::msg::MagneticField m; s.get_values_as_message(m); return V{m.magnetic_field.x, m.magnetic_field.y, m.magnetic_field.z}; }, ident, {0, 0, 0});
      break;
    }
    case 1: {
      semantic_components::RangeSensor s("rng");
      sensor(s, pre("rng", {"range"}), [&] { sensor_msgs::msg::Range m; s.get_values_as_message(m); return V{m.range, s.get_range()}; }, [](const V & v) { return V{(float)v[0], (float)v[0]}; }, {NAN});
      break;
    }
    case 2: {
      semantic_components::GPSSensor<semantic_components::GPSSensorOption::WithoutCovariance> s("gps");
      sensor(s, pre("gps", {"status", "service", "latitude", "longitude", "altitude"}), [&] { sensor_msgs::msg::NavSatFix m; s.get_values_as_message(m); return V{(double)m.status.status, (double)m.status.service, m.latitude, m.longitude, m.altitude, m.position_covariance[0], m.position_covariance[4], m.position_covariance[8]}; },
        [](const V & v) { return V{(double)(int8_t)v[0], (double)(uint16_t)v[1], v[2], v[3], v[4], 0, 0, 0}; }, {127, 65535, NAN, NAN, NAN}, 100);
      break;
    }
    case 3: {
      semantic_components::GPSSensor<semantic_components::GPSSensorOption::WithCovariance> s("gps");
      sensor(s, pre("gps", {"status", "service", "latitude", "longitude", "altitude", "latitude_covariance", "longitude_covariance", "altitude_covariance"}), [&] { sensor_msgs::msg::NavSatFix m; s.get_values_as_message(m); V v{(double)m.status.status, (double)m.status.service, m.latitude, m.longitude, m.altitude}; put(v, m.position_covariance); return v; },
        [](const V & v) { return V{(double)(int8_t)v[0], (double)(uint16_t)v[1], v[2], v[3], v[4], v[5], 0, 0, 0, v[6], 0, 0, 0, v[7]}; }, {127, 65535, NAN, NAN, NAN, 0, 0, 0}, 100);
      break;
    }
  }
}
SYM_HARNESS(semantic_fts)
{
  static const char * AX[] = {"force.x", "force.y", "force.z", "torque.x", "torque.y", "torque.z"};
  // every subset of the axes, on interfaces of any name
  static const int SOME[] = {0, 0x20, 0x2c, 0x15, 0x32, 0x3f, 0x26, 0x19};
  const int axes = bound(0, 1) ? (int)sym_choice("axes", 64) : SOME[sym_choice("axes", 8)];
  const bool std_names = axes == 0;
  std::unique_ptr<semantic_components::ForceTorqueSensor> s;
  std::vector<std::string> names, all(6);
  if (std_names) {
    s = std::make_unique<semantic_components::ForceTorqueSensor>("fts");
    for (int i = 0; i < 6; ++i) names.push_back(all[i] = std::string("fts/") + AX[i]);
  } else {
    for (int i = 0; i < 6; ++i) if (axes >> i & 1) names.push_back(all[i] = "s" + std::to_string(9 - i) + "/" + AX[5 - i]);
    s = std::make_unique<semantic_components::ForceTorqueSensor>(all[0], all[1], all[2], all[3], all[4], all[5]);
  }
  sensor(*s, names, [&] {
    geometry_msgs::msg::Wrench m;
    s->get_values_as_message(m);
    V v{m.force.x, m.force.y, m.force.z, m.torque.x, m.torque.y, m.torque.z};
    put(v, s->get_forces()); put(v, s->get_torques());
    return v; },
    [&](const V & v) { V w; size_t k = 0; for (int i = 0; i < 6; ++i) w.push_back(all[i].empty() ? NAN : v[k++]); V x = w; put(x, w); return x; }, V(names.size(), NAN));
}
SYM_HARNESS(semantic_led)
{
  semantic_components::LedRgbDevice d("led", "b", "r", "g");
  const std::vector<std::string> names{"led/b", "led/r", "led/g"};
  sym_assert(d.get_command_interface_names() == names, "a component asks for exactly its interfaces");
  Commands o(names);
  const int order = (int)sym_choice("order", 3), missing = (int)sym_choice("missing", 4);
  o.offer(order, missing);
  sym_assert(d.assign_loaned_command_interfaces(o.loans) == (missing == 3), "a component takes interfaces exactly if all of its own are offered");
  if (missing < 3) {
    if (sym_bool("released")) d.release_interfaces();
    o.offer((order + 1) % 3, 3);
    sym_assert(d.assign_loaned_command_interfaces(o.loans), "a component takes interfaces exactly if all of its own are offered");
  }
  auto are = [&](double a, double b, double c, const char * what) {
    sym_assert(sym_and(sym_and(same(*o.hs[0]->get_optional(), a), same(*o.hs[1]->get_optional(), b)), same(*o.hs[2]->get_optional(), c)), what);
    for (auto & h : o.others) sym_assert(*h->get_optional() == -77.0, "other interfaces are left alone");
  };
  V v{sym_f64("a"), sym_f64("b"), sym_f64("c")};
  V two{1, 2};
  are(NAN, NAN, NAN, "nothing is written before");
  sym_assert(!d.set_values(two), "a wrong number of values is refused");
  are(NAN, NAN, NAN, "a wrong number of values changes nothing");
  sym_assert(d.set_values(v), "values are written");
  are(v[0], v[1], v[2], "values are written to the interfaces in order");
  std_msgs::msg::ColorRGBA m;
  m.r = sym_f32("r"), m.g = sym_f32("g"), m.b = sym_f32("b"), m.a = sym_f32("alpha");
  sym_assume(m.r == m.r && m.g == m.g && m.b == m.b);
  const bool in = m.r >= 0 && m.r <= 1 && m.g >= 0 && m.g <= 1 && m.b >= 0 && m.b <= 1;
  sym_assert(d.set_values_from_message(m) == in, "exactly colours of parts between 0 and 1 are accepted");
  if (in) are(m.r, m.g, m.b, "a colour is written to its interfaces"); else are(v[0], v[1], v[2], "a refused colour changes nothing");
}
