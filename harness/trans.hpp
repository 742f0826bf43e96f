// Transmissions: the documented linear maps between joint and actuator space, over exact numbers
// (integers and reductions that are powers of two), so that every way of computing them agrees.
#pragma once
#include <algorithm>
#include "hardware_interface/hardware_info.hpp"
#include "vh.hpp"
namespace ti = transmission_interface;
namespace tr
{
static const char * IF[] = {"position", "velocity", "effort", "torque", "force", "absolute_position", "temperature"};
enum { POS, VEL, EFF, TOR, FOR, ABS, OTHER, NIF };
static inline double num(const char * n) { return (double)((int32_t)(sym_var(n, 24) << 8) >> 8); }
// joints and actuators with one value per interface
struct Side
{
  const int n;
  double v[2][NIF];
  std::string name[2];
  bool on[2][NIF];
  Side(int c, const char * what, bool rev) : n(c)
  {
    for (int i = 0; i < n; ++i) {
      name[i] = std::string(what) + (i == (rev ? 1 : 0) ? "a" : "b");
      for (int k = 0; k < NIF; ++k) on[i][k] = true;
    }
  }
  void fresh(const char * lab) { for (int i = 0; i < n; ++i) for (int k = 0; k < NIF; ++k) v[i][k] = num((std::string(lab) + std::to_string(i) + "_" + IF[k]).c_str()); }
  void only(int k) { for (int i = 0; i < n; ++i) for (int j = 0; j < NIF; ++j) on[i][j] = j == k; }
  void without(int k) { for (int i = 0; i < n; ++i) on[i][k] = false; }
  // lay: 0 joint after joint, 1 interface after interface, 2 interfaces backwards and missing values as empty handles
  template <class H> std::vector<H> handles(int lay)
  {
    std::vector<H> r;
    auto add = [&](int i, int k) { if (on[i][k]) r.push_back(H(name[i], IF[k], &v[i][k])); else if (lay == 2) r.push_back(H(name[i], IF[k], nullptr)); };
    if (lay == 0) { for (int i = 0; i < n; ++i) for (int k = 0; k < NIF; ++k) add(i, k); }
    else for (int q = 0; q < NIF; ++q) for (int i = 0; i < n; ++i) add(i, lay == 2 ? NIF - 1 - q : q);
    return r;
  }
};
// expected value at output i of a linear map (row i of the matrix) with offset
typedef double Mat[2][2];
static inline double lin(const Mat & m, int i, const double * x, int n) { return n == 1 ? m[0][0] * x[0] : m[i][0] * x[0] + m[i][1] * x[1]; }
// velocity maps; efforts transform with the transposed inverse, positions like velocities around the offset
struct Maps { Mat a2j_v, j2a_v, a2j_e, j2a_e; double off[2]; };
static inline void check(ti::Transmission & t, Side & j, Side & a, const Maps & m, int nk)
{
  const int n = j.n;
  auto both = [&](int k) { bool r = k < nk; for (int i = 0; i < n; ++i) r = r && j.on[i][k] && a.on[i][k]; return r; };
  const bool to_joint = sym_choice("to_joint", 2);
  j.fresh("j"); a.fresh("a");
  Side j0 = j, a0 = a;
  to_joint ? t.actuator_to_joint() : t.joint_to_actuator();
  for (int k = 0; k < NIF; ++k) for (int i = 0; i < n; ++i) {
    Side &out = to_joint ? j : a, &out0 = to_joint ? j0 : a0, &in = to_joint ? a : j, &in0 = to_joint ? a0 : j0;
    sym_assert(in.v[i][k] == in0.v[i][k], "the side that is read is not changed");
    const bool eff = k == EFF || k == TOR || k == FOR, pos = k == POS || k == ABS;
    // sensors on the joint side do not drive actuators
    if (!both(k) || (k == ABS && !to_joint)) { sym_assert(out.v[i][k] == out0.v[i][k], "values that do not take part are not changed"); continue; }
    double x[2] = {0, 0};
    for (int q = 0; q < n; ++q) x[q] = in0.v[q][k] - (pos && !to_joint ? m.off[q] : 0);
    double e = lin(eff ? (to_joint ? m.a2j_e : m.j2a_e) : (to_joint ? m.a2j_v : m.j2a_v), i, x, n) + (pos && to_joint ? m.off[i] : 0);
    sym_assert(out.v[i][k] == e, pos ? "positions follow the transmission" : eff ? "efforts follow the transmission" : "velocities follow the transmission");
  }
  // and back
  to_joint ? t.joint_to_actuator() : t.actuator_to_joint();
  for (int k = 0; k < nk; ++k) for (int i = 0; i < n; ++i) {
    if (k == ABS) continue;
    if (both(k)) sym_assert((to_joint ? a.v[i][k] : j.v[i][k]) == (to_joint ? a0.v[i][k] : j0.v[i][k]), "mapping to the other side and back restores the value");
  }
  sym_cover(to_joint ? "to joint" : "to actuator");
}
// what a transmission of two joints and two actuators (or one) does with handles it cannot use
template <class T> void refusals(T & t, int n)
{
  Side j(n, "j", false), a(n, "a", false);
  std::vector<ti::JointHandle> jh = j.handles<ti::JointHandle>(0);
  std::vector<ti::ActuatorHandle> ah = a.handles<ti::ActuatorHandle>(0);
  double d = 0;
  const int what = (int)sym_choice("what", 8);
  const bool js = sym_choice("joints", 2);
  auto drop = [&](auto & h, auto pred) { h.erase(std::remove_if(h.begin(), h.end(), pred), h.end()); };
  auto with = [&](auto & h) {
    switch (what) {
      case 0: h.clear(); break;
      case 1: h.emplace_back("another", "position", &d); if (n == 1) break; h.emplace_back("another", "velocity", &d); h.emplace_back("another", "effort", &d); break;
      case 2: drop(h, [](auto & x) { return x.get_interface_name() != "temperature"; }); break;
      case 3: for (auto & x : h) x = std::decay_t<decltype(x)>(x.get_prefix_name(), x.get_interface_name(), nullptr); break;
      case 4: drop(h, [](auto & x) { return x.get_prefix_name().back() == 'b'; }); break;
      case 5: drop(h, [](auto & x) { return x.get_prefix_name().back() == 'a'; }); break;
      default: break;
    }
  };
  if (js) with(jh); else with(ah);
  const bool bad = n == 1 ? what < 4 || what == 5 : what < 6;
  bool threw = false;
  try { t.configure(jh, ah); } catch (const ti::Exception &) { threw = true; }
  sym_assert(threw == bad, bad ? "handles that cannot be used are refused" : "usable handles are accepted");
  sym_cover(threw ? "refused" : "accepted");
}
static inline double val(const char * n, std::initializer_list<double> o) { return *(o.begin() + sym_choice(n, o.size())); }
static inline hardware_interface::TransmissionInfo info(int n)
{
  hardware_interface::TransmissionInfo i;
  for (int q = 0; q < n; ++q) {
    hardware_interface::JointInfo j; hardware_interface::ActuatorInfo a;
    j.name = q ? "a" : "b"; a.name = q ? "c" : "d";
    j.mechanical_reduction = sym_f64(q ? "jr1" : "jr0"); a.mechanical_reduction = sym_f64(q ? "ar1" : "ar0");
    j.offset = sym_f64(q ? "jo1" : "jo0"); a.offset = sym_f64(q ? "ao1" : "ao0");
    sym_assume(sym_and(j.mechanical_reduction == j.mechanical_reduction, a.mechanical_reduction == a.mechanical_reduction));
    sym_assume(sym_and(j.offset == j.offset, a.offset == a.offset));
    i.joints.push_back(j); i.actuators.push_back(a);
  }
  return i;
}
// transmissions of two joints and two actuators
template <class T> void two(void (*maps)(Maps &, const double *, const double *), int nk)
{
  double ar[2] = {val("ar0", {2, -.5}), val("ar1", {-4, .25})}, jr[2] = {val("jr0", {1, -2}), val("jr1", {.5, -8})};
  Maps m;
  m.off[0] = 1.5; m.off[1] = -16;
  maps(m, ar, jr);
  T t({ar[0], ar[1]}, {jr[0], jr[1]}, {m.off[0], m.off[1]});
  Side j(2, "j", sym_choice("joints_reversed", 2)), a(2, "a", sym_choice("actuators_reversed", 2));
  const int sel = (int)sym_choice("present", 2);
  if (sel) { int k = (int)sym_choice("interface", nk); j.only(k); a.only(k); }
  const int lay = (int)sym_choice("layout", 3);
  t.configure(j.handles<ti::JointHandle>(lay), a.handles<ti::ActuatorHandle>(lay));
  check(t, j, a, m, nk);
}
template <class T, class L> void two_loaded()
{
  auto i = info(2);
  const int have = (int)sym_choice("entries", 3);
  if (have == 0) i.joints.pop_back();
  if (have == 1) i.actuators.pop_back();
  L l;
  auto t = l.load(i);
  bool zero = false;
  for (auto & x : i.joints) zero = zero || x.mechanical_reduction == 0;
  for (auto & x : i.actuators) zero = zero || x.mechanical_reduction == 0;
  sym_assert(!!t == (!zero && have == 2), "a transmission is loaded exactly if it is complete and no reduction is zero");
  if (!t) { sym_cover("refused"); return; }
  auto * d = dynamic_cast<T *>(t.get());
  sym_assert(d && d->num_joints() == 2 && d->num_actuators() == 2, "the transmission has the requested type");
  for (int q = 0; q < 2; ++q)
    sym_assert(sym_and(sym_and(d->get_joint_reduction()[q] == i.joints[q].mechanical_reduction, d->get_actuator_reduction()[q] == i.actuators[q].mechanical_reduction), d->get_joint_offset()[q] == i.joints[q].offset), "reductions and offsets are the configured ones");
  sym_cover("loaded");
}
}  // namespace tr
