// C01: what chainable controllers export, and whose references they follow.
#include "ctl.hpp"
using namespace vt;
namespace
{
bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
// interfaces a controller wants to export: some as values of its own (older way), some as handles
struct Want
{
  std::vector<std::pair<std::string, std::string>> own, handles;
  int storage = 0;  // how much more space for its own values than needed
};
struct Ctl : ci::ChainableControllerInterface
{
  Want refs, states;
  double out[3] = {1, 2, 3};
  bool accept = true, ref_ok = true;
  int from_subscribers = 0, updates = 0, mode_calls = 0;
  int sub = 0, upd = 0;
  ci::InterfaceConfiguration command_interface_configuration() const override { return {ci::interface_configuration_type::NONE, {}}; }
  ci::InterfaceConfiguration state_interface_configuration() const override { return {ci::interface_configuration_type::NONE, {}}; }
  CallbackReturn on_init() override { return CallbackReturn::SUCCESS; }
  static ci::return_type ret(int r) { return r == 0 ? ci::return_type::OK : ci::return_type::ERROR; }
  ci::return_type update_reference_from_subscribers(const rclcpp::Time &, const rclcpp::Duration &) override { ++from_subscribers; return ret(sub); }
  ci::return_type update_and_write_commands(const rclcpp::Time &, const rclcpp::Duration &) override { ++updates; return ret(upd); }
  bool on_set_chained_mode(bool) override { ++mode_calls; return accept; }
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
  std::vector<hi::CommandInterface> on_export_reference_interfaces() override
  {
    std::vector<hi::CommandInterface> r;
    reference_interfaces_.assign(refs.own.size() + refs.storage, 0.0);
    for (size_t i = 0; i < refs.own.size(); ++i) r.emplace_back(refs.own[i].first, refs.own[i].second, &reference_interfaces_[i]);
    return r;
  }
  std::vector<hi::StateInterface> on_export_state_interfaces() override
  {
    std::vector<hi::StateInterface> r;
    for (size_t i = 0; i < states.own.size(); ++i) r.emplace_back(states.own[i].first, states.own[i].second, &out[i]);
    return r;
  }
#pragma clang diagnostic pop
  std::vector<hi::CommandInterface::SharedPtr> mine_r;
  std::vector<hi::StateInterface::SharedPtr> mine_s;
  std::vector<hi::CommandInterface::SharedPtr> on_export_reference_interfaces_list() override
  {
    mine_r.clear();
    for (auto & [p, n] : refs.handles) mine_r.push_back(std::make_shared<hi::CommandInterface>(p, n));
    return mine_r;
  }
  std::vector<hi::StateInterface::SharedPtr> on_export_state_interfaces_list() override
  {
    mine_s.clear();
    for (auto & [p, n] : states.handles) mine_s.push_back(std::make_shared<hi::StateInterface>(p, n));
    return mine_s;
  }
  auto & values() { return reference_interfaces_; }
  auto & rnames() { return exported_reference_interface_names_; }
  auto & rordered() { return ordered_exported_reference_interfaces_; }
  auto & rmap() { return exported_reference_interfaces_; }
  auto & snames() { return exported_state_interface_names_; }
  auto & sordered() { return ordered_exported_state_interfaces_; }
  auto & smap() { return exported_state_interfaces_; }
};
static const char * SHAPE[] = {"shape0", "shape1"};
static const char * FLAW[] = {"flaw0", "flaw1"};
// some interfaces, with a flaw or without: 0 none, 1 a name used twice, 2 a foreign prefix, 3 wrong storage (references only)
int wants(Want & w, int k, bool refs)
{
  w = Want();
  const int n = (int)sym_choice(SHAPE[k], 9), own = n % 3, handles = n / 3;
  static const char * N[] = {"b", "a", "c", "d"};
  int i = 0;
  for (int q = 0; q < own; ++q) w.own.push_back({q ? "ctl/sub" : "ctl", N[i++]});
  for (int q = 0; q < handles; ++q) w.handles.push_back({"ctl", N[i++]});
  int flaw = (int)sym_choice(FLAW[k], refs ? 4 : 3);
  auto & last = !w.handles.empty() ? w.handles : w.own;
  auto & first = !w.own.empty() ? w.own : w.handles;
  if (flaw == 1) { if (own + handles < 2) flaw = 0; else last.back() = first.front(); }
  if (flaw == 2) { if (own + handles < 1) flaw = 0; else (own ? w.own.back() : w.handles.back()).first = "a_ctl"; }
  if (flaw == 3) w.storage = 1;
  return flaw;
}
template <class R, class O, class M> void exported(const Want & w, const R & r, const std::vector<std::string> & names, const O & ordered, const M & map, const char * what)
{
  const size_t n = w.own.size() + w.handles.size();
  bool ok = r.size() == n && names.size() == n && ordered.size() == n && map.size() == n;
  for (size_t i = 0; ok && i < n; ++i) {
    auto & p = i < w.own.size() ? w.own[i] : w.handles[i - w.own.size()];
    const std::string full = p.first + "/" + p.second;
    ok = r[i]->get_name() == full && names[i] == full && ordered[i].get() == r[i].get() && map.count(full) && map.at(full).get() == r[i].get();
  }
  sym_assert(ok, what);
}
std::shared_ptr<Ctl> make()
{
  auto c = std::make_shared<Ctl>();
  ci::ControllerInterfaceParams p;
  p.controller_name = "ctl";
  p.update_rate = p.controller_manager_update_rate = 100;
  p.node_options = c->define_custom_node_options();
  sym_assert(c->init(p) == ci::return_type::OK, "a controller starts");
  return c;
}
}  // namespace
SYM_HARNESS(chainable_references)
{
  auto c = make();
  static const char * V[] = {"v0", "v1", "v2", "v3"};
  for (int k = 0; k < 2; ++k) {
    const int flaw = wants(c->refs, k, true);
    bool threw = false;
    std::vector<hi::CommandInterface::SharedPtr> r;
    try { r = c->export_reference_interfaces(); } catch (const std::exception &) { threw = true; }
    sym_assert(threw == (flaw != 0), "exactly interfaces of unique names that begin with the controller's are exported");
    if (threw) continue;
    exported(c->refs, r, c->rnames(), c->rordered(), c->rmap(), "exactly the references a controller offers now are exported, in their order");
    if (k == 0 && sym_bool("again")) continue;
    for (size_t i = 0; i < r.size(); ++i) {
      const double v = sym_f64(V[i]);
      sym_assert(r[i]->set_value(v), "a reference can be written");
      for (size_t q = 0; q < r.size(); ++q) if (q < c->refs.own.size()) sym_assert(same(c->values()[q], *r[q]->get_optional()), "a controller reads what was written to its references");
      sym_assert(same(*c->rordered()[i]->get_optional(), v), "a controller reads what was written to its references");
      if (i >= c->refs.own.size()) sym_assert(c->mine_r[i - c->refs.own.size()] == r[i], "a controller's own handles are exported");
    }
    break;
  }
}
SYM_HARNESS(chainable_states)
{
  auto c = make();
  static const char * V[] = {"v0", "v1", "v2", "v3"};
  for (int k = 0; k < 2; ++k) {
    const int flaw = wants(c->states, k, false);
    bool threw = false;
    std::vector<hi::StateInterface::ConstSharedPtr> r;
    try { r = c->export_state_interfaces(); } catch (const std::exception &) { threw = true; }
    sym_assert(threw == (flaw != 0), "exactly interfaces of unique names that begin with the controller's are exported");
    if (threw) continue;
    exported(c->states, r, c->snames(), c->sordered(), c->smap(), "exactly the states a controller offers now are exported, in their order");
    if (k == 0 && sym_bool("again")) continue;
    for (size_t i = 0; i < r.size(); ++i) {
      const double v = sym_f64(V[i]);
      if (i < c->states.own.size()) c->out[i] = v; else sym_assert(c->sordered()[i]->set_value(v), "a state can be written");
      sym_assert(same(*r[i]->get_optional(), v), "others read what a controller writes to its states");
      if (i >= c->states.own.size()) sym_assert(c->mine_s[i - c->states.own.size()].get() == r[i].get(), "a controller's own handles are exported");
    }
    break;
  }
}
SYM_HARNESS(chainable_mode)
{
  auto c = make();
  static const char * OP[] = {"op0", "op1", "op2", "op3", "op4"};
  static const char * RA[] = {"ra0", "ra1", "ra2", "ra3", "ra4"};
  bool chained = false;
  using S = lifecycle_msgs::msg::State;
  const int N = bound(4, 5);
  for (int i = 0; i < N; ++i) {
    const int op = (int)sym_choice(OP[i], 4);
    const auto state = c->get_lifecycle_state().id();
    if (op < 2) {
      c->accept = sym_bool(RA[i]);
      const int calls = c->mode_calls;
      const bool want = state != S::PRIMARY_STATE_ACTIVE && c->accept;
      sym_assert(c->set_chained_mode(op == 1) == want, "the mode can be changed exactly while the controller is not active and accepts it");
      if (want) chained = op == 1;
      sym_assert(c->mode_calls == calls + (state != S::PRIMARY_STATE_ACTIVE), "an active controller is not asked to change its mode");
    } else if (op == 2) {
      if (state == S::PRIMARY_STATE_UNCONFIGURED) c->configure();
      else if (state == S::PRIMARY_STATE_INACTIVE) c->get_node()->activate();
      else c->get_node()->deactivate();
    } else {
      const int a = c->from_subscribers, b = c->updates;
      c->sub = (int)sym_bool(RA[i]);
      c->upd = (int)sym_bool("update_error");
      const bool s = !chained && c->sub;
      const bool ok = c->update(rclcpp::Time(1, 0, RCL_ROS_TIME), rclcpp::Duration(0, 10000000)) == ci::return_type::OK;
      sym_assert(c->from_subscribers == a + !chained, "a controller takes its own input exactly if it is not chained");
      sym_assert(c->updates == b + !s, "commands are written in every update whose input is no error");
      sym_assert(ok == (!s && !c->upd), "errors of input and update are reported");
    }
    sym_assert(c->is_in_chained_mode() == chained, "the mode is the one accepted last");
  }
}
