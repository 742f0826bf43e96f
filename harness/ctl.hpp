// Hardware components and controllers whose every callback result is decided by the harness
// (symbolically, when and if the code under test actually calls the callback).
#pragma once
#include <array>
#include <map>
#include <set>
#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "controller_manager/controller_manager.hpp"
#include "hardware_interface/actuator_interface.hpp"
#include "hardware_interface/resource_manager.hpp"
#include "hardware_interface/sensor_interface.hpp"
#include "hardware_interface/system_interface.hpp"
#include "lifecycle_msgs/msg/state.hpp"
#include "vh.hpp"

namespace vt
{
using hardware_interface::CallbackReturn;
using LS = lifecycle_msgs::msg::State;
namespace hi = hardware_interface;
namespace ci = controller_interface;
enum Cb { INIT, CONFIGURE, ACTIVATE, DEACTIVATE, CLEANUP, SHUTDOWN, ERRORCB, READ, WRITE, PREPARE, PERFORM, UPDATE, UPDATE_REF, CHAINED, UNCHAINED, NCB };
enum Res { OK = 0, FAIL = 1, ERR = 2, THROW = 3, THROW_INT = 4 };
struct Ev { int who; int cb; int res; double period; int64_t t; };
inline std::vector<Ev> log_;
// who: hardware components are 0.., controllers 100..
inline std::function<int(int who, int cb)> policy;
inline int decide(int who, int cb, double period = 0)
{
  int r = policy ? policy(who, cb) : OK;
  log_.push_back({who, cb, r, period, sim::now_ns});
  if (r == THROW) throw std::runtime_error("scripted");
  if (r == THROW_INT) throw 42;
  return r;
}
inline int count(int who, int cb, size_t from = 0) { int n = 0; for (size_t i = from; i < log_.size(); ++i) n += log_[i].who == who && log_[i].cb == cb; return n; }
inline CallbackReturn cbr(int r) { return r == OK ? CallbackReturn::SUCCESS : r == FAIL ? CallbackReturn::FAILURE : CallbackReturn::ERROR; }
inline hi::return_type hir(int r) { return r == OK ? hi::return_type::OK : r == FAIL ? hi::return_type::ERROR : hi::return_type::DEACTIVATE; }
inline ci::return_type cir(int r) { return r == OK ? ci::return_type::OK : ci::return_type::ERROR; }
using State = rclcpp_lifecycle::State;
using Time = rclcpp::Time;
using Duration = rclcpp::Duration;

inline std::map<std::string, int> hw_id;       // hardware name -> id
inline std::vector<struct HwBase *> hw_obj;    // by id
struct ModeCall { int who; bool perform; std::vector<std::string> start, stop; int res; };
inline std::vector<ModeCall> modes;

template <class Base> struct Hw;
struct HwBase { int id = -1; std::function<void(double)> on_read, on_write; virtual ~HwBase() = default; virtual hi::HardwareComponentInterface * comp() = 0; };
template <class Base> struct HwCommon : Base, HwBase
{
  hi::HardwareComponentInterface * comp() override { return this; }
  CallbackReturn on_init(const hi::HardwareComponentInterfaceParams & p) override
  {
    auto r = Base::on_init(p);
    auto it = hw_id.find(this->get_name());
    id = it == hw_id.end() ? 99 : it->second;
    if (id < 99) { if ((int)hw_obj.size() <= id) hw_obj.resize(id + 1); hw_obj[id] = this; }
    int d = decide(id, INIT);
    return r == CallbackReturn::SUCCESS ? cbr(d) : r;
  }
  CallbackReturn on_configure(const State &) override { return cbr(decide(id, CONFIGURE)); }
  CallbackReturn on_activate(const State &) override { return cbr(decide(id, ACTIVATE)); }
  CallbackReturn on_deactivate(const State &) override { return cbr(decide(id, DEACTIVATE)); }
  CallbackReturn on_cleanup(const State &) override { return cbr(decide(id, CLEANUP)); }
  CallbackReturn on_shutdown(const State &) override { return cbr(decide(id, SHUTDOWN)); }
  CallbackReturn on_error(const State &) override { return cbr(decide(id, ERRORCB)); }
  hi::return_type read(const Time &, const Duration & p) override { int r = decide(id, READ, p.seconds()); if (on_read) on_read(p.seconds()); return hir(r); }
  hi::return_type prepare_command_mode_switch(const std::vector<std::string> & a, const std::vector<std::string> & b) override
  {
    modes.push_back({id, false, a, b, 0});
    int r = decide(id, PREPARE);
    modes.back().res = r;
    return hir(r);
  }
  hi::return_type perform_command_mode_switch(const std::vector<std::string> & a, const std::vector<std::string> & b) override
  {
    modes.push_back({id, true, a, b, 0});
    int r = decide(id, PERFORM);
    modes.back().res = r;
    return hir(r);
  }
};
template <> struct Hw<hi::SystemInterface> : HwCommon<hi::SystemInterface> { hi::return_type write(const Time &, const Duration & p) override { int r = decide(id, WRITE, p.seconds()); if (on_write) on_write(p.seconds()); return hir(r); } };
template <> struct Hw<hi::ActuatorInterface> : HwCommon<hi::ActuatorInterface> { hi::return_type write(const Time &, const Duration & p) override { int r = decide(id, WRITE, p.seconds()); if (on_write) on_write(p.seconds()); return hir(r); } };
template <> struct Hw<hi::SensorInterface> : HwCommon<hi::SensorInterface> {};

inline void register_hw()
{
  pluginlib::factories<hi::SystemInterface>()["vt/System"] = [] { return new Hw<hi::SystemInterface>(); };
  pluginlib::factories<hi::ActuatorInterface>()["vt/Actuator"] = [] { return new Hw<hi::ActuatorInterface>(); };
  pluginlib::factories<hi::SensorInterface>()["vt/Sensor"] = [] { return new Hw<hi::SensorInterface>(); };
}

// ---- robot descriptions
struct JointDesc { std::string name; std::vector<std::string> cmd, state; std::string extra; };
struct HwDesc
{
  std::string name, type;      // type: system | actuator | sensor
  std::vector<JointDesc> joints;
  std::string group;
  std::string attrs;           // e.g. rw_rate="50"
};
inline std::string urdf(const std::vector<HwDesc> & hws, const std::string & limit = "lower=\"-1\" upper=\"1\" velocity=\"2\" effort=\"3\"")
{
  std::set<std::string> js;
  std::string s = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"world\"/>";
  for (auto & h : hws) for (auto & j : h.joints) if (h.type != "sensor" && js.insert(j.name).second)
    s += "<link name=\"" + j.name + "_l\"/><joint name=\"" + j.name + "\" type=\"revolute\"><parent link=\"world\"/><child link=\"" + j.name + "_l\"/><limit " + limit + "/></joint>";
  for (auto & h : hws) {
    s += "<ros2_control name=\"" + h.name + "\" type=\"" + h.type + "\" " + h.attrs + "><hardware><plugin>vt/" +
         (h.type == "system" ? "System" : h.type == "actuator" ? "Actuator" : "Sensor") + "</plugin>";
    if (!h.group.empty()) s += "<group>" + h.group + "</group>";
    s += "</hardware>";
    for (auto & j : h.joints) {
      const char * tag = h.type == "sensor" ? "sensor" : "joint";
      s += std::string("<") + tag + " name=\"" + j.name + "\">";
      for (auto & c : j.cmd) s += "<command_interface name=\"" + c + "\"/>";
      for (auto & c : j.state) s += "<state_interface name=\"" + c + "\"/>";
      s += j.extra + "</" + tag + ">";
    }
    s += "</ros2_control>";
  }
  return s + "</robot>";
}
inline void reset_world(const std::vector<HwDesc> & hws)
{
  log_.clear(); modes.clear(); hw_id.clear(); hw_obj.clear(); policy = nullptr;
  sim::idle_hook = nullptr; sim::ros_ok = true;
  for (size_t i = 0; i < hws.size(); ++i) hw_id[hws[i].name] = (int)i;
  register_hw();
}
inline rclcpp::Logger logger() { return rclcpp::get_logger("vt"); }
inline hi::ResourceManagerParams rm_params(const std::string & u, bool activate_all, unsigned rate = 100)
{
  hi::ResourceManagerParams p;
  p.robot_description = u;
  p.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  p.logger = logger();
  p.activate_all = activate_all;
  p.update_rate = rate;
  p.allow_controller_activation_with_inactive_hardware = false;
  return p;
}
inline Time now_() { return Time(sim::now_ns, RCL_STEADY_TIME); }

// ---- controllers
struct CtlCfg
{
  std::string name;
  std::vector<std::string> cmd, state;      // individual interface names
  bool chainable = false;
  std::vector<std::string> refs, exported;  // chainable only
  unsigned rate = 0;
  std::vector<std::string> fallback;
  bool all = false;                         // asks for all command interfaces
  int cmd_type = 0, state_type = 0;         // 0: the names, 1: all, 2: those of the names that exist, 3: names are patterns
};
struct CtlBase { int id; CtlCfg cfg; std::function<void(double)> on_update; virtual ~CtlBase() = default; virtual ci::ControllerInterfaceBase * base() = 0; };
template <class B> struct CtlCommon : B, CtlBase
{
  ci::ControllerInterfaceBase * base() override { return this; }
  static ci::InterfaceConfiguration conf(const std::vector<std::string> & n, int type)
  {
    using T = ci::interface_configuration_type;
    if (type) return {type == 1 ? T::ALL : type == 2 ? T::INDIVIDUAL_BEST_EFFORT : T::REGEX, type == 1 ? std::vector<std::string>{} : n};
    return {n.empty() ? ci::interface_configuration_type::NONE : ci::interface_configuration_type::INDIVIDUAL, n};
  }
  ci::InterfaceConfiguration command_interface_configuration() const override { if (cfg.all) return {ci::interface_configuration_type::ALL, {}}; return conf(cfg.cmd, cfg.cmd_type); }
  ci::InterfaceConfiguration state_interface_configuration() const override { return conf(cfg.state, cfg.state_type); }
  CallbackReturn on_init() override { return cbr(decide(id, INIT)); }
  CallbackReturn on_configure(const State &) override { return cbr(decide(id, CONFIGURE)); }
  CallbackReturn on_activate(const State &) override { return cbr(decide(id, ACTIVATE)); }
  CallbackReturn on_deactivate(const State &) override { return cbr(decide(id, DEACTIVATE)); }
  CallbackReturn on_cleanup(const State &) override { return cbr(decide(id, CLEANUP)); }
  CallbackReturn on_shutdown(const State &) override { return cbr(decide(id, SHUTDOWN)); }
  CallbackReturn on_error(const State &) override { return cbr(decide(id, ERRORCB)); }
  size_t n_cmd() const { return this->command_interfaces_.size(); }
  size_t n_state() const { return this->state_interfaces_.size(); }
  auto & cmd_ifs() { return this->command_interfaces_; }
  auto & state_ifs() { return this->state_interfaces_; }
};
struct Ctl : CtlCommon<ci::ControllerInterface>
{
  ci::return_type update(const Time &, const Duration & p) override { if (on_update) on_update(p.seconds()); return cir(decide(id, UPDATE, p.seconds())); }
};
struct ChainCtl : CtlCommon<ci::ChainableControllerInterface>
{
  std::vector<hi::CommandInterface::SharedPtr> on_export_reference_interfaces_list() override
  {
    std::vector<hi::CommandInterface::SharedPtr> r;
    for (auto & n : cfg.refs) { r.push_back(std::make_shared<hi::CommandInterface>(get_node()->get_name(), n)); (void)r.back()->set_value(0.0); }
    return r;
  }
  std::vector<hi::StateInterface::SharedPtr> on_export_state_interfaces_list() override
  {
    std::vector<hi::StateInterface::SharedPtr> r;
    for (auto & n : cfg.exported) { r.push_back(std::make_shared<hi::StateInterface>(get_node()->get_name(), n)); (void)r.back()->set_value(0.0); }
    return r;
  }
  bool on_set_chained_mode(bool m) override { return decide(id, m ? CHAINED : UNCHAINED) == OK; }
  ci::return_type update_reference_from_subscribers(const Time &, const Duration & p) override { return cir(decide(id, UPDATE_REF, p.seconds())); }
  ci::return_type update_and_write_commands(const Time &, const Duration & p) override { if (on_update) on_update(p.seconds()); return cir(decide(id, UPDATE, p.seconds())); }
  auto & refs() { return ordered_exported_reference_interfaces_; }
  auto & outs() { return ordered_exported_state_interfaces_; }
};

struct Cm : controller_manager::ControllerManager
{
  using controller_manager::ControllerManager::ControllerManager;
  hi::ResourceManager & rm() { return *resource_manager_; }
  using ControllerManager::list_controllers_srv_cb;
  using ControllerManager::list_hardware_components_srv_cb;
  using ControllerManager::list_hardware_interfaces_srv_cb;
  using ControllerManager::set_hardware_component_state_srv_cb;
  using ControllerManager::switch_controller_service_cb;
  using ControllerManager::unload_controller_service_cb;
  using ControllerManager::load_controller_service_cb;
  using ControllerManager::configure_controller_service_cb;
  using ControllerManager::cleanup_controller_service_cb;
};
struct World
{
  std::shared_ptr<Cm> cm;
  std::vector<std::shared_ptr<ci::ControllerInterfaceBase>> obj;
  std::vector<CtlBase *> ctl;
  std::function<void()> hook;
  bool in_switch = false;
  World(const std::vector<HwDesc> & hws, const std::vector<CtlCfg> & cs, std::vector<rclcpp::Parameter> par = {}, bool all = true, std::function<int(int, int)> startup = nullptr)
  {
    reset_world(hws);
    policy = startup;
    auto opts = controller_manager::get_cm_node_options();
    opts.parameter_overrides(par);
    cm = std::make_shared<Cm>(std::make_shared<rclcpp::executors::SingleThreadedExecutor>(), urdf(hws), all, "cm", "", opts);
    hook = [this] { tick(); };
    sim::idle_hook = &hook;
    for (auto & c : cs) add(c);
  }
  ~World() { sim::idle_hook = nullptr; }
  int add(const CtlCfg & c)
  {
    int id = 100 + (int)ctl.size();
    if (c.chainable) { auto p = std::make_shared<ChainCtl>(); p->id = id; p->cfg = c; obj.push_back(p); ctl.push_back(p.get()); add1(p, c); }
    else { auto p = std::make_shared<Ctl>(); p->id = id; p->cfg = c; obj.push_back(p); ctl.push_back(p.get()); add1(p, c); }
    return id;
  }
  template <class T> void add1(std::shared_ptr<T> p, const CtlCfg & c)
  {
    controller_manager::ControllerSpec s;
    s.c = p; s.info.name = c.name; s.info.type = "vt/Ctl"; s.info.fallback_controllers_names = c.fallback;
    s.last_update_cycle_time = std::make_shared<rclcpp::Time>(0);
    cm->add_controller(s);
    if (c.rate) p->get_node()->set_parameter(rclcpp::Parameter("update_rate", (int)c.rate));
  }
  // one cycle of the real-time loop
  ci::return_type tick(double period = 0.01)
  {
    cm->read(now_(), Duration::from_seconds(period));
    auto r = cm->update(now_(), Duration::from_seconds(period));
    cm->write(now_(), Duration::from_seconds(period));
    return r;
  }
  uint8_t st(int i) { return ctl[i]->base()->get_lifecycle_state().id(); }
  bool active(int i) { return st(i) == LS::PRIMARY_STATE_ACTIVE; }
  bool inactive(int i) { return st(i) == LS::PRIMARY_STATE_INACTIVE; }
  bool configure(int i) { return cm->configure_controller(ctl[i]->cfg.name) == ci::return_type::OK; }
  bool sw(const std::vector<std::string> & a, const std::vector<std::string> & d, int strict, bool asap = false, double timeout = 0.1)
  {
    return cm->switch_controller(a, d, strict, asap, Duration::from_seconds(timeout)) == ci::return_type::OK;
  }
  bool claimed(const std::string & k) { return cm->rm().command_interface_is_claimed(k); }
  bool available(const std::string & k) { return cm->rm().command_interface_is_available(k); }
};
constexpr int BEST_EFFORT = controller_manager_msgs::srv::SwitchController::Request::BEST_EFFORT;
constexpr int STRICT = controller_manager_msgs::srv::SwitchController::Request::STRICT;
}  // namespace vt
