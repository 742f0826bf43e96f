// Minimal deterministic stand-ins for the ROS 2 client libraries (none are installed here).
// Behaviour modelled: rclcpp Time/Duration/Clock arithmetic, parameters, publishers/services/
// timers as records the harness can drive, rclcpp_lifecycle's transition table (including
// exceptions in callbacks => ERROR => on_error), realtime_tools boxes, pluginlib factories.
// Logging evaluates nothing.
#pragma once
#include <any>
#include <cassert>
#include <cxxabi.h>
#include <numeric>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#include <condition_variable>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <array>
#include <shared_mutex>

// ---------------------------------------------------------------- simulated world (sim.cpp)
namespace sim
{
extern int64_t now_ns;                       // every clock reads this
extern bool ros_ok;                          // rclcpp::ok()
extern std::function<void()> * idle_hook;    // runs whenever the code under test sleeps or waits
void idle(int64_t ns);
}  // namespace sim

typedef enum rcl_clock_type_e { RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME } rcl_clock_type_t;
typedef int64_t rcl_duration_value_t;
enum { RMW_QOS_POLICY_HISTORY_KEEP_LAST = 1, RMW_QOS_POLICY_HISTORY_KEEP_ALL = 2 };
#define RCL_NS_TO_S(ns) ((ns) / (1000LL * 1000LL * 1000LL))
#define RCL_S_TO_NS(s) ((s) * (1000LL * 1000LL * 1000LL))
#define RCL_ROS_ARGS_FLAG "--ros-args"
#define RCL_PARAM_FLAG "-p"
#define RCL_PARAM_FILE_FLAG "--params-file"
#define RCL_REMAP_FLAG "-r"
#define RCLCPP_VERSION_MAJOR 30
#define RCLCPP_VERSION_MINOR 0
#define RCLCPP_VERSION_GTE(a, b, c) (30 > (a) || (30 == (a) && (0 > (b) || (0 == (b) && 0 >= (c)))))

// ---------------------------------------------------------------- logging
namespace rosstub { struct NullStream { template <class T> NullStream & operator<<(const T &) { return *this; } NullStream & operator<<(std::ostream & (*)(std::ostream &)) { return *this; } }; inline void sink(...) {} template <class... A> inline void vsink(A &&...) {} }
#define ROSSTUB_LOG(...) do { if (false) { ::rosstub::vsink(__VA_ARGS__); } } while (0)
#define ROSSTUB_LOGS(l, x) do { if (false) { ::rosstub::vsink(l); ::rosstub::NullStream() << x; } } while (0)
#define ROSSTUB_LOGST(l, c, t, x) do { if (false) { ::rosstub::vsink(l, c, t); ::rosstub::NullStream() << x; } } while (0)
#define RCLCPP_DEBUG(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_INFO(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_WARN(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_ERROR(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_FATAL(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_DEBUG_ONCE(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_INFO_ONCE(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_WARN_ONCE(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_ERROR_ONCE(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_DEBUG_EXPRESSION(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_INFO_EXPRESSION(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_WARN_EXPRESSION(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_ERROR_EXPRESSION(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_DEBUG_THROTTLE(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_INFO_THROTTLE(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_ERROR_THROTTLE(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCLCPP_DEBUG_STREAM(l, x) ROSSTUB_LOGS(l, x)
#define RCLCPP_INFO_STREAM(l, x) ROSSTUB_LOGS(l, x)
#define RCLCPP_WARN_STREAM(l, x) ROSSTUB_LOGS(l, x)
#define RCLCPP_ERROR_STREAM(l, x) ROSSTUB_LOGS(l, x)
#define RCLCPP_FATAL_STREAM(l, x) ROSSTUB_LOGS(l, x)
#define RCLCPP_WARN_STREAM_THROTTLE(l, c, t, x) ROSSTUB_LOGST(l, c, t, x)
#define RCLCPP_ERROR_STREAM_THROTTLE(l, c, t, x) ROSSTUB_LOGST(l, c, t, x)
#define RCLCPP_INFO_STREAM_THROTTLE(l, c, t, x) ROSSTUB_LOGST(l, c, t, x)
#ifdef ROSSTUB_PRINT   // debugging aid only
#include <cstdarg>
namespace rosstub { template <class L> inline void pr(const L &, std::string, ...) {} template <class L> inline void pr(const L &, const char * f, ...) { va_list a; va_start(a, f); vfprintf(stderr, f, a); va_end(a); fputc('\n', stderr); } }
#undef RCLCPP_INFO
#undef RCLCPP_WARN
#undef RCLCPP_ERROR
#undef RCLCPP_FATAL
#define RCLCPP_INFO(...) ::rosstub::pr(__VA_ARGS__)
#define RCLCPP_WARN(...) ::rosstub::pr(__VA_ARGS__)
#define RCLCPP_ERROR(...) ::rosstub::pr(__VA_ARGS__)
#define RCLCPP_FATAL(...) ::rosstub::pr(__VA_ARGS__)
#endif
#define RCUTILS_LOG_DEBUG_NAMED(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCUTILS_LOG_INFO_NAMED(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCUTILS_LOG_WARN_NAMED(...) ROSSTUB_LOG(__VA_ARGS__)
#define RCUTILS_LOG_ERROR_NAMED(...) ROSSTUB_LOG(__VA_ARGS__)

namespace builtin_interfaces::msg { struct Time { int32_t sec = 0; uint32_t nanosec = 0; }; struct Duration { int32_t sec = 0; uint32_t nanosec = 0; }; }

namespace rclcpp
{
class Logger
{
public:
  Logger() = default;
  explicit Logger(const std::string &) {}
  Logger get_child(const std::string &) const { return *this; }
  const char * get_name() const { return "log"; }
  enum class Level { Unset, Debug, Info, Warn, Error, Fatal };
  void set_level(Level) {}
};
inline Logger get_logger(const std::string &) { return Logger(); }
inline Logger get_logger(const char *) { return Logger(); }

class Duration
{
  int64_t ns_ = 0;
public:
  Duration() = default;
  Duration(int32_t s, uint32_t n) : ns_(static_cast<int64_t>(s) * 1000000000LL + n) {}
  explicit Duration(std::chrono::nanoseconds n) : ns_(n.count()) {}
  template <class R, class P> Duration(const std::chrono::duration<R, P> & d) : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  Duration(const builtin_interfaces::msg::Duration & m) : ns_(static_cast<int64_t>(m.sec) * 1000000000LL + m.nanosec) {}
  static Duration from_nanoseconds(int64_t n) { Duration d; d.ns_ = n; return d; }
  static Duration from_seconds(double s) { return from_nanoseconds(static_cast<int64_t>(RCL_S_TO_NS(s))); }
  static Duration max() { return from_nanoseconds(std::numeric_limits<int64_t>::max()); }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return static_cast<double>(ns_) / 1e9; }
  template <class D> D to_chrono() const { return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_)); }
  operator builtin_interfaces::msg::Duration() const { builtin_interfaces::msg::Duration m; m.sec = static_cast<int32_t>(ns_ / 1000000000LL); m.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL); return m; }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; }
  bool operator!=(const Duration & o) const { return ns_ != o.ns_; }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }
  bool operator<=(const Duration & o) const { return ns_ <= o.ns_; }
  bool operator>(const Duration & o) const { return ns_ > o.ns_; }
  bool operator>=(const Duration & o) const { return ns_ >= o.ns_; }
  Duration operator+(const Duration & o) const { return from_nanoseconds(ns_ + o.ns_); }
  Duration operator-(const Duration & o) const { return from_nanoseconds(ns_ - o.ns_); }
  Duration & operator+=(const Duration & o) { ns_ += o.ns_; return *this; }
  Duration & operator-=(const Duration & o) { ns_ -= o.ns_; return *this; }
  Duration operator*(double s) const { return from_nanoseconds(static_cast<int64_t>(static_cast<long double>(ns_) * static_cast<long double>(s))); }
};

class Time
{
  int64_t ns_ = 0;
  rcl_clock_type_t type_ = RCL_SYSTEM_TIME;
  void chk(const Time & o) const { if (type_ != o.type_) throw std::runtime_error("can't compare times with different time sources"); }
public:
  explicit Time(int64_t ns = 0, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(ns), type_(t) {}
  Time(int32_t s, uint32_t n, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(static_cast<int64_t>(s) * 1000000000LL + n), type_(t) { if (s < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time"); }
  Time(const builtin_interfaces::msg::Time & m, rcl_clock_type_t t = RCL_ROS_TIME) : ns_(static_cast<int64_t>(m.sec) * 1000000000LL + m.nanosec), type_(t) {}
  Time(const Time &) = default;
  Time & operator=(const Time &) = default;
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return static_cast<double>(ns_) / 1e9; }
  rcl_clock_type_t get_clock_type() const { return type_; }
  operator builtin_interfaces::msg::Time() const { builtin_interfaces::msg::Time m; m.sec = static_cast<int32_t>(ns_ / 1000000000LL); m.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL); return m; }
  bool operator==(const Time & o) const { chk(o); return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return !(*this == o); }
  bool operator<(const Time & o) const { chk(o); return ns_ < o.ns_; }
  bool operator<=(const Time & o) const { chk(o); return ns_ <= o.ns_; }
  bool operator>(const Time & o) const { chk(o); return ns_ > o.ns_; }
  bool operator>=(const Time & o) const { chk(o); return ns_ >= o.ns_; }
  Duration operator-(const Time & o) const { if (type_ != o.type_) throw std::runtime_error("can't subtract times with different time sources"); return Duration::from_nanoseconds(ns_ - o.ns_); }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds(), type_); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds(), type_); }
  Time & operator+=(const Duration & d) { ns_ += d.nanoseconds(); return *this; }
  Time & operator-=(const Duration & d) { ns_ -= d.nanoseconds(); return *this; }
};
inline Time operator+(const Duration & d, const Time & t) { return t + d; }

class PreShutdownCallbackHandle {};
class Context
{
public:
  using SharedPtr = std::shared_ptr<Context>;
  std::vector<std::function<void()>> pre_shutdown;
  PreShutdownCallbackHandle add_pre_shutdown_callback(std::function<void()> f) { pre_shutdown.push_back(f); return {}; }
  bool remove_pre_shutdown_callback(const PreShutdownCallbackHandle &) { pre_shutdown.clear(); return true; }
};

class Clock
{
  rcl_clock_type_t t_;
public:
  using SharedPtr = std::shared_ptr<Clock>;
  using ConstSharedPtr = std::shared_ptr<const Clock>;
  using UniquePtr = std::unique_ptr<Clock>;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : t_(t) {}
  Time now() const { return Time(sim::now_ns, t_); }
  rcl_clock_type_t get_clock_type() const noexcept { return t_; }
  bool started() { return true; }
  bool ros_time_is_active() { return false; }
  bool wait_until_started() { return true; }
  template <class... A> bool wait_until_started(A &&...) { return true; }
  bool sleep_until(Time t) { if (t.nanoseconds() > sim::now_ns) sim::idle(t.nanoseconds() - sim::now_ns); return sim::ros_ok; }
  bool sleep_for(Duration d) { sim::idle(d.nanoseconds()); return sim::ros_ok; }
};

inline bool ok() { return sim::ros_ok; }
template <class... A> inline bool shutdown(A &&...) { sim::ros_ok = false; return true; }
template <class... A> inline void init(A &&...) { sim::ros_ok = true; }
template <class... A> inline std::vector<std::string> init_and_remove_ros_arguments(A &&...) { return {}; }

// ---------------------------------------------------------------- parameters
enum ParameterType : uint8_t { PARAMETER_NOT_SET = 0, PARAMETER_BOOL, PARAMETER_INTEGER, PARAMETER_DOUBLE, PARAMETER_STRING, PARAMETER_BYTE_ARRAY, PARAMETER_BOOL_ARRAY, PARAMETER_INTEGER_ARRAY, PARAMETER_DOUBLE_ARRAY, PARAMETER_STRING_ARRAY };
class ParameterTypeException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
namespace exceptions
{
class InvalidParameterTypeException : public std::runtime_error { public: InvalidParameterTypeException(const std::string & n, const std::string & m) : std::runtime_error("parameter '" + n + "' has invalid type: " + m) {} explicit InvalidParameterTypeException(const std::string & m) : std::runtime_error(m) {} };
class ParameterNotDeclaredException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class ParameterAlreadyDeclaredException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class InvalidParametersException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class InvalidParameterValueException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
}
using RosParamV = std::variant<std::monostate, bool, int64_t, double, std::string, std::vector<uint8_t>, std::vector<bool>, std::vector<int64_t>, std::vector<double>, std::vector<std::string>>;
template <class T> struct pmap { using type = T; };
template <> struct pmap<int> { using type = int64_t; };
template <> struct pmap<unsigned int> { using type = int64_t; };
template <> struct pmap<float> { using type = double; };
class ParameterValue
{
  RosParamV v_;
public:
  ParameterValue() = default;
  explicit ParameterValue(bool b) : v_(b) {}
  explicit ParameterValue(int i) : v_(static_cast<int64_t>(i)) {}
  explicit ParameterValue(int64_t i) : v_(i) {}
  explicit ParameterValue(float f) : v_(static_cast<double>(f)) {}
  explicit ParameterValue(double d) : v_(d) {}
  explicit ParameterValue(const std::string & s) : v_(s) {}
  explicit ParameterValue(const char * s) : v_(std::string(s)) {}
  explicit ParameterValue(const std::vector<bool> & s) : v_(s) {}
  explicit ParameterValue(const std::vector<int> & s) : v_(std::vector<int64_t>(s.begin(), s.end())) {}
  explicit ParameterValue(const std::vector<int64_t> & s) : v_(s) {}
  explicit ParameterValue(const std::vector<double> & s) : v_(s) {}
  explicit ParameterValue(const std::vector<std::string> & s) : v_(s) {}
  ParameterType get_type() const { return static_cast<ParameterType>(v_.index()); }
  template <class T> typename pmap<T>::type const & get() const { using M = typename pmap<T>::type; if (auto * p = std::get_if<M>(&v_)) return *p; throw ParameterTypeException("parameter type mismatch"); }
  bool operator==(const ParameterValue & o) const { return v_ == o.v_; }
};
inline std::string to_string(const ParameterValue &) { return "<param>"; }
class Parameter
{
  std::string n_;
  ParameterValue v_;
public:
  Parameter() = default;
  explicit Parameter(const std::string & n) : n_(n) {}
  Parameter(const std::string & n, const ParameterValue & v) : n_(n), v_(v) {}
  template <class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, ParameterValue>>> Parameter(const std::string & n, const T & v) : n_(n), v_(v) {}
  const std::string & get_name() const { return n_; }
  ParameterType get_type() const { return v_.get_type(); }
  std::string get_type_name() const { return "t"; }
  const ParameterValue & get_parameter_value() const { return v_; }
  template <class T> auto get_value() const { try { return static_cast<T>(v_.get<T>()); } catch (const ParameterTypeException & e) { throw exceptions::InvalidParameterTypeException(n_, e.what()); } }
  bool as_bool() const { return get_value<bool>(); }
  int64_t as_int() const { return get_value<int64_t>(); }
  double as_double() const { return get_value<double>(); }
  std::string as_string() const { return get_value<std::string>(); }
  std::vector<std::string> as_string_array() const { return get_value<std::vector<std::string>>(); }
  std::vector<double> as_double_array() const { return get_value<std::vector<double>>(); }
  std::vector<int64_t> as_integer_array() const { return get_value<std::vector<int64_t>>(); }
  std::vector<bool> as_bool_array() const { return get_value<std::vector<bool>>(); }
  std::string value_to_string() const { return "<value>"; }
};
}  // namespace rclcpp
namespace rcl_interfaces::msg
{
struct SetParametersResult { bool successful = false; std::string reason; };
struct FloatingPointRange { double from_value = 0, to_value = 0, step = 0; };
struct IntegerRange { int64_t from_value = 0, to_value = 0; uint64_t step = 0; };
struct ParameterDescriptor { std::string name; uint8_t type = 0; std::string description, additional_constraints; bool read_only = false, dynamic_typing = false; std::vector<FloatingPointRange> floating_point_range; std::vector<IntegerRange> integer_range; };
struct ListParametersResult { std::vector<std::string> names, prefixes; };
}
namespace rclcpp
{
class NodeOptions
{
  std::vector<std::string> args_;
  std::vector<Parameter> ov_;
  bool auto_ = false, allow_ = false, global_ = true;
public:
  NodeOptions() = default;
  const std::vector<std::string> & arguments() const { return args_; }
  NodeOptions & arguments(const std::vector<std::string> & a) { args_ = a; return *this; }
  NodeOptions & allow_undeclared_parameters(bool b) { allow_ = b; return *this; }
  bool allow_undeclared_parameters() const { return allow_; }
  NodeOptions & automatically_declare_parameters_from_overrides(bool b) { auto_ = b; return *this; }
  bool automatically_declare_parameters_from_overrides() const { return auto_; }
  NodeOptions & enable_logger_service(bool) { return *this; }
  NodeOptions & start_parameter_services(bool) { return *this; }
  NodeOptions & use_global_arguments(bool b) { global_ = b; return *this; }
  bool use_global_arguments() const { return global_; }
  std::vector<Parameter> & parameter_overrides() { return ov_; }
  const std::vector<Parameter> & parameter_overrides() const { return ov_; }
  NodeOptions & parameter_overrides(const std::vector<Parameter> & p) { ov_ = p; return *this; }
  template <class T> NodeOptions & append_parameter_override(const std::string & n, const T & v) { ov_.emplace_back(n, v); return *this; }
  NodeOptions & context(Context::SharedPtr) { return *this; }
};

struct QoSInitialization { QoSInitialization(int = 0, size_t = 1) {} static QoSInitialization from_rmw(const void *) { return {}; } template <class T> static QoSInitialization from_rmw(const T &) { return {}; } };
class QoS { public: QoS(size_t = 1) {} explicit QoS(const QoSInitialization &) {} template <class T> QoS(const QoSInitialization &, const T &) {} QoS & reliable() { return *this; } QoS & best_effort() { return *this; } QoS & transient_local() { return *this; } QoS & durability_volatile() { return *this; } QoS & keep_last(size_t) { return *this; } QoS & keep_all() { return *this; } };
class SystemDefaultsQoS : public QoS {};
class ServicesQoS : public QoS {};
class SensorDataQoS : public QoS {};

enum class CallbackGroupType { MutuallyExclusive, Reentrant };
class CallbackGroup { public: using SharedPtr = std::shared_ptr<CallbackGroup>; };
class TimerBase { public: using SharedPtr = std::shared_ptr<TimerBase>; std::function<void()> cb; bool cancelled = false; void cancel() { cancelled = true; } void reset() { cancelled = false; } bool is_canceled() { return cancelled; } void fire() { if (!cancelled && cb) cb(); } };
class PublisherBase { public: virtual ~PublisherBase() = default; };
template <class M, class Alloc = std::allocator<void>> class Publisher : public PublisherBase { public: using SharedPtr = std::shared_ptr<Publisher>; size_t count = 0; M last{}; void publish(const M & m) { last = m; ++count; } void publish(std::unique_ptr<M> m) { last = *m; ++count; } size_t get_subscription_count() const { return 1; } void on_activate() {} void on_deactivate() {} };
template <class M> class Subscription { public: using SharedPtr = std::shared_ptr<Subscription>; std::function<void(const M &)> cb; size_t get_publisher_count() const { return 1; } const char * get_topic_name() const { return "topic"; } };
class ServiceBase { public: virtual ~ServiceBase() = default; };
template <class S> class Service : public ServiceBase { public: using SharedPtr = std::shared_ptr<Service>; std::function<void(std::shared_ptr<typename S::Request>, std::shared_ptr<typename S::Response>)> cb; };

namespace node_interfaces
{
class NodeBaseInterface { public: using SharedPtr = std::shared_ptr<NodeBaseInterface>; std::string name, ns; Context::SharedPtr ctx = std::make_shared<Context>(); std::atomic_bool assoc{false}; Context::SharedPtr get_context() { return ctx; } std::atomic_bool & get_associated_with_executor_atomic() { return assoc; } const char * get_name() const { return name.c_str(); } const char * get_namespace() const { return ns.c_str(); } };
class NodeLoggingInterface { public: using SharedPtr = std::shared_ptr<NodeLoggingInterface>; Logger get_logger() const { return Logger(); } const char * get_logger_name() const { return "log"; } };
class NodeClockInterface { public: using SharedPtr = std::shared_ptr<NodeClockInterface>; Clock::SharedPtr c = std::make_shared<Clock>(RCL_ROS_TIME); Clock::SharedPtr get_clock() { return c; } };
class NodeTopicsInterface { public: using SharedPtr = std::shared_ptr<NodeTopicsInterface>; };
class NodeServicesInterface { public: using SharedPtr = std::shared_ptr<NodeServicesInterface>; };
class NodeTimersInterface { public: using SharedPtr = std::shared_ptr<NodeTimersInterface>; };
struct OnSetParametersCallbackHandle { using SharedPtr = std::shared_ptr<OnSetParametersCallbackHandle>; std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<Parameter> &)> callback; };
class NodeParametersInterface
{
  std::map<std::string, ParameterValue> p_, ov_;
  std::vector<OnSetParametersCallbackHandle::SharedPtr> cbs_;
public:
  using SharedPtr = std::shared_ptr<NodeParametersInterface>;
  using OnParametersSetCallbackType = std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<Parameter> &)>;
  bool allow_undeclared = false;
  void set_overrides(const std::vector<Parameter> & o, bool autodecl) { for (auto & x : o) { ov_[x.get_name()] = x.get_parameter_value(); if (autodecl) p_[x.get_name()] = x.get_parameter_value(); } }
  bool has_parameter(const std::string & n) const { return p_.count(n) != 0; }
  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & d, const rcl_interfaces::msg::ParameterDescriptor & = {}, bool ignore = false)
  {
    if (p_.count(n)) throw exceptions::ParameterAlreadyDeclaredException("parameter '" + n + "' has already been declared");
    auto it = ov_.find(n);
    if (!ignore && it != ov_.end()) {
      if (d.get_type() != PARAMETER_NOT_SET && it->second.get_type() != d.get_type()) throw exceptions::InvalidParameterTypeException(n, "override has a different type");
      return p_[n] = it->second;
    }
    return p_[n] = d;
  }
  const ParameterValue & declare_parameter(const std::string & n, ParameterType, const rcl_interfaces::msg::ParameterDescriptor & = {}, bool = false) { return declare_parameter(n, ParameterValue()); }
  void undeclare_parameter(const std::string & n) { p_.erase(n); }
  Parameter get_parameter(const std::string & n) const { auto it = p_.find(n); if (it == p_.end()) { if (allow_undeclared) return Parameter(n); throw exceptions::ParameterNotDeclaredException(n); } return Parameter(n, it->second); }
  bool get_parameter(const std::string & n, Parameter & out) const { auto it = p_.find(n); if (it == p_.end() || it->second.get_type() == PARAMETER_NOT_SET) return false; out = Parameter(n, it->second); return true; }
  std::vector<Parameter> get_parameters(const std::vector<std::string> & ns) const { std::vector<Parameter> r; for (auto & n : ns) r.push_back(get_parameter(n)); return r; }
  bool get_parameters_by_prefix(const std::string & pre, std::map<std::string, Parameter> & out) const { for (auto & [n, v] : p_) if (n.rfind(pre + ".", 0) == 0) out[n.substr(pre.size() + 1)] = Parameter(n, v); return !out.empty(); }
  rcl_interfaces::msg::SetParametersResult set(const Parameter & p)
  {
    rcl_interfaces::msg::SetParametersResult r; r.successful = true;
    if (!p_.count(p.get_name()) && !allow_undeclared) throw exceptions::ParameterNotDeclaredException(p.get_name());
    for (auto & c : cbs_) { r = c->callback({p}); if (!r.successful) return r; }
    p_[p.get_name()] = p.get_parameter_value(); return r;
  }
  std::vector<rcl_interfaces::msg::SetParametersResult> set_parameters(const std::vector<Parameter> & ps) { std::vector<rcl_interfaces::msg::SetParametersResult> r; for (auto & p : ps) r.push_back(set(p)); return r; }
  rcl_interfaces::msg::SetParametersResult set_parameters_atomically(const std::vector<Parameter> & ps)
  {
    rcl_interfaces::msg::SetParametersResult r; r.successful = true;
    for (auto & c : cbs_) { r = c->callback(ps); if (!r.successful) return r; }
    for (auto & p : ps) p_[p.get_name()] = p.get_parameter_value();
    return r;
  }
  OnSetParametersCallbackHandle::SharedPtr add_on_set_parameters_callback(OnParametersSetCallbackType cb) { auto h = std::make_shared<OnSetParametersCallbackHandle>(); h->callback = cb; cbs_.push_back(h); return h; }
  void remove_on_set_parameters_callback(const OnSetParametersCallbackHandle *) {}
  const std::map<std::string, ParameterValue> & get_parameter_overrides() const { return ov_; }
  rcl_interfaces::msg::ListParametersResult list_parameters(const std::vector<std::string> & pre, uint64_t) const { rcl_interfaces::msg::ListParametersResult r; for (auto & [n, v] : p_) for (auto & q : pre) if (n.rfind(q, 0) == 0) r.names.push_back(n); return r; }
};
}  // namespace node_interfaces

class NodeCommon
{
protected:
  node_interfaces::NodeBaseInterface::SharedPtr base_ = std::make_shared<node_interfaces::NodeBaseInterface>();
  node_interfaces::NodeLoggingInterface::SharedPtr log_ = std::make_shared<node_interfaces::NodeLoggingInterface>();
  node_interfaces::NodeClockInterface::SharedPtr clk_ = std::make_shared<node_interfaces::NodeClockInterface>();
  node_interfaces::NodeParametersInterface::SharedPtr par_ = std::make_shared<node_interfaces::NodeParametersInterface>();
  NodeOptions opts_;
  void setup(const std::string & n, const std::string & ns, const NodeOptions & o) { base_->name = n; base_->ns = (ns.empty() || ns[0] != '/') ? "/" + ns : ns; opts_ = o; par_->set_overrides(o.parameter_overrides(), o.automatically_declare_parameters_from_overrides()); par_->allow_undeclared = o.allow_undeclared_parameters(); if (!par_->has_parameter("use_sim_time")) par_->declare_parameter("use_sim_time", ParameterValue(false)); }
public:
  const char * get_name() const { return base_->name.c_str(); }
  const char * get_namespace() const { return base_->ns.c_str(); }
  std::string get_fully_qualified_name() const { return base_->ns == "/" ? "/" + base_->name : base_->ns + "/" + base_->name; }
  Logger get_logger() const { return Logger(); }
  Clock::SharedPtr get_clock() { return clk_->c; }
  Clock::ConstSharedPtr get_clock() const { return clk_->c; }
  Time now() const { return clk_->c->now(); }
  const NodeOptions & get_node_options() const { return opts_; }
  node_interfaces::NodeBaseInterface::SharedPtr get_node_base_interface() { return base_; }
  node_interfaces::NodeLoggingInterface::SharedPtr get_node_logging_interface() { return log_; }
  node_interfaces::NodeClockInterface::SharedPtr get_node_clock_interface() { return clk_; }
  node_interfaces::NodeParametersInterface::SharedPtr get_node_parameters_interface() { return par_; }
  bool has_parameter(const std::string & n) const { return par_->has_parameter(n); }
  template <class T> T declare_parameter(const std::string & n, const T & d, const rcl_interfaces::msg::ParameterDescriptor & ds = {}, bool ig = false) { try { return static_cast<T>(par_->declare_parameter(n, ParameterValue(d), ds, ig).template get<T>()); } catch (const ParameterTypeException & e) { throw exceptions::InvalidParameterTypeException(n, e.what()); } }
  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & d, const rcl_interfaces::msg::ParameterDescriptor & ds = {}) { return par_->declare_parameter(n, d, ds); }
  const ParameterValue & declare_parameter(const std::string & n, ParameterType t, const rcl_interfaces::msg::ParameterDescriptor & ds = {}) { return par_->declare_parameter(n, t, ds); }
  template <class T> const ParameterValue & declare_parameter(const std::string & n) { return par_->declare_parameter(n, PARAMETER_NOT_SET); }
  Parameter get_parameter(const std::string & n) const { return par_->get_parameter(n); }
  bool get_parameter(const std::string & n, Parameter & p) const { return par_->get_parameter(n, p); }
  template <class T> bool get_parameter(const std::string & n, T & out) const { Parameter p; if (!par_->get_parameter(n, p)) return false; out = static_cast<T>(p.get_value<T>()); return true; }
  template <class T> bool get_parameter_or(const std::string & n, T & out, const T & alt) const { if (get_parameter(n, out)) return true; out = alt; return false; }
  rcl_interfaces::msg::SetParametersResult set_parameter(const Parameter & p) { return par_->set(p); }
  std::vector<rcl_interfaces::msg::SetParametersResult> set_parameters(const std::vector<Parameter> & p) { return par_->set_parameters(p); }
  node_interfaces::OnSetParametersCallbackHandle::SharedPtr add_on_set_parameters_callback(node_interfaces::NodeParametersInterface::OnParametersSetCallbackType cb) { return par_->add_on_set_parameters_callback(cb); }
  template <class M, class... A> typename Publisher<M>::SharedPtr create_publisher(A &&...) { return std::make_shared<Publisher<M>>(); }
  template <class M, class Q, class CB, class... A> typename Subscription<M>::SharedPtr create_subscription(const std::string &, const Q &, CB && cb, A &&...) { auto s = std::make_shared<Subscription<M>>(); if constexpr (std::is_invocable_v<CB, const M &>) s->cb = std::forward<CB>(cb); else s->cb = [cb](const M & m) { cb(std::make_shared<M>(m)); }; return s; }
  template <class S, class CB, class... A> typename Service<S>::SharedPtr create_service(const std::string &, CB && cb, A &&...) { auto s = std::make_shared<Service<S>>(); s->cb = std::forward<CB>(cb); return s; }
  template <class P, class CB, class... A> TimerBase::SharedPtr create_wall_timer(P, CB && cb, A &&...) { auto t = std::make_shared<TimerBase>(); t->cb = std::forward<CB>(cb); return t; }
  template <class P, class CB, class... A> TimerBase::SharedPtr create_timer(P, CB && cb, A &&...) { auto t = std::make_shared<TimerBase>(); t->cb = std::forward<CB>(cb); return t; }
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType, bool = true) { return std::make_shared<CallbackGroup>(); }
  std::vector<std::string> get_node_names() const { return {}; }
};
class Node : public NodeCommon, public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string & n, const NodeOptions & o = NodeOptions()) { setup(n, "", o); }
  Node(const std::string & n, const std::string & ns, const NodeOptions & o = NodeOptions()) { setup(n, ns, o); }
  virtual ~Node() = default;
};
}  // namespace rclcpp
namespace rclcpp
{
struct ExecutorOptions {};
class Executor
{
public:
  Executor() = default;
  explicit Executor(const ExecutorOptions &) {}
  using SharedPtr = std::shared_ptr<Executor>;
  using WeakPtr = std::weak_ptr<Executor>;
  std::vector<std::string> nodes;
  virtual ~Executor() = default;
  virtual void add_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool = true)
  {
    if (find(n) != ptrs.end()) throw std::runtime_error("Node has already been added to an executor");
    ptrs.push_back(n);
  }
  virtual void add_node(std::shared_ptr<Node> n, bool notify = true) { add_node(n->get_node_base_interface(), notify); }
  virtual void remove_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool = true)
  {
    auto it = find(n);
    if (it == ptrs.end()) throw std::runtime_error("Node needs to be associated with this executor.");
    ptrs.erase(it);
  }
  virtual void remove_node(std::shared_ptr<Node> n, bool notify = true) { remove_node(n->get_node_base_interface(), notify); }
  virtual void spin() {}
  virtual void spin_some() {}
  template <class... A> int spin_until_future_complete(A &&...) { return 0; }
  virtual void cancel() {}
  bool is_spinning() { return true; }
  std::vector<std::weak_ptr<node_interfaces::NodeBaseInterface>> ptrs;
  std::vector<std::weak_ptr<node_interfaces::NodeBaseInterface>>::iterator find(const node_interfaces::NodeBaseInterface::SharedPtr & n) { return std::find_if(ptrs.begin(), ptrs.end(), [&](auto & p) { return p.lock() == n; }); }
};
namespace executors { class SingleThreadedExecutor : public Executor { public: using Executor::Executor; }; class MultiThreadedExecutor : public Executor { public: MultiThreadedExecutor(const ExecutorOptions & = {}, size_t = 0, bool = false) {} }; class StaticSingleThreadedExecutor : public Executor { public: using Executor::Executor; }; }
}

// ---------------------------------------------------------------- lifecycle
namespace lifecycle_msgs::msg
{
struct State
{
  using _id_type = uint8_t;
  static constexpr uint8_t PRIMARY_STATE_UNKNOWN = 0, PRIMARY_STATE_UNCONFIGURED = 1, PRIMARY_STATE_INACTIVE = 2, PRIMARY_STATE_ACTIVE = 3, PRIMARY_STATE_FINALIZED = 4;
  static constexpr uint8_t TRANSITION_STATE_CONFIGURING = 10, TRANSITION_STATE_CLEANINGUP = 11, TRANSITION_STATE_SHUTTINGDOWN = 12, TRANSITION_STATE_ACTIVATING = 13, TRANSITION_STATE_DEACTIVATING = 14, TRANSITION_STATE_ERRORPROCESSING = 15;
  uint8_t id = 0;
  std::string label;
  State & set__id(uint8_t i) { id = i; return *this; }
  State & set__label(const std::string & l) { label = l; return *this; }
};
struct Transition { static constexpr uint8_t TRANSITION_CONFIGURE = 1, TRANSITION_CLEANUP = 2, TRANSITION_ACTIVATE = 3, TRANSITION_DEACTIVATE = 4, TRANSITION_UNCONFIGURED_SHUTDOWN = 5, TRANSITION_INACTIVE_SHUTDOWN = 6, TRANSITION_ACTIVE_SHUTDOWN = 7; uint8_t id = 0; std::string label; };
}
namespace rclcpp_lifecycle
{
class State
{
  uint8_t id_;
  std::string label_;
public:
  explicit State(uint8_t id = 0, const std::string & l = "unknown") : id_(id), label_(l) { if (!id && l.empty()) throw std::runtime_error("Lifecycle State cannot have an empty label."); }
  virtual ~State() = default;
  State(const State &) = default;
  State & operator=(const State &) = default;
  uint8_t id() const { return id_; }
  std::string label() const { return label_; }
  void reset() noexcept { id_ = 0; label_.clear(); }
};
namespace node_interfaces
{
class LifecycleNodeInterface
{
public:
  enum class CallbackReturn : uint8_t { SUCCESS = 97, FAILURE = 98, ERROR = 99 };
  virtual CallbackReturn on_configure(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_cleanup(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_shutdown(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_activate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_deactivate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_error(const State &) { return CallbackReturn::SUCCESS; }
  virtual ~LifecycleNodeInterface() = default;
};
}
class LifecycleNode : public rclcpp::NodeCommon, public node_interfaces::LifecycleNodeInterface, public std::enable_shared_from_this<LifecycleNode>
{
public:
  using SharedPtr = std::shared_ptr<LifecycleNode>;
  using CallbackReturn = node_interfaces::LifecycleNodeInterface::CallbackReturn;
  using CB = std::function<CallbackReturn(const State &)>;
  explicit LifecycleNode(const std::string & n, const rclcpp::NodeOptions & o = rclcpp::NodeOptions(), bool = true) { setup(n, "", o); }
  LifecycleNode(const std::string & n, const std::string & ns, const rclcpp::NodeOptions & o = rclcpp::NodeOptions(), bool = true) { setup(n, ns, o); }
  virtual ~LifecycleNode() = default;
  const State & get_current_state() const { return cur_; }
  bool register_on_configure(CB f) { cb_[0] = f; return true; }
  bool register_on_cleanup(CB f) { cb_[1] = f; return true; }
  bool register_on_shutdown(CB f) { cb_[2] = f; return true; }
  bool register_on_activate(CB f) { cb_[3] = f; return true; }
  bool register_on_deactivate(CB f) { cb_[4] = f; return true; }
  bool register_on_error(CB f) { cb_[5] = f; return true; }
  const State & configure() { return change(0, 1, 10, "configuring", 2, 1); }
  const State & cleanup() { return change(1, 2, 11, "cleaningup", 1, 2); }
  const State & activate() { return change(3, 2, 13, "activating", 3, 2); }
  const State & deactivate() { return change(4, 3, 14, "deactivating", 2, 3); }
  const State & shutdown() { uint8_t s = cur_.id(); if (s < 1 || s > 3) return cur_; return change(2, s, 12, "shuttingdown", 4, 4); }
  const State & configure(CallbackReturn &) { return configure(); }
private:
  State cur_{1, "unconfigured"};
  CB cb_[6];
  static const char * name(uint8_t i) { static const char * n[] = {"unknown", "unconfigured", "inactive", "active", "finalized"}; return n[i]; }
  CallbackReturn run(int k, const State & prev)
  {
    if (!cb_[k]) {
      switch (k) { case 0: return on_configure(prev); case 1: return on_cleanup(prev); case 2: return on_shutdown(prev); case 3: return on_activate(prev); case 4: return on_deactivate(prev); default: return on_error(prev); }
    }
    try { return cb_[k](prev); } catch (const std::exception &) { return CallbackReturn::ERROR; }
  }
  const State & change(int k, uint8_t from, uint8_t trans, const char * tl, uint8_t ok, uint8_t fail)
  {
    if (cur_.id() != from) return cur_;  // rcl reports an invalid transition and keeps the state
    State prev = cur_;
    cur_ = State(trans, tl);
    auto r = run(k, prev);
    if (r == CallbackReturn::SUCCESS) cur_ = State(ok, name(ok));
    else if (r == CallbackReturn::FAILURE) cur_ = State(fail, name(fail));
    else {
      cur_ = State(15, "errorprocessing");
      auto e = run(5, prev);
      cur_ = e == CallbackReturn::SUCCESS ? State(1, name(1)) : State(4, name(4));
    }
    return cur_;
  }
};
}  // namespace rclcpp_lifecycle

// ---------------------------------------------------------------- realtime_tools
namespace realtime_tools
{
class prio_inherit_mutex : public std::mutex {};
class prio_inherit_recursive_mutex : public std::recursive_mutex {};
inline bool has_realtime_kernel() { return false; }
inline bool configure_sched_fifo(int) { return true; }
inline std::pair<bool, std::string> lock_memory() { return {true, ""}; }
template <class... A> inline std::pair<bool, std::string> set_current_thread_affinity(A &&...) { return {true, ""}; }
template <class T> class RealtimeBuffer { T v_{}; public: RealtimeBuffer() = default; void writeFromNonRT(const T & t) { v_ = t; } void initRT(const T & t) { v_ = t; } T * readFromRT() { return &v_; } T * readFromNonRT() { return &v_; } const T * readFromRT() const { return &v_; } void reset() { v_ = T{}; } };
template <class T> class RealtimeThreadSafeBox
{
  T v_{};
public:
  RealtimeThreadSafeBox() = default;
  explicit RealtimeThreadSafeBox(const T & t) : v_(t) {}
  bool try_set(const T & t) { v_ = t; return true; }
  bool try_set(const std::function<void(T &)> & f) { f(v_); return true; }
  void set(const T & t) { v_ = t; }
  void set(const std::function<void(T &)> & f) { f(v_); }
  T get() const { return v_; }
  void get(T & o) const { o = v_; }
  void get(const std::function<void(const T &)> & f) const { f(v_); }
  template <class U = T> std::optional<U> try_get() const { return v_; }
  bool try_get(const std::function<void(const T &)> & f) const { f(v_); return true; }
};
template <class M> class RealtimePublisher
{
public:
  using SharedPtr = std::shared_ptr<RealtimePublisher>;
  M msg_{};
  std::shared_ptr<rclcpp::Publisher<M>> p_;
  explicit RealtimePublisher(std::shared_ptr<rclcpp::Publisher<M>> p) : p_(p) {}
  bool trylock() { return true; }
  void lock() {}
  void unlock() {}
  void unlockAndPublish() { p_->publish(msg_); }
  bool try_publish(const M & m) { p_->publish(m); return true; }
  bool tryPublish(const M & m) { p_->publish(m); return true; }
  bool can_publish() const { return true; }
};
class AsyncSchedulingPolicy
{
public:
  enum Value : int8_t { UNKNOWN = -1, SYNCHRONIZED = 0, DETACHED = 1 };
  AsyncSchedulingPolicy() = default;
  constexpr AsyncSchedulingPolicy(Value v) : v_(v) {}
  explicit AsyncSchedulingPolicy(const std::string & s) : v_(s == "synchronized" ? SYNCHRONIZED : s == "detached" ? DETACHED : UNKNOWN) {}
  operator Value() const { return v_; }
  explicit operator bool() = delete;
  constexpr bool operator==(AsyncSchedulingPolicy a) const { return v_ == a.v_; }
  constexpr bool operator==(Value a) const { return v_ == a; }
  std::string to_string() const { return v_ == SYNCHRONIZED ? "synchronized" : v_ == DETACHED ? "detached" : "unknown"; }
private:
  Value v_ = UNKNOWN;
};
struct AsyncFunctionHandlerParams
{
  int thread_priority = 50;
  std::vector<int> cpu_affinity_cores;
  AsyncSchedulingPolicy scheduling_policy = AsyncSchedulingPolicy::SYNCHRONIZED;
  unsigned int exec_rate = 0;
  rclcpp::Clock::SharedPtr clock;
  rclcpp::Logger logger;
  std::function<bool()> trigger_predicate = []() { return true; };
  bool wait_until_initial_trigger = true;
  bool print_warnings = true;
  template <class N> void initialize(N, const std::string &) {}
};
// The worker thread is modelled as "runs to completion right after it is triggered, unless
// busy": `busy` is settable by a harness (nondeterministic scheduling of the worker).
template <class T> class AsyncFunctionHandler
{
  std::function<T(const rclcpp::Time &, const rclcpp::Duration &)> f_;
  std::function<bool()> pred_;
  bool running_ = false, stop_ = false, initialized_ = false, paused_ = false;
  T ret_{};
  rclcpp::Time cb_time_{int64_t(0), RCL_CLOCK_UNINITIALIZED};
  std::exception_ptr ex_;
public:
  bool busy = false;
  void init(std::function<T(const rclcpp::Time &, const rclcpp::Duration &)> f, int = 50) { f_ = f; initialized_ = true; }
  void init(std::function<T(const rclcpp::Time &, const rclcpp::Duration &)> f, const AsyncFunctionHandlerParams & p) { f_ = f; pred_ = p.trigger_predicate; initialized_ = true; }
  void init(std::function<T(const rclcpp::Time &, const rclcpp::Duration &)> f, std::function<bool()> pr, int = 50) { f_ = f; pred_ = pr; initialized_ = true; }
  std::pair<bool, T> trigger_async_callback(const rclcpp::Time & t, const rclcpp::Duration & p)
  {
    if (!initialized_) throw std::runtime_error("AsyncFunctionHandler: need to be initialized first!");
    if (ex_) { auto e = ex_; ex_ = nullptr; std::rethrow_exception(e); }
    if (!running_) throw std::runtime_error("AsyncFunctionHandler: need to start the async callback thread first before triggering!");
    if (busy || paused_) return {false, ret_};
    T prev = ret_;
    if (!pred_ || pred_()) { cb_time_ = t; try { ret_ = f_(t, p); } catch (...) { ex_ = std::current_exception(); } }
    return {true, prev};
  }
  T get_last_return_value() const { return ret_; }
  rclcpp::Time get_current_callback_time() const { return cb_time_; }
  void reset_variables() { ret_ = T{}; ex_ = nullptr; paused_ = false; cb_time_ = rclcpp::Time(int64_t(0), RCL_CLOCK_UNINITIALIZED); }
  void wait_for_trigger_cycle_to_finish() {}
  bool is_initialized() const { return initialized_; }
  void join_async_callback_thread() {}
  bool is_running() const { return running_; }
  bool is_stopped() const { return stop_; }
  bool is_trigger_cycle_in_progress() const { return busy; }
  void stop_thread() { running_ = false; stop_ = true; }
  bool pause_execution() { paused_ = true; return true; }
  void start_thread() { running_ = true; stop_ = false; }
  std::chrono::nanoseconds get_last_execution_time() const { return std::chrono::nanoseconds(1000); }
  const AsyncFunctionHandlerParams & get_params() const { static AsyncFunctionHandlerParams p; return p; }
};
}  // namespace realtime_tools

// ---------------------------------------------------------------- statistics
namespace libstatistics_collector::moving_average_statistics
{
struct StatisticData
{
  double average = std::nan(""), min = std::nan(""), max = std::nan(""), standard_deviation = std::nan("");
  uint64_t sample_count = 0;
};
class MovingAverageStatistics { public: StatisticData get_statistics() const { return {}; } void reset() {} void add_measurement(double) {} };
}
namespace pal_statistics
{
using IdType = unsigned;
class RegistrationsRAII { public: void add(const IdType) {} void enableAll() {} void disableAll() {} void removeAll() {} };
class StatisticsRegistry { public: template <class T> IdType registerVariable(const std::string &, const T *, RegistrationsRAII * = nullptr, bool = true) { return 0; } template <class F> IdType registerFunction(const std::string &, F &&, RegistrationsRAII * = nullptr, bool = true) { return 0; } };
template <class T> IdType customRegister(StatisticsRegistry & r, const std::string & n, const T * v, RegistrationsRAII * b = nullptr, bool e = true) { return r.registerVariable(n, v, b, e); }
template <class... A> inline std::shared_ptr<StatisticsRegistry> getRegistry(A &&...) { return std::make_shared<StatisticsRegistry>(); }
template <class... A> inline IdType registerFunction(A &&...) { return 0; }
}
#define REGISTER_ENTITY(...) do { if (false) { ::rosstub::vsink(__VA_ARGS__); } } while (0)
#define UNREGISTER_ENTITY(...) do { if (false) { ::rosstub::vsink(__VA_ARGS__); } } while (0)
#define CLEAR_ALL_REGISTRIES() do {} while (0)
#define INITIALIZE_REGISTRY(...) do { if (false) { ::rosstub::vsink(__VA_ARGS__); } } while (0)
#define START_PUBLISH_THREAD(...) do {} while (0)
#define PUBLISH_ASYNC_STATISTICS(...) do {} while (0)
#define PAL_STATISTICS_PUBLISH_ASYNC(...) do {} while (0)

// ---------------------------------------------------------------- pluginlib
namespace pluginlib
{
class PluginlibException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class LibraryLoadException : public PluginlibException { public: using PluginlibException::PluginlibException; };
class CreateClassException : public PluginlibException { public: using PluginlibException::PluginlibException; };
template <class T> using UniquePtr = std::unique_ptr<T, std::function<void(T *)>>;
template <class T> using Factories = std::map<std::string, std::function<T *()>>;
template <class T> Factories<T> & factories() { static auto * m = new Factories<T>(); return *m; }
template <class T> class ClassLoader
{
public:
  template <class... A> ClassLoader(const std::string &, const std::string &, A &&...) {}
  T * createUnmanagedInstance(const std::string & n) { auto it = factories<T>().find(n); if (it == factories<T>().end()) throw LibraryLoadException("no such class: " + n); return it->second(); }
  std::shared_ptr<T> createSharedInstance(const std::string & n) { return std::shared_ptr<T>(createUnmanagedInstance(n)); }
  UniquePtr<T> createUniqueInstance(const std::string & n) { return UniquePtr<T>(createUnmanagedInstance(n), [](T * p) { delete p; }); }
  bool isClassAvailable(const std::string & n) { return factories<T>().count(n) != 0; }
  std::vector<std::string> getDeclaredClasses() { std::vector<std::string> r; for (auto & [n, f] : factories<T>()) r.push_back(n); return r; }
  std::vector<std::string> getRegisteredLibraries() { return {}; }
  int unloadLibraryForClass(const std::string &) { return 0; }
  template <class... A> std::string getBaseClassType(A &&...) const { return "base"; }
  std::string getClassType(const std::string & n) { return n; }
  void refreshDeclaredClasses() {}
};
}
#define PLUGINLIB_EXPORT_CLASS(A, B)

// ---------------------------------------------------------------- small message packages
namespace std_msgs::msg { struct String { using SharedPtr = std::shared_ptr<String>; std::string data; }; struct Header { builtin_interfaces::msg::Time stamp; std::string frame_id; }; struct ColorRGBA { float r = 0, g = 0, b = 0, a = 0; }; struct Bool { bool data = false; }; }
namespace geometry_msgs::msg { struct Vector3 { double x = 0, y = 0, z = 0; }; struct Point { double x = 0, y = 0, z = 0; }; struct Quaternion { double x = 0, y = 0, z = 0, w = 1; }; struct Wrench { Vector3 force, torque; }; struct Pose { Point position; Quaternion orientation; }; }
namespace sensor_msgs::msg
{
struct Imu { std_msgs::msg::Header header; geometry_msgs::msg::Quaternion orientation; std::array<double, 9> orientation_covariance{}; geometry_msgs::msg::Vector3 angular_velocity; std::array<double, 9> angular_velocity_covariance{}; geometry_msgs::msg::Vector3 linear_acceleration; std::array<double, 9> linear_acceleration_covariance{}; };
struct Range { std_msgs::msg::Header header; uint8_t radiation_type = 0; float field_of_view = 0, min_range = 0, max_range = 0, range = 0, variance = 0; };
struct MagneticField { std_msgs::msg::Header header; geometry_msgs::msg::Vector3 magnetic_field; std::array<double, 9> magnetic_field_covariance{}; };
struct NavSatStatus { int8_t status = -2; uint16_t service = 0; };
struct NavSatFix { std_msgs::msg::Header header; NavSatStatus status; double latitude = 0, longitude = 0, altitude = 0; std::array<double, 9> position_covariance{}; uint8_t position_covariance_type = 0; };
}
namespace trajectory_msgs::msg { struct JointTrajectoryPoint { std::vector<double> positions, velocities, accelerations, effort; builtin_interfaces::msg::Duration time_from_start; }; }
namespace diagnostic_msgs::msg { struct KeyValue { std::string key, value; }; struct DiagnosticStatus { static constexpr uint8_t OK = 0, WARN = 1, ERROR = 2, STALE = 3; uint8_t level = 0; std::string name, message, hardware_id; std::vector<KeyValue> values; }; }
namespace control_msgs::msg { struct HardwareDeviceStatus { std::string device_id; }; struct HardwareStatus { std_msgs::msg::Header header; std::string hardware_id; std::vector<HardwareDeviceStatus> hardware_device_states; }; }
namespace diagnostic_updater
{
class DiagnosticStatusWrapper : public diagnostic_msgs::msg::DiagnosticStatus
{
public:
  void summary(uint8_t l, const std::string & m) { level = l; message = m; }
  void mergeSummary(uint8_t l, const std::string & m) { if ((l > 0) == (level > 0)) { if (!message.empty()) message += "; "; message += m; } else if (l > level) message = m; if (l > level) level = l; }
  template <class... A> void summaryf(uint8_t l, const char * f, A &&...) { level = l; message = f; }
  template <class T> void add(const std::string & k, const T &) { values.push_back({k, ""}); }
  void add(const std::string & k, const std::string & v) { values.push_back({k, v}); }
  void add(const std::string & k, const char * v) { values.push_back({k, v}); }
  template <class... A> void addf(const std::string & k, const char *, A &&...) { values.push_back({k, ""}); }
  void clearSummary() { level = 0; message.clear(); }
};
class Updater
{
public:
  template <class... A> explicit Updater(A &&...) {}
  std::map<std::string, std::function<void(DiagnosticStatusWrapper &)>> tasks;
  void setHardwareID(const std::string &) {}
  void setPeriod(double) {}
  template <class D> void setPeriod(const D &) {}
  void force_update() {}
  template <class T> void add(const std::string & n, T * c, void (T::*f)(DiagnosticStatusWrapper &)) { tasks[n] = [c, f](DiagnosticStatusWrapper & s) { (c->*f)(s); }; }
  void add(const std::string & n, std::function<void(DiagnosticStatusWrapper &)> f) { tasks[n] = f; }
};
}
namespace rcpputils
{
template <class T> struct is_pointer : std::false_type {};
template <class T> struct is_pointer<T *> : std::true_type {};
template <class T> struct is_pointer<std::shared_ptr<T>> : std::true_type {};
template <class T> struct is_pointer<std::unique_ptr<T>> : std::true_type {};
}
namespace rclcpp { inline std::shared_ptr<Context> get_global_default_context_stub() { return std::make_shared<Context>(); } }
