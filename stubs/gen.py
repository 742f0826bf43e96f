#!/usr/bin/env python3
"""Generate forwarding headers, message structs (from /repo's .msg/.srv) and the parameter struct
(from /repo's controller_manager_parameters.yaml) into an include directory."""
import os, re, sys, yaml
repo, out = sys.argv[1], sys.argv[2]
def w(rel, txt):
    p = os.path.join(out, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == txt: return
    open(p, 'w').write(txt)
fwd = """rclcpp/clock.hpp rclcpp/duration.hpp rclcpp/executor.hpp rclcpp/executors.hpp rclcpp/logger.hpp rclcpp/logging.hpp
rclcpp/node.hpp rclcpp/node_interfaces/node_clock_interface.hpp rclcpp/node_interfaces/node_logging_interface.hpp
rclcpp/node_interfaces/node_parameters_interface.hpp rclcpp/node_options.hpp rclcpp/rclcpp.hpp rclcpp/time.hpp rclcpp/version.h
rclcpp/parameter.hpp rclcpp/publisher.hpp rclcpp/utilities.hpp rclcpp/context.hpp rclcpp/exceptions.hpp rclcpp/qos.hpp
rclcpp_lifecycle/lifecycle_node.hpp rclcpp_lifecycle/node_interfaces/lifecycle_node_interface.hpp rclcpp_lifecycle/state.hpp
rcl/arguments.h rcutils/logging_macros.h rcpputils/pointer_traits.hpp lifecycle_msgs/msg/state.hpp lifecycle_msgs/msg/transition.hpp
realtime_tools/async_function_handler.hpp realtime_tools/mutex.hpp realtime_tools/realtime_buffer.hpp realtime_tools/realtime_helpers.hpp
realtime_tools/realtime_publisher.hpp realtime_tools/realtime_thread_safe_box.hpp pluginlib/class_list_macros.hpp pluginlib/class_loader.hpp
pal_statistics/pal_statistics_macros.hpp pal_statistics/pal_statistics_utils.hpp
libstatistics_collector/moving_average_statistics/moving_average.hpp libstatistics_collector/moving_average_statistics/types.hpp
diagnostic_updater/diagnostic_updater.hpp control_msgs/msg/hardware_status.hpp geometry_msgs/msg/pose.hpp geometry_msgs/msg/wrench.hpp
sensor_msgs/msg/imu.hpp sensor_msgs/msg/magnetic_field.hpp sensor_msgs/msg/nav_sat_fix.hpp sensor_msgs/msg/range.hpp
std_msgs/msg/color_rgba.hpp std_msgs/msg/string.hpp std_msgs/msg/header.hpp trajectory_msgs/msg/joint_trajectory_point.hpp
rcl_interfaces/msg/parameter_descriptor.hpp rcl_interfaces/msg/set_parameters_result.hpp""".split()
for f in fwd: w(f, '#pragma once\n#include "rosstub.hpp"\n')
# ---- messages of controller_manager_msgs
T = dict(bool='bool', string='std::string', uint8='uint8_t', int8='int8_t', uint16='uint16_t', int16='int16_t', uint32='uint32_t', int32='int32_t', int64='int64_t', uint64='uint64_t', float64='double', float32='float')
def snake(n): return re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', n).lower()
def ctype(t):
    arr = t.endswith('[]'); t = t[:-2] if arr else t
    inc = None
    if t in T: c = T[t]
    elif '/' in t:
        p, n = t.split('/'); c = f'{p}::msg::{n}'
        if p == 'controller_manager_msgs': inc = n
    else: c = f'controller_manager_msgs::msg::{t}'; inc = t
    return (f'std::vector<{c}>' if arr else c), inc
def struct(name, lines):
    body, incs = '', set()
    for l in lines:
        l = l.split('#')[0].strip()
        if not l: continue
        m = re.match(r'^(\S+)\s+([A-Z0-9_]+)\s*=\s*(.+)$', l)
        if m: body += f'  static constexpr {T[m[1]]} {m[2]} = {m[3]};\n'; continue
        t, n = l.split()[:2]; c, i = ctype(t)
        if i: incs.add(i)
        body += f'  {c} {n}{{}};\n'
    return f'struct {name}\n{{\n  using SharedPtr = std::shared_ptr<{name}>;\n{body}}};\n', incs
d = os.path.join(repo, 'controller_manager_msgs')
for f in sorted(os.listdir(d + '/msg')):
    if not f.endswith('.msg'): continue
    n = f[:-4]; s, inc = struct(n, open(f'{d}/msg/{f}').read().split('\n'))
    w(f'controller_manager_msgs/msg/{snake(n)}.hpp', '#pragma once\n#include "rosstub.hpp"\n' + ''.join(f'#include "controller_manager_msgs/msg/{snake(i)}.hpp"\n' for i in sorted(inc)) + f'namespace controller_manager_msgs::msg {{\n{s}}}\n')
for f in sorted(os.listdir(d + '/srv')):
    if not f.endswith('.srv'): continue
    n = f[:-4]; txt = open(f'{d}/srv/{f}').read().split('\n')
    k = [i for i, l in enumerate(txt) if l.strip() == '---'][0]
    a, i1 = struct('Request', txt[:k]); b, i2 = struct('Response', txt[k + 1:])
    w(f'controller_manager_msgs/srv/{snake(n)}.hpp', '#pragma once\n#include "rosstub.hpp"\n' + ''.join(f'#include "controller_manager_msgs/msg/{snake(i)}.hpp"\n' for i in sorted(i1 | i2)) + f'namespace controller_manager_msgs::srv {{\nstruct {n} {{\n{a}{b}}};\n}}\n')
# ---- generate_parameter_library output for the controller manager
y = yaml.safe_load(open(os.path.join(repo, 'controller_manager/src/controller_manager_parameters.yaml')))
P = {'int': 'int64_t', 'double': 'double', 'bool': 'bool', 'string': 'std::string', 'string_array': 'std::vector<std::string>', 'double_array': 'std::vector<double>', 'int_array': 'std::vector<int64_t>'}
reads = []
def lit(t, v):
    if v is None: return '{}'
    if t == 'string': return '"' + str(v) + '"'
    if t == 'bool': return 'true' if v else 'false'
    if t == 'double': return repr(float(v))
    if isinstance(v, list): return '{' + ', '.join('"%s"' % x if isinstance(x, str) else str(x) for x in v) + '}'
    return str(v)
def emit(node, ind, path):
    o = ''
    for k, v in node.items():
        if isinstance(v, dict) and isinstance(v.get('type'), str):
            o += f'{ind}{P[v["type"]]} {k} = {lit(v["type"], v.get("default_value"))};\n'
            reads.append((path + [k], v['type']))
        elif isinstance(v, dict):
            o += f'{ind}struct {k.title().replace("_", "")}T {{\n' + emit(v, ind + '  ', path + [k]) + f'{ind}}} {k};\n'
    return o
body = emit(list(y.values())[0], '  ', [])
rd = ''.join('    i_->get(std::string("%s"), p.%s);\n' % ('.'.join(p), '.'.join(p)) for p, t in reads)
w('controller_manager/controller_manager_parameters.hpp', f'''#pragma once
#include "rosstub.hpp"
namespace controller_manager {{
struct Params {{
{body}}};
class ParamListener {{
  struct I {{ rclcpp::node_interfaces::NodeParametersInterface::SharedPtr n; template <class T> void get(const std::string & k, T & o) {{ if (!n->has_parameter(k)) n->declare_parameter(k, rclcpp::ParameterValue(o)); o = static_cast<T>(n->get_parameter(k).get_value<T>()); }} }};
  std::shared_ptr<I> i_ = std::make_shared<I>();
public:
  template <class N> ParamListener(std::shared_ptr<N> n, const rclcpp::Logger & = rclcpp::Logger(), const std::string & = "") {{ i_->n = n->get_node_parameters_interface(); get_params(); }}
  ParamListener(rclcpp::node_interfaces::NodeParametersInterface::SharedPtr n, const rclcpp::Logger & = rclcpp::Logger(), const std::string & = "") {{ i_->n = n; get_params(); }}
  Params get_params() {{ Params p; {rd} return p; }}
  bool is_old(const Params &) {{ return false; }}
  void refresh_dynamic_parameters() {{}}
  bool try_get_params(Params & p) {{ p = get_params(); return true; }}
}};
}}
''')
