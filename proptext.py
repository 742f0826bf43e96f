# Property texts; mk.py turns them into properties.jsonl and MANIFEST.json.
JLF = ['joint_limits/src/joint_limits_helpers.cpp', 'joint_limits/src/joint_saturation_limiter.cpp', 'joint_limits/src/joint_range_limiter.cpp', 'joint_limits/src/joint_soft_limiter.cpp', 'joint_limits/include/joint_limits/joint_limiter_interface.hpp']
CMF = ['controller_manager/src/controller_manager.cpp', 'controller_interface/src/controller_interface_base.cpp', 'controller_interface/src/chainable_controller_interface.cpp', 'hardware_interface/src/resource_manager.cpp']
NOTE = ('Every feasible path of the compiled code within the stated bounds is explored and each branch flip and negated assertion is decided by z3/cvc5 '
        '(an unknown answer is reported as incomplete, never as held); counterexamples are replayed natively before they are reported. ')
STUB = 'Trusted: hand-written single-threaded stand-ins for rclcpp, pluginlib, realtime_tools, fmt and diagnostics (validated by running the repository\'s own unit tests on them), clang, the solvers. '
TEXT = []


def P(**k):
    TEXT.append(k)


P(id='J01', title='Hard joint limits bound every command',
  statement='Whatever a controller commands, the position, velocity, effort, acceleration and jerk left after hard limiting lie inside the enabled limits, move at most as fast as the velocity and acceleration limits allow per cycle, and never push a joint that is at or beyond its position limit or above its velocity limit further out. '
            'Commands of disabled limits pass unchanged, NaN is never turned into a motion, and limiting is reported exactly when a command was changed.',
  over=['inputs', 'histories', 'configurations'],
  quant='all commands, measurements (absent, NaN or any value up to 1e6), limit values, enabled-limit combinations and periods; histories of consecutive cycles',
  why='Unit tests try a handful of numbers per interface; the bound must hold for every double, every combination of missing or NaN measurements and every history.',
  files=JLF, mech=[('limit windows computed from limits, state and previous command', 'joint_limits/src/joint_limits_helpers.cpp'), ('clamping of each interface', 'joint_limits/src/joint_range_limiter.cpp, joint_saturation_limiter.cpp')],
  note=NOTE + 'Bounds: one joint, one limited call with 64-bit doubles (6 significand bits in the harnesses with products, more in thorough), 2-3 consecutive cycles; magnitudes up to 1e6, maxima not negative. ' + STUB)
P(id='J02', title='Soft joint limiting never leaves hard or soft limits',
  statement='With soft limits configured, every limited position, velocity, effort, acceleration and jerk command stays inside the enabled hard limits; a joint inside its soft range is never commanded out of it, and one outside it is only brought back, no faster than the hard limits allow. '
            'Limiting is reported exactly when some command changed, and commands without enabled limits pass unchanged.',
  over=['inputs', 'histories', 'configurations'],
  quant='all commands, measurements (absent, NaN, any value), hard limits, soft ranges (also inconsistent with the hard ones) and gains; consecutive cycles',
  why='The soft limiter composes several windows that can be empty or reversed; the failing combinations are isolated points in a nine-dimensional space of doubles that example tests do not hit.',
  files=JLF, mech=[('soft velocity window from position error', 'joint_limits/src/joint_soft_limiter.cpp'), ('hard limit windows', 'joint_limits/src/joint_limits_helpers.cpp')],
  note=NOTE + 'Bounds: one joint, period 1/64 s, 6 significand bits for harnesses with products, two soft ranges/gains in the quick tier (all in thorough), magnitudes up to 1e6. ' + STUB)
P(id='M01', title='Switching controllers is exclusive and exact',
  statement='At any time every command interface is owned by at most one active controller, exactly the active controllers hold the interfaces they require, and inactive ones hold none. '
            'A strict switch is accepted exactly when every requested transition is legal and no interface conflict results, then does all of it, and otherwise changes nothing; a best-effort switch leaves out what is illegal, does the rest (unless interfaces conflict or are missing) and touches nothing it was not asked to. A request that times out changes nothing, also not later.',
  over=['inputs', 'histories', 'configurations'],
  quant='all interface claims, initial states and activate/deactivate/restart requests of two and three controllers, both strictness levels, immediate and synchronised switching, unknown names, hardware states, interface configuration types (individual, all, best effort, patterns) and a stalled control loop',
  why='The outcome depends on the combination of claims, states and requests of several controllers; tests walk through a few scripted combinations.',
  files=CMF, mech=[('request validation and availability check', 'controller_manager/src/controller_manager.cpp: switch_controller_cb, check_for_interfaces_availability_to_activate'), ('claiming and releasing loans', 'controller_manager.cpp: activate_controllers, deactivate_controllers; resource_manager.cpp claims')],
  note=NOTE + 'Bounds: 2 or 3 controllers, 2 command interfaces, one switch from every reachable initial situation plus a follow-up switch; callbacks succeed (see M02). ' + STUB)
P(id='M02', title='A failed controller switch leaves a consistent system',
  statement='When the hardware refuses a mode switch, the switch is reported as failed and changes no controller; when a controller fails or throws while being activated or deactivated, a strict switch is reported as failed and stops everything it started, best effort keeps what succeeded. '
            'Afterwards interfaces are still owned by exactly the active controllers and exactly those are updated.',
  over=['fault_sequences', 'inputs', 'histories'],
  quant='every combination of failing, erroring or throwing activation, deactivation and error callbacks of three controllers and of refusals by the hardware, for swaps, restarts and activations, both strictness levels',
  why='Tests cover single failures; combinations of failures in one switch are not sampled.',
  files=CMF, mech=[('rollback on failed activation', 'controller_manager.cpp: activate_controllers, deactivate_controllers, evaluate_switch_result'), ('mode switch refusal', 'controller_manager.cpp: switch_controller_cb, manage_switch')],
  note=NOTE + 'Bounds: 3 controllers, 2 interfaces, one hardware component, one switch; only the first mode-switch call may be refused. ' + STUB)
P(id='M03', title='Chains of controllers stay intact and run in data-flow order',
  statement='An active controller only uses references and exported states of active controllers; an active chainable controller is in chained mode exactly while another active controller commands its references, and exported interfaces are available exactly while their controller is active. '
            'Legal chain switches are accepted and illegal ones refused as a whole; if a controller of a chain fails to activate, none is left depending on it. '
            'In every cycle each active controller is updated exactly once, before all controllers that consume what it commands or exports, whatever the order in which they were loaded and configured.',
  over=['inputs', 'histories', 'configurations', 'fault_sequences'],
  quant='all reference/state connections of three controllers (and all acyclic connections of four), load and configure orders, initial situations, strict and best-effort activate/deactivate/restart requests, failing or throwing activations',
  why='Chain checks depend on the whole graph of active controllers and on what a best-effort switch drops; tests exercise a few fixed chains.',
  files=CMF, mech=[('chain validation', 'controller_manager.cpp: switch_controller_cb, check_following_controllers_for_activate, check_preceding_controllers_for_deactivate'), ('chained mode', 'controller_manager.cpp: determine_chained_mode_requests, switch_chained_mode'), ('update order', 'controller_manager.cpp: update_list_with_controller_chain, ensure_controllers_order')],
  note=NOTE + 'Bounds: up to 4 controllers (3 for switching), one or two switches; restarts of a followed controller may be refused; controllers that refuse to deactivate or to change their chained mode are excluded. ' + STUB)
P(id='M04', title='A failing controller is stopped with its chain and replaced by its fallbacks',
  statement='When the update of a controller fails or throws, every other active controller is still updated in that cycle, the error is reported, the failed controller and the chain it belongs to are stopped in the same cycle, and its fallback controllers take over (all of them or none), with controllers in their way stopped together with their chains. '
            'Unrelated controllers are neither stopped nor restarted, no other controller is started, and interfaces, chained modes and hardware command modes match the active controllers afterwards. '
            'A controller is only started while its fallback controllers could take over: they are configured and their interfaces are available or exported by another of the fallbacks.',
  over=['fault_sequences', 'configurations', 'inputs'],
  quant='all combinations of failing and throwing controllers, fallback lists, chain connections, interfaces needed by the fallbacks and failing fallback activations',
  why='Which controllers must stop follows from chains, fallbacks and interface users of several simultaneous failures; tests cover one failing controller at a time.',
  files=CMF, mech=[('error handling of the update loop', 'controller_manager.cpp: update'), ('activation of fallbacks', 'controller_manager.cpp: activate_controllers, get_active_controllers_using_command_interfaces_of_controller')],
  note=NOTE + 'Bounds: 5 controllers (two chains, two fallbacks), one failing cycle and one following cycle, synchronous controllers. ' + STUB)
RMF = ['hardware_interface/src/resource_manager.cpp', 'hardware_interface/src/hardware_component.cpp', 'hardware_interface/src/hardware_component_interface.cpp']
P(id='R01', title='Hardware components follow their lifecycle and own their interfaces',
  statement='A requested transition of a hardware component runs the documented callbacks in order, stops at the first failure, passes critical errors of configured hardware to on_error once, ends in the state those results lead to and reports success only if the requested state is reached; finalized hardware stays finalized and other components are not affected. '
            'Its command and state interfaces are available exactly while it is inactive or active, and a command interface can be claimed exactly when it is available and nobody holds it.',
  over=['fault_sequences', 'histories', 'inputs'],
  quant='all sequences of requested states with every result (success, failure, error, exception) of every callback, for system, actuator and sensor; all sequences of claiming, moving and releasing interfaces, transitions and read errors',
  why='The state after a transition depends on the results of up to three callbacks and on the history; tests follow a few scripts in which few callbacks fail.',
  files=RMF, mech=[('transitions', 'hardware_component.cpp: configure, activate, deactivate, cleanup, shutdown, error'), ('availability', 'resource_manager.cpp: configure_hardware, cleanup_hardware, remove_all_hardware_interfaces_from_available_list'), ('claims', 'resource_manager.cpp: claim_command_interface, release_command_interface')],
  note=NOTE + 'Bounds: 2 components, 2-3 transitions (4 in thorough), 4 claim operations (5 in thorough); synchronous components; whether on_error sees errors of unconfigured hardware is not specified; on_error itself does not throw. ' + STUB)
P(id='R02', title='Errors of hardware in the control loop are contained',
  statement='In every cycle each configured component is read and each active one written exactly once, whatever the others do. A component whose read or write fails or throws gets on_error once, ends unconfigured or finalized without available interfaces and is reported; one that asks for deactivation in write ends inactive. '
            'Configured members of its group are stopped the same way by the next phase that handles them; all other components, and hardware that is not configured, keep their state. The result is an error if any component failed. Hardware that is not finalized can be started again and then works without errors.',
  over=['fault_sequences', 'histories', 'configurations'],
  quant='all combinations and orders of up to three errors, deactivations and exceptions of an actuator, a sensor and a system over two cycles, results of their on_error and on_deactivate, all groupings and initial states',
  why='Groups carry errors across components, phases and cycles; tests fail one or two components of no group, never in combination.',
  files=RMF, mech=[('error handling of read and write', 'resource_manager.cpp: read, write'), ('groups', 'resource_manager.cpp: update_hardware_component_group_state'), ('component errors', 'hardware_component.cpp: read, write, error')],
  note=NOTE + 'Bounds: 3 components, 2 cycles and recovery, 1 fault over two cycles or 3 in one cycle (2 over two cycles in thorough), all components at the rate of the controller manager, synchronous components, on_error does not throw. ' + STUB)
P(id='R03', title='Command mode switches reach exactly the hardware concerned',
  statement='Preparing or performing a mode switch tells every configured component with interfaces in the request exactly which of its own interfaces start and stop, once, and no other component; it succeeds exactly when all of them accept. Requests that name interfaces that do not exist, or start unavailable ones, or (unless allowed) start interfaces of inactive hardware are refused, and hardware states never change.',
  over=['inputs', 'configurations', 'fault_sequences'],
  quant='all start and stop lists over the interfaces of two components and an unknown one, all states of the components, all answers (ok, error, exception), with and without activation on inactive hardware',
  why='Tests use a fixed set of interface lists and components that answer in one way.',
  files=RMF[:1], mech=[('dispatch', 'resource_manager.cpp: prepare_command_mode_switch, perform_command_mode_switch, find_common_hardware_interfaces')],
  note=NOTE + 'Bounds: 2 components, 3 interfaces and one unknown name, one call. ' + STUB)
P(id='M05', title='Failing hardware stops exactly the controllers that use it',
  statement='When the read or write of a hardware component fails, throws or asks for deactivation, every active controller that uses its interfaces is stopped in the same cycle together with the controllers chained to it, however it was started (also as a fallback), its interfaces are free again, and the command modes of healthy hardware follow. '
            'Controllers that do not use the failed hardware are neither stopped nor restarted, keep their interfaces and are updated in every cycle; nothing is started, and the controllers can be started again once the hardware works.',
  over=['fault_sequences', 'configurations', 'histories'],
  quant='all combinations of errors, exceptions and deactivation requests of three hardware components in read and write, connections of controllers to hardware and to each other, groups, and fallback histories',
  why='Which controllers must stop follows from caches that history fills, from chains and from several simultaneous failures; tests fail one component with one controller on it.',
  files=CMF, mech=[('error handling of read and write', 'controller_manager.cpp: read, write'), ('which controllers use which hardware', 'resource_manager.cpp: cache_controller_to_hardware, get_cached_controllers_to_hardware'), ('chains', 'controller_manager.cpp: deactivate_controllers')],
  note=NOTE + 'Bounds: 3 hardware components, 4 controllers, one failing cycle and one following cycle, then a restart; on deactivation requests controllers that only read the hardware may be stopped or not. ' + STUB)
P(id='M06', title='Controllers and hardware run at their rates with true periods',
  statement='Under any jitter of the control loop, a controller or hardware component without a lower rate runs once in every cycle, one with a lower rate runs in the first cycle after its activation and then in the cycle that is nearest to its interval, never twice in a cycle; the period it is given is the time that passed since it last ran (the nominal period the first time).',
  over=['schedules', 'histories', 'configurations'],
  quant='all durations of four consecutive cycles (0.5 to 40 ms in steps of 0.5 ms, six in thorough), rates that divide the cycle rate and rates that do not, restarts in between, synchronised and immediate activation, read and write of every hardware type',
  why='The decision compares accumulated elapsed times of an irregular clock; tests use a regular clock and rates that divide each other.',
  files=CMF[:1] + ['hardware_interface/src/resource_manager.cpp', 'hardware_interface/src/hardware_component.cpp'], mech=[('rate of controllers', 'controller_manager.cpp: update'), ('rate of hardware', 'resource_manager.cpp: read, write; hardware_component.cpp last_read_cycle_time_, last_write_cycle_time_')],
  note=NOTE + 'Bounds: cycle rate 100 Hz, 3 (6 in thorough) lower rates, 4 (6) cycles, ties within 1 us are decided either way, synchronous components; comparisons over a sum of cycle times are tabulated exactly. ' + STUB)
P(id='R04', title='Enforced limits bound what the hardware is commanded',
  statement='With limit enforcement on, every command that reaches the hardware on an interface claimed by an active controller lies inside the limits of its joint (tighter of robot description and command interface), changes no faster than the velocity limit allows per cycle, also right after a switch and without fresh commands, '
            'and is exactly the commanded value if that respects them. Joints with disabled limits, interfaces nobody claims and interfaces of types that cannot be limited are left alone; the loop never fails over the types of interfaces.',
  over=['inputs', 'histories', 'configurations'],
  quant='all commanded values, measured positions, sources of limits, distributions of joints over hardware components, cycles without a new command and restarts of the controller',
  why='The guarantee spans parsing, limiter set-up, loans, the control loop and switching; no unit test observes the value that reaches the hardware for every command and history.',
  files=['hardware_interface/src/resource_manager.cpp', 'hardware_interface/include/hardware_interface/loaned_command_interface.hpp', 'controller_manager/src/controller_manager.cpp', 'hardware_interface/src/component_parser.cpp'] + JLF[:3],
  mech=[('limiters created from the robot description', 'resource_manager.cpp: import_joint_limiters'), ('limiting of commands when set and once per cycle', 'resource_manager.cpp: enforce_command_limits, create_hardware_command_interface; loaned_command_interface.hpp')],
  note=NOTE + 'Bounds: 3 joints in 1-2 hardware components, 2 controllers, 2-3 cycles, commands with 4 significand bits; commands present before the controller was started are only judged from its first full cycle. ' + STUB)
P(id='U01', title='The tightest configured limits apply',
  statement='For every joint exactly the limits apply that the robot description or the tags of its command interfaces give and that are not disabled for the joint or the interface; where both give a limit the tighter one wins, minimum and maximum of symmetric limits are both respected, and soft limits never exceed the hard position limits. Limits of other joints are unaffected.',
  over=['inputs', 'configurations'],
  quant='all numeric minima and maxima, joint types, presence of each tag, joint- and interface-level disabling, soft limits, and order of joints',
  why='Limits are merged from three places with enabling flags; a wrong combination silently widens what the robot may do, and tests use a few files with fixed numbers.',
  files=['hardware_interface/src/component_parser.cpp', 'joint_limits/include/joint_limits/joint_limits_urdf.hpp', 'hardware_interface/src/lexical_casts.cpp'],
  mech=[('merging of limits', 'hardware_interface/src/component_parser.cpp: parse_control_resources_from_urdf, update_interface_limits'), ('limits from the joint tags', 'joint_limits/include/joint_limits/joint_limits_urdf.hpp')],
  note=NOTE + 'Bounds: two joints, one limited command interface per description, maxima not negative and minima of symmetric limits not positive; the numbers in the tags are symbolic doubles up to 1e6 injected behind the text-to-number conversion. urdfdom and tinyxml2 are trusted and run concretely. ' + STUB)
P(id='U02', title='Joint limits given as parameters apply exactly, also when changed',
  statement='A limiter set up from parameters uses exactly the limits of its joints that are switched on and have valid values. Every later change of these parameters applies from the next cycle on, in full, whatever else the same request contains and however many requests come between two cycles: values, switching a limit on (only with valid values) and off; parameters of other joints and other limits change nothing. '
            'Soft limits are taken exactly if they are switched on and complete, and a change of them is reported exactly if there is one.',
  over=['inputs', 'histories'],
  quant='all values, all combinations of flags and values given at the start, all sequences of requests with values, flags, both, unchanged values and parameters of another joint, with or without a cycle in between',
  why='Tests read one parameter file; a lost or partial update needs a particular request or two requests within a cycle.',
  files=['joint_limits/include/joint_limits/joint_limits_rosparam.hpp', 'joint_limits/include/joint_limits/joint_limiter_interface.hpp'],
  mech=[('reading parameters', 'joint_limits_rosparam.hpp: get_joint_limits'), ('changes of parameters', 'joint_limits_rosparam.hpp: check_for_limits_update'), ('hand-over to the cycle', 'joint_limiter_interface.hpp: init, enforce')],
  note=NOTE + 'Bounds: two joints, one limit under test and one other limit, two (thorough: three) requests; values within 1e9 without NaN; a limit that is off at the start gets its value with a request before it is switched on; intervals that are changed stay intervals. The real-time buffer is a stand-in without concurrency. ' + STUB)
P(id='C01', title='Chainable controllers offer and follow exactly what they declare',
  statement='A chainable controller exports exactly the references and states it declares now, in their order, each one readable and writable by others as the controller sees it; declarations with doubled names, foreign prefixes or a wrong amount of storage are refused. '
            'Its mode changes exactly while it is not active and accepts the change, and in every update it takes its own input exactly if it is not chained, writes commands exactly if that input was no error, and reports every error.',
  over=['inputs', 'histories'],
  quant='all combinations of up to two values of its own and two handles of each kind, with every kind of flaw, exported twice in a row with different declarations; all values; all sequences of mode changes, lifecycle transitions and updates with all answers',
  why='Tests export one set of interfaces once; stale names, mixed orders or a mode changed behind an active controller need a particular second export or sequence.',
  files=['controller_interface/src/chainable_controller_interface.cpp', 'controller_interface/src/controller_interface_base.cpp'],
  mech=[('export and its refusals', 'chainable_controller_interface.cpp: export_reference_interfaces, export_state_interfaces'), ('mode and update', 'chainable_controller_interface.cpp: set_chained_mode, update')],
  note=NOTE + 'Bounds: two interfaces of each kind and way, two exports in a row, 4 (thorough: 5) steps of modes, lifecycle and updates. ' + STUB)
P(id='D01', title='Hardware descriptions are read exactly as declared',
  statement='Every component of a description is read with exactly its name, type, plugin, group, parameters, rate, mode, priority and scheduling, and exactly its joints, sensors and GPIOs with their interfaces in the declared order, each with its own type, size, limits, initial value and parameters; what one declares changes nothing of another. '
            'A joint imitates exactly the joint, with the factor and offset, that the description gives, unless this is switched off. Descriptions that are malformed or inconsistent in these points are refused.',
  over=['inputs', 'configurations'],
  quant='all combinations of attributes, tags and parameters from lists that hold every kind of valid, missing and malformed value, in all positions among other interfaces and components and in all orders; all combinations of imitating joints, their attributes and where the joint they follow is declared',
  why='Tests read some fixed descriptions; a value taken from the wrong tag or leaking into another interface needs a particular combination.',
  files=['hardware_interface/src/component_parser.cpp', 'hardware_interface/include/hardware_interface/hardware_info.hpp'],
  mech=[('reading components and interfaces', 'component_parser.cpp: parse_resource_from_xml, parse_component_from_xml, parse_complex_component_from_xml, parse_interfaces_from_xml'), ('imitating joints', 'component_parser.cpp: parse_control_resources_from_urdf')],
  note=NOTE + 'The texts of values come from lists, since the XML parser is a library outside the repository; their combinations and positions are symbolic. Bounds: one component under test with up to one on either side, up to three interfaces of a kind, either the own attributes of one interface or component vary or its surroundings; two joints of which one imitates. ' + STUB)
P(id='D02', title='Numbers, flags and lists in texts are converted exactly or refused',
  statement='A text is accepted as a number of an integer type exactly if it is one, as a whole, and the type can hold it, and then has that value; as a flag exactly if it is true or false in any case; as a list exactly if it is a flat bracketed list with one comma between items, and then has its items in order.',
  over=['inputs'],
  quant='all texts of up to 4 or 5 characters for each integer type, all numbers around the ends of the 32- and 64-bit types with any sign, all texts of up to 6 characters for flags, all lists of up to 5 characters over those that matter',
  why='Tests convert a few texts; the wrong ones are those around type limits, with signs, blanks and trailing characters.',
  files=['hardware_interface/include/hardware_interface/lexical_casts.hpp', 'hardware_interface/src/lexical_casts.cpp'],
  mech=[('integers and lists', 'lexical_casts.hpp: stoi_generic, stoui_generic, parse_array'), ('flags', 'lexical_casts.cpp: parse_bool')],
  note=NOTE + 'The characters of integers and flags are symbolic bytes; those of lists are chosen from six. Conversion of real numbers is done by the standard library and is outside. ' + STUB)
P(id='T01', title='Transmissions map exactly between joint and actuator space',
  statement='Simple, differential and four-bar transmissions map positions, velocities and efforts by their documented linear maps: joint to actuator and back restores the value, power is conserved, offsets and reductions belong to the joint or actuator named in the description regardless of the order of handles, and only connected interfaces are written. '
            'Zero reductions, missing, unmatched or unusable handles and malformed descriptions are refused.',
  over=['inputs', 'configurations'],
  quant='all values and offsets within bounds, all signs and sizes of reductions from a set, all combinations and orders of handles, all optional tags with any number',
  why='Tests transform a few numbers with handles in one order; a swapped sign, index or reduction only shows for other orders or asymmetric parameters.',
  files=['transmission_interface/include/transmission_interface/simple_transmission.hpp', 'transmission_interface/include/transmission_interface/differential_transmission.hpp', 'transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp', 'transmission_interface/include/transmission_interface/accessor.hpp', 'transmission_interface/src', 'hardware_interface/src/component_parser.cpp'],
  mech=[('linear maps and handle ordering', 'transmission_interface/include/transmission_interface/*_transmission.hpp, accessor.hpp'), ('loading from descriptions', 'transmission_interface/src/*_transmission_loader.cpp; component_parser.cpp: parse_transmission_from_xml')],
  note=NOTE + 'Bounds: values and offsets are integers and reductions powers of two with either sign (so every correct way of computing gives identical doubles); one or two joints and actuators. Rounding for other numbers is outside. ' + STUB)
P(id='P01', title='The control loop keeps its schedule',
  statement='A periodic control loop wakes no earlier than and promptly when its next cycle is due; cycles stay on the grid given by the update rate, and after an overrun exactly the missed cycles are skipped when overruns are managed, none otherwise. '
            'With blocking hardware or simulated time, each cycle takes at least its minimum time or period and is not delayed further.',
  over=['inputs', 'schedules'],
  quant='all durations of a cycle up to eight periods including exact multiples and their neighbours, several update rates, with and without managing overruns, all durations of blocking reads and minimum times',
  why='The interesting durations are the boundaries between periods; tests measure a few real sleeps with tolerance.',
  files=['controller_manager/src/sleeping_policies.cpp', 'controller_manager/include/controller_manager/sleeping_policies.hpp'],
  mech=[('next due time and overrun compensation', 'controller_manager/src/sleeping_policies.cpp')],
  note=NOTE + 'Bounds: one cycle from an arbitrary lateness, 4-6 update rates, a simulated clock with 1 us granularity that only sleeping advances. The node main loop around it (threads, scheduling) is outside. ' + STUB)
P(id='M07', title='Controllers follow their lifecycle and export interfaces while configured',
  statement='Loading, configuring, cleaning up, unloading, activating and deactivating a controller succeeds exactly when its state allows it and its callbacks succeed, calls exactly the callbacks of that transition, and leaves the controller in the state its callbacks lead to; other controllers are unaffected. '
            'Exported interfaces exist exactly while their controller is configured, and every controller can be unloaded, reloaded and brought up again after any history.',
  over=['histories', 'faults'],
  quant='all sequences of operations on three chained controllers from several starting situations, with any result or exception of on_configure, on_cleanup, on_shutdown and on_error; loading with any result of plugin creation and on_init and any fallback, interface and rate configuration',
  why='Tests follow one sequence per feature with succeeding callbacks; stale bookkeeping only shows after particular sequences or failures.',
  files=CMF, mech=[('lifecycle operations', 'controller_manager.cpp: load_controller, configure_controller, cleanup_controller, unload_controller'), ('exported interfaces and chain bookkeeping', 'controller_manager.cpp: build_controllers_topology_info, cleanup_controller_exported_interfaces; resource_manager.cpp')],
  note=NOTE + 'Bounds: three controllers (one chainable with a reference and an exported state, one user of each), sequences of 3 operations without faults and 2 with one fault (4 and 3 in thorough), then everything is brought up and stopped again. ' + STUB)
P(id='M08', title='Services report what is the case',
  statement='At any time, also right after failures of controllers or hardware, the listing services report exactly the loaded controllers and hardware components with their actual states, the interfaces each controller requires, exports and currently owns, its connections to the controllers whose references it uses, and every interface with its actual availability and claim. '
            'Changing the state of hardware by service affects only that component and is reported as successful exactly when the state was reached.',
  over=['histories', 'faults', 'configurations'],
  quant='all connections, starting situations and events (failing update, read or write, switches, clean-up, every hardware state request by id or label with failing callbacks)',
  why='Operators and spawners decide on these reports; tests compare them in a few fault-free situations.',
  files=CMF, mech=[('listing services', 'controller_manager.cpp: list_controllers_srv_cb, list_hardware_components_srv_cb, list_hardware_interfaces_srv_cb'), ('state service', 'controller_manager.cpp: set_hardware_component_state_srv_cb')],
  note=NOTE + 'Bounds: four controllers, two hardware components, one event from five starting situations. The services are called directly; transport is outside. ' + STUB)
P(id='M09', title='The system comes up in its configured state and goes down completely',
  statement='At start-up every hardware component reaches the initial state configured for it (active by default); a group is configured before any member is activated, a failing component is not active, and no member of its group stays active unless it refuses to be deactivated; start-up is given up exactly when configured so. '
            'At shutdown every controller is deactivated and shut down before the hardware is, no controller stays active or keeps an interface, and failures of some do not keep the rest from being shut down.',
  over=['configurations', 'faults'],
  quant='all initial-state parameters and groups of three hardware components, all situations of three controllers at shutdown, with any result or exception of any callback',
  why='Start-up and shutdown with failing parts and groups need combinations of faults that the tests, which use one scripted failure, do not visit.',
  files=['controller_manager/src/controller_manager.cpp', 'hardware_interface/src/resource_manager.cpp', 'hardware_interface/src/hardware_component.cpp'],
  mech=[('initial states and group rollback', 'controller_manager.cpp: set_initial_hardware_components_state'), ('shutdown', 'controller_manager.cpp: shutdown_controllers and the pre-shutdown callback; resource_manager.cpp: shutdown_components')],
  note=NOTE + 'Bounds: three hardware components in at most one group, three controllers and two components at shutdown, one failing callback (two in thorough). ' + STUB)
P(id='G01', title='Mock hardware turns commands into the states they ask for',
  statement='The mock hardware offers exactly the described command interfaces and those faked on request; its states start at their initial values and afterwards equal the last valid command, with the configured offset where configured; mimic joints follow the joint they mimic with multiplier and offset, and nothing follows while commands are disabled. '
            'With calculated dynamics every joint is controlled in exactly the one mode switched to (requests for several modes or none that it can follow are refused), and position, velocity and acceleration stay consistent with its command; joints do not influence each other.',
  over=['inputs', 'histories', 'configurations'],
  quant='all commands (NaN or fractional numbers), parameter combinations, mimic configurations and sequences of mode switches of two joints whose names contain each other',
  why='Tests run fixed robot descriptions with a few values; the joint order, the history of modes and missing commands decide whether states stay consistent.',
  files=['hardware_interface/src/mock_components/generic_system.cpp', 'hardware_interface/src/mock_components/components.cpp', 'hardware_interface/src/resource_manager.cpp'],
  mech=[('mirroring, mimic and dynamics', 'generic_system.cpp: read'), ('choice of the control mode', 'generic_system.cpp: prepare_command_mode_switch, perform_command_mode_switch'), ('faked commands and initial values', 'generic_system.cpp: on_init, on_configure')],
  note=NOTE + 'Bounds: two commanded joints, one mimic joint, one gpio and one sensor; two cycles (three in thorough), 8- to 16-bit fractional commands, period 1/64 s; offsets only without calculated dynamics. ' + STUB)
P(id='L01', title='Robot descriptions are loaded exactly or not at all',
  statement='A faulty robot description (unreadable, unknown plugin, component failing or throwing while it is set up, wrong kind of component) is rejected as a whole and leaves nothing behind: no components, interfaces, limits or changed parameters. '
            'A correct one is accepted whatever was rejected before, and gives exactly the described components, interfaces and joint limits; descriptions that arrive after that change nothing that is running, and are given only to controllers loaded from then on.',
  over=['histories', 'faults', 'configurations'],
  quant='all sequences of two descriptions and a correct one, each with any of the faults, limits and components',
  why='Tests load one description into a fresh manager; what a rejected description leaves behind shows only with the next one.',
  files=['controller_manager/src/controller_manager.cpp', 'hardware_interface/src/resource_manager.cpp', 'hardware_interface/src/component_parser.cpp'],
  mech=[('receiving descriptions', 'controller_manager.cpp: robot_description_callback, init_resource_manager'), ('loading and clean-up', 'resource_manager.cpp: load_and_initialize_components, import_joint_limiters')],
  note=NOTE + 'Bounds: descriptions with up to two components, one limited joint; three descriptions in a row. Two components exporting the same interface are not judged. ' + STUB)
P(id='H01', title='Interface handles keep their value, type and identity',
  statement='A handle starts with its described initial value (or the undefined value of its type) and afterwards has the value written last, read back unchanged and with its own type only, whatever copies, moves, swaps or assignments happen; copies are independent, handles on a variable follow it. '
            'A handle somebody else holds is not accessed: a loan retries as often as told, and otherwise nothing changes; commands pass the limiter exactly once, and a loan is given back exactly once.',
  over=['inputs', 'histories'],
  quant='all values of all nine data types, all sequences of copies, moves, swaps, self-moves and growing containers, all durations of use by others up to the retries',
  why='Tests write a few numbers into handles in place; which handle a moved or copied one reads depends on the history and the type.',
  files=['hardware_interface/include/hardware_interface/handle.hpp', 'hardware_interface/include/hardware_interface/loaned_command_interface.hpp', 'hardware_interface/include/hardware_interface/loaned_state_interface.hpp'],
  mech=[('values, copies and moves', 'handle.hpp: Handle'), ('retries and return of loans', 'loaned_command_interface.hpp, loaned_state_interface.hpp')],
  note=NOTE + 'Bounds: two handles, two operations (three in thorough), one described initial value per type; busy handles become free at a retry of the caller. Preemption between instructions is outside. ' + STUB)
P(id='S01', title='Semantic components read and write exactly their interfaces',
  statement='A semantic component (IMU, force-torque, pose, magnetic field, range and GPS sensors, RGB light) asks for the interfaces its name and options stand for and takes them exactly if all of them are offered, whatever else is offered, in whatever order, and whatever was assigned before. '
            'Every field of its messages and values is the current value of the interface named for it (missing axes are NaN, and an interface in use leaves the field as it was); commands go to their own interfaces in order, and colours out of range or a wrong number of values are refused and change nothing.',
  over=['inputs', 'histories'],
  quant='all values of all interfaces, orders and gaps of the offered interfaces, interfaces in use while read, subsets of the axes of a force-torque sensor',
  why='Tests offer the interfaces in order with one set of values; mixed-up fields or stale interfaces show only for other orders, gaps or later values.',
  files=['controller_interface/include/semantic_components/semantic_component_interface.hpp', 'controller_interface/include/semantic_components/force_torque_sensor.hpp', 'controller_interface/include/semantic_components/imu_sensor.hpp', 'controller_interface/include/controller_interface/helpers.hpp'],
  mech=[('assignment by name', 'helpers.hpp: get_ordered_interfaces'), ('fields of the messages', 'semantic_components/*.hpp: get_values_as_message')],
  note=NOTE + 'Bounds: three orders of the offered interfaces, one missing interface, one interface in use, 8 (thorough: all 64) subsets of the axes; status and service of a GPS within 0 to 100, colours are no NaN. ' + STUB)
P(id='N01', title='Concurrent service calls and asynchronous components never race with the loop',
  statement='While the control loop runs, service calls, robot description updates and asynchronous controllers and hardware in their own threads never make the loop read torn data, miss a component or deadlock.',
  over=['schedules'], quant='all interleavings of the control loop with service, topic and asynchronous worker threads',
  why='Interleavings are not controlled by tests.', files=['controller_manager/src/controller_manager.cpp', 'hardware_interface/src/resource_manager.cpp', 'hardware_interface/include/hardware_interface/handle.hpp'],
  mech=[('double-buffered controller list', 'controller_manager.cpp: RTControllerListWrapper'), ('locks of handles and resources', 'handle.hpp, resource_manager.cpp')],
  note='', na='The executor is single-threaded: a symbolic scheduler over std::mutex, condition_variable and threads inside the node and resource manager code is out of reach, and the thread handling itself (realtime_tools) is not part of the repository. The sequential hand-over (waiting with time-out, polling, the loop performing a switch) is covered by M01.')
P(id='N02', title='The spawner and command line tools bring controllers into the requested state',
  statement='Spawner, unspawner, hardware spawner and the ros2 control commands load, configure and activate exactly what was asked for, in order, and report failures by their exit code.',
  over=['inputs', 'fault_sequences'], quant='all argument combinations and service failures', why='Tests run a few command lines.',
  files=['controller_manager/controller_manager/spawner.py', 'controller_manager/controller_manager/controller_manager_services.py'],
  mech=[('spawner main', 'spawner.py: main')],
  note='', na='Python code whose behaviour is sequences of rclpy service calls; rclpy and its message packages are not installed, and the available Python symbolic executor (crosshair) falls back to concrete execution for argparse, YAML files and such calls.')
