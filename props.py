JL = ['joint_limits/src/joint_range_limiter.cpp', 'joint_limits/src/joint_limits_helpers.cpp', 'joint_limits/src/joint_soft_limiter.cpp', 'joint_limits/src/joint_saturation_limiter.cpp']
HW = ['hardware_interface/src/' + f for f in ('hardware_component.cpp', 'hardware_component_interface.cpp', 'component_parser.cpp', 'lexical_casts.cpp', 'resource_manager.cpp')]
CI = ['controller_interface/src/' + f for f in ('controller_interface.cpp', 'controller_interface_base.cpp', 'chainable_controller_interface.cpp')]
CM = ['controller_manager/src/controller_manager.cpp', 'controller_manager/src/sleeping_policies.cpp']
URDF = ['-lurdfdom_model', '-ltinyxml2']
GROUPS = {
    'jl': dict(repo=JL,
               harness=['harness/joint_limiters.cpp', 'harness/limits_params.cpp', 'harness/sim.cpp']),
    'cm': dict(repo=JL + HW + CI + CM, harness=['harness/cm_switch.cpp', 'harness/cm_chain.cpp', 'harness/cm_errors.cpp', 'harness/cm_timing.cpp', 'harness/cm_limits.cpp', 'harness/cm_sleep.cpp', 'harness/cm_lifecycle.cpp', 'harness/cm_list.cpp', 'harness/cm_startup.cpp', 'harness/cm_description.cpp', 'harness/cm_switch_env.cpp', 'harness/cm_switch_types.cpp', 'harness/cm_chainable.cpp', 'harness/sim.cpp'], libs=URDF),
    'cp': dict(repo=['hardware_interface/src/component_parser.cpp'], harness=['harness/limits_urdf.cpp', 'harness/trans_urdf.cpp', 'harness/desc.cpp', 'harness/lex.cpp', 'harness/lex_sub.cpp', 'harness/sim.cpp'], libs=URDF),
    'tr': dict(repo=[], harness=['harness/trans_simple.cpp', 'harness/trans_diff.cpp', 'harness/trans_four_bar.cpp', 'harness/sim.cpp']),
    'mock': dict(repo=JL + HW + ['hardware_interface/src/mock_components/generic_system.cpp'], harness=['harness/mock.cpp', 'harness/sim.cpp'], libs=URDF),
    'rm': dict(repo=JL + HW, harness=['harness/rm.cpp', 'harness/rm_rates.cpp', 'harness/handles.cpp', 'harness/semantic.cpp', 'harness/sim.cpp'], libs=URDF),
}
def R(g, *hs, **k):
    return [dict(g=g, h=h, **k) for h in hs]


PROPS = {
    'J01': dict(budget=dict(quick=420, thorough=3000), headers=['joint_limits/include/joint_limits/*.hpp'],
                runs=R('jl', 'sat_acceleration', 'sat_jerk', 'sat_no_time', weight=.3) + R('jl', 'sat_combined', 'sat_effort', 'sat_velocity_seq') + R('jl', 'sat_velocity', 'sat_position_seq', weight=2) + R('jl', 'sat_position', weight=4)),
    'J02': dict(budget=dict(quick=400, thorough=3000), headers=['joint_limits/include/joint_limits/*.hpp'],
                runs=R('jl', 'soft_no_time', 'soft_combined', 'soft_acceleration', 'soft_effort', 'soft_velocity') + R('jl', 'soft_position', weight=2) + R('jl', 'soft_position_seq', weight=2, tiers=['thorough'])),
    'M01': dict(budget=dict(quick=240, thorough=3000), runs=R('cm', 'cm_switch2', 'cm_switch3', 'cm_switch_env', 'cm_switch_types')),
    'M03': dict(budget=dict(quick=240, thorough=3000), runs=R('cm', 'cm_chain_history', 'cm_chain_order', 'cm_chain_order4', 'cm_chain_faults') + R('cm', 'cm_chain_strict', 'cm_chain_best_effort', weight=2)),
    'M04': dict(budget=dict(quick=240, thorough=3000), runs=R('cm', 'cm_update_error', 'cm_fallback_ready') + R('cm', 'cm_fallback_error', weight=2)),
    'M05': dict(budget=dict(quick=240, thorough=3000), runs=R('cm', 'cm_hw_error', 'cm_hw_error_fallback')),
    'M06': dict(budget=dict(quick=240, thorough=3000), runs=R('cm', 'cm_rates', 'cm_rate_configured') + R('rm', 'rm_rates')),
    'M02': dict(budget=dict(quick=240, thorough=3000), runs=R('cm', 'cm_switch_faults')),
    'R01': dict(budget=dict(quick=240, thorough=3000), runs=R('rm', 'rm_lifecycle_actuator', 'rm_lifecycle_sensor', 'rm_claims') + R('rm', 'rm_lifecycle_system', weight=2)),
    'R02': dict(budget=dict(quick=240, thorough=3000), runs=R('rm', 'rm_rw_errors', 'rm_rw_errors_two', 'rm_rw_errors_states')),
    'R03': dict(budget=dict(quick=240, thorough=3000), runs=R('rm', 'rm_modes')),
    'R04': dict(budget=dict(quick=300, thorough=3000), runs=R('cm', 'cm_limits_position', 'cm_limits_rates', 'cm_limits_types')),
    'U01': dict(budget=dict(quick=240, thorough=3000), runs=R('cp', 'limits_position', 'limits_velocity', 'limits_effort', 'limits_acceleration', 'limits_jerk')),
    'T01': dict(budget=dict(quick=240, thorough=3000), headers=['transmission_interface/include/transmission_interface/*.hpp'],
                runs=R('tr', 'tr_simple', 'tr_simple_refusals', 'tr_simple_loaded', 'tr_differential', 'tr_differential_refusals', 'tr_differential_loaded', 'tr_four_bar', 'tr_four_bar_refusals', 'tr_four_bar_loaded') + R('cp', 'trans_urdf')),
    'P01': dict(budget=dict(quick=240, thorough=3000), runs=R('cm', 'cm_sleep_periodic', 'cm_sleep_blocking', 'cm_sleep_sim_time')),
    'M07': dict(budget=dict(quick=300, thorough=3000), runs=R('cm', 'cm_life', 'cm_life_faults', 'cm_load')),
    'M08': dict(budget=dict(quick=240, thorough=3000), runs=R('cm', 'cm_list', 'cm_list_all')),
    'G01': dict(budget=dict(quick=240, thorough=3000), runs=R('mock', 'mock_mirror') + R('mock', 'mock_mimic', 'mock_dynamics', weight=2)),
    'L01': dict(budget=dict(quick=240, thorough=3000), runs=R('cm', 'cm_description')),
    'H01': dict(budget=dict(quick=240, thorough=3000), headers=['hardware_interface/include/hardware_interface/handle.hpp', 'hardware_interface/include/hardware_interface/loaned_*.hpp'], runs=R('rm', 'handle_values', 'handle_loans')),
    'U02': dict(budget=dict(quick=240, thorough=3000), headers=['joint_limits/include/joint_limits/joint_limits_rosparam.hpp', 'joint_limits/include/joint_limits/joint_limiter_interface.hpp'], runs=R('jl', 'params_position', 'params_others', 'params_soft')),
    'S01': dict(budget=dict(quick=240, thorough=3000), headers=['controller_interface/include/semantic_components/*.hpp', 'controller_interface/include/controller_interface/helpers.hpp'], runs=R('rm', 'semantic_imu', 'semantic_pose', 'semantic_others', 'semantic_fts', 'semantic_led')),
    'C01': dict(budget=dict(quick=240, thorough=3000), headers=['controller_interface/src/chainable_controller_interface.cpp', 'controller_interface/include/controller_interface/chainable_controller_interface.hpp'], runs=R('cm', 'chainable_references', 'chainable_states', 'chainable_mode')),
    'D01': dict(budget=dict(quick=240, thorough=3000), runs=R('cp', 'desc_interfaces', 'desc_hardware', 'desc_mimic')),
    'D02': dict(budget=dict(quick=240, thorough=3000), headers=['hardware_interface/include/hardware_interface/lexical_casts.hpp', 'hardware_interface/src/lexical_casts.cpp'], runs=R('cp', 'lex_integers', 'lex_far', 'lex_bool', 'lex_array')),
    'M09': dict(budget=dict(quick=240, thorough=3000), runs=R('cm', 'cm_startup', 'cm_shutdown')),
}
