DBG = ["src/debug/debug.cpp"]
DEV = ["src/tools/device.cpp", "src/tools/periodic-call.cpp"] + DBG
SOT = ["src/sot/sot.cpp", "src/sot/flags.cpp", "src/sot/memory-task-sot.cpp", "src/matrix/matrix-svd.cpp", "src/task/task.cpp", "src/task/task-abstract.cpp",
       "src/task/multi-bound.cpp", "src/feature/feature-abstract.cpp", "src/feature/feature-posture.cpp", "src/factory/pool.cpp",
       "src/exception/exception-abstract.cpp", "src/exception/exception-factory.cpp", "src/exception/exception-task.cpp", "src/exception/exception-feature.cpp",
       "src/exception/exception-tools.cpp", "src/exception/exception-signal.cpp", "src/exception/exception-dynamic.cpp"] + DBG
import glob as _g, os as _o
_R = _o.environ.get("VERIF_REPO", "/repo")
_NOT = ("robot-utils-py", "python-module", "sot-loader", "integrator-euler.t", "vector-quaternion", "matrix-rotation", "contiifstream", "utils-windows", "additional-functions")
ALL = DBG + [f for f in sorted(_o.path.relpath(f, _R) for f in _g.glob(_R + "/src/*/*.cpp") if not any(n in f for n in _NOT)) if f not in DBG]
WORLDS = {
    "P01": {"world": "p01_device.cc", "repo": DEV + ["src/tools/robot-simu.cpp"], "dg": True, "tsan": False, "world_flags": ['-DSIM_PROPERTY="P01"'], "runs": 40000},
    "P02": {"world": "p01_device.cc", "repo": DEV + ["src/tools/robot-simu.cpp"], "dg": True, "tsan": False, "world_flags": ['-DSIM_PROPERTY="P02"'], "runs": 40000},
    "P03": {"world": "p03_periodic.cc", "repo": ["src/tools/periodic-call.cpp", "src/tools/periodic-call-entity.cpp"] + DBG, "dg": True, "tsan": False, "runs": 60000},
    "P04": {"world": "p04_mailbox.cc", "repo": ["src/tools/mailbox-vector.cpp"] + DBG, "dg": True, "world_tsan": True, "libs": ["-lboost_thread", "-lboost_system"], "runs": 40000},
    "P05": {"world": "p05_sequencer.cc", "repo": SOT, "dg": True, "tsan": False, "runs": 40000},
    "P11": {"world": "p11_stack.cc", "repo": SOT, "dg": True, "tsan": False, "world_flags": ['-DSIM_PROPERTY="P11"'], "runs": 40000},
    "P12": {"world": "p11_stack.cc", "repo": SOT, "dg": True, "tsan": False, "world_flags": ['-DSIM_PROPERTY="P12"'], "runs": 30000},
    "P13": {"world": "p13_task.cc", "repo": SOT, "dg": True, "tsan": False, "runs": 40000},
    "P19": {"world": "p19_stopwatch.cc", "repo": ["src/utils/stop-watch.cpp"], "runs": 60000},
    "P20": {"world": "p20_tail.cc", "repo": ["src/debug/contiifstream.cpp"] + DBG, "runs": 40000},
    "P18": {"world": "p18_causal.cc", "repo": ["src/filters/causal-filter.cpp"], "runs": 60000},
    "P21": {"world": "p21_debug.cc", "repo": DBG, "extra": ["worlds/p21_quiet.cc"], "runs": 60000},
    "P22": {"python": "p22_calendar.py", "runs": 12000},
    "P23": {"python": "p23_loop.py", "runs": 6000},
    "P24": {"python": "p24_history.py", "runs": 8000},
    "P32": {"python": "p32_meta.py", "runs": 4500},
    "P33": {"python": "p33_viewer.py", "runs": 8000},
    "P07": {"world": "p07_trajectory.cc", "repo": ["src/tools/trajectory.cpp"] + DBG, "dg": True, "tsan": False, "libs": ["-lboost_regex"], "runs": 20000},
    "P06": {"world": "p06_player.cc", "repo": ["src/tools/joint-trajectory-entity.cpp", "src/tools/trajectory.cpp"] + DBG, "dg": True, "tsan": False, "libs": ["-lboost_regex"], "runs": 30000},
    "P08": {"world": "p08_loader.cc", "repo": ["src/tools/sot-loader.cpp"] + DEV, "dg": True, "tsan": False, "libs": ["-lboost_program_options"], "runs": 40000},
    "P09": {"world": "p09_logic.cc", "repo": ["src/tools/event.cpp", "src/tools/latch.cpp", "src/tools/switch.cpp", "src/matrix/operator.cpp", "src/exception/exception-abstract.cpp"] + DBG, "dg": True, "tsan": False, "runs": 40000},
    "P10": {"world": "p10_features.cc", "repo": SOT + ["src/feature/feature-1d.cpp", "src/feature/feature-generic.cpp", "src/feature/feature-joint-limits.cpp", "src/feature/feature-line-distance.cpp", "src/feature/feature-point6d.cpp",
            "src/feature/feature-point6d-relative.cpp", "src/feature/feature-pose.cpp", "src/feature/feature-vector3.cpp", "src/feature/feature-visual-point.cpp", "src/feature/visual-point-projecter.cpp"], "dg": True, "tsan": False, "runs": 30000},
    "P14": {"world": "p14_reader.cc", "repo": ["src/traces/reader.cpp", "src/sot/flags.cpp"] + DBG, "dg": True, "tsan": False, "runs": 40000},
    "P15": {"world": "p15_params.cc", "repo": ["src/tools/parameter-server.cpp", "src/tools/robot-utils.cpp", "src/exception/exception-abstract.cpp", "src/exception/exception-tools.cpp"] + DBG, "dg": True, "tsan": False, "runs": 30000},
    "P16": {"world": "p16_clocks.cc", "repo": ["src/tools/timer.cpp", "src/tools/time-stamp.cpp"] + DBG, "dg": True, "tsan": False, "runs": 40000},
    "P26": {"world": "p26_pool.cc", "repo": SOT + ["src/feature/feature-generic.cpp"], "dg": True, "tsan": False, "runs": 20000},
    "P27": {"world": "p27_limiters.cc", "repo": ["src/tools/joint-limitator.cpp", "src/tools/neck-limitation.cpp", "src/tools/clamp-workspace.cpp", "src/tools/smooth-reach.cpp", "src/tools/com-freezer.cpp", "src/tools/gripper-control.cpp",
            "src/tools/gradient-ascent.cpp", "src/tools/motion-period.cpp", "src/tools/binary-int-to-uint.cpp", "src/sot/flags.cpp"] + DBG, "dg": True, "tsan": False, "runs": 40000},
    "P28": {"world": "p28_estimators.cc", "repo": ["src/tools/exp-moving-avg.cpp", "src/tools/kalman.cpp", "src/filters/causal-filter.cpp", "src/filters/madgwickahrs.cpp", "src/utils/stop-watch.cpp"] + DBG, "dg": True, "tsan": False, "runs": 40000},
    "P29": {"world": "p29_tasks.cc", "repo": SOT + ["src/task/task-pd.cpp", "src/task/task-conti.cpp", "src/task/task-unilateral.cpp", "src/task/gain-adaptive.cpp", "src/task/gain-hyperbolic.cpp"], "dg": True, "tsan": False, "runs": 40000},
    "P30": {"world": "p30_controllers.cc", "repo": DBG + ["src/control/control-pd.cpp", "src/control/control-gr.cpp", "src/control/admittance-control-op-point.cpp", "src/math/op-point-modifier.cpp", "src/utils/stop-watch.cpp"], "dg": True, "tsan": False, "runs": 40000},
    "P31": {"world": "p31_operators.cc", "repo": ["src/matrix/operator.cpp", "src/matrix/vector-constant.cpp", "src/matrix/matrix-constant.cpp", "src/exception/exception-abstract.cpp"] + DBG, "dg": True, "tsan": False, "runs": 200000},
    "P34": {"world": "p34_entities.cc", "extra": ["worlds/p34_api.cc"], "repo": ALL, "file_flags": {"src/matrix/integrator-euler.cpp": ["-DregFunction_double_double=regFunction_euler"]}, "dg": True, "tsan": False, "libs": ["-lboost_thread", "-lboost_system", "-lboost_regex"], "runs": 60000},
    "P35": {"world": "p35_follow.cc", "extra": ["worlds/p34_api.cc"], "repo": ALL, "file_flags": {"src/matrix/integrator-euler.cpp": ["-DregFunction_double_double=regFunction_euler"]}, "dg": True, "tsan": False, "libs": ["-lboost_thread", "-lboost_system", "-lboost_regex"], "runs": 150000},
    "P36": {"world": "p36_trace.cc", "extra": ["worlds/p34_api.cc"], "repo": ALL, "file_flags": {"src/matrix/integrator-euler.cpp": ["-DregFunction_double_double=regFunction_euler"]}, "dg": True, "tsan": False, "libs": ["-lboost_thread", "-lboost_system", "-lboost_regex"], "runs": 60000},
    "P37": {"world": "p37_hide.cc", "extra": ["worlds/p34_api.cc"], "repo": ALL, "file_flags": {"src/matrix/integrator-euler.cpp": ["-DregFunction_double_double=regFunction_euler"]}, "dg": True, "tsan": False, "libs": ["-lboost_thread", "-lboost_system", "-lboost_regex"], "runs": 100000},
    "P38": {"world": "p38_order.cc", "extra": ["worlds/p34_api.cc"], "repo": ALL, "file_flags": {"src/matrix/integrator-euler.cpp": ["-DregFunction_double_double=regFunction_euler"]}, "dg": True, "tsan": False, "libs": ["-lboost_thread", "-lboost_system", "-lboost_regex"], "runs": 60000},
    "P39": {"world": "p39_refused.cc", "extra": ["worlds/p34_api.cc"], "repo": ALL, "file_flags": {"src/matrix/integrator-euler.cpp": ["-DregFunction_double_double=regFunction_euler"]}, "dg": True, "tsan": False, "libs": ["-lboost_thread", "-lboost_system", "-lboost_regex"], "runs": 60000},
    "P41": {"world": "p41_age.cc", "extra": ["worlds/p34_api.cc"], "repo": ALL, "file_flags": {"src/matrix/integrator-euler.cpp": ["-DregFunction_double_double=regFunction_euler"]}, "dg": True, "tsan": False, "libs": ["-lboost_thread", "-lboost_system", "-lboost_regex"], "runs": 60000},
    "P43": {"world": "p43_loop.cc", "repo": ALL, "file_flags": {"src/matrix/integrator-euler.cpp": ["-DregFunction_double_double=regFunction_euler"]}, "dg": True, "tsan": False, "libs": ["-lboost_thread", "-lboost_system", "-lboost_regex"], "runs": 20000},
    "P17": {"world": "p17_dynamics.cc", "repo": DBG, "dg": True, "tsan": False, "runs": 40000},
}
