PROPS = []
SIMTECH = "deterministic simulation with fault injection (seeded search, replayable)"


def P(id, title, statement, over, quant, why, files, mech, note="", tech=SIMTECH, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, note=note or DEFAULT_NOTE, tech=tech, **kw))


DEFAULT_NOTE = ("Seeded search: no violation in the simulated runs counted in the evidence; not a proof. Trusts the "
                "simulator, the reference model in the world file and, where listed, the dynamic-graph stand-in.")

P("P01", "Each control cycle computes, steps and integrates exactly once",
  "Every increment of the simulated or real device evaluates the control once for a time exactly one later than the "
  "previous cycle, runs the registered before- and after-period commands around it, and moves the published state by "
  "that control over the time step for the current integration mode. A periodic command that fails is contained: the "
  "cycle completes and the state advances. A control that fails stops its cycle without moving the state. Switching the control mode or setting the "
  "state between cycles never loses, repeats or mixes a cycle.",
  ["histories", "fault_sequences", "inputs"],
  "all interleavings of cycles, mode switches, state resets, and failing controls or periodic commands",
  "The device test steps one configuration a few times with a constant control; no failing callback, mode switch or state reset is tried.",
  ["src/tools/device.cpp", "include/sot/core/device.hh", "src/tools/robot-simu.cpp", "src/tools/periodic-call.cpp"],
  [("Device::increment", "src/tools/device.cpp"), ("Device::integrate", "src/tools/device.cpp")])

P("P02", "State stays finite and inside its configured limits whatever the control does",
  "With sanity checks on, whatever the sequence of controls and whatever the order in which limits were configured, "
  "the position (and, in acceleration mode, the velocity) published after each cycle never leaves the configured "
  "bounds, each coordinate being saturated on its own; a control that is not finite is refused instead of integrated.",
  ["inputs", "histories", "fault_sequences"],
  "all control sequences including faulty ones (NaN, infinite, too large), all bound configurations and modes",
  "Tests configure one set of bounds and never feed an invalid control.",
  ["src/tools/device.cpp", "include/sot/core/device.hh"],
  [("saturateBounds / checkNaN / integrate", "src/tools/device.cpp")])

P("P03", "Periodic calls refresh each registered signal exactly on its schedule",
  "Each time the periodic caller is run at a control time, every registered signal whose downsampling factor divides "
  "that time is refreshed exactly once, in no case another one, and signals added, removed or cleared between calls "
  "take effect from the next call. A failing signal is reported by that call and leaves the registrations and all "
  "later calls intact, and a one-shot trigger refreshes once and then forgets the signals. A registration that cannot "
  "be served (unknown signal, factor of zero) is refused.",
  ["histories", "fault_sequences", "programs"],
  "all sequences of register/unregister/clear/run with any downsampling, and failing signals",
  "No test exercises periodic calls at all.",
  ["src/tools/periodic-call.cpp", "src/tools/periodic-call-entity.cpp", "include/sot/core/periodic-call.hh"],
  [("PeriodicCall::runSignals", "src/tools/periodic-call.cpp")])

P("P04", "Mailbox hands over whole, timestamped, newest values, never blocking the reader",
  "A control thread reading the mailbox always gets a value that one post wrote entirely, with the timestamp of that "
  "very post, never older than one it already got, and never waits for the poster. Once posting has stopped, a reader "
  "that keeps asking gets the last posted value and timestamp, and the mailbox tells whether a posted value has not "
  "been read yet.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of a posting thread and a control thread at memory-access granularity, with stalls",
  "The mailbox test posts and reads from a single thread.",
  ["include/sot/core/mailbox.hh", "include/sot/core/mailbox.hxx", "src/tools/mailbox-vector.cpp"],
  [("try_lock on the mailbox mutex", "include/sot/core/mailbox.hxx")])

P("P05", "Sequenced events run exactly once, at their programmed time",
  "Once the sequencer is started, every event programmed for a relative time runs exactly once, at the control cycle "
  "whose time since the start equals it, events of the same time in their order of insertion, and never after it was "
  "removed or cleared. Task events take effect on the controlled stack at that cycle. An event that names an unknown "
  "target is refused without disturbing the schedule, and the failure of an event is reported by its cycle and disturbs no other cycle.",
  ["histories", "fault_sequences", "programs"],
  "all sequences of add/remove/clear/start/tick including repeated, late and skipped control times",
  "No test drives the sequencer.",
  ["src/tools/sequencer.cpp", "include/sot/core/sequencer.hh"],
  [("Sequencer::trigger", "src/tools/sequencer.cpp")])

P("P06", "Queued joint trajectories play point by point, without gap, repeat or mix",
  "A trajectory, known by its time stamp, is queued when it is received while another one plays, once whatever how often "
  "or how late it is received again. Each control cycle outputs exactly the next point of the trajectory at the head of "
  "the queue on all outputs (posture, centre of mass, centre of pressure, waist, sequence number) whatever the order and "
  "number of reads, then the next trajectory starts; after the very last point the outputs stay at it. Empty trajectories, "
  "points too short to hold a posture, cut messages and failing inputs never corrupt the outputs or end the process.",
  ["histories", "fault_sequences", "inputs"],
  "all arrival orders, losses, duplicates and malformed messages relative to the control cycles",
  "No test drives the trajectory player.",
  ["src/tools/joint-trajectory-entity.cpp", "include/sot/core/joint-trajectory-entity.hh"],
  [("SotJointTrajectoryEntity::OneStepOfUpdate", "src/tools/joint-trajectory-entity.cpp")])

P("P07", "Trajectory messages parse faithfully, and cut ones invent nothing",
  "A well formed trajectory message yields exactly the header, joint names and points it holds, whatever its length and "
  "whatever the object held before, and copying or assigning the result keeps all of it. A message cut anywhere in "
  "transit ends parsing with no exception and in bounded time, and every point it yields is one the message held, in order.",
  ["inputs", "fault_sequences"],
  "all messages, and all truncations and byte corruptions of them in transit",
  "No test parses a trajectory.",
  ["src/tools/trajectory.cpp", "include/sot/core/trajectory.hh"],
  [("RulesJointTrajectory", "src/tools/trajectory.cpp")])

P("P08", "The controller plug-in is loaded, driven and released in a consistent life cycle",
  "The loader either gives a working external controller or reports failure and keeps nothing loaded, whatever the step "
  "that failed (missing file, missing entry point, failing constructor), and can then be retried. While started, each "
  "iteration gives its sensors to, and takes its controls from, exactly the loaded controller; without one it fails cleanly; "
  "an error of the controller reaches the caller as it is. Clean-up, also repeated, destroys the graph, the controller "
  "once and unloads the library once.",
  ["fault_sequences", "histories"],
  "all sequences of load, sensor/control exchange, failure and clean-up with faults at each dynamic-loading call",
  "The test loads one good plug-in once; loader failures are not injected.",
  ["src/tools/sot-loader.cpp", "include/sot/core/sot-loader.hh", "include/sot/core/abstract-sot-external-interface.hh"],
  [("SotLoader::initialization / cleanUp", "src/tools/sot-loader.cpp")])

P("P09", "Events, latches, switches and variadic operators follow their history exactly",
  "An event triggers its signals exactly at the checks at which its condition rises, and every n checks while it holds when "
  "repetition is asked, never otherwise; a latch is what its last command made it; a switch outputs exactly the selected "
  "input of each cycle and needs no other; sums, boolean operators and vector mixes combine exactly their current inputs and "
  "settings. The inputs are those the commands asked for, a refused command changes nothing, a change acts at the next cycle, "
  "and no failing or missing input is hidden or has effects on later cycles.",
  ["histories", "fault_sequences"],
  "all sequences of condition values, commands, input changes, failing inputs, repeated and skipped cycles",
  "Tests cover no transition history of these.",
  ["include/sot/core/event.hh", "src/tools/event.cpp", "include/sot/core/latch.hh", "include/sot/core/switch.hh", "include/sot/core/variadic-op.hh", "src/tools/switch.cpp", "src/matrix/operator.hh"],
  [("Event::check", "src/tools/event.cpp"), ("VariadicAbstract::setSignalNumber", "include/sot/core/variadic-op.hh")])

P("P10", "Features give error, Jacobian, rate and dimension of their present inputs only",
  "At every cycle the error, Jacobian, error rate and dimension of a feature are those of its present inputs, selection, "
  "reference, frame and active joints, its Jacobian being the derivative of its error with respect to the joints. "
  "A change made between two cycles acts at the next one, an input that fails, is missing or does not fit raises an error "
  "instead of a value, and a failure or a refused command leaves nothing behind in later cycles.",
  ["histories", "inputs", "fault_sequences"],
  "all feature types, all sequences of input changes, selections, references, frames, resizes and failures",
  "The feature tests need libraries absent here and evaluate each feature once, with fixed inputs.",
  ["src/feature/feature-abstract.cpp", "src/feature/feature-generic.cpp", "src/feature/feature-point6d.cpp",
   "src/feature/feature-posture.cpp", "src/feature/feature-joint-limits.cpp", "src/feature/feature-visual-point.cpp",
   "src/feature/feature-line-distance.cpp", "src/feature/feature-vector3.cpp", "src/feature/feature-1d.cpp",
   "include/sot/core/feature-pose.hxx", "include/sot/core/feature-abstract.hh", "src/feature/visual-point-projecter.cpp"],
  [("computeError / computeJacobian / computeErrorDot / getDimension", "src/feature/"),
   ("DECLARE_REFERENCE_FUNCTIONS", "include/sot/core/feature-abstract.hh")])

P("P11", "The stack keeps exactly the tasks and priority order the commands built",
  "After any sequence of push, pop, up, down, remove and clear commands the stack holds exactly the tasks, in the "
  "priority order, that these commands define; a command naming a task that is absent, unknown or already present is "
  "refused or ignored without changing the stack, and so is popping an empty one. The displayed stack agrees with it.",
  ["histories", "programs"],
  "all sequences of stack commands, including repeated and invalid ones",
  "The stack test pushes two tasks and never reorders, removes or misuses.",
  ["src/sot/sot.cpp", "include/sot/core/sot.hh", "src/sot/sot-command.h"],
  [("Sot::push/remove/up/down", "src/sot/sot.cpp")])

P("P12", "The control solves the stack in strict priority, at each cycle and after faults",
  "At every cycle the control achieves each task as well as possible in the least-squares sense without degrading the "
  "ones above it, every task seeing only the joints selected for it, and depends only on the current tasks, settings, "
  "Jacobians and errors, not on earlier cycles. A cycle in which a task fails raises an error, and the next cycle without fault "
  "gives the same control as if the fault had not happened.",
  ["histories", "inputs", "fault_sequences"],
  "all stacks, Jacobians (including rank deficient), stack changes between cycles, and failing task signals",
  "Tests check random matrices against a reference solver, not the entity over cycles, stack changes and faults.",
  ["src/sot/sot.cpp", "src/sot/memory-task-sot.cpp", "include/sot/core/memory-task-sot.hh"],
  [("Sot::computeControlLaw", "src/sot/sot.cpp")])

P("P13", "A task is exactly the stack of its features, at every cycle",
  "The error, Jacobian and desired velocity of a task are, at each cycle, the stacking of those of its current "
  "features in their order of insertion, scaled by its gain where specified, "
  "and follow features added, removed, cleared or resized between cycles at the very next cycle. A feature that fails "
  "in one cycle leaves the later ones correct.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of feature changes, dimension changes, cycles and failing features",
  "The task test checks construction only.",
  ["src/task/task.cpp", "include/sot/core/task.hh", "src/feature/feature-abstract.cpp", "src/feature/feature-generic.cpp"],
  [("Task::computeErrorTimeDerivative / computeJacobian", "src/task/task.cpp")])

P("P14", "Recorded data files replay line by line, whatever the disk does",
  "A data file loaded by the reader is replayed one line per new cycle, in order, with exactly the selected columns "
  "and the values written in it; rewinding starts again at the first line and the end of data repeats the last line. "
  "A file that is missing, unreadable or cut short never yields invented values.",
  ["inputs", "fault_sequences", "histories"],
  "all files, selections, cycle sequences and read faults",
  "The file test checks only that a path exists.",
  ["src/traces/reader.cpp", "include/sot/core/reader.hh"],
  [("sotReader::load / getNextData", "src/traces/reader.cpp")])

P("P15", "Robot parameters read back as last written, by every key, whatever was refused",
  "Joint names, identifiers, limits, force-sensor and foot frames, and named parameters always read back as last "
  "accepted; name and identifier look-ups stay inverse of each other, and conversions between joint orders are "
  "inverse permutations; the mimic joints are those the robot model declares. A refused update or conversion (bad size, bad map, "
  "unknown name, not initialised) changes nothing.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of parameter writes, valid or refused, over several robots sharing the process",
  "Tests write each parameter once and never overwrite or refuse.",
  ["src/tools/parameter-server.cpp", "src/tools/robot-utils.cpp", "include/sot/core/robot-utils.hh"],
  [("RobotUtil setters, name/id maps", "src/tools/robot-utils.cpp")])

P("P16", "Timers and timestamps report simulated time truthfully",
  "A timer reports for each request exactly the time its measured signal took on the chosen clock and gives that "
  "signal's value unchanged; a timestamp is the current clock value split consistently. Clock steps affect only the "
  "measurement during which they happen.",
  ["histories", "fault_sequences"],
  "all clock behaviours (jumps, stalls, resolution) and request histories",
  "No test controls the clock.",
  ["include/sot/core/timer.hh", "src/tools/timer.cpp", "src/tools/time-stamp.cpp", "include/sot/core/time-stamp.hh"],
  [("Timer::compute", "include/sot/core/timer.hh"), ("TimeStamp::getTimeStamp", "src/tools/time-stamp.cpp")])

P("P17", "Integrators, derivators and FIR filters equal their definition over any history",
  "Over any sequence of cycles, including repeated requests and skipped or faulty cycles, the discrete integrator, the "
  "derivator and the FIR filter output exactly what their difference equation gives for the inputs of the cycles "
  "actually computed. Changing coefficients or gains takes effect from the next cycle without disturbing the past.",
  ["histories", "inputs", "fault_sequences"],
  "all input and cycle sequences, coefficient changes and failing inputs",
  "Tests cover a single short constant sequence of one of them.",
  ["include/sot/core/fir-filter.hh", "include/sot/core/derivator.hh", "include/sot/core/integrator-abstract.hh", "include/sot/core/integrator-euler.hh"],
  [("FIRFilter::compute", "include/sot/core/fir-filter.hh"), ("IntegratorEuler::integrate", "include/sot/core/integrator-euler.hh")])

P("P18", "The causal filter obeys its difference equation across switches and faults",
  "The filter output is at each step the discrete difference equation of its current coefficients applied to the "
  "inputs received since it was made, starting from the steady state of the first input, and its first derivatives "
  "are the finite differences of the filtered values. Replacing the filter during operation starts from the steady "
  "state of the most recent input.",
  ["histories", "inputs", "fault_sequences"],
  "all input sequences, coefficient sets, switch times and sensor outages",
  "The only filter test needs libraries absent here and runs one filter on one signal.",
  ["src/filters/causal-filter.cpp", "include/sot/core/causal-filter.hh"],
  [("CausalFilter::get_x_dx_ddx / switch_filter", "src/filters/causal-filter.cpp")])

P("P19", "The profiler accounts every measurement exactly, in seconds of the chosen clock",
  "For every record the profiler's count, total, average, minimum, maximum and last time are those of the measurements "
  "actually made, in seconds of the selected clock, a paused measurement adding each of its parts to the total. Records are "
  "independent, reset records start from nothing, unknown records are refused, and while switched off the profiler "
  "measures and prints nothing.",
  ["histories", "fault_sequences"],
  "all sequences of profiler calls over nested and interleaved records, all behaviours of both clocks",
  "No test uses the profiler: its values depend on the clock, which tests do not control.",
  ["src/utils/stop-watch.cpp", "include/sot/core/stop-watch.hh"],
  [("Stopwatch::start/stop/pause/reset", "src/utils/stop-watch.cpp")],
  observe=["Stopwatch getters", "Stopwatch::report"])

P("P20", "A followed file delivers each completed line once, in order, complete",
  "A reader that polls a growing text file gets every line completed after its first poll exactly once, in order and "
  "complete, whatever the line length and however writes, polls and read errors interleave. Lines already there at the "
  "first poll are skipped, unfinished lines wait for their end, and a read or open failure only delays delivery to a "
  "later poll.",
  ["schedules", "fault_sequences", "inputs"],
  "all cuts of appended text relative to polls, all line lengths, all open/read faults",
  "No test uses the follower, and its outcome depends on how writer and reader interleave.",
  ["src/debug/contiifstream.cpp", "include/sot/core/contiifstream.hh"],
  [("Contiifstream::loop", "src/debug/contiifstream.cpp")],
  observe=["Contiifstream::loop/ready/next"])

P("P21", "Debug traces land in the file that is open, whole and in order, or nowhere",
  "Every trace that is enabled when issued is written in order, with its level filter and formatted text bounded to "
  "the trace buffer, to the file opened last; nothing is written while tracing is closed, and pending text of a "
  "disabled trace never leaks into a later one. Open and write failures lose only the traces issued meanwhile: a "
  "later successful open traces again, and closing releases the file.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of open, close, trace and disk faults, all message lengths",
  "The trace tests do not inject disk faults nor reopen.",
  ["src/debug/debug.cpp", "include/sot/core/debug.hh"],
  [("DebugTrace::openFile/closeFile/trace", "include/sot/core/debug.hh")])

P("P22", "Scheduled callbacks run at their programmed control time, once, in order",
  "Every callback of the time calendar runs exactly at the control time it was programmed for, those of one time in "
  "their order of registration, and periodic ones at every cycle from registration until removed, whatever callbacks "
  "add to or remove from the calendar while it runs. Nothing else runs, and a failing callback does not corrupt the "
  "calendar.",
  ["histories", "programs", "fault_sequences"],
  "all sequences of registrations, removals (also from inside callbacks), ticks and failing callbacks",
  "No test uses the calendar.",
  ["src/dynamic_graph/sot/core/utils/attime.py"],
  [("Calendar.run", "src/dynamic_graph/sot/core/utils/attime.py")])

P("P23", "The interruptible loop obeys play, pause, step and quit whatever the timing",
  "Whatever the interleaving of the commanding thread with the loop thread, the loop body runs only while playing, "
  "once per step request, and never after quit; every play, pause, step or quit request takes effect within a bounded "
  "number of scheduling steps. A body that raises never leaves a half-dead loop that looks alive.",
  ["schedules", "fault_sequences"],
  "all interleavings of commands with the loop thread, all faults of the loop body",
  "No test starts the loop; its outcome depends on thread timing.",
  ["src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py"],
  [("ThreadInterruptibleLoop", "src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py")])

P("P24", "Recorded motion restores and dumps exactly the states of the recorded times",
  "The recorder keeps one state per requested cycle and its time, restoring gives back exactly the state of the asked "
  "time, and a dump that reports success leaves complete files with one line per recorded cycle in order, also when "
  "the process dies right after. A dump that fails on the disk does not lose the recording.",
  ["histories", "crash_points", "fault_sequences"],
  "all record/restore/dump histories, crash points after a dump, and disk faults",
  "No test uses the recorder.",
  ["src/dynamic_graph/sot/core/utils/history.py"],
  [("History", "src/dynamic_graph/sot/core/utils/history.py")])

P("P26", "The object registry and the graph it writes agree with what was registered",
  "A feature or task is found under its name from registration to deletion, a name can be registered only once per kind, "
  "looking up an unknown name is refused, and the written graph is well formed and lists exactly the registered tasks. A disk fault while "
  "writing the graph leaves the registry intact.",
  ["histories", "fault_sequences"],
  "all sequences of registration, removal and look-up, disk faults while writing",
  "The factory test registers a few objects once.",
  ["src/factory/pool.cpp", "include/sot/core/pool.hh"],
  [("PoolStorage", "src/factory/pool.cpp")])

P("P27", "Limiters respect their limits and reference generators go where they are told",
  "At every cycle, whatever the settings and failures before it, the joint limitator passes exactly the controls that keep "
  "their joint inside its limits, the neck limitation keeps the tilt under the line given by the pan, the workspace clamp "
  "splits the motion into complementary parts, and the gripper control slows each joint by its own factor while that joint "
  "pushes over its torque limit and recovers afterwards. A smooth reach goes from its start to its goal in the time given "
  "without leaving the way between them, a frozen center of mass follows its reference while walking and a fixed number of cycles "
  "after, and a gradient ascent climbs once per cycle. Ill-sized or missing inputs and refused settings stop only their own cycle or command.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of cycles, inputs, setting changes, and failing, missing or ill-sized inputs of nine entities",
  "None of these entities has a test that runs here; the one for the smooth reach samples one motion.",
  ["src/tools/joint-limitator.cpp", "src/tools/neck-limitation.cpp", "src/tools/clamp-workspace.cpp", "src/tools/smooth-reach.cpp", "src/tools/com-freezer.cpp", "src/tools/gripper-control.cpp",
   "src/tools/gradient-ascent.cpp", "src/tools/motion-period.cpp", "src/tools/binary-int-to-uint.cpp"],
  [("JointLimitator::computeControl", "src/tools/joint-limitator.cpp"), ("GripperControl::computeIncrement", "src/tools/gripper-control.cpp"), ("SmoothReach::goalSOUT_function", "src/tools/smooth-reach.cpp")])

P("P28", "Estimators advance one step of their recursion per cycle, whatever fails",
  "The exponential moving average, the Kalman filter, the differentiating filter and the attitude estimator output, at each "
  "cycle computed, exactly one step of their recursion from the value of the last successful cycle and the measurements "
  "of this one. Reading again, skipping cycles, failing or ill-sized measurements, and refused settings neither advance nor "
  "disturb the estimate; settings accepted take effect from the next cycle, and nothing is estimated before initialisation.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of cycles, repeated reads, settings, reinitialisations, failing, missing, ill-sized and constant measurements, log errors",
  "The tests of two of these estimators compute a few steps and need libraries absent here.",
  ["src/tools/exp-moving-avg.cpp", "src/tools/kalman.cpp", "src/filters/filter-differentiator.cpp", "src/filters/madgwickahrs.cpp"],
  [("Kalman::computeVarianceUpdate / computeStateUpdate", "src/tools/kalman.cpp"), ("FilterDifferentiator x_dx_ddx", "src/filters/filter-differentiator.cpp")])

P("P29", "Task variants and gains follow their law each cycle; references survive text",
  "The proportional derivative, continuous and unilateral tasks give at each cycle the reference of their control law for the "
  "errors, gains, derivatives and settings of that cycle, and the adaptive and hyperbolic gains the value of their "
  "curve, which stays between its values at zero and at infinity. Changes of coefficients take effect from the next cycle, even if no input changes, "
  "and settings that define no curve are refused. Bounds and selections keep their kind and content through any sequence of "
  "changes and through being written and read; incomplete or corrupted text is refused.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of cycles, sizes, settings, failing, missing, ill-sized and constant inputs; all truncations of the text",
  "The tests print a few values of gains and bounds, and never run these tasks.",
  ["src/task/task-pd.cpp", "src/task/task-conti.cpp", "src/task/task-unilateral.cpp", "src/task/gain-adaptive.cpp", "src/task/gain-hyperbolic.cpp", "src/task/multi-bound.cpp", "src/sot/flags.cpp"],
  [("TaskPD::computeTaskModif", "src/task/task-pd.cpp"), ("GainAdaptive::computeGain", "src/task/gain-adaptive.cpp"), ("operator>>(VectorMultiBound)", "src/task/multi-bound.cpp")])

P("P30", "Controllers and moved frames follow their law from the inputs of each cycle",
  "The PD controller, the gravity compensation, the admittance controller and the operational point modifier give at each cycle "
  "the value of their law for the gains, poses, forces and settings of that cycle, even if only one input or setting changed. The "
  "admittance controller integrates once per cycle computed, from the force moved to the world frame, never "
  "exceeds its saturation, starts again from rest after a reset and gives nothing before its initialisation. Failing, missing "
  "or ill-sized inputs stop only their own cycle and leave the integral as it was.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of cycles, poses, gains, settings and resets, with failing, missing, ill-sized and constant inputs",
  "The tests compare one cycle of the controllers with constants; the operational point modifier is tested with one pose.",
  ["src/control/control-pd.cpp", "src/control/control-gr.cpp", "src/control/admittance-control-op-point.cpp", "src/math/op-point-modifier.cpp"],
  [("AdmittanceControlOpPoint::w_dq", "src/control/admittance-control-op-point.cpp"), ("OpPointModifier::jacobianSOUT_function", "src/math/op-point-modifier.cpp")])

P("P31", "Operators give their function of the operands and settings of each cycle",
  "Every operator of the library (constants, selections, stackings, products, sums, inverses, comparisons, rotation and pose conversions, "
  "frame changes, convolution in time) gives at each cycle its mathematical value for the operands and the settings of that "
  "cycle, even if only a setting changed. Settings that cannot be honoured are refused and change nothing; operands whose sizes "
  "do not agree, or that fail, stop only their own cycle with an error instead of reading outside the data, and never enter the "
  "memory of the operators that have one. An operator whose settings were never given has a defined value.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of cycles, operands, settings and skipped cycles, with failing, missing, ill-sized, plugged and constant operands",
  "Tests try operands of some of the operators, once; none of them builds in this sandbox.",
  ["src/matrix/operator.hh", "src/matrix/operator.cpp", "src/matrix/vector-constant.cpp", "src/matrix/matrix-constant.cpp"],
  [("operator structs", "src/matrix/operator.hh"), ("UnaryOp / BinaryOp / VariadicOp", "include/sot/core/")])

P("P32", "A meta task command applies as a whole, whatever was commanded before",
  "Building a meta task or position feature, or giving it a command (goto with a pose, gain or selection, keep, change of the operational frame, "
  "posture by limb or joint range) gives the features, references, selections and gains of the graph what the command says, for "
  "poses, frames and values in every accepted form; what the commands do not name stays as it was, in this and in other meta "
  "tasks and in the data of the caller. A reference, frame or limb which cannot be honoured is refused with an error and leaves "
  "the task as it was.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of commands to several meta tasks, poses, limbs, gains and selections in every form, with refused values",
  "No test runs the meta tasks.",
  ["src/dynamic_graph/sot/core/meta_tasks.py", "src/dynamic_graph/sot/core/meta_task_6d.py", "src/dynamic_graph/sot/core/meta_task_posture.py",
   "src/dynamic_graph/sot/core/meta_task_visual_point.py", "src/dynamic_graph/sot/core/meta_tasks_kine.py", "src/dynamic_graph/sot/core/meta_tasks_kine_relative.py",
   "src/dynamic_graph/sot/core/feature_position.py", "src/dynamic_graph/sot/core/feature_position_relative.py"],
  [("gotoNd / generic6dReference", "src/dynamic_graph/sot/core/meta_tasks.py"), ("MetaTaskKinePosture.gotoq", "src/dynamic_graph/sot/core/meta_task_posture.py")])

P("P33", "Showing or logging a robot does not change its motion and shows each motion once",
  "Once a viewer is attached to a robot, each motion or change of state of this robot is executed exactly once and then shown "
  "exactly once, with the name, size and server of this robot, followed by one call of each of its display callbacks, however "
  "often viewers are attached and whatever other robots of the same class do; robots without a viewer are not changed. A motion "
  "that fails is not shown. A viewer that is absent or refuses the connection is replaced by one that does nothing. A log of the "
  "viewer holds one line per update, complete even if the process dies, forwards every update, and removes former logs only.",
  ["histories", "fault_sequences", "crash_points"],
  "all histories of robots, viewers attached, motions, callbacks and logs, with viewers absent, refusing or lost, failing motions and disk faults",
  "No test uses the viewer helpers.",
  ["src/dynamic_graph/sot/core/utils/viewer_helper.py", "src/dynamic_graph/sot/core/utils/viewer_loger.py"],
  [("addRobotViewer", "src/dynamic_graph/sot/core/utils/viewer_helper.py"), ("ViewerLoger.updateElementConfig", "src/dynamic_graph/sot/core/utils/viewer_loger.py")])

P("P34", "Entities answer from their own history, whatever happens around them",
  "What an entity of any class gives for a history of inputs, failures of inputs, commands and readings depends on that history "
  "alone: it is the same when other entities of its class are created, run, made to fail, commanded or deleted in between, when "
  "it is displayed, drawn or listed, and whatever new memory contains. Displaying or drawing an entity never fails, computes "
  "nothing and gives the same text again. Each class offers graphs and scripts its signals, under the name of the entity, and "
  "its commands, with their argument types, which act on this entity.",
  ["histories", "fault_sequences"],
  "all classes of entities, all histories of one entity and all interleavings with operations on others",
  "Tests use one entity at a time, in fresh processes where new memory is mostly zero.",
  ["src/control", "src/factory", "src/feature", "src/filters", "src/matrix", "src/sot", "src/task", "src/tools", "src/traces"],
  [("Entity constructors, signalRegistration and addCommand", "src/"), ("display and writeGraph of entities", "src/"), ("class-wide data: static members and locals", "src/")])

P("P35", "An output follows every input it is computed from",
  "Whenever an input that the value of an output signal depends on changes or starts to fail, and announces it, the output is "
  "not up to date any more: reading it gives what it would give had every other input been announced too, and never the value "
  "of before. This holds for the outputs of every class of entities, with the entities they work with (the features of a "
  "task, the reference of a feature, the tasks of a solver), after any history of commands and cycles.",
  ["histories", "fault_sequences"],
  "all classes of entities, all pairs of output and input, all histories",
  "Tests compute an output once, or at instants for which all inputs are new: a missing dependency between signals does not show.",
  ["src/control", "src/factory", "src/feature", "src/filters", "src/matrix", "src/sot", "src/task", "src/tools", "src/traces"],
  [("addDependency and SignalTimeDependent dependencies of all entities", "src/"), ("FeaturePoint6d::addDependenciesFromReference", "src/feature/feature-point6d.cpp"), ("Task, TaskUnilateral, Sot dependencies", "src/task/task.cpp")])

P("P36", "A cycle whose evaluation fails leaves no trace",
  "When reading an output of an entity fails because one of its inputs has no value or refuses to give one, the entity is as "
  "if this reading had never been asked: all later readings and commands give what they would have given without it. "
  "Excepted are the outputs completed before the failure, which count as read, and entities that exist to run actions of others "
  "(Event, PeriodicCallEntity, Sequencer, RobotSimu): the actions they have run stay done.",
  ["histories", "fault_sequences"],
  "all classes of entities, all histories of cycles, commands and failing inputs",
  "Tests do not make inputs fail between two successful cycles of an entity with memory.",
  ["src/control", "src/factory", "src/feature", "src/filters", "src/matrix", "src/sot", "src/task", "src/tools", "src/traces"],
  [("compute functions of entities with memory: Derivator, Integrator, FIRFilter, SmoothReach, Kalman, MadgwickAHRS", "src/filters"), ("getRef* and computation functions of entities", "src/")])

P("P37", "No output covers up an input it could not read",
  "When an input that an output of an entity is computed from in a cycle fails (its source raises, or a source "
  "further up does), reading the output fails too: no output gives a value made of a default, of the inputs that are left, or "
  "of an earlier cycle as if it were the present one. This holds for the outputs of every class of entities, with the entities "
  "they work with, after any history of commands and cycles.",
  ["histories", "fault_sequences"],
  "all classes of entities, all pairs of output and input, all histories",
  "Tests do not make an input fail; the few that leave an input out only look whether something is thrown at all.",
  ["src/control", "src/factory", "src/feature", "src/filters", "src/matrix", "src/sot", "src/task", "src/tools", "src/traces"],
  [("compute functions of all entities and what they catch", "src/"), ("FeaturePoint6dRelative::computeError", "src/feature/feature-point6d-relative.cpp")])

P("P38", "The order in which outputs are read in a cycle does not matter",
  "In a control cycle each output of an entity has one value: it is the same whichever other outputs of the entity are read "
  "before or after it, and however often it is read, in this cycle and in all later ones, provided the same outputs are read. "
  "Excepted are Event and Latch, whose outputs act when they are read, and cycles with a reading that fails.",
  ["schedules", "histories"],
  "all classes of entities, all orders and repetitions of readings in each cycle of all histories",
  "Tests read one output, once, in one order; a graph reads them in the order its plugs, tracer and periodic calls happen to give.",
  ["src/control", "src/factory", "src/feature", "src/filters", "src/matrix", "src/sot", "src/task", "src/tools", "src/traces"],
  [("compute functions that share members: Kalman, FilterDifferentiator, FeaturePoint6d, FeatureLineDistance, Device", "src/"), ("dependencies of inner signals", "src/")])

P("P39", "A refused command changes nothing",
  "A command of an entity that is refused (an argument out of range, of the wrong size or of no meaning, an unknown name, a "
  "step asked for out of turn) leaves the entity and those it works with as if it had never been asked: all later readings, "
  "commands and getters give what they would have given without it. This holds for the commands of every class of entities.",
  ["histories", "inputs", "fault_sequences"],
  "all classes of entities, all commands, all arguments and histories",
  "Tests give commands valid arguments; the few that try others look at the error, not at what is left behind.",
  ["src/control", "src/factory", "src/feature", "src/filters", "src/matrix", "src/sot", "src/task", "src/tools", "src/traces"],
  [("commands of all entities (addCommand)", "src/"), ("FeatureAbstract::setReferenceByName, Sot::push and up/down, ParameterServer and Device setters", "src/")])

P("P40", "Matrix and vector conversions between Python and native layouts are exact",
  "Converting a matrix or vector to and from its Python tuple form, and between rotation conventions, preserves its "
  "value for every input.",
  ["inputs"], "all matrices and vectors",
  "The tests convert a few constants.",
  ["src/dynamic_graph/sot/core/matrix_util.py"], [("matrix_util conversions", "src/dynamic_graph/sot/core/matrix_util.py")],
  na="Pure functions of their arguments: no schedule, time, I/O, failure or history for a simulator to control.")

P("P41", "How long the control has been running does not matter",
  "An entity that lives through the same history of inputs, failures, commands and readings gives the same values and the same "
  "answers whether this history begins in the first cycles of the control or weeks later: nothing but what is asked to show the "
  "time depends on the absolute number of the cycle (entities that act every n-th cycle keep their phase when the delay is a "
  "multiple of n), and nothing loses accuracy or is skipped as this number grows.",
  ["histories", "fault_sequences"],
  "all classes of entities, all histories, all numbers of the first cycle up to 2 000 000 000 (23 days at 1 kHz)",
  "Tests begin at cycle zero or one and run a few cycles.",
  ["src/control", "src/factory", "src/feature", "src/filters", "src/matrix", "src/sot", "src/task", "src/tools", "src/traces"],
  [("uses of the time in compute functions: SmoothReach, CoMFreezer, TaskConti, GripperControl, TimeStamp", "src/"), ("PeriodicCall::run, Sequencer::trigger", "src/tools")])

P("P42", "Error objects carry the code, message and parameters they were raised with",
  "Each error raised by the library reports exactly the code and message text given when it was raised, whatever the "
  "formatting arguments.",
  ["inputs"], "all codes, messages and arguments", "Tests raise one error each.",
  ["src/exception/exception-abstract.cpp"], [("ExceptionAbstract and derived constructors", "src/exception/")],
  na="Pure construction and formatting of a value: nothing for a simulator to schedule or fault.")

P("P43", "A regulated robot moves as its tasks ask, and gets there once faults stop",
  "When a simulated robot is driven by a stack of tasks built from the features, operators and gains of the library, each cycle whose "
  "inputs are available moves it by exactly the velocity that the tasks ask for at that moment with strict priorities (with the "
  "references, gains, selections, order of the stack and state last commanded), a cycle that fails moves nothing, commands that are "
  "refused change nothing, and once faults have stopped the cycles succeed and the motion converges: within 90 cycles the first task "
  "is achieved and no task asks for any motion.",
  ["histories", "fault_sequences"],
  "all histories of references, gains, selections, stack commands, states, failing inputs and refused commands",
  "Tests evaluate one entity at a time with constant inputs; none closes the loop.",
  ["src/tools/device.cpp", "src/tools/robot-simu.cpp", "src/sot/sot.cpp", "src/task/task.cpp", "src/task/gain-adaptive.cpp", "src/feature/feature-generic.cpp", "src/feature/feature-posture.cpp", "src/matrix/operator.cpp", "src/matrix/matrix-constant.cpp"],
  [("Device::increment, Device::integrate", "src/tools/device.cpp"), ("Sot::computeControlLaw", "src/sot/sot.cpp"), ("Task::computeTaskExponentialDecrease, Task::computeJacobian", "src/task/task.cpp"), ("FeatureGeneric, FeaturePosture", "src/feature")])
