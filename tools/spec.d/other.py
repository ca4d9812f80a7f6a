DY = "aspects/dynamics/"
P("D01", "Rigid bodies move, spin and orient as mechanics says",
  "Euler angles of all six sequences, quaternions and rotation matrices describe the same attitude and invert each other, also near their singularities; vector and matrix helpers are exact. A rigid body with any mass, inertia and offset center of mass accelerates and spins up as Newton and Euler demand from its active forces (at their locations) and torques: without them its momentum, angular momentum about the center of mass and kinetic energy stay, with them they change by the impulse, moment and work done; changed mass properties act at once; the quaternion stays normalized; bad mass properties are refused.",
  ["inputs", "histories"], "all attitudes, sequences, mass properties, offsets, spins, force and torque sets and step sizes", "Tests compare single states with recorded numbers, and check the equations of an offset body only against themselves.",
  [DY + f for f in ("GunnsDynSingleRigidStateDeriv.cpp", "GunnsDynSingleRigidEom.cpp", "GunnsDynSingleRigidMassProps.cpp", "GunnsDynUtils.cpp", "GunnsDynEulerBase.cpp", "GunnsDynEulerFactory.cpp", "GunnsDynEuler123.cpp", "GunnsDynEuler321.cpp")] + ["ms-utils/math/linear_algebra/CholeskyLdu.cpp"],
  [("attitude", "GunnsDynEuler*, GunnsDynUtils"), ("accelerations", "GunnsDynSingleRigidStateDeriv::buildAdmittanceMatrix, buildSourceVector"), ("motion", "GunnsDynSingleRigidEom::derivative, integrate, updateState")],
  ["accelerations, quaternions, angles and matrices, and momenta and energy along trajectories integrated by the driver"], [D("d_dyn", 40000, 800000, 800)],
  "The simulation's integrator is an interface double (Euler and Runge-Kutta). Inertia tensors with positive products are refused by the model.")
OP = "core/optimization/"
P("O01", "Optimizers try only allowed states and keep the true best",
  "Every state an optimizer tries lies in its inputs' ranges and meets their constraints; a particle swarm launches particles times epochs runs, matches results to runs by id in whatever order they return, refuses unknown ones, moves particles by its published law with limited velocity, and its global and personal bests are exactly the lowest costs ever returned with the states that gave them; the same seed repeats a run, and a restart from its state file continues it, also after runs that diverged. A gradient descent probes one input at a time and steps along descending directions only. A slave run drives and scores its model by trajectory or scalar targets and weights and returns its own id. Histories have a row per epoch. Bad configurations, roles and files are refused.",
  ["inputs", "histories", "schedules"], "all dimensions, ranges, configurations, cost functions, result orders, lost results, constraints and restart chains", "Tests step two particles through one fixed epoch.",
  [OP + f for f in ("GunnsOptimMonteCarlo.cpp", "GunnsOptimParticleSwarm.cpp", "GunnsOptimGradientDescent.cpp", "GunnsOptimBase.cpp", "GunnsOptimFactory.cpp", "GunnsOptimMonteCarloTypes.hh")],
  [("swarm", "GunnsOptimParticleSwarm::update, propagateSwarm, assignCost, readFileSwarmState, shutdown"), ("descent", "GunnsOptimGradientDescent::update, propagateState, setGradientStates"), ("roles", "GunnsOptimMonteCarlo::updateMasterPre, updateMasterPost, updateSlaveOutputs, updateSlavePost"), ("constraints", "GunnsOptimBase::constrainInputs")],
  ["every state published to the model, costs and ids exchanged, bests, and the files written"], [D("d_optim", 40000, 500000, 8000)],
  "Trick's Monte Carlo buffers are replaced by the library's own stand-ins. A result that never returns is tried only after the first epoch; results of one epoch return before the next begins, as the library's scripts arrange.")
HS = "ms-utils/simulation/hs/"
P("H01", "Status messages from any thread reach the log exactly once",
  "The message queue is a bounded first-in first-out store: removals return whole messages in order, an overflow drops exactly the oldest and is counted, a resize keeps the newest. With any number of sending threads and with the helper thread, freeze and shutdown draining at the same time, every message is delivered exactly once or counted as overflow or lock failure, a sender's messages keep their order, a blocking queue loses none, nothing stays behind at shutdown, and no two threads race on shared state.",
  ["schedules", "histories"], "all operation sequences, capacities, thread counts and interleavings reached under random delays", "Tests use one thread and a queue of a few messages.",
  [HS + f for f in ("TsHsMsgQueue.cpp", "TsHsStdMngr.cpp", "TsHsMsgStdFilter.cpp", "TsHsTextPlugin.cpp", "TsHsConsolePlugin.cpp")],
  [("queue", "TsHsMsgQueue::insertMsg, removeMsg, reallocQueue"), ("threads", "TsHsStdMngr::inputOutputThread, freeze, shutdown, processQueueNode")],
  ["every message removed or logged, the loss counters, and data race and memory reports"], [D("d_hs", 20000, 300000, 4000), D("d_hs", 1500, 20000, 300, config="tsan")],
  "Real threads on eight cores with random yields, spins and sleeps; interleavings are sampled, not enumerated. The simulation environment's message publisher is a recording stand-in.")
P("H02", "The status log holds what was sent and nothing filtered",
  "The redundancy filter passes a message at most the set number of times per interval, always passes one not in its history, forgets the oldest when the history is full, honours type filters and counts what it saw and suppressed. Messages sent through any C or C++ entry point appear in the log and console once, in order, with severity, subsystem (12 characters), mission time, UTC time, location and text, at once or when the queue drains; disabled outputs stay silent, an unusable file is reported, time-stamped logs keep old ones through restarts. Configuration files are read field by field or refused, environment overrides apply; only fatal messages of listed subsystems ask for termination.",
  ["inputs", "histories"], "all message sequences, filter settings, output configurations, configuration files and cuts", "Tests filter a handful of messages and never read the log back.",
  [HS + f for f in ("TsHsMsgStdFilter.cpp", "TsHsMsgFilter.cpp", "TsHsStdMngr.cpp", "TsHsTextPlugin.cpp", "TsHsConsolePlugin.cpp", "TsHsConfig.cpp", "TsHsTermination.cpp", "TsHsMsg.cpp", "TsHsMsgWrapper.cpp", "TS_hs_msg.cpp", "TsHsOutputPlugin.cpp")],
  [("filter", "TsHsMsgStdFilter::shouldSendMessage, purgeMessages"), ("log", "TsHsTextPlugin::msg, TsHsStdMngr::msg"), ("configuration", "TsHsConfig::getConfigInfo, loadConfigFile"), ("termination", "TsHsTermination::msg")],
  ["each decision of the filter, the log files and console output, configuration fields and termination requests"], [D("d_hs", 40000, 600000, 12000)],
  "The database output is not built by the manager and is not covered. Times do not run backwards, as the filter requires.")

P("L01", "A restart between steps changes nothing the network holds",
  "Restarting a network of any link classes from its checkpointed state between two steps leaves every node potential and every node's pressure, temperature, mass, mixture and trace compounds as they were, and the steps that follow give the same potentials, contents and link fluxes as without the restart. Excluded, as the classes declare them not checkpointed: moved ports (return to their default), commands, edits and tuning modes in progress, inputs the simulation refreshes (external heat), terms that lag one pass (filtered turbine drop, hot reactor temperature, bed loading, accumulator zone, slurper flow, last valve coefficient), and choices among several solutions (converters, power supplies, array regulators).",
  ["histories", "crash_points"], "all networks of the benches (valves, pumps, tanks, reactors, beds, sources, exchangers, conductors, thermal and electrical elements), states, histories and restart steps", "Tests call restart on single links and look at single terms, never at the network's next steps.",
  ["core/Gunns.cpp", "core/GunnsBasicLink.cpp", "core/GunnsFluidNode.cpp", "core/GunnsFluidLink.cpp", "aspects/fluid/*", "aspects/electrical/*", "aspects/thermal/*"],
  [("network restart", "Gunns::restart, initializeRestartCommonFunctions"), ("link restart", "GunnsBasicLink::restart, restartModel of every link class"), ("node restart", "GunnsFluidNode::restart, GunnsThermalNode")],
  ["node potentials and contents and link fluxes of twin runs, one of them restarted"],
  [D("d_valve", 1200, 40000, 6000), D("d_pump", 1200, 40000, 4000), D("d_tank", 1200, 40000, 4000), D("d_react", 1200, 40000, 4000), D("d_sorb", 1200, 40000, 6000), D("d_source", 1200, 40000, 2000), D("d_hx", 1200, 40000, 5000), D("d_flow2", 1200, 40000, 3000), D("d_therm", 1200, 40000, 4000), D("d_elect", 1200, 40000, 2500), D("d_eload", 1200, 40000, 1500), D("d_epow", 1200, 40000, 1000)],
  "Twin runs of the cases of the other properties, seed for seed; the checkpoint itself (which variables the simulation environment saves) is assumed to restore what the classes do not mark as excluded. Tolerance 1e-6 of each kind of quantity's scale per step.",
  technique="runtime monitoring: differential twin runs with an injected restart")
