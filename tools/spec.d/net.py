NET = "core/network/"
P("N01", "A composed super network behaves exactly like the equivalent flat network",
  "Sub-networks, joints and merged super networks composed in any order into one super network get disjoint node ranges in its node list, initialize exactly once, and from then on give the same potentials, fluxes and fluid states as one flat network of the same links; adding a network twice, adding null, late additions and double joins change nothing or are refused; each sub-network's spotters step exactly once before and after every update, sub-networks never update or restart on their own, and with the mutex enabled no reader holding it sees a half finished update.",
  ["histories", "schedules", "inputs"], "all compositions, add orders, joints, merges, steps, restarts and reader threads", "Tests compose two or three fixed networks and never compare them with a flat network.",
  [NET + "GunnsNetworkBase.cpp", NET + "GunnsSuperNetworkBase.cpp", NET + "GunnsMultiLinkConnector.cpp", NET + "GunnsBasicSuperNetwork.cpp", NET + "GunnsFluidSuperNetwork.cpp"],
  [("composition", "GunnsSuperNetworkBase::addSubNetwork, joinLocations, mergeSubNetworks, registerSuperNodes"), ("spotters and mutex", "GunnsNetworkBase::update")],
  ["node offsets and counts", "potentials, fluxes and fluid states of both networks", "spotter call log", "reads under the mutex"],
  [D("d_net", 8000, 300000, 2000), D("d_net", 300, 4000, 20, config="tsan")], "Up to 5 sub-networks of 5 nodes plus joints; joins are made within the final super network (merging leaves existing joints behind, see DESIGN).")
P("N02", "Sockets and jumpers follow the plug protocol: exclusive, ordered, reversible",
  "Through any history of connect, disconnect and direct requests (including invalid ones), blockage and restarts, a socket holds at most one plug, a plug is in at most one of its sockets, only free listed sockets accept a plug, rejected requests change nothing, a disconnected plug leaves its jumper on the documented node, and the jumper's end moves to the socket's node exactly while it is plugged, so network flow goes through connected sockets only.",
  ["histories", "inputs"], "all request histories over several plugs and shared sockets, basic and fluid", "Tests walk one fixed plug sequence.",
  ["core/GunnsBasicSocket.cpp", "core/GunnsBasicJumper.cpp", "core/GunnsBasicJumperPlug.cpp", "core/GunnsFluidSocket.cpp", "core/GunnsFluidJumper.cpp", "core/GunnsFluidJumperPlug.cpp"],
  [("plug protocol", "GunnsBasicJumperPlug::update"), ("node mapping", "GunnsBasicJumper::updateState, GunnsBasicSocket")], ["plug, socket and jumper state and ports after every step", "network flows"], [D("d_net", 8000, 300000, 1000)], "Up to 5 sockets and 3 jumpers; oracle is an independent model of the documented protocol.")
P("N03", "Network spotters report exactly what the network did",
  "After every step, for any network, island mode and attached node: island analyzers report exactly the nodes connected to the attached node, their totals (net flux, mass, volume, energy, constituent and trace compound masses) and the nodes holding the highest and lowest values, and nothing when detached; volume monitors report the monitored port's node and keep their port in range; flow integrators accumulate each species' mass exactly once, so their sums equal each tank's change of content. Bus queue helpers return the latest, sum, average and pulse of the whole queue.",
  ["inputs", "histories"], "all networks, flows, attached nodes, ports and queues", "Tests use a fixed three node network and one step.",
  ["core/GunnsBasicIslandAnalyzer.cpp", "core/GunnsFluidIslandAnalyzer.cpp", "core/GunnsFluidFlowIntegrator.cpp", "core/GunnsFluidVolumeMonitor.cpp", "ms-utils/software/SimBus/SimBusQutils.cpp"],
  [("island reports", "GunnsBasicIslandAnalyzer::analyze, GunnsFluidIslandAnalyzer::analyze"), ("integration", "GunnsFluidFlowIntegrator::stepPostSolver"), ("monitor", "GunnsFluidVolumeMonitor::stepPostSolver"), ("queues", "SimBusQutils")],
  ["spotter outputs, node contents and link flows each step"], [D("d_spot", 8000, 300000, 2000)], "The per-tank ledger is judged where no node is drawn below zero.")
P("N05", "Flow controllers meet their demand within limits and supply pairs lose nothing",
  "A flow controller never exceeds what its maximum conductivity and blockage allow, never pushes flow against the potential drop, shuts when the drop reverses unless reverse control is on, and otherwise delivers the commanded (or failed) flow: at the previous drop in linear mode, settled in non-linear mode and through its filter. An external supply draws from its network exactly the flux its demand counterpart took (the average of all queued demands), and returned fluid arrives with its species, trace compounds and energy; both report their node's true state and refuse ports that would break their ground rule.",
  ["inputs", "histories", "schedules"], "all networks, commands, failures, blockages, exchange rates and flow directions", "Tests call single steps with fixed numbers.",
  ["core/GunnsBasicFlowController.cpp", "core/GunnsFluidFlowController.cpp", "core/GunnsBasicExternalSupply.cpp", "core/GunnsBasicExternalDemand.cpp", "core/GunnsFluidExternalSupply.cpp", "core/GunnsFluidExternalDemand.cpp"],
  [("controllers", "GunnsBasicFlowController::updateState, GunnsFluidFlowController::updateState"), ("supply and demand", "GunnsFluidExternalSupply::step, GunnsFluidExternalDemand::processOutputs, GunnsBasicExternalSupply::processInputs")],
  ["link flows", "node contents of both networks", "published interface data"], [D("d_spot", 8000, 300000, 2000)], "The fluid controller is judged at clear pressure drops between tanks of one mixture, on converged steps.")

P("N04", "Distributed interfaces keep their roles and lose nothing between two sites",
  "Two sites joined by a lagged pair of fluid or electrical buses settle, without further role changes, into one demand and one supply side (the supply being the side with the larger fluid capacitance, within the moding ratio, or the higher available voltage); a forced side never changes role; each side is given exactly the state the other one set, only when that data is valid and the roles are complementary, and a setter for the wrong role is refused. Frame counts, loop latency and the demand limit follow their definitions. Two fluid networks joined by interface links exchange exactly the moles, species, trace compounds and energy that the demand side reported; two electrical networks joined by interface links show the supply voltage at the demand side's boundary and the supply side draws exactly the power the demand side took. A fluid shadow link holds its node at the pressure, temperature and mixture given to it in another network's types and units, for as long as they are given, only while it is commanded to, with the mass that state has in the node's volume, and reports its node's own state in the chosen units.",
  ["inputs", "histories", "schedules"], "all lags, capacitances, mixtures and units, mixture sizes, supplies, forced roles and exchange histories", "Tests call the methods once each on one bus and one link; no test runs a pair of sites with lag.",
  ["core/GunnsFluidDistributedIf.cpp", "core/GunnsFluidShadow.cpp", "ms-utils/interop/Distributed2WayBusBase.cpp", "ms-utils/interop/Distributed2WayBusFluid.cpp", "ms-utils/interop/Distributed2WayBusElect.cpp", "aspects/electrical/PowerBus/GunnsElectDistributedIf.cpp"],
  [("roles", "Distributed2WayBusFluid::flipModesOnInput, flipModesOnCapacitance, Distributed2WayBusElect::update"), ("exchange", "Distributed2WayBusFluid::getFluidState, getFlowState, computeDemandLimit"), ("links", "GunnsFluidDistributedIf::processInputs, step, transportFlows, processOutputs, GunnsElectDistributedIf::updateInterface, GunnsFluidShadow::processInputs, processOutputs")],
  ["bus roles, frame counts and delivered data", "contents of both networks"], [D("d_dist", 8000, 300000, 2000)], "Role exclusivity is judged when neither or both sides are forced; trace compounds are not judged when the net inflow's moles and trace have opposite signs (the library clamps those).")

P("N06", "The minor step log and debug arrays report exactly what the solver did",
  "While recording, the solver's minor step log keeps the latest minor steps up to its size, and the file it writes holds one row for each, oldest first, with the step numbers, decompositions, result, every node's potential and convergence, and every link's result, admittance and source exactly as they were in that minor step, under a header naming the network's own nodes and links. It follows its commands (pause, record, automatic and commanded snapshots), writes a file by itself only after a step that did not succeed, never logs while paused, and never changes the solution; the debug slice and debug node arrays hold the asked-for matrix entries and potentials.",
  ["inputs", "histories"], "all networks, log sizes, command and resize histories, step outcomes and file write delays", "Tests drive the log object by hand with made-up numbers; no test compares a log with the network that wrote it.",
  ["core/GunnsMinorStepLog.cpp", "core/Gunns.cpp"],
  [("log", "GunnsMinorStepLog::beginMajorStep, step, recordLinkContributions, renderOutput, initiateDump"), ("solver", "Gunns::iterateMinorSteps, saveDebugAdmittance, saveDebugNode")],
  ["log files", "debug arrays", "node potentials and link contributions seen by a probe link"], [D("d_log", 4000, 150000, 800)], "Rows of aborted solutions (decomposition limit, failed factorisation) are judged by their numbers and result only; the log is not resized while a file is waiting to be written.")
