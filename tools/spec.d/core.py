LAW = [("solver", "core/Gunns.cpp Gunns::buildAndSolveSystem"), ("LDU decomposition", "ms-utils/math/linear_algebra/CholeskyLdu.cpp"), ("flow orchestration", "core/GunnsBasicFlowOrchestrator.cpp")]
BASICF = ["core/Gunns.cpp", "core/GunnsBasicLink.cpp", "core/GunnsBasicNode.cpp", "core/GunnsBasicConductor.cpp", "core/GunnsBasicCapacitor.cpp", "core/GunnsBasicSource.cpp", "core/GunnsBasicPotential.cpp"]
OBS = ["node potentials and fluxes, link fluxes, powers and potential drops after each step"]
P("C01", "Every solved step satisfies the circuit laws at every node and in every link",
  "After every successful step of a basic network, each node in a grounded island has equal inflow and outflow, every conductor, potential source, flux source and capacitor carries exactly the flux its law gives for the node potentials and its present parameters, and node potentials equal the unique solution of the network equations (ground stays at zero). Reported node influx, outflux, net flux and through flux, and link power and potential drop, agree with those fluxes.",
  ["inputs", "configurations", "histories"], "all network topologies (including islands, zero conductances, blocked links), parameters, time steps, and histories of parameter and wiring changes",
  "Unit tests solve a few hand-built networks with 1-4 nodes once; the guarantee is over every topology, conductance spread and history of partial matrix updates.",
  BASICF + ["ms-utils/math/linear_algebra/CholeskyLdu.cpp", "ms-utils/math/linear_algebra/Sor.cpp"], LAW, OBS, [D("d_solver", 6000, 200000, 1000)],
  "Random networks of up to 60 nodes; potentials compared with a long-double dense solve; conductances within 1e-6..1e6.")
P("C02", "Island modes do not change solutions; reported islands are the connectivity",
  "For every network and history, running with island mode off, finding islands or solving by islands (or switching between them) gives the same potentials and fluxes in every grounded island. When islands are tracked, the island of each node is exactly the set of nodes connected to it through nonzero conductances, and the island count is the number of such sets.",
  ["configurations", "histories"], "all topologies, island splits and merges by conductance changes or rewiring, and mode switches", "Tests check the island modes on one fixed network.",
  ["core/Gunns.cpp"], [("island search", "Gunns::buildIslands, Gunns::mergeIslands"), ("island decomposition", "Gunns::buildAndSolveSystem")], OBS + ["node island vectors"], [D("d_solver", 6000, 200000, 1000)],
  "Networks up to 22 nodes in four variants per case.")
P("C03", "The solution does not depend on link order or node numbering",
  "Listing the same links in any other order, or numbering the same nodes differently, gives the same potentials, fluxes and port-assignment verdicts through the same history of changes.",
  ["configurations", "histories"], "all permutations of links and nodes and all histories of parameter and port changes", "Tests use one fixed order.",
  BASICF, LAW, OBS, [D("d_solver", 6000, 200000, 1000)], "Two random permutations per case, up to 22 nodes.")
P("C04", "Non-linear steps follow the iterate, confirm, reject, delay protocol exactly",
  "In each major step every link is told to process inputs, then stepped once; each later minor step calls only non-linear links once with the right index (and none after a delay), solves for their present contributions, and asks each of them exactly once to confirm with the right counts. A step succeeds only if the potentials changed by no more than the tolerance and every non-linear link confirmed; a rejection restores the last accepted minor solution in nodes and links and tells every non-linear link; a delay re-asks without re-solving. Flows and outputs are computed once per link only after success; otherwise the previous major step's potentials are restored, no flux moves, and the failure is counted. After a step with imposed (SLAVE) potentials, those are the state the next step starts from and returns to.",
  ["histories", "schedules"], "all sequences of link verdicts and conductance changes, minor step limits and tolerances", "The tests drive a mock link through a handful of scripted verdict sequences.",
  ["core/Gunns.cpp", "core/GunnsBasicLink.cpp"], [("minor step loop", "Gunns::iterateMinorSteps"), ("convergence and confirmation", "Gunns::checkSystemConvergence, Gunns::confirmSolutionAcceptance"), ("roll back", "Gunns::resetToMinorPotentialVector, Gunns::resetToMajorPotentialVector")],
  ["calls received by spy links", "node and link potentials at each call"], [D("d_proto", 8000, 300000, 300)], "Call logs of spy links judged by an automaton; up to 40 minor steps.",
  technique="runtime monitoring: call-trace automaton over spy links in the real solver")
P("C05", "A failed or aborted step never corrupts later steps",
  "After any step that does not converge, hits the decomposition limit, or ends in an exception from the solver or from a link, or in a nonlinear network whose solution is not a number (never accepted as converged), node potentials are those before the step when the step reports failure, no flows are computed, and the next step whose links are well posed converges to the solution of the links' contributions at that time.",
  ["fault_sequences", "histories"], "all sequences of good steps and injected failures", "Tests check one failure at a time and never the steps after it.",
  ["core/Gunns.cpp"], [("failure handling", "Gunns::step, Gunns::iterateMinorSteps"), ("rebuild flag", "Gunns::buildAndSolveSystem")], ["node potentials, fluxes and residual of the links' contributions"], [D("d_proto", 8000, 300000, 300)],
  "Five fault kinds injected at random in networks up to 8 nodes.", technique="runtime monitoring with fault injection in spy links")
P("C06", "Run and solver modes keep their promises and leave no trace afterwards",
  "A paused network changes nothing; in slave mode the imposed potentials appear on all nodes and flows follow them; in dummy mode node potentials stay as they were; and the first normal step after any sequence of these modes (and of switching the iterative solver on and off) satisfies the circuit laws for the links' present parameters.",
  ["histories", "configurations"], "all interleavings of modes and parameter changes", "Tests check each mode separately on one network, never the return to normal.",
  ["core/Gunns.cpp"], [("mode handling", "Gunns::step, Gunns::buildAndSolveSystem, Gunns::overridePotential, Gunns::outputPotentialVector")], OBS, [D("d_solver", 8000, 200000, 1000)], "Linear networks up to 14 nodes.")
P("C08", "Ports can be moved at any time, only legally, and leave no residue",
  "A port move is accepted exactly when the port and node exist, the link's ports are not locked, and no other port of the link is on the same non-ground node; a refused move changes nothing. After any sequence of moves the network solves as one freshly built with that wiring, and a restart returns every unlocked link to its original wiring.",
  ["histories", "inputs"], "all sequences of legal and illegal port commands on all wirings", "Tests move one port of one unconnected link.",
  ["core/GunnsBasicLink.cpp", "core/Gunns.cpp"], [("port assignment", "GunnsBasicLink::setPort, checkPortRules, checkPortDuplication, updateAdmittanceMap"), ("restart", "GunnsBasicLink::restart")], OBS + ["link node maps"], [D("d_solver", 6000, 200000, 1000)], "Two-port links in networks up to 10 nodes.")
P("C09", "Network capacitance queries are accurate and free of side effects",
  "When a node requests its network capacitance, the value reported after the step is the time step times the test flux over the magnitude of the potential change that flux would cause there, the reported potential change of every other node matches too, the request is consumed, nodes without a request report zero, and the step's solution is the same as without requests.",
  ["inputs", "histories"], "all networks and sets of requests", "Tests query one node of one network.", ["core/Gunns.cpp", "core/GunnsBasicNode.cpp"], [("perturbation", "Gunns::perturbNetworkCapacitances, Gunns::computeNetworkCapacitances")],
  ["node network capacitance, delta potentials, potentials"], [D("d_proto", 8000, 200000, 1000)], "Compared with an independent perturbed long-double solve; networks up to 14 nodes.")
P("C10", "Port potential overrides hold their value and do not leak to other islands",
  "While a link overrides the potential at a port, the node there shows exactly that value after every step (ground cannot be overridden), every link's flux follows the overridden potentials, nodes in islands without an override keep their solution, and clearing the override restores the ordinary solution on the next step.",
  ["histories"], "all sequences of setting and clearing overrides on all networks", "Tests check a single override in one network.", ["core/Gunns.cpp", "core/GunnsBasicLink.cpp"], [("override", "Gunns::overridePotential, GunnsBasicLink::setPortOverride, resetPortOverride")], OBS, [D("d_solver", 6000, 200000, 1000)], "Networks up to 12 nodes.")
P("C11", "The blockage malfunction scales flow capacity exactly and monotonically",
  "A blockage of fraction b multiplies the conductance of a conductor or potential link, or the flux of a source, by exactly 1-b; more blockage never increases the magnitude of the link's flow, full blockage gives exactly zero flow, and clearing it restores the original solution.",
  ["inputs", "histories"], "all networks, links and blockage values", "Tests check one blockage value per link class in isolation.", ["core/GunnsBasicConductor.cpp", "core/GunnsBasicPotential.cpp", "core/GunnsBasicSource.cpp"], [("blockage", "GunnsBasicConductor::step, GunnsBasicSource::step")], OBS, [D("d_solver", 6000, 200000, 1000)], "Basic links in networks up to 10 nodes.")
