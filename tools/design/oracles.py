ORACLE = {
"C01": "long-double dense Gaussian elimination of the same circuit, and Kirchhoff's law per node from each link's own law and reported flux",
"C02": "union-find of non-zero conductances; node by node comparison of identical networks under OFF/FIND/SOLVE",
"C03": "twin network with shuffled links and renumbered nodes",
"C04": "a reference state machine of the documented protocol fed with the recorded votes of scripted non-linear links; event log of minor steps, resets and confirmations",
"C05": "injected faults (NaN, exceptions, singular matrices, limits); after the fault, comparison with a network that never failed",
"C06": "per mode promises (PAUSE changes nothing, SLAVE imposes, DUMMY leaves nodes) and circuit laws for the first normal step after any mode sequence",
"C08": "fresh network built with the final wiring; legality rules as documented",
"C09": "dense solve of the query; bit comparison of a twin that did not query",
"C10": "dense solve with the node pinned; other islands bit-unchanged",
"C11": "the link's own law scaled by (1-b); unblocked twin",
"D01": "rotation matrices composed from elementary rotations; Newton-Euler equations in long double; conservation of momentum and energy by integration",
"E01": "each element's law recomputed from solved terminal potentials",
"E02": "state machine of limits/trips and power balance across the converter",
"E03": "reference priority model of commands, malfunctions and trips",
"E04": "amp-hour ledger and interpolation of the cell tables",
"E05": "array curve recomputed from documentation, exact Lambert W inverse; power balance across regulators",
"E06": "power/voltage law per load; sums over cards; state model of switches and supplies",
"F01": "ledger of mass, species and trace compounds over all nodes and boundaries",
"F02": "ledger of enthalpy with reported heat; temperature extremes",
"F03": "validity predicates on every node after every step",
"F04": "spy links counting transports; ledgers per step",
"F05": "per node balance from flows and upstream states recorded before the step",
"F06": "ideal gas law / table inverse; exact edit targets",
"F07": "validity ranges, monotonicity and inverse round trips of all property tables and fits; chemical constants from first principles where defined",
"F08": "long-double mixing ledger of every operation on fluids",
"F09": "published correlations (Colebrook, Nusselt forms), conservation and exchange symmetry",
"F10": "flow area/conductance law from position and malfunctions; sensor truth",
"F11": "reference state machine from set points, hysteresis and malfunctions",
"F12": "heat and species ledgers; effectiveness law; dew point bounds",
"F13": "curve interpolation and affinity laws evaluated at the observed operating point; shaft and motor balance",
"F14": "species ledger across the device and its two sides; isotherm/efficiency law",
"F15": "gas law + geometry (bellows/balloon), ledger of inflows and edits",
"F16": "demand ledger per species and energy, respiratory quotient and fire stoichiometry",
"F17": "species/energy ledgers across devices; stoichiometry; Toth isotherm and LDF rate recomputed",
"F18": "device laws recomputed: nozzle relations, power curves, calibrated effective conductances",
"H01": "event log of producers/consumers checked for exactly-once and per-producer order; ThreadSanitizer",
"H02": "reference filter and file contents predicted from what was sent",
"L01": "twin run: the same case executed with and without a restart of the whole network between two steps; every potential, content and temperature afterwards must agree",
"M01": "residual and dense reference, definiteness decided by long-double LDL",
"M02": "sign change bracketing of the true root, inverse identity",
"M03": "definition recomputed in long double; poles by Sturm/sampling",
"M04": "definition in long double, inverse pairs, angle ranges",
"M05": "exact geometric predicates in long double with tangency margins",
"M06": "definitions of units from SI/US survey constants, reciprocal pairs, calendar arithmetic, stoichiometric equilibrium ledgers",
"N01": "flat twin of the composed network",
"N02": "reference model of plugs: exclusive, ordered, reversible",
"N03": "recorded trajectory of the network, written files parsed back",
"N04": "ledger over two sites plus transport with latency; loss-free comparison with data sent",
"N05": "demand, limits and supply pair ledgers",
"N06": "ledger of minor steps seen by a probe link against the written files and debug arrays; twin without logging",
"O01": "exhaustive record of every state tried and its cost; range, constraint and best-of-history predicates",
"P01": "round trip of generated documents and an independent parser",
"S01": "reference sensor: bias, scale, drift, noise range, resolution, limits, faults in documented order",
"S02": "reference controller integrating commands",
"S03": "control laws recomputed",
"T01": "heat ledger per element and network; laws recomputed from node temperatures",
"T02": "twin network built by calls from the data that generated the files",
"T03": "heat ledger with phase fraction; device equations recomputed from node temperatures",
}
