TH = "aspects/thermal/"
P("T01", "Thermal networks conserve heat through every element",
  "In any thermal network, at every converged step, each capacitor stores exactly the heat its temperature change times capacitance takes (including external fluxes and heat queues, each queue entry counted once), conductors and radiation links carry what their conductance, view scalar and blockage give for their temperatures, sources, heaters, panels and multi-panels deliver their power, scaled and absorbed as configured and shared among their nodes by their fractions, boundaries hold their temperature through their conductance, and temperature and flux overrides hold until reset. Each node's heat flows balance, reported fluxes agree with the system of equations, and nothing becomes non-finite.",
  ["inputs", "histories"], "all networks of these elements, external fluxes, queues, blockages, overrides and step sizes", "Tests call single links with assigned potentials and compare with the same formula.",
  [TH + "GunnsThermalCapacitor.cpp", TH + "GunnsThermalCapacitorHeatQueues.cpp", TH + "GunnsThermalRadiation.cpp", TH + "GunnsThermalSource.cpp", TH + "GunnsThermalHeater.cpp", TH + "GunnsThermalPanel.cpp", TH + "GunnsThermalMultiPanel.cpp", TH + "GunnsThermalPotential.cpp"],
  [("capacitors", "GunnsThermalCapacitor::buildCapacitance, GunnsThermalCapacitorHeatQueues"), ("radiation", "GunnsThermalRadiation::step"), ("sources", "GunnsThermalSource, GunnsThermalHeater, GunnsThermalPanel, GunnsThermalMultiPanel")],
  ["temperatures, link fluxes and system contributions at every step", "node fluxes", "queue contents"], [D("d_therm", 16000, 400000, 15)], "Overlapping overrides of one node and runaway temperatures of unbounded networks are not judged.")
P("T02", "A thermal network built from files is the network the files describe",
  "A thermal network configured from node, conduction, radiation, source, heater, panel and potential files has exactly the links, values, names, fractions, groups and initial temperatures the files give, skipping malformed entries, and behaves at every step like the same network built link by link, alone or as a sub-network of a super-network, under capacitance edit groups, heater miswiring, heater powers, panel fluxes and view scalars, and across preload, restart.",
  ["inputs", "histories"], "all generated network files, malformed entries, edits and super networks", "Tests load one fixed set of files and check counts and a few values.",
  [TH + "network/ThermalNetwork.cpp", TH + "network/ThermFileParser.cpp"],
  [("parsing", "ThermFileParser::initialize and parse functions"), ("network", "ThermalNetwork::buildConfig, buildInput, initNetwork, updateHtr, editCapacitance")],
  ["link counts, names, initial state", "temperature of every node at every step against the reference network"], [D("d_therm", 6000, 60000, 12, case_limit=60)], "Radiation between nodes at equal temperature up to round-off ends a case (its coefficient is the known finding of T01).")
P("T03", "Phase change batteries and thermoelectric devices balance heat and electricity",
  "A phase change battery in a single phase stores heat by its structure and the heat capacity of that phase; while changing phase it stays at its change temperature and its hot fraction moves exactly by the heat it received over its mass times heat of change; its fraction stays within 0 and 1 and finite; overheat beyond the change temperature starts the change by the medium's sensible heat; a leak takes only hot mass at its rate until none is left. A thermoelectric device conducts by the mean of its temperature dependent conductivity in series with its end plates, has the resistance of its mean temperature and the voltage of its Seebeck coefficient between its (limited) temperatures, moves Peltier heat at each side with half the Joule heat, scaled by its malfunction, and blocks only conduction. Heat flows balance at every node.",
  ["inputs", "histories"], "all designs, currents, external fluxes, leaks, overrides, malfunctions and step sizes in networks", "Tests call single steps with assigned temperatures.",
  [TH + "GunnsThermalPhaseChangeBattery.cpp", TH + "GunnsThermoelectricEffect.cpp", TH + "GunnsThermoelectricDevice.cpp"],
  [("battery", "GunnsThermalPhaseChangeBattery::updateState, updatePhaseFraction, updateMassLeak"), ("device", "GunnsThermoelectricEffect::update, GunnsThermoelectricDevice::step")],
  ["fraction, mass, temperature and heat of each battery", "conductance, voltage, heats of each device at every step"], [D("d_therm", 24000, 600000, 8)], "The phase fraction of a battery whose temperature is overridden is only required to stay in range.")
