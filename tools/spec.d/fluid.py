FN = ["core/GunnsFluidNode.cpp", "core/GunnsFluidLink.cpp", "core/GunnsFluidConductor.cpp", "core/GunnsFluidPotential.cpp", "core/GunnsFluidSource.cpp", "core/GunnsFluidCapacitor.cpp", "core/GunnsFluidFlowOrchestrator.cpp", "core/GunnsFluidUtils.cpp", "aspects/fluid/fluid/PolyFluid.cpp", "aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp"]
FM = [("node integration", "GunnsFluidNode::integrateFlows, GunnsFluidUtils::mixFluidMasses"), ("flow transport", "GunnsFluidConductor::transportFlows, GunnsFluidFlowOrchestrator::update")]
FO = ["node contents, outflows and potentials, and link flow rates after each step"]
P("F01", "Fluid networks conserve total mass, every species and every trace compound",
  "In a closed fluid network (no vented mass, no boundary), the total mass, the mass of each fluid constituent and the moles of each trace compound stay constant over any number of steps; when fluid is vented or supplied at the boundary, the changes equal exactly what the boundary links report, for any topology, flow reversal, valve or blockage command and port move.",
  ["inputs", "histories", "configurations"], "all networks of tanks, junctions, conductors, valves, check valves, fans/potentials and sources, all mixtures, step sizes and command histories",
  "Unit tests check one node or one link for one step; conservation is a property of whole-network histories.", FN, FM, FO, [D("d_fluid", 8000, 200000, 1000)],
  "Steps in which a node passes more than it held and received in a cycle of overflowing nodes are not judged (the code documents that mass is lost there).")
P("F02", "Fluid networks conserve energy and never create temperature extremes",
  "With the expansion model off and no vents, the total enthalpy of all fluid in a closed network changes exactly by the heat injected into its nodes, also when heated nodes overflow, and with no heat injected no node gets hotter or colder than the extremes the network started with.",
  ["inputs", "histories"], "all networks, mixtures, heat histories and commands", "Unit tests check single nodes for one step with one inflow.", FN, FM, FO, [D("d_fluid", 8000, 200000, 1000)],
  "Temperatures within 205-600 K where the property data are invertible; potential (fan) links add no heat.")
P("F03", "Every fluid node state stays physically valid under any history",
  "After every successful step, every node's fluid has finite, non-negative mass, density, moles and mass fractions summing to one, a temperature within the supported range, a molecular weight consistent with its mixture, partial pressures that sum to its pressure, and a pressure equal to the solved node potential; trace compounds are never negative.",
  ["inputs", "histories"], "all networks including tiny volumes, large conductances, boundary flows and large time steps", "Tests look at nominal states only.", FN, FM, FO, [D("d_fluid", 6000, 200000, 1000)],
  "Up to 50 steps (120 in thorough) of hostile networks.")
P("F04", "Overflowing fluid nodes pass flow downstream exactly once and lose nothing",
  "When nodes pass more fluid in a step than they hold, every link still transports its flow exactly once, no node's mass or species become negative, and in feed-forward flow each step conserves mass and species, whatever order the links and nodes are listed in.",
  ["inputs", "schedules"], "all orders and sizes of overflowing chains and trees", "Tests check the orchestrator on one fixed chain.",
  FN, [("overflow ordering", "GunnsFluidFlowOrchestrator::update, GunnsBasicFlowOrchestrator"), ("node overflow", "GunnsFluidNode::integrateFlows, scheduleOutflux")], FO + ["transport call counts of spy conductors"], [D("d_fluid", 10000, 200000, 300)], "Up to 6 nodes in shuffled order.")
P("F05", "Each fluid node's own balance holds: content, inflow, outflow and mixing",
  "For each node and step, the change of its mass equals reported inflow less outflow times the step; a node without volume takes exactly the flow-weighted mixture, temperature and trace compounds of what flows into it and passes on the same; a node with no inflow keeps its state. A node with volume mixes exactly what flowed in; outflow beyond its contents is made up from the step's mixed inflow; heat raises its temperature by its specific heat, thermal damping slows that change by its share and reports the heat held, and expansion cools or warms it adiabatically.",
  ["inputs", "histories"], "all networks and mixtures", "Tests check one inflow set per node kind.", FN, FM, FO, [D("d_fluid", 6000, 200000, 1000)], "Judged against link flow rates and upstream states recorded before the step, and on single nodes driven directly with random flows, heats and damping.")
P("F06", "Isolated fluid volumes obey their equation of state and edits are exact",
  "An isolated tank keeps its mass, mixture and temperature; its pressure, density, volume and temperature always satisfy the mixture's equation of state (the ideal gas law for gases); editing temperature or pressure yields exactly the requested values in the next step with the amount consistent with volume.",
  ["inputs", "histories"], "all mixtures, volumes, states and edit sequences", "Tests use one tank state.", FN + ["core/GunnsFluidTank.cpp"], [("edit", "GunnsFluidCapacitor::processInputs, editFluid, updateFluid"), ("EOS", "PolyFluid::computePressure, computeDensity")], FO, [D("d_fluid", 6000, 200000, 1000)], "Up to 6 constituents.")
P("F07", "Fluid property data are physically valid and their inverses agree",
  "For every predefined fluid over its valid temperature range, density, specific heat, conductivity, Prandtl number, adiabatic index and viscosity are finite, positive and continuous; enthalpy rises with temperature and temperature-of-enthalpy is its inverse, as is pressure-of-density for density and saturation temperature for saturation pressure; simple gases obey the ideal gas law; saturation pressure never falls and heat of vaporization never grows with temperature; molecular weights are the published ones and agree with the chemical compounds.",
  ["inputs"], "all 34 fluid types, all temperatures and pressures of the valid range, and all chemical compounds", "Tests compare a handful of points per fluid with values computed from the same fits.",
  ["ms-utils/properties/FluidProperties.cpp", "ms-utils/properties/FluidProperties.hh", "ms-utils/properties/ChemicalCompound.cpp"], [("property fits", "DefinedFluidProperties::DefinedFluidProperties"), ("property access", "FluidProperties::get*")], ["values returned by the property accessors"],
  [D("d_fprops", 8000, 200000, 1000)], "Inverses are judged inside the range the fits declare; the water PVT table is not invertible and only judged forward. Two fits whose viscosity is negative in part of their range are recorded findings.")
P("F08", "Fluid mixtures stay consistent through every operation on them",
  "After any sequence of operations on a PolyFluid (set temperature, pressure, mass, moles, composition; edit; copy; mix), the requested quantity has exactly the requested value, everything the operation does not concern is unchanged, and enthalpy, specific heat, molecular weight, density, partial pressures and constituent masses obey the mixture laws; mixing streams conserves mass, species and enthalpy in any order and cannot leave the range of the streams' temperatures; mismatched or invalid mixtures are refused.",
  ["inputs", "histories"], "all mixtures of up to 6 constituents and 4 trace compounds, all operation sequences", "Tests apply single operations to one two- or three-gas mixture.",
  ["aspects/fluid/fluid/PolyFluid.cpp", "aspects/fluid/fluid/MonoFluid.cpp", "aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp"], [("mixture state", "PolyFluid::derive, setTemperature, setPressure, setMassAndMassFractions, edit"), ("mixing", "PolyFluid::addState, resetState, setState")], ["the mixture's accessors after each operation"],
  [D("d_fprops", 12000, 400000, 1000)], "Liquid mixtures of several constituents are judged for composition and energy only, since the library defines no liquid mixing rule for pressure.")
P("F09", "Shared fluid functions obey their conservation and transport laws",
  "Flow admittance is symmetric, non-negative and inverted exactly by the conductivity predictor; capacitance is non-negative and, for gases, V/RT; isentropic expansion and its scale predictor are inverse; convection heat equals the stream's enthalpy change and never drives the stream past the wall; conduction and gas diffusion go down-gradient, are antisymmetric and equimolar; Nusselt and friction factors are positive, continuous across regime limits and follow their correlations; mixture conversions round-trip; mixture transforms and mass mixing conserve each species and trace compound.",
  ["inputs"], "all fluid states, mixtures, regimes, exponents, geometries and transform maps", "Tests check a few sample points computed with the same formulas.",
  ["core/GunnsFluidUtils.cpp"], [("conductance", "GunnsFluidUtils::computeAdmittance, predictConductivity, computeCapacitance"), ("heat and mass transfer", "computeConvectiveHeatFlux, computeConductiveHeatFlux, computeGasDiffusion"), ("mixtures", "convert*, buildTransformMap, transformState, mixFluidMasses, normalizeArray")], ["function results and the fluid states they modify"],
  [D("d_fprops", 16000, 400000, 1000)], "One term of the turbulent friction approximation is wrong (recorded finding, the existing test pins its value); results of exactly that variant are reported as the known finding, any other deviation is a violation.")
FC = ["aspects/fluid/conductor/" + f for f in ("GunnsFluidValve.cpp", "GunnsFluidPipe.cpp", "GunnsFluidSimpleQd.cpp", "GunnsFluidLeak.cpp", "GunnsFluidHatch.cpp", "GunnsFluidSensor.cpp", "GunnsFluidLiquidWaterSensor.cpp", "GunnsFluid3WayValve.cpp")]
P("F10", "Valves, pipes, leaks, hatches and fluid sensors do what their state says",
  "A valve, 3-way valve, pipe, quick disconnect, leak or hatch conducts what its position, connection, blockage and leak malfunctions give: nothing when closed or fully blocked, otherwise along the pressure drop at the documented conductance, with positions limited to 0-1; it conserves mass, species, trace compounds and energy, where heat from a pipe wall has the right sign and never takes the stream past the wall temperature; hatches also diffuse gas and conduct heat down-gradient and antisymmetrically; fluid sensors report the sensed node's temperature, pressure, partial pressures, mass fractions, flow, humidity and dew point, and alter nothing.",
  ["inputs", "histories"], "all tank pairs, mixtures, device sizes and histories of position, connection, blockage and leak commands", "Tests step one device once from one nominal state.",
  FC, [("effective conductivity", "GunnsFluidValve::updateState, GunnsFluidSimpleQd::updateState, GunnsFluidLeak::updateState, GunnsFluid3WayValve::updateState"), ("wall heat", "GunnsFluidConductor::computeFlows, GunnsFluidUtils::computeConvectiveHeatFlux"), ("hatch", "GunnsFluidHatch::updateState, transportFlows"), ("sensing", "GunnsFluidSensor::sense, GunnsFluidLiquidWaterSensor")],
  ["flow, conductance and position of the device, sensor outputs and a ledger of mass, species, trace compounds and energy of the tanks around it"], [D("d_valve", 8000, 200000, 100)],
  "Steps that draw more than 95% of a tank's content are not judged. Hatch mixing is judged above 2 kPa.")
P("F11", "Self-actuated pressure valves open, close and regulate as their set points say",
  "Relief and regulator valves stay closed below cracking and are fully open past the full-open pressure, follow the hysteresis between crack, pop and reseat, respect their rate limit, stuck, fail-to and pressure-bias malfunctions and keep their position in 0-1; check valves and 3-way check valves pass no reverse flow when closed and open each path at that path's own pressure; the balanced pressure regulator never flows backward, follows its droop and shuts off at its back pressure; all of them conserve mass and energy.",
  ["inputs", "histories"], "all tank pairs, set points, hysteresis widths, rates and histories of pressures and malfunctions", "Tests sample each branch once.",
  ["aspects/fluid/conductor/" + f for f in ("GunnsFluidReliefValve.cpp", "GunnsFluidRegulatorValve.cpp", "GunnsFluidCheckValve.cpp", "GunnsFluid3WayCheckValve.cpp", "GunnsFluidBalancedPrv.cpp")],
  [("hysteresis", "GunnsFluidReliefValve::updateState, GunnsFluidRegulatorValve::updateState"), ("check position", "GunnsFluidCheckValve::updateState, GunnsFluid3WayCheckValve::updateState"), ("regulation", "GunnsFluidBalancedPrv::updateState, computeRegulatorFlow")],
  ["valve position, flow and conductance against a play-operator reference, and the tank ledger"], [D("d_valve", 8000, 200000, 300)], "Up to 60 steps (150 in thorough).")
P("F12", "Heat exchangers, condensers, phase and type changers balance heat and mass",
  "A heat exchanger takes from the stream exactly the heat it reports to its segments, in flow order, each segment pulling the stream toward but never past its temperature with the configured, flow-dependent and degraded coefficient, and nothing without flow; a condensing heat exchanger removes only water, never more than flows in, none above the dew point or in reverse, with total heat the sum of sensible, latent and segment heats and trace compounds kept; its separator's pools and states balance; phase and type change conductors conserve mass, convert exactly the configured constituents and report heat only of the right sign.",
  ["inputs", "histories"], "all mixtures, segment counts, coefficients, wall temperatures, degradations and flow histories", "Tests step one device from one state.",
  ["aspects/fluid/conductor/" + f for f in ("GunnsFluidHeatExchanger.cpp", "GunnsFluidHxDynHtc.cpp", "GunnsFluidCondensingHx.cpp", "GunnsFluidCondensingHxSeparator.cpp", "GunnsFluidPhaseChangeConductor.cpp", "GunnsFluidTypeChangeConductor.cpp")],
  [("segment heat", "GunnsFluidHeatExchanger::updateSegments, computeHeatTransferCoefficient, GunnsFluidHxDynHtc"), ("condensation", "GunnsFluidCondensingHx::updateHeatExchanger, GunnsFluidCondensingHxSeparator::updateState, updateSlurper"), ("conversion", "GunnsFluidPhaseChangeConductor::transportFluid, GunnsFluidTypeChangeConductor::transportFluid")],
  ["segment and total heats, flows, exit state, pools, and the ledger of the tanks on both sides"], [D("d_hx", 10000, 300000, 120)],
  "Sensible heat of the condenser is a model with averaged specific heats and judged by sign and zero cases only. Type changes are judged between types of the same molecular weight.")
P("F13", "Fans, pumps and pressure heads follow their curves, speeds and heads",
  "A fan or pump with a performance curve produces the curve's pressure rise scaled by the affinity laws to its speed, density and blockage, and in steady state operates on that curve; its shaft power lies between the published radial and axial curves, torque times speed is the power absorbed, wall heat has the right sign and its check valve stops reverse flow; a displacement pump moves its speed over drive ratio times displaced volume times inlet density, loses flow with cavitation that grows and recovers by its documented rates and stops fully when lost; a pressure head equals density times acceleration along the column; all conserve mass, species, trace compounds and energy.",
  ["inputs", "histories"], "all curves, speeds, fluids, columns, accelerations, tank pairs and histories of speed, blockage and wall temperature", "Tests step one device from one nominal point.",
  ["aspects/fluid/potential/" + f for f in ("GunnsGasFan.cpp", "GunnsGasFanCurve.cpp", "GunnsLiquidCentrifugalPump.cpp", "GunnsPumpCavitation.cpp", "GunnsFluidPressureHead.cpp")] + ["aspects/fluid/source/GunnsGasDisplacementPump.cpp", "aspects/fluid/source/GunnsLiquidDisplacementPump.cpp"],
  [("pump curve", "GunnsGasFan::updateState, computeFlows, GunnsLiquidCentrifugalPump"), ("displacement", "GunnsGasDisplacementPump::updateState, GunnsLiquidDisplacementPump::updateState, updateCavitation"), ("head", "GunnsFluidPressureHead::updateState")],
  ["source pressure, flow, shaft torque and power, cavitation state and tank ledgers"], [D("d_pump", 16000, 300000, 150)],
  "A fan beyond its maximum flow is judged for conservation and sign only.")

P("F14", "Separators, adsorbers and membranes hold or hand on exactly what they take",
  "Gas-water and liquid separators, simple, hot and multi-compound adsorbers and selective membranes follow their documented separation, sorption and permeation laws; what one takes out of the flow is exactly what it stores, condenses or delivers to its third port: constituent, trace compound and energy ledgers of network plus device close in either flow direction, sources given to the network cancel or match the stored mass, an idle device leaves no source behind, and stored masses stay between zero and the stated capacity.",
  ["inputs", "histories"], "all fluids, trace compounds, capacities, efficiencies, flow directions and histories of malfunctions, disturbances and regeneration", "Tests step one device from one nominal point, one direction, and never close the ledger of the whole network.",
  ["aspects/fluid/source/" + f for f in ("GunnsFluidSeparatorGas.cpp", "GunnsFluidSeparatorLiquid.cpp", "GunnsFluidAdsorber.cpp", "GunnsFluidHotAdsorber.cpp", "GunnsFluidMultiAdsorber.cpp", "GunnsFluidAdsorptionCompound.cpp", "GunnsFluidSelectiveMembrane.cpp")] + ["aspects/fluid/fluid/GunnsFluidTraceCompounds.cpp"],
  [("separation", "GunnsFluidSeparatorGas::transportFlows, GunnsFluidSeparatorLiquid"), ("sorption", "GunnsFluidAdsorber::computeAdsorption, GunnsFluidMultiAdsorber::updateFluid"), ("membrane", "GunnsFluidSelectiveMembrane::computeMembraneFlow")],
  ["stored masses, rates, sources and heats, and tank ledgers before and after every step"], [D("d_sorb", 24000, 400000, 90)],
  "Trace compounds carried by a flow that is removed completely have nothing to carry them and are not judged.")
P("F15", "Tanks, balloons and accumulators store what flows in and follow their edits",
  "Fluid tanks, balloons and bellows or gas-charged accumulators conserve mass, constituents, trace compounds and energy (with shell, bias or housing heat) in every step without an edit; outputs describe the stored fluid; shell heat flows only through a given area and always toward the colder side; temperature, pressure, partial-pressure, rate, volume and bellows-position edits reach and hold what was asked, at the asked rate, and then let go; balloon volume follows the documented deflated/inflating/full law and never leaves its range, also when stuck or with changed inflatability; an accumulator's spring, liquid and gas pressures balance, its bellows stay between the stops, stick when told, and flow stops through a blocked chamber.",
  ["inputs", "histories"], "all volumes, springs, gas charges, inflatabilities, shell areas, mixtures, disturbances and sequences of edits and malfunctions", "Tests step one tank or accumulator through one hand-computed state; conservation and range laws concern every history.",
  ["aspects/fluid/capacitor/" + f for f in ("GunnsFluidTank.cpp", "GunnsFluidBalloon.cpp", "GunnsFluidAccum.cpp", "GunnsFluidAccumGas.cpp", "GunnsFluidCapacitor.cpp")],
  [("edits", "GunnsFluidTank::updateState, performFluidEdit"), ("balloon law", "GunnsFluidBalloon::updateState"), ("bellows", "GunnsFluidAccum::updateLiqChamber, updateEffConductivityScale"), ("gas chamber", "GunnsFluidAccumGas::updateFluid")],
  ["node and chamber contents, volumes, bellows position, heat fluxes and flows before and after every step"], [D("d_tank", 16000, 400000, 130)],
  "Steps that draw more than a node or chamber holds, near-vacuum tanks and limited chamber temperatures end the case. Gas flowing into a gas accumulator is a recorded finding.")
P("F16", "Heaters, sources, fires, evaporation and crews add exactly what they say",
  "In every step the network's mass, constituents, trace compounds and energy change by exactly what the links that create or remove fluid say: a heater moves its efficiency and blockage scaled power between its nodes and no fluid; a source boundary delivers the demanded (reversed, blocked, trace-compound-only or overridden) flow at the source's composition and temperature; evaporation follows the pool and vapour pressure and never evaporates more than the pool; a phase change source vaporises what its heat pays for; fires and the three crew models consume oxygen (never more than there is), and produce carbon dioxide, water, organics and heat at the configured rate of every state; crews move between states without being lost; bad configurations are refused.",
  ["inputs", "histories"], "all powers, efficiencies, mixtures, trace compounds, flows of both signs, blockages, overrides, crews, transitions and fires", "Tests compare one configuration's single step with hand-computed values and rarely run the link in a network whose totals are checked.",
  ["aspects/fluid/source/" + f for f in ("GunnsFluidHeater.cpp", "GunnsFluidSourceBoundary.cpp", "GunnsFluidEvaporation.cpp", "GunnsFluidPhaseChangeSource.cpp", "GunnsFluidFireSource.cpp", "GunnsFluidMetabolic.cpp", "GunnsFluidMetabolic2.cpp", "GunnsFluidMetabolic3.cpp")] + ["core/GunnsFluidSource.cpp"],
  [("flows", "step and transportFlows of each link, GunnsFluidSource::transportFlows"), ("crew", "GunnsFluidMetabolic*::updateState, transition"), ("fire", "GunnsFluidFireSource::calculateFlowRate")],
  ["node content ledgers before and after every step, crew counts, pool, rates and flags"], [D("d_source", 60000, 900000, 90)],
  "Crews or fires whose net production is not positive in moles and mass have no carrier and end the case; steps that remove most of a node's constituent are not judged.")
P("F17", "Separators, reactors, redox stacks, sublimators and sorption beds balance",
  "Whatever a device does to the fluid that flows through it is accounted for: a multi-separator delivers exactly the configured fraction of each fluid and trace compound to that fluid's own exit port and the rest through it; a reactor consumes and produces compounds in the stoichiometric proportions of its reactions, never more than the reactants that flow in, with the reactions' heat and its solids and wall heat; a fuel cell or electrolyzer moves hydrogen, oxygen and water in proportion to its current and trips when starved; a sublimator rejects the heat of the ice it makes and loses; each segment of a sorption bed loads by its isotherm and rate limits, in flow order in both directions, blocking and offgassing as configured, with the stream's heat exchanged with the sorbant. Mass, constituents, trace compounds and energy of the network change by exactly these amounts; nothing is created, lost or left over when flow stops; bad configurations are refused.",
  ["inputs", "histories"], "all mixtures, trace compounds, ports, fractions, reactions, sorbants, segments, loadings, flow directions, blockages and malfunctions", "Tests compare one configuration's single step with recorded numbers, almost always in forward flow, and do not total the network.",
  ["aspects/fluid/source/" + f for f in ("GunnsFluidMultiSeparator.cpp", "GunnsFluidReactor.cpp", "GunnsFluidHotReactor.cpp", "GunnsFluidSimpleH2Redox.cpp", "GunnsFluidSublimator.cpp", "GunnsFluidSorptionBed.cpp")],
  [("separate", "GunnsFluidMultiSeparator::transportFlows"), ("react", "GunnsFluidReactor::transportFlows, ChemicalReaction"), ("redox, ice", "GunnsFluidSimpleH2Redox, GunnsFluidSublimator"), ("sorption", "GunnsFluidSorptionBedSegment::update, SorbantProperties")],
  ["node content ledgers before and after every step, loadings, rates, heats and flags of every device"], [D("d_react", 40000, 900000, 900)],
  "Trace compounds that a separation leaves without any carrier end the case; so do steps drawing over half of a tank through a bed and streams outside 270-480 K, where the property fits do not apply.")
P("F18", "Turbines, rockets, calibrated orifices and equivalent circuits obey their laws",
  "A gas turbine follows its map of pressure ratio and efficiency over corrected speed and flow, its power is the fluid power times efficiency, torque times speed is that power, wall heat flows toward the colder side, and a drive shaft carries the sum of its attached loads and reports excess power; a rocket's throat is choked, its nozzle exit state is the supersonic isentropic one for its area ratio, thrust is flow times exhaust velocity, combustion starts and stops with flow and ignition as documented, and with a combustion model the chamber has the flame's state (or the inlet's, when the mixture does not burn) and the exit mixes frozen and recombined flow by the tuning factor; a high fidelity orifice or valve has the discharge coefficient and critical, subcritical or incompressible flux of its inputs, position, blockage and requested leak; an equivalent circuit conductor takes from the network exactly the mixture and leakage its external demands imply. All conserve mass, species, trace compounds and (where they exchange none) energy in both flow directions; bad configurations are refused.",
  ["inputs", "histories"], "all maps, speeds, area ratios, gases, liquids, coefficients, pressures on either side, demands of both signs and histories of malfunctions", "Tests compare one nominal step with recorded numbers, in forward flow, and do not total the network.",
  ["aspects/fluid/conductor/GunnsGasTurbine.cpp", "aspects/fluid/conductor/GunnsDriveShaftSpotter.cpp", "aspects/fluid/conductor/GunnsFluidSimpleRocket.cpp", "aspects/fluid/conductor/GunnsFluidEqConductor.cpp", "aspects/fluid/hi-fi/GunnsFluidHiFiOrifice.cpp", "aspects/fluid/hi-fi/GunnsFluidHiFiValve.cpp"],
  [("turbine", "GunnsGasTurbine::updateState, transportFlows, GunnsDriveShaftSpotter::stepPostSolver"), ("nozzle", "GunnsFluidSimpleRocket::updateNozzle, updateExitMach, transportFlows"), ("orifice", "GunnsFluidHiFiOrifice::computeConductance, GunnsFluidHiFiValve::updateState"), ("equivalent circuit", "GunnsFluidEqConductor::step, transportFlows")],
  ["maps, conductances, exit states, torques, flows and tank ledgers before and after every step"], [D("d_flow2", 60000, 900000, 700)],
  "Turbine power is not taken from the fluid by the model, so energy is judged for the fluid alone. Leak areas sized in the regime of the previous pass are accepted as documented.")
