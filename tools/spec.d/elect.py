EL = "aspects/electrical/"
P("E01", "Electrical elements carry exactly the current their laws give",
  "In any network, at every converged step, each resistor, switchable resistive load, power function resistor, short, diode, constant power load and selector carries the current its law gives for its voltage drop: Ohm's law with blockage, nothing below the undervoltage limit or with the load switch open, I=(dV/R)^(1/n) with sign, shorts of a given power, current or resistance (latched where documented), diodes conducting forward beyond their voltage drop and only leaking in reverse, power loads drawing P/V (with bias) above their minimum voltage, and selectors connecting exactly the selected port. Reported flux, power and waste heat agree with the system of equations, node fluxes are counted once and Kirchhoff's current law holds.",
  ["inputs", "histories"], "all networks of these elements, commands, malfunctions and supply changes", "Tests call single elements with one fixed drop and compare with the same formula; none solves them in a network.",
  [EL + "resistive/", EL + "Diode/GunnsElectRealDiode.cpp", EL + "ConstantPowerLoad/EpsConstantPowerLoad.cpp", EL + "Switch/GunnsElectSelector.cpp"],
  [("element laws", "GunnsElectricalResistor, GunnsResistiveLoad, GunnsResistorPowerFunction, GunnsElectShort, GunnsElectRealDiode, EpsConstantPowerLoad, GunnsElectSelector step and minorStep")],
  ["voltage drop, flux, power of every element at each step", "admittance and source contributions", "net flux of every node"], [D("d_elect", 16000, 300000, 15)], "Power loads are not judged in a collapsed network (load beyond what the feed can give) nor after an unconverged step.")
P("E02", "Converters regulate within their limits, conserve power and protect both sides",
  "In any network a linked converter pair regulates its output voltage, current or power or transforms by its ratio, only while enabled, powered and its input voltage is valid; the input draws exactly output power divided by efficiency, losses appear as waste heat and never negative, no current flows backwards through the output, an output over its current limit holds the limit (where limiting) and one under its voltage limit shuts down, and its trips act at their own priority. The accepted solution satisfies all of this together with Kirchhoff's current law on both sides.",
  ["inputs", "histories"], "all regulator types, limits, efficiencies (tables), trees, loads, back-feeds and command histories", "Tests step the two links by hand with assigned potentials.",
  [EL + "Converter/GunnsElectConverterInput.cpp", EL + "Converter/GunnsElectConverterOutput.cpp"],
  [("output regulation", "GunnsElectConverterOutput::minorStep, confirmSolutionAcceptable"), ("input load", "GunnsElectConverterInput::minorStep, computeInputPower")],
  ["state, voltages, currents, powers, waste heat of both links at each accepted step"], [D("d_elect", 8000, 200000, 10)], "Steps where the limiting states hunt until the reverse bias flips are used up are not judged (documented limitation).")
P("E03", "Switches open when they must: commands, malfunctions, trips and their priorities",
  "Trip functions trip only at their own converged step or when forced, ask for a delay before it, latch until reset and obey inhibit. Switches are open when commanded, unpowered where required, or tripped unless failed closed, and closed otherwise; position commands, resets, fail open and fail closed, and automatic resets of voltage trips act as documented. In networks every accepted solution leaves no enabled, untripped protection beyond its limit, every new trip was provoked at its converged step, open, tripped or disabled devices carry nothing, closed switches follow Ohm's law, and node fluxes balance.",
  ["inputs", "histories", "schedules"], "all call sequences, converged-step orders, networks of switches and converters with different priorities", "Tests walk single fixed sequences on one switch with assigned voltages.",
  [EL + "TripLogic/GunnsTripLogic.cpp", EL + "Switch/GunnsElectSwitchUtil.cpp", EL + "Switch/GunnsElectSwitchUtil2.cpp", EL + "Switch/Switch.cpp", EL + "Switch/SwitchElect.cpp", EL + "Switch/GunnsElectUserLoadSwitch2.cpp"],
  [("trip logic", "GunnsTripLogic::checkForTrip"), ("switch state", "GunnsElectSwitchUtil2::updateState, updateTrips, Switch::updateState"), ("networks", "confirmSolutionAcceptable of switches and converters")],
  ["trip and switch state after each call", "voltages and currents at every confirmation round"], [D("d_esw", 8000, 200000, 150)], "Converter outputs whose input trips keep delivering until the major step ends (documented); automatic resets that hunt within one step are not judged.")
P("E04", "Batteries keep their charge ledger and follow the cells' voltage and resistance",
  "A battery's state of charge stays between 0 and 1 and changes exactly by the current it carried over its capacity, per cell, whatever the mix of series or parallel cells; its open circuit voltage and resistance are the combination of its cells' tables at their own state of charge; opened, shorted and degraded cells act as documented, thermal runaway spreads cell by cell at its interval and ends when the malfunction ends; the current in the network follows that voltage and resistance, losses appear as heat, and the reported charge, power and current agree with it.",
  ["inputs", "histories"], "all cell counts, tables, loads, charge and discharge histories, malfunction schedules", "Tests run a fixed battery a few steps.",
  [EL + "Batt/GunnsElectBattery.cpp", EL + "Batt/GunnsElectBatteryCell.cpp"], [("charge", "GunnsElectBattery::updateSoc, GunnsElectBatteryCell::updateSoc"), ("link law", "GunnsElectBattery::step, computeFlows"), ("runaway", "GunnsElectBattery thermal runaway update")],
  ["per-cell state, link flux, potentials, heat at each step"], [D("d_epow", 10000, 300000, 80)], "")
P("E05", "Photovoltaic arrays follow their curves and regulators never create power",
  "A string's open circuit, short circuit and maximum power points are what its light, exposure, temperature, bypassed groups, degradation and diode drops give, in both generations; its current falls from short circuit to zero with voltage, and loads by voltage, power or conductance settle on that curve; strings in the dark give nothing. The array is the sum of its strings and supplies its network on that curve. A converting regulator holds its set point while array and conversion ratio allow, otherwise sags along the array's curve, draws output power over efficiency from the array and never more than its maximum; a shunting regulator loads strings in their order until the demand is met, shunts the rest and idles when the demand cannot be met. Both give nothing when unpowered, disabled, tripped, unlit or back-fed beyond the set point, trip only for cause at their priority, and report losses as heat.",
  ["inputs", "histories"], "all string, section and array designs, light, loads, set points, trips, load orders and command histories", "Tests check one design at a few fixed points and regulators with assigned potentials.",
  [EL + "SolarArray/"], [("string", "GunnsElectPvString::update, loadAtPower, loadAtConductance; GunnsElectPvString2"), ("array", "GunnsElectPvArray::updateArray, predictLoadAtVoltage"), ("regulators", "GunnsElectPvRegConv::updateRegulatorState, GunnsElectPvRegShunt::confirmSolutionAcceptable, loadArray")],
  ["operating points of every string, array and regulator at each accepted step", "trip causes at each confirmation round"], [D("d_pv", 20000, 300000, 40)], "Single diode solutions are judged to the documented accuracy of the fast Lambert W functions; one up-mode per step of the converting regulator is by design.")
P("E06", "User loads draw their stated power, and their switches and supplies obey limits",
  "A resistive load draws what its resistance for the mode, or an overriding current or power, gives at its voltage; a constant power load draws its stated power; both draw nothing below their undervoltage limit, in the off mode or with a blown fuse, refuse negative overrides, and a fuse blows only for a current beyond its limit and stays blown. A load switch carries the sum of its loads or its bus, nothing when open, at the voltage after its own drop; overridden loads see the override voltage and draw nothing from the network, and the override leaves nothing behind. An internal power supply draws its load from one valid, unmalfunctioned and commanded source, chosen by its rules, and reports power, current and heat accordingly. A power bus carries its loads and reports their current.",
  ["inputs", "histories"], "all load designs, supply voltages, modes, overrides, shorts, duty cycles, switch histories and source sets", "Tests check single values at fixed voltages with assigned potentials.",
  [EL + "UserLoad/", EL + "Switch/", EL + "IPS/", EL + "PowerBus/"], [("loads", "ResistiveLoad::step, ConstantPowerLoad::step, UserLoadBase::updateFuse"), ("switches", "GunnsElectUserLoadSwitch*::minorStep, buildConductance, confirmSolutionAcceptable"), ("supply", "GunnsElectIps::getVoltageSourceToUseWithBackup, calculateFlow")],
  ["load voltage, resistance, current and power each step", "switch, supply and bus currents against their loads at each accepted step"], [D("d_eload", 20000, 300000, 120)], "Load voltages lag one converged solution by design, so sums are judged once steady.")
