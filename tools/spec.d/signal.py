SE = "gunns-ts-models/common/sensors/"
CF = "gunns-ts-models/common/controllers/fluid/"
P("S01", "Sensors report the truth through exactly their configured errors and faults",
  "An analog sensor reports its unit-converted input times its scales, plus biases, accumulated drift (while the drift malfunction lasts), noise scaled by its magnitude and multiplier, rounded to its resolution and always within its range; a perfect sensor reports the exact input; power, fail-off, fail-to, stuck and ignore-power act with their documented precedence, and its degraded flag tells whether any applies. Boolean sensors, analog-input booleans, limit switches and valve position sensors report whether the input is at their target within tolerance, their off value when unpowered; fan speed sensors average three; noise is Gaussian, bounded and repeatable by seed; a smoke detector converts smoke to clamped obscuration and scatter and scales these to its voltages with its self test and faults; a network sensor wrapper updates before or after the solution as flagged. Bad ranges are refused.",
  ["inputs", "histories"], "all configurations, malfunction combinations, power histories, truth values and step sizes", "Tests check one sensor with a handful of values each.",
  [SE + "SensorAnalog.cpp", SE + "SensorBase.cpp", SE + "SensorBooleanAi.cpp", SE + "SensorBooleanBi.cpp", SE + "SensorVlvOpenClose.cpp", SE + "TsLimitSwitch.cpp", SE + "TsLimitSwitchAnalog.cpp", SE + "TsFanSpeedSensors.cpp", SE + "TsNoise.cpp", SE + "TsOpticSmokeDetector.cpp", "core/GunnsSensorAnalogWrapper.cpp"],
  [("analog", "SensorAnalog::update"), ("boolean", "SensorBooleanAi, SensorBooleanBi, TsLimitSwitch, TsLimitSwitchAnalog, SensorVlvOpenClose"), ("smoke", "TsOpticSmokeDetector::update"), ("wrapper", "GunnsSensorAnalogWrapper::stepPreSolver")],
  ["sensed and truth output after every update", "drift, degraded flag, loads and voltages", "noise moments over thousands of draws"], [D("d_signal", 1000000, 30000000, 2000)],
  "A limit switch that is failed and unpowered at once is not judged (code and comment disagree).")
P("S02", "Valve controllers move, power and limit valves exactly as commanded",
  "A valve's position follows its command or manual position, a stuck valve stays, a failed valve takes its fail position, and the position stays within limits with exact limit flags and linearly scaled fluid position. A powered valve moves only with voltage, enable and no power failure, at its command times its speed (end to end in its transit time at reference command), goes to its unpowered position per its latch type, and draws hold, move or stuck power accordingly. Speed, open/close, toggle, position and dual-solenoid controllers and their assemblies turn commands, latching edges, queued toggles, position feedback and end-of-travel sensors into that motion; T valves never open both paths; bad data are refused.",
  ["inputs", "histories"], "all ranges, transit times, latch types, command and malfunction histories and step sizes", "Tests step each controller through a few commands with fixed numbers.",
  [CF + "TsValveController.cpp", CF + "TsPoweredValveController.cpp", CF + "TsSpeedValveController.cpp", CF + "TsOpenCloseValveController.cpp", CF + "TsToggleValveController.cpp", CF + "TsPositionValveController.cpp", CF + "TsDualSolenoidValveController.cpp", CF + "TsTValveController.cpp", CF + "TsToggleValveCmd.cpp"],
  [("position", "TsValveController::updatePosition"), ("motion and power", "TsPoweredValveController::update, updatePower"), ("toggle", "TsToggleValveController::update, TsToggleValveCmd::update")],
  ["position, fluid position and limit flags after every update", "power and resistance", "sensed end positions of assemblies"], [D("d_signal", 800000, 20000000, 3000)], "Cases end where a position sits on an end stop or threshold to round-off.")
P("S03", "Thermostats, PID controllers and motors follow their control laws",
  "A thermostat turns on when its sensors fall below its low set point and off above its high one and otherwise (also exactly at one) holds, combining several sensors by its AND/OR logic, under set point overrides, kill switch and command malfunctions. A PID controller samples at its interval and its output is the sum of its proportional, integral and derivative terms within limits, without winding up. DC and PWM motors draw the current of their back-EMF law within their current limit, accelerate by net torque over inertia without friction reversing them, and turn electrical power into shaft work and waste heat without creating energy. A pump motor controller powers its motor only within its voltage range, trips by temperature with hysteresis, limits start-up current, keeps its pulse width in range and accounts its currents and power. Bad data are refused.",
  ["inputs", "histories"], "all gains, set points, motor designs, load torques, supply voltages, malfunction histories and step sizes", "Tests evaluate single updates against the same expressions.",
  ["gunns-ts-models/aspects/signal/effectors/thermostat/Thermostat.cpp", "gunns-ts-models/common/controllers/generic/TsPidController.cpp", CF + "TsPumpMotorController.cpp", "gunns-ts-models/common/effectors/mechanical/motor/DcDynPumpMotor.cpp", "gunns-ts-models/common/effectors/mechanical/motor/TsDcPwmDynMotor.cpp"],
  [("thermostat", "Thermostat::update"), ("PID", "TsPidController::update"), ("motors", "DcDynPumpMotor::step, TsDcPwmDynMotor"), ("controller", "TsPumpMotorController::step")],
  ["command after every update", "PID output, integral and timer", "current, speed, power and heat of motors"], [D("d_signal", 800000, 25000000, 300)], "Cases end where a temperature or speed error sits on a threshold to round-off.")
