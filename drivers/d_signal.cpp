// Sensors (S01), valve controllers (S02), thermostats, PID and motors (S03).
#include <cfloat>
#include <cmath>
#include <memory>
#include "mon.hpp"
#include "aspects/signal/effectors/thermostat/Thermostat.hh"
#include "common/controllers/fluid/TsDualSolenoidValveController.hh"
#include "common/controllers/fluid/TsOpenCloseValveController.hh"
#include "common/controllers/fluid/TsPositionValveController.hh"
#include "common/controllers/fluid/TsPumpMotorController.hh"
#include "common/controllers/fluid/TsSpeedValveController.hh"
#include "common/controllers/fluid/TsTValveController.hh"
#include "common/controllers/fluid/TsToggleValveController.hh"
#include "common/controllers/generic/TsPidController.hh"
#include "common/controllers/valveAssemblies/TsDualSolenoidValveAssembly.hh"
#include "common/controllers/valveAssemblies/TsOpenCloseValveAssembly.hh"
#include "common/controllers/valveAssemblies/TsToggleValveAssembly.hh"
#include "common/effectors/mechanical/motor/DcDynPumpMotor.hh"
#include "common/effectors/mechanical/motor/TsDcPwmDynMotor.hh"
#include "common/sensors/SensorAnalog.hh"
#include "common/sensors/SensorBooleanAi.hh"
#include "common/sensors/SensorVlvOpenClose.hh"
#include "common/sensors/TsFanSpeedSensors.hh"
#include "common/sensors/TsLimitSwitch.hh"
#include "common/sensors/TsLimitSwitchAnalog.hh"
#include "common/sensors/TsNoise.hh"
#include "common/sensors/TsOpticSmokeDetector.hh"
#include "core/GunnsSensorAnalogWrapper.hh"
#include "software/exceptions/TsInitializationException.hh"
namespace {
double clampd(double lo, double v, double hi) { return std::min(hi, std::max(lo, v)); }
double gNoise = 0; int gCalls = 0; double noiseFn() { ++gCalls; return gNoise; }
double fnum(mon::Rng& r, double lo, double hi) { return double(float(r.sgn() * r.logu(lo, hi))); }
struct SCfg { double lo, hi, off, bias, scale, noise, res, mult; UnitConversion::Type u; bool noisy; };
// What an analog sensor must show: written from its documentation, in double precision.
struct SRef {
    SCfg k; double drift = 0, out = 0; double q = 0, frac = 0, mag = 0;
    bool pow = false, perfect = false, ignore = false, failOff = false, failTo = false, stuck = false, mScale = false, mBias = false, mDrift = false, mNoise = false, mRes = false;
    double toV = 0, scaleV = 1, biasV = 0, rate = 0, noiseV = 0, multV = 0, resV = 0;
    void step(double dt, double truth) {
        const double x = UnitConversion::convert(k.u, truth); q = 0; mag = std::fabs(x) + std::fabs(truth * (UnitConversion::convert(k.u, 1) - UnitConversion::convert(k.u, 0)));
        if (perfect) out = x; else if (!((pow || ignore) && !failOff)) out = k.off; else if (failTo) out = toV; else if (!stuck) {
            double s = x * k.scale * (mScale ? scaleV : 1) + k.bias + (mBias ? biasV : 0); mag = (std::fabs(x) + std::fabs(truth * (UnitConversion::convert(k.u, 1) - UnitConversion::convert(k.u, 0)))) * std::fabs(k.scale * (mScale ? scaleV : 1)) + std::fabs(k.bias) + (mBias ? std::fabs(biasV) : 0);
            if (mDrift) { drift += rate * dt; s += drift; mag += std::fabs(drift) + std::fabs(rate * dt); } else drift = 0;
            if (k.noisy) { const double m = mNoise ? multV : k.mult, a = mNoise ? noiseV : k.noise; s += gNoise * m * std::fabs(s - k.off) + gNoise * a; mag += std::fabs(m * (s - k.off)) + std::fabs(a); }
            q = std::fabs(mRes ? resV : k.res); if (q > FLT_EPSILON) { frac = s / q - std::floor(s / q); s = q * std::floor(s / q + 0.5); } else q = 0; out = s; }
        out = clampd(k.lo, out, k.hi); }
    bool degraded() const { return (failOff || failTo || stuck || mScale || mBias || mDrift || mNoise || mRes) && !perfect; }
    double tol() const { double t = 3e-6 * mag + 2.5e-7; if (q > 0 && std::fabs(frac - 0.5) * q < t + 1e-6 * q) t += q * 1.000001; return t + (q > 0 ? 1e-6 * std::fabs(out) : 0); }
    SensorAnalogConfigData cfg() const { return SensorAnalogConfigData(float(k.lo), float(k.hi), float(k.off), float(k.bias), float(k.scale), float(k.noise), float(k.res), k.noisy ? noiseFn : 0, k.u, float(k.mult)); } };
const UnitConversion::Type UNITS[] = {UnitConversion::NO_CONVERSION, UnitConversion::NO_CONVERSION, UnitConversion::K_TO_C, UnitConversion::KPA_TO_PSI, UnitConversion::K_TO_F, UnitConversion::UNIT_TO_MILLI};
SRef randSensor(mon::Rng& r, bool wide = false) { SRef s; s.k.u = UNITS[r.i(0, 5)]; const double span = r.logu(1, 1e5); s.k.lo = r.p(0.5) ? 0 : -double(float(span * r.u())); s.k.hi = double(float(span)); if (wide) { s.k.lo = -1e9; s.k.hi = 1e9; } s.k.off = r.p(0.5) ? s.k.lo : double(float(r.uni(s.k.lo, s.k.hi))); s.k.off = clampd(s.k.lo, s.k.off, s.k.hi); s.k.bias = r.p(0.5) ? 0 : fnum(r, 1e-3, 10); s.k.scale = r.p(0.6) ? 1 : double(float(r.uni(0.5, 2))); s.k.noisy = r.p(0.6); s.k.noise = r.p(0.4) ? 0 : double(float(r.logu(1e-3, 10))); s.k.mult = r.p(0.5) ? 0 : double(float(r.logu(1e-4, 0.2))); s.k.res = r.p(0.5) ? 0 : double(float(r.logu(1e-3, 30))); return s; }
void malf(mon::Rng& r, SRef& s, SensorAnalog& x) {
    switch (r.i(0, 13)) { case 0: s.perfect = x.mMalfPerfectSensor = r.p(0.5); break; case 1: s.ignore = x.mMalfIgnorePower = r.p(0.5); break; case 2: s.failOff = x.mMalfFailOffFlag = r.p(0.5); break; case 3: s.failTo = x.mMalfFailToFlag = r.p(0.5); x.mMalfFailToValue = float(s.toV = fnum(r, 1e-2, 1e5)); break; case 4: s.stuck = x.mMalfFailStuckFlag = r.p(0.5); break;
    case 5: s.mScale = x.mMalfScaleFlag = r.p(0.5); x.mMalfScaleValue = float(s.scaleV = double(float(r.uni(-1, 3)))); break; case 6: s.mBias = x.mMalfBiasFlag = r.p(0.5); x.mMalfBiasValue = float(s.biasV = fnum(r, 1e-2, 1e3)); break; case 7: case 8: s.mDrift = x.mMalfDriftFlag = r.p(0.6); x.mMalfDriftRate = float(s.rate = fnum(r, 1e-2, 1e2)); break;
    case 9: s.mNoise = x.mMalfNoiseFlag = r.p(0.5); x.mMalfNoiseScale = float(s.noiseV = double(float(r.logu(0.1, 100)))); x.mMalfNoiseMultiplier = float(s.multV = double(float(r.uni(0, 0.5)))); break; case 10: s.mRes = x.mMalfResolutionFlag = r.p(0.5); x.mMalfResolutionValue = float(s.resV = fnum(r, 0.1, 100)); break;
    default: s.perfect = x.mMalfPerfectSensor = false; s.failOff = x.mMalfFailOffFlag = false; s.failTo = x.mMalfFailToFlag = false; s.stuck = x.mMalfFailStuckFlag = false; } }
struct XV : SensorVlvOpenClose { using SensorVlvOpenClose::mOpen; using SensorVlvOpenClose::mClose; };
struct XN : SensorAnalog { bool deg() const { return mDegradedFlag; } };
void judgeSensor(mon::Ctx& c, SRef& s, const SensorAnalog& x, double truth, const char* key) { NEAR(double(x.getSensedOutput()), s.out, 0, s.tol(), key, mon::fmt("sensed value of %g", truth)); NEAR(x.getTruthOutput(), UnitConversion::convert(s.k.u, truth), 1e-12, 0, key, "truth output"); CHK(double(x.getSensedOutput()) >= double(float(s.k.lo)) && double(x.getSensedOutput()) <= double(float(s.k.hi)), "sensor-range", mon::fmt("sensed %g outside %g..%g", double(x.getSensedOutput()), s.k.lo, s.k.hi)); s.out = double(x.getSensedOutput()); s.drift = s.drift == 0 ? 0 : double(x.mDrift) ; }
}

MON_PROP2(S01, analog, "analog sensors: errors, malfunctions, resolution, range") {
    mon::Rng& r = c.r; SRef s = randSensor(r); XN x; s.pow = r.p(0.7); double truth = r.p(0.1) ? 0 : r.uni(-0.2, 1.2) * (s.k.hi - s.k.lo) + s.k.lo; gNoise = r.uni(-1, 1);
    if (r.p(0.03)) { SCfg k = s.k; const bool ranges = r.p(0.5); if (ranges) { s.k.hi = s.k.lo - (r.p(0.5) ? 0 : 1); s.k.off = s.k.lo; } else s.k.off = r.p(0.5) ? s.k.hi + 1 + std::fabs(s.k.hi) * 0.01 : s.k.lo - 1 - std::fabs(s.k.lo) * 0.01; bool threw = false; try { x.initialize(s.cfg(), SensorAnalogInputData(true, 0.0), "x"); } catch (TsInitializationException&) { threw = true; } CHK(threw && !x.isInitialized(), "sensor-refuse", "bad range or off value accepted"); s.k = k; c.hit(1); }
    const SensorAnalogConfigData cfg = s.cfg(); x.initialize(cfg, SensorAnalogInputData(s.pow, truth), "x"); CHK(x.isInitialized(), "sensor-init", "not initialized"); s.step(0, double(float(truth)) == truth ? truth : truth); judgeSensor(c, s, x, truth, "sensor-init"); c.note = mon::fmt("range %g..%g off %g bias %g scale %g noise %g %g res %g unit %d", s.k.lo, s.k.hi, s.k.off, s.k.bias, s.k.scale, s.k.noise, s.k.mult, s.k.res, int(s.k.u));
    const int steps = r.i(5, 40); for (int t = 0; t < steps && !c.failed(); ++t) { if (r.p(0.3)) malf(r, s, x); if (r.p(0.1)) { s.pow = !s.pow; x.setPowerFlag(s.pow); } truth = r.p(0.05) ? 0 : r.p(0.1) ? fnum(r, 1e-6, 1e8) : r.uni(-0.2, 1.2) * (s.k.hi - s.k.lo) + s.k.lo; gNoise = r.uni(-1, 1); const double dt = r.p(0.1) ? 0 : r.logu(0.01, 2), d0 = s.drift; const bool mode = r.p(0.5);
        if (mode) x.sense(dt, s.pow, truth); else { x.setTruthInput(truth); x.update(dt); } s.step(dt, truth); if (s.drift != d0 || s.drift != 0) NEAR(double(x.mDrift), s.drift, 1e-5, 3e-6 * std::fabs(d0), "sensor-drift", "accumulated drift"); else if (!s.mDrift) CHK(s.perfect || s.failTo || s.stuck || s.failOff || !(s.pow || s.ignore) || x.mDrift == 0.0f, "sensor-drift", "drift left after the malfunction ended"); judgeSensor(c, s, x, truth, "sensor-value"); CHK(x.deg() == s.degraded(), "sensor-degraded", mon::fmt("degraded flag %d", x.deg())); c.count("readings"); c.hit(mon::mix(s.perfect * 1 + s.failTo * 2 + s.stuck * 4 + s.failOff * 8 + s.pow * 16 + s.ignore * 32, s.mScale + 2 * s.mBias + 4 * s.mDrift + 8 * s.mNoise + 16 * s.mRes + 32 * s.k.noisy)); }
}

MON_PROP2(S01, boolean, "boolean sensors, limit switches, valve position and fan speed sensors") {
    mon::Rng& r = c.r; const int kind = r.i(0, 5); const int steps = r.i(5, 30);
    if (kind == 0 || kind == 1) { // boolean or analog input
        const bool off = r.p(0.5); bool pow = r.p(0.7), out = false, perfect = false, ign = false, foff = false, fto = false, stuck = false, toV = false; SensorBooleanBi b; SensorBooleanAi a; SensorBooleanBi* x = kind ? &a : &b; const double tgt = fnum(r, 1e-2, 100), tol = r.p(0.2) ? 0 : double(float(r.logu(1e-3, 1))); if (kind && r.p(0.03)) { SensorBooleanAi bad; bool threw = false; try { bad.initialize(SensorBooleanAiConfigData(off, 1.0F, -0.1F), SensorBooleanAiInputData(), "x"); } catch (TsInitializationException&) { threw = true; } CHK(threw, "boolean-refuse", "negative tolerance accepted"); }
        if (kind) a.initialize(SensorBooleanAiConfigData(off, float(tgt), float(tol)), SensorBooleanAiInputData(pow, false, 0.0F), "x"); else b.initialize(SensorBooleanBiConfigData(off), SensorBooleanBiInputData(pow, false), "x"); out = x->getSensedOutput();
        for (int t = 0; t < steps; ++t) { if (r.p(0.3)) switch (r.i(0, 6)) { case 0: perfect = x->mMalfPerfectSensor = r.p(0.5); break; case 1: ign = x->mMalfIgnorePower = r.p(0.5); break; case 2: foff = x->mMalfFailOffFlag = r.p(0.5); break; case 3: fto = x->mMalfFailToFlag = r.p(0.5); toV = x->mMalfFailToValue = r.p(0.5); break; case 4: stuck = x->mMalfFailStuckFlag = r.p(0.5); break; default: perfect = ign = foff = fto = stuck = x->mMalfPerfectSensor = x->mMalfIgnorePower = x->mMalfFailOffFlag = x->mMalfFailToFlag = x->mMalfFailStuckFlag = false; } if (r.p(0.2)) pow = !pow;
            bool truth = r.p(0.5), edge = false; if (kind) { double v = r.p(0.2) ? tgt : r.p(0.5) ? tgt + r.sgn() * tol * r.uni(0, 2) : fnum(r, 1e-2, 100); edge = std::fabs(std::fabs(double(float(v)) - tgt) - tol) < 1e-5 * (std::fabs(tgt) + tol) && v != tgt; truth = std::fabs(double(float(v)) - tgt) <= tol; a.sense(0.1, pow, v); } else b.sense(0.1, pow, truth);
            if (perfect) out = truth; else if (!((pow || ign) && !foff)) out = off, edge = false; else if (fto) out = toV, edge = false; else if (!stuck) out = truth; else edge = false; if (!edge) CHK(x->getSensedOutput() == out, "boolean-sensor", mon::fmt("senses %d, expected %d", x->getSensedOutput(), out)); out = x->getSensedOutput(); c.count("readings"); c.hit(mon::mix(kind, perfect + 2 * fto + 4 * stuck + 8 * foff + 16 * pow + 32 * ign) * 4 + truth * 2 + off); } }
    else if (kind == 2) { TsLimitSwitch x; TsLimitSwitchConfigData k; k.mNotPoweredValue = r.p(0.5); const bool fv = r.p(0.5); x.initialize(k, TsLimitSwitchInputData(false, false, fv)); struct P : TsLimitSwitch { static bool s(const TsLimitSwitch& a) { return a.*(&P::mSensedValue); } }; for (int t = 0; t < steps; ++t) { const bool v = r.p(0.5), pow = r.p(0.6), fail = r.p(0.3); x.update(v, pow, fail); if (!(fail && !pow)) CHK(P::s(x) == (fail ? fv : pow ? v : k.mNotPoweredValue), "limit-switch", "limit switch value"); c.hit(mon::mix(60, v + 2 * pow + 4 * fail)); c.count("readings"); } }
    else if (kind == 3) { TsLimitSwitchAnalog x; TsLimitSwitchAnalogConfigData k; k.mNotPoweredValue = r.p(0.5); k.mTargetValue = r.p(0.2) ? 0 : r.uni(-10, 10); k.mTolerance = r.logu(1e-4, 1); if (r.p(0.03)) { TsLimitSwitchAnalog bad; TsLimitSwitchAnalogConfigData kb; kb.mTolerance = 0; bool threw = false; try { bad.initialize(kb, TsLimitSwitchAnalogInputData()); } catch (TsInitializationException&) { threw = true; } CHK(threw, "limit-refuse", "zero tolerance accepted"); } const bool fv = r.p(0.5); x.initialize(k, TsLimitSwitchAnalogInputData(false, false, fv)); struct P : TsLimitSwitchAnalog { static bool s(const TsLimitSwitchAnalog& a) { return a.*(&P::mSensedValue); } };
        for (int t = 0; t < steps; ++t) { const double v = r.p(0.5) ? k.mTargetValue + r.uni(-2, 2) * k.mTolerance : r.uni(-15, 15); const bool pow = r.p(0.8), fail = r.p(0.1); if (std::fabs(std::fabs(v - k.mTargetValue) - k.mTolerance) < 1e-9) continue; const bool in = std::fabs(v - k.mTargetValue) < k.mTolerance || (k.mTargetValue > 0 && v > k.mTargetValue) || (k.mTargetValue < 0 && v < k.mTargetValue); x.update(v, pow, fail); if (!(fail && !pow)) CHK(P::s(x) == (fail ? fv : pow ? in : k.mNotPoweredValue), "limit-switch", mon::fmt("limit switch at %g of %g tolerance %g", v, k.mTargetValue, k.mTolerance)); c.hit(mon::mix(61, in + 2 * pow + 4 * fail)); c.count("readings"); } }
    else if (kind == 4) { XV x; SensorVlvOpenCloseConfigData k; const double tol = double(float(r.logu(1e-4, 0.3))); k.mOpen = SensorBooleanAiConfigData(r.p(0.5), 1.0F, float(tol)); k.mClose = SensorBooleanAiConfigData(r.p(0.5), 0.0F, float(tol)); x.initialize(k, SensorVlvOpenCloseInputData(true), r.p(0.3) ? "" : "x"); for (int t = 0; t < steps; ++t) { const double p = r.p(0.2) ? double(r.i(0, 1)) : r.u(); const bool pow = r.p(0.8); if (std::fabs(p - tol) < 1e-5 || std::fabs(1 - p - tol) < 1e-5) continue; x.sense(0.1, pow, p); CHK(x.mOpen.getSensedOutput() == (pow ? 1 - p <= tol : k.mOpen.mOffValue) && x.mClose.getSensedOutput() == (pow ? p <= tol : k.mClose.mOffValue), "valve-sensor", mon::fmt("open %d closed %d at %g tolerance %g", x.mOpen.getSensedOutput(), x.mClose.getSensedOutput(), p, tol)); c.hit(mon::mix(62, pow * 4 + (1 - p <= tol) * 2 + (p <= tol))); c.count("readings"); } }
    else { SRef s[3]; s[0] = randSensor(r); s[0].k.u = UnitConversion::NO_CONVERSION; s[0].k.noisy = false; s[1] = s[2] = s[0]; bool pow = r.p(0.8); for (auto& q : s) q.pow = pow; TsFanSpeedSensors x; const double t0 = r.uni(s[0].k.lo, s[0].k.hi); const SensorAnalogInputData in(pow, t0); x.initialize(TsFanSpeedSensorsConfigData(s[0].cfg()), TsFanSpeedSensorsInputData(in, in, in), "x"); for (auto& q : s) q.step(0, t0); SensorAnalog* p[3] = {&x.mSensorA, &x.mSensorB, &x.mSensorC}; for (int i = 0; i < 3; ++i) judgeSensor(c, s[i], *p[i], t0, "fan-sensor");
        for (int t = 0; t < steps; ++t) { if (r.p(0.3)) { const int i = r.i(0, 2); malf(r, s[i], *p[i]); } if (r.p(0.1)) pow = !pow; const double v = r.uni(s[0].k.lo, s[0].k.hi); const float av = x.sense(0.1, pow, v); double m = 0; for (int i = 0; i < 3; ++i) { s[i].pow = pow; s[i].step(0.1, v); judgeSensor(c, s[i], *p[i], v, "fan-sensor"); m += double(p[i]->getSensedOutput()) / 3; } NEAR(double(av), m, 1e-5, 1e-5 * s[0].k.hi, "fan-average", "average of the three speeds"); c.hit(mon::mix(63, s[0].degraded() + s[1].degraded() + s[2].degraded()) * 2 + pow); c.count("readings"); } }
}

MON_PROP2(S01, noise, "sensor noise distribution, smoke detector, sensor wrapper") {
    mon::Rng& r = c.r; const int kind = r.i(0, 2);
    if (kind == 0) { const unsigned seed = unsigned(r.i(1, 1000000000)); TsNoise::initialize(seed); const int n = 4000; double s1 = 0, s2 = 0, s3 = 0, s4 = 0; int a1 = 0, a2 = 0; std::vector<double> v; const double sg = 1 / 4.417173413469; for (int i = 0; i < n; ++i) { const double x = TsNoise::getNoise(); if (i < 50) v.push_back(x); CHK(std::fabs(x) <= 1.0, "noise-range", mon::fmt("noise %g", x)); const double z = x / sg; s1 += z; s2 += z * z; s3 += z * z * z; s4 += z * z * z * z; a1 += std::fabs(z) > 1; a2 += std::fabs(z) > 2; } const double N = n; NEAR(s1 / N, 0, 0, 6 / std::sqrt(N), "noise-distribution", "mean"); NEAR(s2 / N, 1, 0, 6 * std::sqrt(2 / N), "noise-distribution", "variance"); NEAR(s3 / N, 0, 0, 6 * std::sqrt(15 / N), "noise-distribution", "third moment"); NEAR(s4 / N, 3, 0, 6 * std::sqrt(96 / N), "noise-distribution", "fourth moment"); NEAR(a1 / N, 0.3173, 0, 6 * std::sqrt(0.3173 * 0.68 / N), "noise-distribution", "share beyond one sigma"); NEAR(a2 / N, 0.0455, 0, 6 * std::sqrt(0.0455 / N), "noise-distribution", "share beyond two sigma");
        TsNoise::initialize(seed); for (double e : v) CHK(TsNoise::getNoise() == e, "noise-seed", "same seed, other sequence"); c.hit(seed % 997); c.count("noise_series"); }
    else if (kind == 1) { struct XD : TsOpticSmokeDetector { void in(bool p, bool b) { isPowered = p; isBitEnabled = b; } double o() const { return double(obscurationPercentage); } double s() const { return double(scatterPercentage); } double ov() const { return double(obsSensedVoltage); } double sv() const { return double(scatSensedVoltage); } int load() const { return isLoadOn; } } x; TsOpticSmokeDetectorConfigData k; TsOpticSmokeDetectorInputData in; k.obsSmokeContributer = float(r.uni(1, 200)); k.nominalObscuration = float(r.uni(-5, 50)); k.nominalScatter = float(r.uni(0.12, 1)); k.bitOnMaxScatterValue = float(r.uni(1, 2)); k.bitRecoveryTime = float(r.uni(0.2, 3)); in.smokeLevelFactor = 0; if (r.p(0.6)) { k.obsPercentVoltSlope = float(r.uni(-0.2, 0.2)); k.obsVoltIntercept = float(r.uni(-1, 5)); k.scatPercentVoltSlope = float(r.uni(0.5, 4)); k.scatVoltIntercept = float(r.uni(-1, 1)); k.obsSensorConfigD.mNominalBias = float(r.uni(-3, 3)); k.scatterSensorConfigD.mNominalBias = float(r.uni(-0.1, 0.1)); k.obsSensorConfigD.mMaxRange = float(r.uni(60, 120)); k.scatterSensorConfigD.mMaxRange = float(r.uni(1.5, 3)); }
        if (r.p(0.05)) { TsOpticSmokeDetectorConfigData b; TsOpticSmokeDetectorInputData bi; const int w = r.i(0, 7); if (w == 0) b.obsMaxPercentage = b.obsMinPercentage; else if (w == 1) b.scatterMinPercentage = b.scatterMaxPercentage; else if (w == 2) b.nominalObscuration = b.obsMinPercentage; else if (w == 3) b.nominalScatter = b.scatterMinPercentage; else if (w == 4) b.bitOnMaxScatterValue = b.scatterMinPercentage; else if (w == 5) b.bitRecoveryTime = 0; else if (w == 6) bi.smokeLevelFactor = r.p(0.5) ? -0.1F : 1.1F; else bi.bitTimer = -1; XD bad; bool threw = false; try { bad.initialize(b, bi, "x"); } catch (TsInitializationException&) { threw = true; } CHK(threw, "smoke-refuse", mon::fmt("bad data %d accepted", w)); }
        x.initialize(k, in, "x"); double timer = 0; bool proc = false, pow = r.p(0.8), bit = false; const int steps = r.i(5, 60); for (int t = 0; t < steps; ++t) { if (r.p(0.1)) pow = !pow; if (r.p(0.15)) bit = !bit; if (r.p(0.05)) x.malfTotalFail = !x.malfTotalFail; if (r.p(0.05)) x.malfPowerToOn = !x.malfPowerToOn; x.smokeLevelFactor = float(r.p(0.2) ? r.i(0, 1) : r.u()); const double f = double(x.smokeLevelFactor); x.in(pow, bit); const float dt = float(r.uni(0.05, 0.3)); x.update(dt); const bool on = (pow || x.malfPowerToOn) && !x.malfTotalFail; double o, s; bool edge = false;
            if (!on) { o = double(k.obsOffValue); s = double(k.scatOffValue); } else if (bit || proc) { edge = std::fabs(timer - double(k.bitRecoveryTime)) < 1e-4; proc = timer <= double(k.bitRecoveryTime); o = double(k.obsMaxPercentage); s = bit ? double(k.bitOnMaxScatterValue) : double(k.scatterMinPercentage); if (!bit) timer += double(dt); } else { timer = 0; o = double(k.nominalObscuration) + double(k.obsSmokeContributer) * f; s = double(k.nominalScatter) + (double(k.scatterMaxPercentage) - double(k.nominalScatter)) * f; }
            o = clampd(double(k.obsMinPercentage), o, double(k.obsMaxPercentage)); s = clampd(0, s, double(k.scatterMaxPercentage)); CHK(x.load() == int(on), "smoke-load", "load flag"); NEAR(x.o(), o, 1e-5, 1e-5, "smoke-obscuration", "obscuration"); NEAR(x.s(), s, 1e-5, 1e-6, "smoke-scatter", "scatter"); const double so = on ? clampd(double(k.obsMinPercentage), o + double(k.obsSensorConfigD.mNominalBias), double(k.obsSensorConfigD.mMaxRange)) : o, ss = on ? clampd(double(k.scatterSensorConfigD.mMinRange), s + double(k.scatterSensorConfigD.mNominalBias), double(k.scatterSensorConfigD.mMaxRange)) : s; NEAR(double(x.getSensedObscurationValue()), so, 1e-5, on ? 0.01002 : 1e-5, "smoke-sensed", "sensed obscuration"); NEAR(double(x.getSensedScatterValue()), ss, 1e-5, on ? 0.001002 : 1e-6, "smoke-sensed", "sensed scatter"); NEAR(x.ov(), double(k.obsPercentVoltSlope) * double(x.getSensedObscurationValue()) + double(k.obsVoltIntercept), 0, 1e-4, "smoke-voltage", "obscuration voltage"); NEAR(x.sv(), double(k.scatPercentVoltSlope) * double(x.getSensedScatterValue()) + double(k.scatVoltIntercept), 0, 2e-5, "smoke-voltage", "scatter voltage"); c.hit(mon::mix(70, on * 4 + bit * 2 + proc)); c.count("smoke_updates"); if (edge) break; } }
    else { SRef s = randSensor(r); s.pow = true; gNoise = r.uni(-1, 1); GunnsSensorAnalogWrapper w; GunnsSensorAnalogWrapperConfigData k("w", float(s.k.lo), float(s.k.hi), float(s.k.off), float(s.k.bias), float(s.k.scale), float(s.k.noise), float(s.k.res), s.k.noisy ? noiseFn : 0, s.k.u, float(s.k.mult)); GunnsSensorAnalogWrapperInputData in(true, r.uni(s.k.lo, s.k.hi)); double truth = in.mSensor.mTruthInput; w.initialize(&k, &in); s.step(0, truth); judgeSensor(c, s, w.mSensor, truth, "wrapper"); bool pre = false, post = true;
        for (int t = 0; t < 20; ++t) { if (r.p(0.2)) { const bool f = r.p(0.5); if (r.p(0.5)) { w.setStepPreSolverFlag(f); pre = f; } else { w.setStepPostSolverFlag(f); post = f; } } truth = r.uni(s.k.lo, s.k.hi); gNoise = r.uni(-1, 1); w.mSensor.setTruthInput(truth); const float before = w.mSensor.getSensedOutput(); w.stepPreSolver(0.1); if (pre && !post) { s.step(0.1, truth); judgeSensor(c, s, w.mSensor, truth, "wrapper"); } else CHK(w.mSensor.getSensedOutput() == before, "wrapper", "sensor updated before the solver"); const float mid = w.mSensor.getSensedOutput(); truth = r.uni(s.k.lo, s.k.hi); w.mSensor.setTruthInput(truth); w.stepPostSolver(0.1); if (post) { s.step(0.1, truth); judgeSensor(c, s, w.mSensor, truth, "wrapper"); } else CHK(w.mSensor.getSensedOutput() == mid, "wrapper", "sensor updated after the solver"); c.hit(mon::mix(71, pre * 2 + post)); c.count("wrapper_steps"); } }
}

// ---------------------------------------------------------------------------------------------- valves
namespace {
struct VRef { double lo, hi, flo, fhi, pos; bool man = false, stuck = false, failTo = false, mManual = false; double manV = 0, toV = 0; bool low = false, up = false;
    void move(double want) { if (!stuck) pos = failTo ? toV : man && !mManual ? manV : want; low = pos <= lo; up = pos >= hi; pos = clampd(lo, pos, hi); }
    double fluid() const { return clampd(0, flo + (pos - lo) / (hi - lo) * (fhi - flo), 1); } };
VRef randValve(mon::Rng& r) { VRef v; v.lo = r.p(0.5) ? 0 : r.uni(-50, 50); v.hi = v.lo + (r.p(0.5) ? 1 : r.logu(0.1, 100)); v.flo = r.p(0.7) ? 0 : r.uni(-0.2, 0.4); v.fhi = r.p(0.7) ? 1 : r.uni(0.5, 1.3); v.pos = r.p(0.3) ? v.lo : r.p(0.4) ? v.hi : r.uni(v.lo, v.hi); v.manV = r.p(0.2) ? 0.5 * (v.lo + v.hi) : r.uni(v.lo, v.hi); if (r.p(0.1)) v.pos = 0.5 * (v.lo + v.hi); v.man = r.p(0.1); return v; }
void vmalf(mon::Rng& r, VRef& v, TsValveController& x) { switch (r.i(0, 5)) { case 0: v.stuck = x.mMalfValveStuckFlag = r.p(0.5); break; case 1: v.failTo = x.mMalfValveFailToFlag = r.p(0.5); x.mMalfValveFailToValue = v.toV = r.p(0.2) ? v.hi + 1 : r.uni(v.lo, v.hi); break; case 2: v.mManual = x.mMalfManualFlag = r.p(0.5); break; case 3: v.man = r.p(0.5); v.manV = r.p(0.2) ? 0.5 * (v.lo + v.hi) : r.uni(v.lo, v.hi); x.setManualPosition(v.man, v.manV); break; default: v.stuck = v.failTo = v.mManual = x.mMalfValveStuckFlag = x.mMalfValveFailToFlag = x.mMalfManualFlag = false; } }
void judgeValve(mon::Ctx& c, const VRef& v, const TsValveController& x, const char* key) { const double w = v.hi - v.lo; NEAR(x.getPosition(), v.pos, 1e-12, 1e-12 * w, key, "valve position"); NEAR(x.getFluidPosition(), v.fluid(), 0, 1e-9 + 1e-12 * std::fabs(v.lo / w), key, "fluid position"); CHK(x.isStuck() == (v.stuck || v.failTo), key, "stuck flag"); if (std::fabs(v.pos - v.lo) < 1e-14 || std::fabs(v.pos - v.lo) > 1e-9 * w) CHK(x.isLowerLimit() == v.low, key, mon::fmt("lower limit flag at %g of %g..%g", v.pos, v.lo, v.hi)); if (v.pos == v.hi || std::fabs(v.pos - v.hi) > 1e-9 * w) CHK(x.isUpperLimit() == v.up, key, mon::fmt("upper limit flag at %g of %g..%g", v.pos, v.lo, v.hi)); }
struct PRef { VRef v; double scale, hp, mp, sp, vref; TsPoweredValveController::LatchType latch; bool volt = false, en = false, good = false, fail = false, dStuck = false, dTo = false; double dToV = 0, power = 0, res = 1e6;
    void step(double cmd, double dt) { const bool live = (volt || good) && !fail && en; double want = v.pos; if (!dStuck) { if (dTo) want = dToV; else if (!live) want = latch == TsPoweredValveController::NORMALLY_CLOSED ? v.lo : latch == TsPoweredValveController::NORMALLY_OPEN ? v.hi : v.pos; else want += cmd * scale * dt; }
        if (!live) { power = 0; res = 1e6; } else { double p = hp; if (std::fabs(cmd) > DBL_EPSILON && (!v.man || v.mManual)) { const bool below = v.pos <= v.lo && cmd * scale < 0, above = v.pos >= v.hi && cmd * scale > 0; p = v.stuck || dStuck || below || above ? sp : mp; } power = p; res = vref * vref / p; } v.move(want); } };
void pmalf(mon::Rng& r, PRef& p, TsPoweredValveController& x) { switch (r.i(0, 8)) { case 0: p.good = x.mMalfPowerGoodFlag = r.p(0.5); break; case 1: p.fail = x.mMalfPowerFailFlag = r.p(0.5); break; case 2: p.dStuck = x.mMalfDriveStuckFlag = r.p(0.5); break; case 3: p.dTo = x.mMalfDriveFailToFlag = r.p(0.5); x.mMalfDriveFailToValue = p.dToV = r.uni(p.v.lo, p.v.hi); break; case 4: case 5: vmalf(r, p.v, x); break; default: p.good = p.fail = p.dStuck = p.dTo = x.mMalfPowerGoodFlag = x.mMalfPowerFailFlag = x.mMalfDriveStuckFlag = x.mMalfDriveFailToFlag = false; } }
void judgePowered(mon::Ctx& c, const PRef& p, const TsPoweredValveController& x, const char* key) { judgeValve(c, p.v, x, key); NEAR(x.getPower(), p.power, 1e-12, 0, "valve-power", "power drawn by the valve"); NEAR(x.getResistance(), p.res, 1e-12, 0, "valve-power", "resistance of the valve"); }
template<class F> bool refused(F f) { try { f(); } catch (TsInitializationException&) { return true; } return false; }
// rising-edge detector of a toggle command
struct Edge { bool armed = true; bool step(bool en, bool tog) { if (!en) return false; if (armed && tog) { armed = false; return true; } if (!armed && !tog) armed = true; return false; } };
}

MON_PROP2(S02, valves, "manual, T and dual solenoid valve controllers and assemblies") {
    mon::Rng& r = c.r; const int kind = r.i(0, 3), steps = r.i(5, 40); VRef v = randValve(r);
    if (kind == 0) { TsValveController x; if (r.p(0.05)) { TsValveController b; const int w = r.i(0, 2); CHK(refused([&] { b.initialize(TsValveControllerConfigData(v.lo, v.hi, w == 0 ? 1.0 : 0.0, w == 0 ? 0.9 : 1.0), TsValveControllerInputData(w == 1 ? v.hi + 1 : v.lo, w == 2, v.lo - 1), "x"); }), "valve-refuse", mon::fmt("bad valve data %d accepted", w)); } x.initialize(TsValveControllerConfigData(v.lo, v.hi, v.flo, v.fhi), TsValveControllerInputData(v.pos, v.man, v.manV), "x"); v.move(v.pos); judgeValve(c, v, x, "valve-init"); for (int t = 0; t < steps && !c.failed(); ++t) { if (r.p(0.3)) vmalf(r, v, x); double want = v.pos; if (r.p(0.5)) { want = r.p(0.2) ? v.hi + 1 : r.p(0.2) ? v.lo - 1 : r.uni(v.lo, v.hi); x.setPosition(want); if (v.stuck) v.pos = want; } x.update(0.1); v.move(want); judgeValve(c, v, x, "valve"); c.count("updates"); c.hit(mon::mix(1, v.stuck + 2 * v.failTo + 4 * v.man + 8 * v.mManual + 16 * v.low + 32 * v.up)); } }
    else if (kind == 1) { VRef b = randValve(r); TsTValveController x; const int p0 = r.i(0, 2); x.initialize(TsTValveControllerConfigData(TsValveControllerConfigData(v.lo, v.hi, v.flo, v.fhi), TsValveControllerConfigData(b.lo, b.hi, b.flo, b.fhi)), TsTValveControllerInputData(TsTValveController::PositionType(p0), TsValveControllerInputData(v.pos, v.man, v.manV), TsValveControllerInputData(b.pos, b.man, b.manV)), "x"); int pos = p0; v.man = b.man = true; auto go = [&] { if (pos <= 2) { v.manV = pos == 1 ? v.hi : v.lo; b.manV = pos == 2 ? b.hi : b.lo; } v.move(v.pos); b.move(b.pos); judgeValve(c, v, x.mAPath, "t-valve"); judgeValve(c, b, x.mBPath, "t-valve"); }; go(); for (int t = 0; t < steps && !c.failed(); ++t) { if (r.p(0.4)) { pos = r.i(0, r.p(0.1) ? 3 : 2); x.setPosition(TsTValveController::PositionType(pos)); } auto m = [&](VRef& q, TsValveController& y) { switch (r.i(0, 3)) { case 0: q.stuck = y.mMalfValveStuckFlag = r.p(0.5); break; case 1: q.failTo = y.mMalfValveFailToFlag = r.p(0.5); y.mMalfValveFailToValue = q.toV = r.uni(q.lo, q.hi); break; default: q.stuck = q.failTo = y.mMalfValveStuckFlag = y.mMalfValveFailToFlag = false; } }; if (r.p(0.2)) { if (r.p(0.5)) m(v, x.mAPath); else m(b, x.mBPath); } x.update(0.1); go(); CHK(!(pos <= 2 && !v.stuck && !v.failTo && !b.stuck && !b.failTo && x.mAPath.getPosition() == v.hi && x.mBPath.getPosition() == b.hi), "t-valve", "both paths open"); c.count("updates"); c.hit(mon::mix(2, pos + 4 * v.stuck + 8 * b.stuck + 16 * v.failTo + 32 * b.failTo)); } }
    else { typedef TsDualSolenoidValveController D; const D::LatchType latch = D::LatchType(r.i(0, 2)); D own; TsDualSolenoidValveAssembly as; D& x = kind == 2 ? own : as.mController; const TsDualSolenoidValveControllerConfigData k(v.lo, v.hi, v.flo, v.fhi, latch); const TsDualSolenoidValveControllerInputData in(v.pos, v.man, v.manV, false, r.p(0.5)); const double tol = double(float((v.hi - v.lo) * 0.01)); const bool o1 = r.p(0.5);
        if (r.p(0.05)) { D b; CHK(refused([&] { b.initialize(k, TsDualSolenoidValveControllerInputData(v.lo, false, v.lo, true, true), "x"); }), "valve-refuse", "both solenoids commanded accepted"); }
        if (kind == 2) own.initialize(k, in, "x"); else as.initialize(TsDualSolenoidValveAssemblyConfigData(k, SensorBooleanAiConfigData(o1, float(v.hi), float(tol)), SensorBooleanAiConfigData(!o1, float(v.lo), float(tol))), TsDualSolenoidValveAssemblyInputData(in, SensorBooleanAiInputData(true), SensorBooleanAiInputData(true)), "x"); v.move(v.pos); judgeValve(c, v, x, "solenoid-init"); const double mid = 0.5 * (v.lo + v.hi); bool op = false, cl = in.mCloseSolenoidCmd;
        for (int t = 0; t < steps && !c.failed(); ++t) { if (r.p(0.2)) vmalf(r, v, x); if (r.p(0.1)) x.mMalfOpenSolenoidFail = r.p(0.5); if (r.p(0.1)) x.mMalfCloseSolenoidFail = r.p(0.5); if (r.p(0.4)) { op = r.p(0.4); cl = r.p(0.4); } if (kind == 2) { x.setOpenSolenoidCmd(op); x.setCloseSolenoidCmd(cl); x.update(0.1); } else as.update(op, cl, 0.1); const bool lo = op && !x.mMalfOpenSolenoidFail, lc = cl && !x.mMalfCloseSolenoidFail; if (v.pos != mid && std::fabs(v.pos - mid) < 1e-9 * (v.hi - v.lo)) break; if (v.pos == mid) c.count("mid"); double want = lo && !lc ? v.hi : lc && !lo ? v.lo : latch == D::NORMALLY_OPEN ? v.hi : latch == D::NORMALLY_CLOSED ? v.lo : v.pos >= mid ? v.hi : v.lo; v.move(want); judgeValve(c, v, x, "solenoid"); CHK((x.getOpenSolenoidLoad() == LoadON) == lo && (x.getCloseSolenoidLoad() == LoadON) == lc, "solenoid-load", "solenoid loads"); c.count("updates"); c.hit(mon::mix(3 + kind, latch * 16 + lo + 2 * lc + 4 * v.low + 8 * v.up));
            if (kind == 3) { const double w = v.hi - v.lo, fz = 2e-6 * (std::fabs(v.lo) + std::fabs(v.hi)); if (std::fabs(v.hi - v.pos - tol) > fz) CHK(as.getOpenSensed() == (v.hi - v.pos <= tol), "valve-assembly", mon::fmt("open sensed %d at %g of %g..%g", as.getOpenSensed(), v.pos, v.lo, v.hi)); if (std::fabs(v.pos - v.lo - tol) > fz) CHK(as.getCloseSensed() == (v.pos - v.lo <= tol), "valve-assembly", mon::fmt("closed sensed %d at %g of %g..%g", as.getCloseSensed(), v.pos, v.lo, v.hi)); (void)w; } } }
}

MON_PROP2(S02, powered, "powered valve controllers: speed, open/close, toggle, position, and assemblies") {
    mon::Rng& r = c.r; const int kind = r.i(0, 6), steps = r.i(5, 60); PRef p; p.v = randValve(r); const double w = p.v.hi - p.v.lo, transit = r.logu(0.2, 20), ref = kind == 4 || r.p(0.6) ? 1 : r.sgn() * r.logu(0.1, 10); p.scale = w / (ref * transit); p.hp = r.uni(1, 10); p.mp = r.uni(10, 50); p.sp = r.uni(50, 100); p.vref = r.uni(20, 130); p.latch = TsPoweredValveController::LatchType(r.i(0, 2)); const bool eot = r.p(0.5); p.volt = r.p(0.8); p.en = r.p(0.8); const double tolc = w * r.logu(1e-3, 0.1);
    const TsPoweredValveControllerConfigData k(p.v.lo, p.v.hi, p.v.flo, p.v.fhi, transit, ref, p.hp, p.mp, p.sp, p.vref, eot, p.latch); const TsPoweredValveControllerInputData in(p.v.pos, p.v.man, p.v.manV, p.volt, p.en, 0.0); c.note = mon::fmt("kind %d range %g..%g ref %g transit %g latch %d eot %d", kind, p.v.lo, p.v.hi, ref, transit, int(p.latch), eot);
    if (r.p(0.03)) { TsPoweredValveController b; const int z = r.i(0, 4); CHK(refused([&] { b.initialize(TsPoweredValveControllerConfigData(0, 1, 0, 1, z == 0 ? 0 : 1, z == 1 ? 0 : 1, z == 2 ? 0 : 1, z == 3 ? 0 : 1, z == 4 ? 0 : 1, 100, false, p.latch), TsPoweredValveControllerInputData(), "x"); }), "valve-refuse", mon::fmt("bad powered valve data %d accepted", z)); }
    TsPoweredValveController base; TsSpeedValveController sp; struct XO : TsOpenCloseValveController { void handle(bool o, float p) { mHandleStowed = o ? UNSTOWED : STOWED; mHandlePosition = p; } bool out() const { return mHandleStowed == UNSTOWED; } float at() const { return mHandlePosition; } } oc; struct XT : TsToggleValveController {} tg; TsPositionValveController po; TsOpenCloseValveAssembly oa; TsToggleValveAssembly ta; TsPoweredValveController* x; const double stol = double(float(w * 0.005)); const SensorBooleanAiConfigData so(false, float(p.v.hi), float(stol)), sc(false, float(p.v.lo), float(stol)); const SensorBooleanAiInputData si(true); const double l0 = p.v.lo; (void)l0;
    switch (kind) { case 0: base.initialize(k, in, "x"); x = &base; break; case 1: sp.initialize(k, in, "x"); x = &sp; break; case 2: oc.initialize(k, in, "x"); x = &oc; break; case 3: tg.initialize(k, in, "x"); x = &tg; break; case 4: po.initialize(TsPositionValveControllerConfigData(p.v.lo, p.v.hi, p.v.flo, p.v.fhi, transit, ref, p.hp, p.mp, p.sp, p.vref, eot, p.latch, tolc), in, "x"); x = &po; break; case 5: oa.initialize(TsOpenCloseValveAssemblyConfigData(k, so, sc), TsOpenCloseValveAssemblyInputData(in, si, si), "x"); x = &oa.mController; break; default: ta.initialize(TsToggleValveAssemblyConfigData(k, so, sc), TsToggleValveAssemblyInputData(in, si, si), "x"); x = &ta.mController; }
    CHK(x->isInitialized(), "valve-init", "not initialized"); p.v.pos = x->getPosition(); if (p.v.man) NEAR(p.v.pos, p.v.manV, 1e-12, 0, "valve-init", "initial manual position"); else if (p.en && p.volt) NEAR(p.v.pos, in.mCmdPosition, 1e-12, 1e-12, "valve-init", "initial position"); Edge edge; bool so1 = std::fabs(p.v.hi - in.mCmdPosition) < 1e-9, sc1 = std::fabs(in.mCmdPosition - p.v.lo) < 1e-9; bool op = false, cl = false, tog = false; double spd = 0, want = p.v.pos;
    for (int t = 0; t < steps && !c.failed(); ++t) { if (r.p(0.15)) pmalf(r, p, *x); if (r.p(0.1)) p.volt = r.p(0.7); if (r.p(0.1)) p.en = r.p(0.7); if (r.p(0.3)) { op = r.p(0.4); cl = r.p(0.4); tog = r.p(0.5); spd = r.p(0.2) ? 0 : r.sgn() * std::fabs(ref) * r.logu(0.1, 3); want = r.uni(p.v.lo, p.v.hi); } const double dt = r.p(0.05) ? 0 : r.logu(0.01, 1), pos0 = p.v.pos, mid = 0.5 * (p.v.lo + p.v.hi); double cmd = 0; bool edgy = false; x->setSupplyVoltageFlag(p.volt); const bool fb = r.p(0.7); const bool ss = r.p(0.1), s2 = r.p(0.1);
        auto sensedO = [&](double q) { return p.v.hi - q <= stol; }; auto sensedC = [&](double q) { return q - p.v.lo <= stol; };
        if (kind == 0) { cmd = spd; if (r.p(0.5)) x->update(p.volt, p.en, cmd, dt); else { x->setEnabledFlag(p.en); x->setCmd(cmd); x->update(dt); } }
        else if (kind == 1) { cmd = spd; if (fb) { so1 = ss; sc1 = s2; sp.setOpenSensed(so1); sp.setCloseSensed(sc1); } if (eot) { const double dir = cmd * p.scale; if ((dir > 0 && so1) || (dir < 0 && sc1)) cmd = 0; } sp.setEnabledFlag(p.en); sp.setSpeedCommand(spd); sp.update(dt); }
        else if (kind == 2 || kind == 5) { cmd = op == cl ? 0 : op ? 1 : -1; if (kind == 2 && !eot) { if (r.p(0.1)) oc.handle(r.p(0.5), r.p(0.4) ? 0 : r.p(0.3) ? 1 : float(r.u())); if (oc.out()) { cmd = oc.at() > 1.1920929e-7f ? 1 : -1; c.count("handle"); } } if (kind == 2 && fb) { so1 = ss; sc1 = s2; oc.setOpenSensed(so1); oc.setCloseSensed(sc1); } if (eot) { if (op && so1) cmd = op && !cl ? 0 : cmd; if (!op && cl && sc1) cmd = 0; } if (kind == 2) { oc.setEnabledFlag(p.en); oc.setOpenCommand(op); oc.setCloseCommand(cl); oc.update(dt); } else oa.update(p.volt, TsOpenCloseValveCmd(p.en, op, cl), dt); }
        else if (kind == 3 || kind == 6) { if (kind == 3 && fb) { so1 = ss; sc1 = s2; tg.setOpenSensed(so1); tg.setCloseSensed(sc1); } const bool go = dt > DBL_EPSILON && edge.step(p.en, tog); edgy = pos0 != mid && std::fabs(pos0 - mid) < 1e-9 * w; if (pos0 == mid) c.count("mid"); if (go && !(eot && (pos0 < mid ? so1 : sc1))) cmd = (pos0 < mid ? 1 : -1) * w / dt; if (kind == 3) { tg.setEnabledFlag(p.en); tg.setToggle(tog); tg.update(dt); } else ta.update(p.volt, p.en, tog, dt); }
        else { const double sensed = fb ? pos0 : r.uni(p.v.lo, p.v.hi); po.setEnabledFlag(p.en); po.setPositionCommand(want); po.setSensed(sensed); edgy = std::fabs(std::fabs(want - sensed) - tolc) < 1e-9 * w; if (std::fabs(want - sensed) >= tolc && dt > DBL_EPSILON) { cmd = clampd(-1, (want - sensed) / (dt * std::fabs(p.scale)), 1) * (p.scale < 0 ? -1 : 1); } po.update(dt); }
        if (edgy) break; const bool atEnd = (std::fabs(pos0 - p.v.lo) < 1e-9 * w && pos0 != p.v.lo) || (std::fabs(pos0 - p.v.hi) < 1e-9 * w && pos0 != p.v.hi); p.step(cmd, dt); if (atEnd) break; judgePowered(c, p, *x, "powered-valve"); c.count("updates"); p.v.pos = x->getPosition();
        if (p.volt && p.en && !p.fail && !p.dStuck && !p.dTo && !p.v.stuck && !p.v.failTo && !p.v.man && kind != 3 && kind != 6) CHK(std::fabs(p.v.pos - pos0) <= std::fabs(cmd * p.scale * dt) * (1 + 1e-9) + 1e-9 * w, "valve-speed", "valve moved faster than commanded");
        if (kind >= 5) { const double fz = 2e-6 * (std::fabs(p.v.lo) + std::fabs(p.v.hi)) + 1e-7; const bool gO = kind == 5 ? oa.getOpenSensed() : ta.getOpenSensed(), gC = kind == 5 ? oa.getCloseSensed() : ta.getCloseSensed(); if (std::fabs(p.v.hi - p.v.pos - stol) > fz) CHK(gO == sensedO(p.v.pos), "valve-assembly", mon::fmt("open sensed %d at %g of %g..%g", gO, p.v.pos, p.v.lo, p.v.hi)); if (std::fabs(p.v.pos - p.v.lo - stol) > fz) CHK(gC == sensedC(p.v.pos), "valve-assembly", mon::fmt("closed sensed %d at %g of %g..%g", gC, p.v.pos, p.v.lo, p.v.hi)); so1 = gO; sc1 = gC; }
        c.hit(mon::mix(kind * 4 + eot * 2, p.v.low + 2 * p.v.up + 4 * (cmd > 0) + 8 * (cmd < 0) + 16 * (p.power > 0) + 32 * p.dStuck + 64 * p.dTo + 128 * p.v.man + 256 * p.v.stuck + 512 * int(p.latch))); }
}

MON_PROP2(S02, queue, "queued toggle commands") {
    mon::Rng& r = c.r; struct XC : TsToggleValveCmd { bool e[16], t[16]; XC() : TsToggleValveCmd(false, false) {} void set(int n) { mEnable_queue = e; mToggle_queue = t; mEnable_queue_size = mToggle_queue_size = n; } bool armed() const { return mArmed; } int n() const { return mToggleCount; } } x; bool armed = true; int total = 0; const int steps = r.i(3, 30); for (int s = 0; s < steps && !c.failed(); ++s) { const int n = r.i(0, 8); x.set(n); bool e = r.p(0.7), t = r.p(0.5); x.mEnable = e; x.mToggle = t; int k = 0, en = 0; for (int i = 0; i < n; ++i) { x.e[i] = r.p(0.7); x.t[i] = r.p(0.5); en += x.e[i]; if (x.e[i]) { if (armed && x.t[i]) { ++k; armed = false; } else if (!armed && !x.t[i]) armed = true; } } if (n == 0 && e) { if (armed && t) { k = 1; armed = false; } else if (!armed && !t) armed = true; } x.update(0.1); CHK(x.getToggle() == (k % 2 == 1), "toggle-queue", mon::fmt("%d valid toggles give %d", k, x.getToggle())); if (n) { const double share = double(en) / n; CHK(x.getEnable() == (k % 2 == 1 || share >= 0.49), "toggle-queue", mon::fmt("enable %d with %d of %d enabled", x.getEnable(), en, n)); total += k; } else { CHK(x.getEnable() == e, "toggle-queue", "enable changed"); total += k; } CHK(x.armed() == armed && x.n() == total, "toggle-queue", "armed state or count"); c.count("updates"); c.hit(mon::mix(90, n * 16 + k * 2 + armed)); }
}

// ---------------------------------------------------------------------------------------------- heaters, PID, motors
MON_PROP2(S03, thermostat, "thermostats: hysteresis, multiple sensors, overrides") {
    mon::Rng& r = c.r; SRef base = randSensor(r, true); base.k.u = UnitConversion::NO_CONVERSION; base.k.noisy = false; base.k.res = 0; base.k.bias = 0; base.k.scale = 1; base.k.off = 200; SensorAnalogConfigData sc = base.cfg(); const int logic = r.i(1, 3), n = logic == 1 ? 1 : r.i(1, 4); auto q64 = [](double v) { return std::floor(v * 64) / 64; }; const double lo = q64(r.uni(220, 300)), hi = lo + q64(r.uni(1, 30)); SensorAnalogInputData si(true, r.uni(lo - 20, hi + 20)); const bool mOn = r.p(0.1), mOff = r.p(0.1); const double ml = q64(r.uni(220, 300)), mh = ml + q64(r.uni(1, 30));
    struct X : Thermostat { void kill(bool f) { mIsKillSwitchEngaged = f; } UserLoadMode nom() const { return mCommandSetpt; } double low() const { return mSetptLow; } double high() const { return mSetptHigh; } } x;
    if (r.p(0.05)) { X b; const int w = r.i(0, 4); SensorAnalogInputData bs(true, 0.0); CHK(refused([&] { b.initialize(ThermostatConfigData(sc, w == 0 ? hi : lo, w == 0 ? lo : hi, w == 1 ? 0 : w == 2 ? 2 : 1, ThermostatConfigData::SINGLE), ThermostatInputData(bs, w == 3, w == 3, false, false, w == 4 ? 300 : 0, w == 4 ? 300 : 1000), "x"); }), "thermostat-refuse", mon::fmt("bad data %d accepted", w)); X u; CHK(refused([&] { u.update(0.1); }), "thermostat-refuse", "update before initialization accepted"); }
    x.initialize(ThermostatConfigData(sc, lo, hi, n, ThermostatConfigData::LogicType(logic)), ThermostatInputData(si, mOn && !mOff, mOff, false, false, ml, mh), "x"); CHK(x.isInitialized(), "thermostat-init", "not initialized"); bool fl = false, fh = false, kill = false, nomOn = false, setOn = false, ready = false; double bias = 0; std::vector<double> T(size_t(n), si.mTruthInput);
    const int steps = r.i(10, 80); for (int t = 0; t < steps && !c.failed(); ++t) { for (auto& v : T) { v += r.uni(-6, 6); if (r.p(0.05)) v = r.uni(lo - 30, hi + 30); if (r.p(0.08)) v = (r.p(0.5) ? fl ? ml : lo + bias : fh ? mh : hi + bias); } if (r.p(0.05)) { fl = r.p(0.5); fh = r.p(0.5); x.mMalfSetptLowFlag = fl; x.mMalfSetptHighFlag = fh; x.mMalfSetptLowValue = ml; x.mMalfSetptHighValue = mh; } if (r.p(0.05)) { x.mMalfCmdOnFlag = r.p(0.4); x.mMalfCmdOffFlag = r.p(0.4); } if (r.p(0.05)) x.kill(kill = r.p(0.4)); if (r.p(0.05)) { bias = q64(r.uni(-10, 10)); if (r.p(0.5)) x.setCommandSetptBias(bias); else x.setTemperatureSetpt(0.5 * (lo + hi) + bias); }
        std::vector<double> S(T.size()); bool edge = false; for (int i = 0; i < n; ++i) x.mTempSensor[i].setTruthInput(T[size_t(i)]); x.update(0.1); for (int i = 0; i < n; ++i) { S[size_t(i)] = double(x.mTempSensor[i].getSensedOutput()); NEAR(S[size_t(i)], T[size_t(i)], 1e-5, 0, "thermostat-sensor", "sensed temperature"); }
        auto read = [&](bool cur, double l, double h) { bool any = false, all = true; for (double s : S) { if ((s != l && std::fabs(s - l) < 1e-4) || (s != h && std::fabs(s - h) < 1e-4)) edge = true; if (s == l || s == h) c.count("at_set_point"); const bool on = s > h ? false : s < l ? true : cur; any = any || on; all = all && on; } return logic == ThermostatConfigData::AND ? all : any; };
        nomOn = read(nomOn, lo + bias, hi + bias); setOn = read(fl || fh ? setOn : nomOn, fl ? ml : lo + bias, fh ? mh : hi + bias); const bool want = x.mMalfCmdOffFlag ? false : x.mMalfCmdOnFlag ? true : kill ? false : setOn; if (edge) break; if (!ready && (fl || fh)) break; ready = true; CHK((x.getCommandActual() == LoadON) == want, "thermostat", mon::fmt("command %d expected %d, first sensor %g, set points %g %g", int(x.getCommandActual()), want, S[0], x.low(), x.high())); NEAR(x.low(), fl ? ml : lo + bias, 1e-12, 0, "thermostat-setpoint", "low set point"); NEAR(x.high(), fh ? mh : hi + bias, 1e-12, 0, "thermostat-setpoint", "high set point"); c.count("updates"); c.hit(mon::mix(logic * 8 + n, fl + 2 * fh + 4 * kill + 8 * x.mMalfCmdOnFlag + 16 * x.mMalfCmdOffFlag + 32 * want)); }
}

MON_PROP2(S03, pid, "PID controller") {
    mon::Rng& r = c.r; const double kp = r.uni(-2, 2), ki = r.p(0.3) ? 0 : r.uni(-1, 1), kd = r.p(0.3) ? 0 : r.uni(-0.5, 0.5), iv = r.logu(0.05, 1), lo = r.uni(-10, 0), hi = lo + r.logu(0.1, 100), sp0 = r.uni(-5, 5); double in = r.uni(-5, 5), sp = sp0, timer = r.uni(0, iv * 0.9), integ = r.uni(-1, 1), out = r.uni(lo, hi), e = in - sp; TsPidController x; if (r.p(0.05)) { TsPidController b; const bool w = r.p(0.5); CHK(refused([&] { b.initialize(TsPidControllerConfigData(1, 0, 0, w ? 0 : 1, 0, w ? 1 : 0), TsPidControllerInputData(), "x"); }), "pid-refuse", "bad data accepted"); }
    x.initialize(TsPidControllerConfigData(kp, ki, kd, iv, lo, hi), TsPidControllerInputData(in, sp, timer, integ, out), "x"); const int steps = r.i(5, 80); for (int t = 0; t < steps && !c.failed(); ++t) { const double dt = r.p(0.1) ? 0 : r.logu(0.01, 0.5); in = r.p(0.1) ? sp : in + r.uni(-1, 1); if (r.p(0.1)) { sp = r.uni(-5, 5); x.setSetpoint(sp); } const double o0 = out; timer += dt; bool edge = std::fabs(timer - iv) < 1e-9; if (timer >= iv) { const double pe = e; e = in - sp; integ += e * timer; out = clampd(lo, out + kp * e + ki * integ + kd * (e - pe) / timer, hi); timer = 0; c.hit(mon::mix(1, (out == lo) + 2 * (out == hi) + 4 * (ki != 0) + 8 * (kd != 0))); } const double got = r.p(0.5) ? x.update(dt, in) : (x.setInput(in), x.update(dt)); if (edge) break; if (std::fabs(integ) < 1e-14) break; NEAR(got, out, 1e-9, 1e-9 * (1 + std::fabs(hi) + std::fabs(integ) + std::fabs(o0)), "pid", "controller output"); CHK(got >= lo && got <= hi, "pid-limits", mon::fmt("output %g outside %g..%g", got, lo, hi)); out = got; c.count("updates"); }
}

MON_PROP2(S03, motor, "DC pump motors, PWM motors and pump motor controllers") {
    mon::Rng& r = c.r; const double RPM = 60 / (2 * M_PI); const int kind = r.i(0, 2), steps = r.i(10, 120); const double dt = r.logu(0.005, 0.1);
    if (kind <= 1) { const double R = r.logu(0.1, 20), kt = r.logu(0.01, 1), J = r.logu(0.005, 0.5), fr = r.p(0.3) ? 0 : r.logu(1e-6, 1e-3), fm = r.p(0.5) ? 0 : r.uni(0, 100); double V = r.p(0.1) ? 0 : r.uni(5, 130), w = r.p(0.3) ? 0 : r.uni(0, 3000), lim = r.p(0.6) ? 1e15 : r.logu(0.1, 10), L[4] = {0, 0, 0, 0};
        const double pwf = r.u() * 0.3, c1 = r.logu(0.001, 0.1), c2 = r.p(0.5) ? 0 : r.logu(1e-6, 1e-4), slr = r.logu(100, 20000), bk = r.logu(1e-4, 0.05); double pw = r.u(); DcDynPumpMotor a; TsDcPwmDynMotor b;
        if (r.p(0.05)) { const int z = r.i(0, 6); DcDynPumpMotor q; CHK(refused([&] { q.initialize(DcDynPumpMotorConfigData(z == 0 ? 0 : 1, z == 1 ? 0 : 1, z == 2 ? -1 : 0, z == 3 ? -1 : 0, z == 4 ? 0 : 1), DcDynPumpMotorInputData(z == 5 ? -1 : 0, 1e15, z == 6 ? -1 : 0), "x"); }), "motor-refuse", mon::fmt("bad motor data %d accepted", z)); TsDcPwmDynMotor q2; const int y = r.i(0, 7); CHK(refused([&] { q2.initialize(TsDcPwmDynMotorConfigData(y == 0 ? 1.5 : 0, 1, 0, y == 1 ? 1 : 0, 1, y == 2 ? 0 : 1, y == 3 ? 0 : 1, y == 4 ? 0 : 1), TsDcPwmDynMotorInputData(y == 5 ? -1 : 0, y == 6 ? 2 : 0, y == 7 ? -1 : 0), "x"); }), "motor-refuse", mon::fmt("bad PWM motor data %d accepted", y)); }
        if (kind == 0) a.initialize(DcDynPumpMotorConfigData(R, kt, fr, fm, J), DcDynPumpMotorInputData(V, lim, w), "x"); else b.initialize(TsDcPwmDynMotorConfigData(pwf, c1, c2, -fr, bk, R, J, slr), TsDcPwmDynMotorInputData(V, pw, w), "x"); bool dg = false, jam = false, so = false, hb = false; double dv = 0, jv = 0, sv = 0, hv = 0; c.note = mon::fmt("kind %d R %g Kt %g J %g dt %g", kind, R, kt, J, dt);
        for (int t = 0; t < steps && !c.failed(); ++t) { if (r.p(0.1)) V = r.p(0.2) ? 0 : r.uni(5, 130); if (r.p(0.1)) pw = r.u(); if (r.p(0.05)) lim = r.p(0.5) ? 1e15 : r.logu(0.1, 10); if (r.p(0.1)) for (double& v : L) v = r.p(0.5) ? 0 : -r.logu(1e-3, 0.3) * (r.p(0.1) ? -1 : 1); auto mal = [&](bool& f, double& v, bool& xf, double& xv, double val) { if (r.p(0.05)) { f = xf = r.p(0.5); v = xv = val; } };
            if (kind == 0) { mal(dg, dv, a.mMalfDegradeFlag, a.mMalfDegradeValue, r.u()); mal(jam, jv, a.mMalfJamFlag, a.mMalfJamValue, r.u()); mal(so, sv, a.mMalfSpeedOverrideFlag, a.mMalfSpeedOverrideValue, r.uni(0, 4000)); mal(hb, hv, a.mMalfHeatRateBiasFlag, a.mMalfHeatRateBiasValue, r.uni(-20, 20)); a.setVoltage(V); a.setCurrentLimit(lim); a.setLoadTorques(L[0], L[1], L[2], L[3]); a.step(dt); } else { mal(dg, dv, b.mMalfDegradeFlag, b.mMalfDegradeValue, r.u()); mal(jam, jv, b.mMalfJamFlag, b.mMalfJamValue, r.u()); mal(so, sv, b.mMalfSpeedOverrideFlag, b.mMalfSpeedOverrideValue, r.uni(0, 4000)); mal(hb, hv, b.mMalfHeatRateBiasFlag, b.mMalfHeatRateBiasValue, r.uni(-20, 20)); b.setVoltage(V); b.setPulseWidth(pw); b.setLoadTorques(L[0], L[1], L[2], L[3]); b.step(dt); }
            double I, drive, stall, P, load = L[0] + L[1] + L[2] + L[3], wn, fric; if (kind == 0) { const double Rd = dg ? R / std::max(DBL_EPSILON, 1 - dv) : R; I = clampd(0, (V - kt * w / RPM) / Rd, lim); stall = kt * V / Rd; drive = kt * I; fric = -fr * std::max(w, fm); } else { stall = (c1 * V + c2 * V * V) * (dg ? 1 - dv : 1); drive = std::max(stall - w / slr, 0.0) * pw; fric = -fr; I = 0; } if (jam) load -= jv * stall; const double scale = std::fabs(drive) + std::fabs(load) + std::fabs(fric); wn = std::max(0.0, w + (drive + load + fric) * dt * RPM / J); if (so) wn = sv; const double gw = kind ? b.getSpeed() : a.getSpeed(); NEAR(gw, wn, 1e-9, 1e-9 * (w + scale * dt * RPM / J), "motor-speed", mon::fmt("speed after %g", w)); CHK(so || gw >= 0, "motor-speed", "negative speed");
            const double bemf = bk * gw / R; if (kind == 1) I = std::max(0.0, (pwf + pw * (1 - pwf)) * (V / R - bemf) * (dg ? 1 - dv : 1)); const double gi = kind ? b.getCurrent() : a.getCurrent(), gp = kind ? b.getPower() : a.getPower(), gr = kind ? b.getResistance() : a.getResistance(); NEAR(gi, I, 1e-9, 1e-9 * (V / R + bemf + (kind ? 0 : kt * w / RPM / R)), "motor-current", "current"); P = gi * V; NEAR(gp, P, 1e-12, 1e-15, "motor-power", "power is current times voltage"); if (gi > 1e-9) NEAR(gr * gi, V, 1e-9, 0, "motor-resistance", "resistance times current"); if (kind == 1) NEAR(b.getGeneratedCurrent(), std::max(bemf - gi, 0.0), 1e-9, 1e-12, "motor-current", "generated current");
            const double use = -load * gw / RPM, q = std::max(gp - use, 0.0) + (hb ? hv : 0), gq = kind ? b.getWasteHeat() : a.getWasteHeat(), ge = kind ? b.getEfficiency() : a.getEfficiency(); NEAR(gq, q, 1e-9, 1e-9 * (gp + std::fabs(use)) + 1e-12, "motor-heat", "waste heat is power not delivered"); NEAR(ge, gp > 0 ? use / gp : 0, 1e-9, 1e-9 * (gp > 0 ? scale * gw / gp : 0) + 1e-12, "motor-efficiency", "efficiency"); w = gw; c.count("steps"); c.hit(mon::mix(10 + kind, dg + 2 * jam + 4 * so + 8 * hb + 16 * (V > 0) + 32 * (gi > 0) + 64 * (gi >= lim) + 128 * (gw > 0))); } }
    else { const double fg = r.u(), dgn = r.p(0.5) ? 0 : r.u() * 0.5, dc = r.logu(0.001, 0.5), tl = r.uni(300, 400), tr = tl - r.uni(1, 50), vmin = r.uni(0, 60), vmax = vmin + r.uni(10, 100), pc = r.uni(0, 50), na = r.p(0.5) ? 0 : r.uni(0, 50), nf = r.uni(0, 5), sl = r.p(0.5) ? 1e15 : r.logu(0.1, 5), kt = r.logu(0.02, 0.5), R = r.logu(0.2, 10), J = r.logu(0.01, 0.5), fr = r.logu(1e-6, 1e-4); struct X : TsPumpMotorController { bool start() const { return mStartupState; } } x; double V = r.uni(vmin, vmax), spd = 0, T = 290, cmd = 0, ph = r.uni(0, 6); bool en = false; const bool st = r.p(0.5);
        if (r.p(0.05)) { const int z = r.i(0, 10); TsPumpMotorController q; TsPumpMotorControllerConfigData k(DcDynPumpMotorConfigData(1, 1, 0, 0, 1), z == 0 ? 2 : 1, z == 1 ? -1 : 1, z == 2 ? 2 : 0.1, z == 3 ? 200 : 300, z == 3 ? 200 : z == 4 ? -1 : 200, z == 5 ? -1 : 0, z == 6 ? 0 : 100, z == 7 ? -1 : 0, z == 8 ? -1 : 0, z == 9 ? -1 : 0); CHK(refused([&] { q.initialize(k, TsPumpMotorControllerInputData(DcDynPumpMotorInputData(), z == 10 ? -1 : 0), "x"); }), "motor-refuse", mon::fmt("bad controller data %d accepted", z)); }
        x.initialize(TsPumpMotorControllerConfigData(DcDynPumpMotorConfigData(R, kt, fr, 0, J), fg, dgn, dc, tl, tr, vmin, vmax, pc, na, nf, sl), TsPumpMotorControllerInputData(DcDynPumpMotorInputData(0, 1e15, 0), V, 0, T, st, en, cmd, ph), "x"); bool trip = false, start = st; double pulse = 0, err = 0; c.note = mon::fmt("forcing %g damping %g cutoff %g V %g..%g limit %g", fg, dgn, dc, vmin, vmax, sl);
        for (int t = 0; t < steps && !c.failed(); ++t) { if (r.p(0.1)) cmd = r.p(0.2) ? 0 : r.uni(100, 3000); if (r.p(0.1)) en = r.p(0.7); if (r.p(0.1)) V = r.p(0.7) ? r.uni(vmin, vmax) : r.uni(0, 1.3 * vmax); if (r.p(0.15)) T = r.uni(tr - 30, tl + 30); if (r.p(0.03)) x.mMalfFailPower = r.p(0.5); if (r.p(0.03)) { x.mMalfPowerOverrideFlag = r.p(0.5); x.mMalfPowerOverrideValue = r.uni(0, 1.3 * vmax); } if (r.p(0.03)) { x.mMalfCommandSpeedFlag = r.p(0.5); x.mMalfCommandSpeedValue = r.uni(0, 3000); } const double load = -r.logu(1e-3, 0.3); spd = x.getMotorSpeed() * (r.p(0.1) ? r.uni(0.9, 1.1) : 1); x.setMotorLoadTorques(load); if (r.p(0.5)) x.stepWithArgs(dt, V, spd, T, cmd, en); else { x.setVoltage(V); x.setSensedSpeed(spd); x.setSensedTemperature(T); x.setCommandSpeed(cmd); x.setCommandEnable(en); x.step(dt); }
            const double U = x.mMalfPowerOverrideFlag ? x.mMalfPowerOverrideValue : V; const bool bus = U >= vmin && U <= vmax && !x.mMalfFailPower; trip = bus && (trip || T > tl) && !(T < tr); const bool mot = bus && en && !trip; CHK(x.isControllerBusPowered() == bus, "controller-power", mon::fmt("controller powered %d at %g V", x.isControllerBusPowered(), U)); CHK(x.isTemperatureTripped() == trip, "controller-trip", mon::fmt("tripped %d at %g K, limit %g reset %g", x.isTemperatureTripped(), T, tl, tr)); CHK(x.isMotorBusPowered() == mot, "controller-power", "motor bus");
            double sc = x.mMalfCommandSpeedFlag ? x.mMalfCommandSpeedValue : cmd; if (mot && sc > FLT_EPSILON) { ph += 2 * M_PI * nf * dt; sc += na * std::sin(ph); const double e0 = err; err = sc > FLT_EPSILON ? (sc - spd) / sc : -1; pulse += err * fg; if (std::fabs(err) > dc) pulse += dgn * (err - e0) / std::max(std::fabs(err), 1e-4); else start = false; if (std::fabs(std::fabs(err) - dc) < 1e-9) break; pulse = clampd(0, pulse, 1); } else { pulse = err = 0; start = true; }
            NEAR(x.getPulseWidth(), pulse, 1e-6, 1e-6 * (1 + std::fabs(err)), "controller-pulse", "pulse width"); CHK(x.getPulseWidth() >= 0 && x.getPulseWidth() <= 1, "controller-pulse", "pulse width range"); CHK(x.start() == start, "controller-startup", "start-up state"); pulse = x.getPulseWidth(); if (start && sl < 1e10) CHK(x.getMotorCurrent() <= sl * (1 + 1e-12), "controller-limit", mon::fmt("start-up current %g over %g", x.getMotorCurrent(), sl));
            NEAR(x.getMotorPower(), x.getMotorCurrent() * pulse * U, 1e-6, 1e-9, "controller-motor-power", "motor power"); const double wantI = U > 0.01 ? (bus ? pc / U : 0) + (mot ? pulse * x.getMotorCurrent() : 0) : 0; if (U > 0.01 && bus) { NEAR(x.getTotalCurrent(), wantI, 1e-6, 1e-9, "controller-current", "current drawn by controller and motor"); if (!x.mMalfPowerOverrideFlag) NEAR(x.getTotalPower(), pc + (mot ? x.getMotorPower() : 0), 1e-6, 1e-9, "controller-total-power", "power drawn by controller and motor"); NEAR(x.getTotalResistance() * x.getTotalCurrent(), U, 1e-9, 0, "controller-resistance", "resistance of controller and motor"); } NEAR(x.getTotalWasteHeat(), (bus ? pc : 0) + (mot ? x.mMotor.getWasteHeat() : 0), 1e-12, 1e-12, "controller-heat", "waste heat of controller and motor"); c.count("steps"); c.hit(mon::mix(20, bus + 2 * trip + 4 * mot + 8 * start + 16 * (pulse >= 1) + 32 * (pulse <= 0) + 64 * x.mMalfPowerOverrideFlag + 128 * x.mMalfCommandSpeedFlag + 256 * x.mMalfFailPower)); } }
}
