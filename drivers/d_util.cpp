// Shared utilities: unit conversions, mission timer, reaction and material tables, saturation fits, the C linear solver and
// the combustion model.
// EXTRA_SOURCES: ms-utils/units/TS_conversions.c ms-utils/simulation/timer/TS_timer.c ms-utils/math/linear_algebra/choleski_ldu.c
#include "mon.hpp"
#include <map>
extern "C" {
#include "simulation/timer/TS_timer.h"
#include "math/linear_algebra/choleski_ldu.h"
}
#include "units/TS_conversions.h"
#include "properties/ChemicalReaction.hh"
#include "properties/ChemicalCompound.hh"
#include "properties/SolidProperties.hh"
#include "properties/PredefinedMaterialProperties.hh"
#include "properties/MaterialProperties.hh"
#include "properties/FluidHvapFit.hh"
#include "properties/FluidTsatFit.hh"
#include "properties/CombustFactory.hh"
#include "properties/Combust.hh"
#include "properties/CombustCH4.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include "software/exceptions/TsInitializationException.hh"
namespace {
typedef double (*Conv)(double);
struct Scale { const char* n; double toK, off; };       // K = (T + off) * toK
const Scale SC[4] = {{"degF", 5.0 / 9.0, 459.67}, {"degR", 5.0 / 9.0, 0}, {"degC", 1, 273.15}, {"degK", 1, 0}};
const Conv CV[4][4] = {{0, TS_convert_degF_to_degR, TS_convert_degF_to_degC, TS_convert_degF_to_degK}, {TS_convert_degR_to_degF, 0, TS_convert_degR_to_degC, TS_convert_degR_to_degK},
    {TS_convert_degC_to_degF, TS_convert_degC_to_degR, 0, TS_convert_degC_to_degK}, {TS_convert_degK_to_degF, TS_convert_degK_to_degR, TS_convert_degK_to_degC, 0}};
struct Pair { const char* n; const double *a, *b; double truth, tol; };   // a = truth, a * b = 1
#define PR(A, B, T, TOL) {#A, &A, &B, T, TOL}
const double lbf = 4.4482216152605, in = 0.0254, ft = 0.3048, lbm = 0.45359237, btu = 1055.05585, psi = lbf / in / in;
const Pair PAIRS[] = {
    PR(TS_SEC_PER_DAY, TS_DAY_PER_SEC, 86400, 1e-4), PR(TS_SEC_PER_HR, TS_HR_PER_SEC, 3600, 1e-6), PR(TS_MIN_PER_HR, TS_HR_PER_MIN, 60, 1e-6), PR(TS_SEC_PER_MIN, TS_MIN_PER_SEC, 60, 1e-6), PR(TS_SEC_PER_MSEC, TS_MSEC_PER_SEC, 1000, 1e-9), PR(TS_HZ_PER_MHZ, TS_MHZ_PER_HZ, 1e6, 1e-9),
    PR(TS_IN_PER_FT, TS_FT_PER_IN, 12, 1e-9), PR(TS_FT_PER_YD, TS_YD_PER_FT, 3, 1e-9), PR(TS_CM_PER_IN, TS_IN_PER_CM, 2.54, 1e-9), PR(TS_IN_PER_M, TS_M_PER_IN, 1 / in, 1e-9), PR(TS_FT_PER_M, TS_M_PER_FT, 1 / ft, 1e-9), PR(TS_FT_PER_MI, TS_MI_PER_FT, 5280, 1e-5), PR(TS_FT_PER_NMI, TS_NMI_PER_FT, 1852 / ft, 1e-5), PR(TS_M_PER_KM, TS_KM_PER_M, 1000, 1e-9),
    PR(TS_IN2_PER_FT2, TS_FT2_PER_IN2, 144, 1e-9), PR(TS_IN2_PER_M2, TS_M2_PER_IN2, 1 / in / in, 1e-9), PR(TS_FT2_PER_M2, TS_M2_PER_FT2, 1 / ft / ft, 1e-9), PR(TS_IN3_PER_FT3, TS_FT3_PER_IN3, 1728, 1e-8), PR(TS_IN3_PER_M3, TS_M3_PER_IN3, 1 / in / in / in, 1e-8), PR(TS_FT3_PER_M3, TS_M3_PER_FT3, 1 / ft / ft / ft, 1e-8),
    PR(TS_PA_PER_PSI, TS_PSI_PER_PA, psi, 2e-6), PR(TS_TORR_PER_PSI, TS_PSI_PER_TORR, psi * 760 / 101325, 3e-6), PR(TS_PSI_PER_ATM, TS_ATM_PER_PSI, 101325 / psi, 3e-6), PR(TS_PA_PER_ATM, TS_ATM_PER_PA, 101325, 1e-8), PR(TS_MMHG_PER_PSI, TS_PSI_PER_TORR, psi * 760 / 101325, 1e-3),
    PR(TS_LBM_PER_KG, TS_KG_PER_LBM, 1 / lbm, 1e-9), PR(TS_LBM_PER_G, TS_G_PER_LBM, 0.001 / lbm, 1e-9), PR(TS_LBM_PER_HR_PER_KG_PER_SEC, TS_KG_PER_SEC_PER_LBM_PER_HR, 3600 / lbm, 1e-5), PR(TS_LBM_PER_SEC_PER_KG_PER_SEC, TS_KG_PER_SEC_PER_LBM_PER_SEC, 1 / lbm, 1e-7),
    PR(TS_BTU_PER_J, TS_J_PER_BTU, 1 / btu, 1e-6), PR(TS_BTU_PER_KJ, TS_KJ_PER_BTU, 1000 / btu, 1e-6), PR(TS_BTU_PER_W_S, TS_W_S_PER_BTU, 1 / btu, 1e-6), PR(TS_BTU_PER_HR_PER_W, TS_W_PER_BTU_PER_HR, 3600 / btu, 1e-3), PR(TS_BTU_PER_HR_PER_KW, TS_KW_PER_BTU_PER_HR, 3.6e6 / btu, 1e-3), PR(TS_F_PER_C, TS_C_PER_F, 1.8, 1e-9),
    PR(TS_BTU_OVER_LBMF_PER_KJ_OVER_KGK, TS_KJ_OVER_KGK_PER_BTU_OVER_LBMF, 1000 / (btu / lbm * 1.8), 1e-6),
    PR(TS_DEG_PER_RAD, TS_RAD_PER_DEG, 180 / M_PI, 1e-12), PR(TS_MIL_PER_RAD, TS_RAD_PER_MIL, 6400 / (2 * M_PI), 1e-9), PR(TS_MIL_PER_DEG, TS_DEG_PER_MIL, 6400 / 360.0, 1e-9), PR(TS_RAD_PER_REV, TS_REV_PER_RAD, 2 * M_PI, 1e-7), PR(TS_ARCSEC_PER_RAD, TS_RAD_PER_ARCSEC, 180 * 3600 / M_PI, 1e-7), PR(TS_ARCMIN_PER_RAD, TS_RAD_PER_ARCMIN, 180 * 60 / M_PI, 1e-7) };
}
MON_PROP2(M06, units, "chains of temperature and power conversions against exact ones, and reciprocal constant pairs; distinct = conversion chains") {
    int k = c.r.i(0, 3); double K = c.r.p(0.1) ? 0.0 : c.r.logu(1e-3, 1e5); double t = K / SC[k].toK - SC[k].off; std::string path = SC[k].n; c.note = mon::fmt("%.17g K", K);
    const int n = c.r.i(1, 6); for (int i = 0; i < n; ++i) { int j = c.r.i(0, 3); if (j == k) continue; t = CV[k][j](t); path += std::string(" ") + SC[j].n; k = j; NEAR(t, K / SC[k].toK - SC[k].off, 1e-12, 1e-9, "temperature", "temperature through " + path); }
    c.hit(path);
    const double p = c.r.logu(1e-12, 1e12); NEAR(TS_convert_PR_to_dB(p), 10 * std::log(p) / std::log(10.0), 1e-12, 1e-12, "decibel", "power ratio in dB"); NEAR(TS_convert_dB_to_PR(TS_convert_PR_to_dB(p)), p, 1e-12, 0, "decibel", "power ratio back from dB"); NEAR(TS_convert_W_to_dBW(p), TS_convert_PR_to_dB(p), 1e-15, 1e-15, "decibel", "W in dBW"); NEAR(TS_convert_W_to_dBW(-p), 0, 0, 0, "decibel", "negative power in dBW");
    const Pair& q = PAIRS[c.r.i(0, int(sizeof PAIRS / sizeof PAIRS[0]) - 1)]; NEAR(*q.a, q.truth, q.tol, 0, "constant", q.n); NEAR(*q.a * *q.b, 1.0, 2 * q.tol, 0, "reciprocal", std::string("reciprocal of ") + q.n); c.hit(q.n);
}
MON_PROP2(M06, timer, "mission timer through launch, holds and odd time steps against exact time; distinct = elapsed seconds") {
    TS_TIMER_TYPE t; memset(&t, 0, sizeof t); t.seconds = c.r.p(0.6) ? c.r.sgn() * c.r.logu(0.01, 1e8) : std::floor(c.r.uni(-2e5, 2e5)); double want = t.seconds; TS_timer_init(&t); CHK(ts_global_met_ptr == &t, "timer-global", "global mission time"); int n = c.r.i(1, 30);
    for (int i = 0; i <= n; ++i) { const double s = t.seconds; NEAR(s, want, 1e-12, 1e-9, "timer-seconds", "elapsed seconds"); const long a = long(std::floor(std::fabs(s))); c.note = mon::fmt("%.9g s", s);
        CHK(t.pre == (s < 0 ? -1 : 1), "timer-launch", "launch flag"); CHK(t.day == a / 86400 && t.hour == a / 3600 % 24 && t.min == a / 60 % 60 && t.sec == a % 60, "timer-fields", mon::fmt("%d days %d:%d:%d of %ld s", t.day, t.hour, t.min, t.sec, a)); c.hit(mon::mix(int(a % 86400), int(a / 86400)));
        t.hold = c.r.p(0.2); const double dt = c.r.p(0.3) ? c.r.logu(1e-3, 1e6) : c.r.p(0.1) ? -want - 0.5 : c.r.uni(0, 4000); if (!t.hold) want += dt; if (std::fabs(want) > 1.9e9) return; TS_timer_update(&t, dt); if (t.hold) c.count("holds"); }
}
MON_PROP2(M06, tables, "chemical reactions balance, compounds and materials agree with each other; distinct = table entries") {
    DefinedChemicalReactions rx; DefinedChemicalCompounds cp; DefinedSolidProperties so; c.note = "tables";
    const int r = c.r.i(0, ChemicalReaction::NO_REACTION - 1); const ChemicalReaction* q = rx.getReaction(ChemicalReaction::Type(r)); if (CHK(q, "reaction", "no reaction")) { c.note = mon::fmt("reaction %d", r); CHK(q->mType == r, "reaction", "type");
        auto m = [&](ChemicalCompound::Type t) { return t == ChemicalCompound::NO_COMPOUND ? 0.0 : cp.getCompound(t)->mMWeight; }; const double in = q->mReactantMoleRatio * m(q->mReactantType) + q->mReagentMoleRatio * m(q->mReagentType), out = q->mProduct1MoleRatio * m(q->mProduct1Type) + q->mProduct2MoleRatio * m(q->mProduct2Type);
        NEAR(in, out, 1e-4, 0, "reaction-mass", "mass of the reactants and of the products"); CHK(q->mReactantEfficiency > 0 && q->mReactantEfficiency <= 1, "reaction-efficiency", "efficiency"); c.hit(mon::fmt("rx%d", r)); }
    const int k = c.r.i(0, ChemicalCompound::NO_COMPOUND - 1); const ChemicalCompound* w = cp.getCompound(ChemicalCompound::Type(k)); CHK(w && w->mType == k && w->mMWeight > 0, "compound", "compound"); c.hit(mon::fmt("cp%d", k));
    const char* names[] = {"Steel 304", "Aluminum 6061"}; for (int i = 0; i < 2; ++i) { const SolidProperties* s = so.getProperties(SolidProperties::SolidType(i)); MaterialProperties* p = PredefinedMaterialProperties::getMaterialProperties(names[i]); CHK(s->getType() == i, "solid", "solid type"); NEAR(s->getDensity(), p->density, 1e-12, 0, "solid", "density"); NEAR(s->getSpecificHeat(), p->specificHeatCp, 1e-12, 0, "solid", "heat capacity"); NEAR(s->getThermalConductivity(), p->thermalConductivity, 1e-12, 0, "solid", "conductivity"); NEAR(s->getRoughness(), p->roughness, 1e-12, 0, "solid", "roughness"); CHK(p->density > 1000 && p->specificHeatCp > 100 && p->thermalConductivity > 1, "solid", "range"); }
    std::string bad; for (int i = c.r.i(0, 12); i > 0; --i) bad += char(c.r.i(32, 126)); if (bad != names[0] && bad != names[1]) { bool t = false; try { PredefinedMaterialProperties::getMaterialProperties(bad); } catch (TsOutOfBoundsException&) { t = true; } CHK(t, "material-unknown", "unknown material accepted: " + bad); } c.hit(mon::fmt("mat%d", int(bad.size())));
}
MON_PROP2(M06, saturation, "heat of vaporization and saturation temperature fits against their formulas, ranges and refusals; distinct = arguments") {
    double a = c.r.logu(1, 1e4), al = c.r.uni(-60, 60), be = c.r.uni(-60, 60), lo = c.r.uni(0, 0.6), hi = lo + c.r.uni(-0.02, 0.39); const bool ok = lo < hi && std::fabs(al) <= 50 && std::fabs(be) <= 50; FluidHvapFit* f = 0; c.note = mon::fmt("a=%g alpha=%g beta=%g [%g,%g]", a, al, be, lo, hi);
    try { f = new FluidHvapFit(a, al, be, lo, hi, "f"); } catch (TsInitializationException&) { } CHK((f != 0) == ok, "hvap-accept", "wrong verdict on the configuration");
    if (f) { for (int i = 0; i < 4; ++i) { const double x = c.r.uni(lo - 0.05, hi + 0.05); bool t = false; double y = 0; try { y = f->getExceptional(x); } catch (TsOutOfBoundsException&) { t = true; } CHK(t == (x < lo || x > hi), "hvap-range", mon::fmt("range verdict at %g", x)); if (!t) { NEAR(y, a * std::exp(-al * x + be * std::log(1 - x)), 1e-11, 0, "hvap", "heat of vaporization"); c.hit(mon::hd(x)); c.count("hvap"); } NEAR(f->get(std::min(std::max(x, lo), hi)), f->getExceptional(std::min(std::max(x, lo), hi)), 1e-15, 0, "hvap", "get"); } delete f; }
    // log10 p = A + B y + C y^2: the fit inverts it on its falling branch
    const bool down = c.r.p(0.5); const double C = (down ? -1 : 1) * c.r.logu(1e-6, 1e-1), tv = down && c.r.p(0.5) ? -c.r.logu(0.1, 100) : c.r.logu(0.1, 100), B = -2 * C * tv, A = c.r.uni(-8, 8), a0 = std::fabs(tv); auto P = [&](double t) { return std::pow(10, A + t * (B + C * t)); };
    double t0 = down ? std::max(tv, 0.0) + c.r.uni(0.05, 0.5) * a0 : c.r.uni(0.02, 0.5) * a0, t1 = down ? t0 + c.r.uni(0.02, 2) * a0 : t0 + c.r.uni(0.02, 0.4) * a0; const double p0 = P(t1), p1 = P(t0); if (!(p0 > 1e-200 && p1 < 1e200 && p1 > p0 * (1 + 1e-6))) return;
    FluidTsatFit* s = 0; c.note = mon::fmt("saturation A=%g B=%g C=%g", A, B, C); try { s = new FluidTsatFit(A, B, C, p0, p1, "s"); } catch (TsInitializationException&) { } if (!CHK(s != 0, "tsat-accept", "valid saturation fit refused")) return;
    for (int i = 0; i < 4; ++i) { const double t = c.r.uni(t0, t1), p = std::min(std::max(P(t), p0), p1); NEAR(s->get(p), t, 1e-7, 1e-9 * a0, "tsat", "saturation temperature inverts the pressure"); c.hit(mon::hd(t)); c.count("tsat"); } delete s;
    bool t = false; try { FluidTsatFit z(A, B, c.r.p(0.5) ? 0.0 : 1e-17, p0, p1, "z"); } catch (TsInitializationException&) { t = true; } CHK(t, "tsat-accept", "vanishing square term accepted");
t = false; try { FluidTsatFit z(A, B, C, down ? p0 : P(tv) * c.r.uni(0.1, 0.7), down ? P(tv) * c.r.uni(1.5, 10) : p1, "z"); } catch (TsInitializationException&) { t = true; } CHK(t, "tsat-accept", "a range beyond the turning pressure accepted");
}
MON_PROP2(M06, ldu, "C solver of symmetric positive definite conduction matrices: factors, solutions and inverses; distinct = matrices") {
    const int n = c.r.i(1, 12); std::vector<double> A(size_t(n * n), 0.0); for (int i = 0; i < n; ++i) A[size_t(i * n + i)] = c.r.logu(1e-3, 10); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (c.r.p(0.5)) { const double g = c.r.logu(1e-3, 1e3); A[size_t(i * n + j)] -= g; A[size_t(j * n + i)] -= g; A[size_t(i * n + i)] += g; A[size_t(j * n + j)] += g; }
    const std::vector<double> M = A; std::vector<double> x(n), b(n, 0.0), y(n); for (double& v : x) v = c.r.uni(-100, 100); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) b[i] += M[size_t(i * n + j)] * x[j]; c.note = mon::fmt("%d unknowns", n);
    double big = 0; for (double v : b) big = std::max(big, std::fabs(v)); CHK(Choleski_LDU_Decomposition(A.data(), n) == -1, "ldu", "positive definite matrix refused"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double v = 0; for (int k = 0; k <= std::min(i, j); ++k) v += (i == k ? 1 : A[size_t(i * n + k)]) * A[size_t(k * n + k)] * (j == k ? 1 : A[size_t(k * n + j)]); NEAR(v, M[size_t(i * n + j)], 1e-9, 1e-9 * M[size_t(i * n + i)], "ldu-factors", mon::fmt("product of the factors at %d,%d", i, j)); }
    CHK(Choleski_LDU_Solve(A.data(), b.data(), y.data(), n) == -1, "ldu-solve", "solution refused"); for (int i = 0; i < n; ++i) { double v = 0; for (int j = 0; j < n; ++j) v += M[size_t(i * n + j)] * y[j]; NEAR(v, b[i], 1e-8, 1e-9 * big, "ldu-solve", mon::fmt("residual %d", i)); }
    Choleski_LDU_Inverse(A.data(), n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double v = 0, sc = 0; for (int k = 0; k < n; ++k) { v += M[size_t(i * n + k)] * A[size_t(k * n + j)]; sc += std::fabs(M[size_t(i * n + k)] * A[size_t(k * n + j)]); } NEAR(v, i == j ? 1.0 : 0.0, 0, 1e-9 * (1 + sc), "ldu-inverse", mon::fmt("identity at %d,%d", i, j)); }
    c.hit(mon::hd(y[0]));
    std::vector<double> Z = M; const int r = c.r.i(0, n - 1); if (n > 1 && r > 0) { Z[size_t(r * n + r)] = -c.r.logu(1e-3, 10); CHK(Choleski_LDU_Decomposition(Z.data(), n) == r, "ldu-refuse", "indefinite matrix accepted or the wrong row blamed"); c.count("indefinite"); }
    // triangular helpers
    std::vector<double> U(size_t(n * n), 0.0), V; for (int i = 0; i < n; ++i) { U[size_t(i * n + i)] = 1; for (int j = i + 1; j < n; ++j) U[size_t(i * n + j)] = c.r.uni(-0.5, 0.5); } V = U; Unit_Upper_Triangular_Inverse(V.data(), n); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { double v = V[size_t(i * n + j)] + U[size_t(i * n + j)]; for (int k = i + 1; k < j; ++k) v += U[size_t(i * n + k)] * V[size_t(k * n + j)]; NEAR(v, 0, 0, 1e-10, "upper-inverse", mon::fmt("inverse of an upper triangle at %d,%d", i, j)); }
}
namespace {
struct K : CombustCH4 {
    enum { kO2 = O2, kCH4 = CH4, kH2O = H2O, kCO2 = CO2, kOH = OH, kCO = CO, kO = O, kH2 = H2, kH = H, kHe = He, N = NCompounds };
    double h(int i, double T) const { return calcEnth(mCompounds[i], T); } double s(int i, double T, double P) const { return calcEnt(mCompounds[i], T, P); } double cp(int i, double T) const { return calcCp(mCompounds[i], T); } double mw(int i) const { return mCompounds[i]->mMWeight; }
    bool burns() const { return mCombustionOccurs; } bool band() const { return mUnstable; } void forceS() { mConstantProperty = S; }
};
const int EL[10][3] = {{0, 2, 0}, {4, 0, 1}, {2, 1, 0}, {0, 2, 1}, {1, 1, 0}, {0, 1, 1}, {0, 1, 0}, {2, 0, 0}, {1, 0, 0}, {0, 0, 0}};   // H, O, C per species
// independent equilibrium of the nine species with inert helium at temperature T and pressure P (Pa): element potentials by damped Newton
struct Eq { double lam[3], lnN, x[10], n; bool ok;
    Eq() : lnN(0), n(0), ok(false) { lam[0] = lam[1] = lam[2] = 0; }
    void solve(const K& k, const double b[3], double he, double T, double P) {
        const double RT = 8.314472e-3 * T; double g[9]; for (int i = 0; i < 9; ++i) g[i] = k.h(i, T) / RT - k.s(i, T, P) / 8.314472e-3; ok = false;
        auto F = [&](const double l[3], double L, double f[4], double* xs) { double sum = he / std::exp(L); f[0] = f[1] = f[2] = 0; for (int i = 0; i < 9; ++i) { const double v = std::exp(std::min(300.0, EL[i][0] * l[0] + EL[i][1] * l[1] + EL[i][2] * l[2] - g[i])); if (xs) xs[i] = v; sum += v; for (int e = 0; e < 3; ++e) f[e] += EL[i][e] * v; } for (int e = 0; e < 3; ++e) f[e] = f[e] * std::exp(L) / b[e] - 1; f[3] = sum - 1; return f[0] * f[0] + f[1] * f[1] + f[2] * f[2] + f[3] * f[3]; };
        for (int it = 0; it < 500; ++it) { double f[4], xs[9]; const double e0 = F(lam, lnN, f, xs); if (e0 < 1e-22) { ok = true; break; } const double N = std::exp(lnN); double J[4][5]; for (auto& r : J) for (double& v : r) v = 0;
            for (int i = 0; i < 9; ++i) { for (int e = 0; e < 3; ++e) { for (int q = 0; q < 3; ++q) J[e][q] += EL[i][e] * EL[i][q] * xs[i] * N / b[e]; J[3][e] += EL[i][e] * xs[i]; } } for (int e = 0; e < 3; ++e) { J[e][3] = f[e] + 1; J[e][4] = -f[e]; } J[3][3] = -he / N; J[3][4] = -f[3];
            for (int p = 0; p < 4; ++p) { int m = p; for (int r = p + 1; r < 4; ++r) if (std::fabs(J[r][p]) > std::fabs(J[m][p])) m = r; if (J[m][p] == 0) return; if (m != p) for (int q = 0; q < 5; ++q) std::swap(J[m][q], J[p][q]); for (int r = 0; r < 4; ++r) if (r != p) { const double w = J[r][p] / J[p][p]; for (int q = p; q < 5; ++q) J[r][q] -= w * J[p][q]; } }
            double d[4], step = 1; for (int p = 0; p < 4; ++p) { d[p] = J[p][4] / J[p][p]; step = std::min(step, 3.0 / (std::fabs(d[p]) + 1e-300)); }
            for (int ls = 0; ls < 30; ++ls, step *= 0.5) { const double l[3] = {lam[0] + step * d[0], lam[1] + step * d[1], lam[2] + step * d[2]}; double ff[4]; const double e1 = F(l, lnN + step * d[3], ff, 0); if (e1 < e0 * 1.5 || ls == 29) { for (int q = 0; q < 3; ++q) lam[q] = l[q]; lnN += step * d[3]; break; } } }
        double f[4]; F(lam, lnN, f, x); n = std::exp(lnN); x[9] = he / n; }
    double H(const K& k, double T) const { double h = 0, m = 0; for (int i = 0; i < 10; ++i) { h += x[i] * k.h(i, T); m += x[i] * k.mw(i); } return h / m; }
    double S(const K& k, double T, double P) const { double h = 0, m = 0; for (int i = 0; i < 10; ++i) { h += x[i] * k.s(i, T, P * x[i]); m += x[i] * k.mw(i); } return h / m; }
};
double equilibriumT(const K& k, const double b[3], double he, double P, double want, bool ent, Eq* out) {
    double lo = 900, hi = 4600; Eq e; for (int i = 0; i < 36; ++i) { const double T = 0.5 * (lo + hi); Eq q; q.lam[0] = -10; q.lam[1] = -15; q.lam[2] = -20; if (e.ok) q = e; q.solve(k, b, he, T, P); if (!q.ok) return -1; e = q; ((ent ? q.S(k, T, P) : q.H(k, T)) < want ? lo : hi) = T; } if (out) *out = e; return 0.5 * (lo + hi); }
bool mixtureState(mon::Ctx& c, const K& k, const char* w) {     // reported properties are those of the reported composition and temperature
    const double* x = k.getMoleFractions(); const double* m = k.getMoles(); double s = 0, sm = 0; for (int i = 0; i < K::N; ++i) { if (!CHK(x[i] >= 0 && x[i] <= 1 + 1e-9 && std::isfinite(x[i]), "composition", mon::fmt("%s: fraction %d is %g", w, i, x[i]))) return false; s += x[i]; sm += m[i]; } NEAR(s, 1, 1e-6, 0, "composition", std::string(w) + ": sum of the fractions"); for (int i = 0; i < K::N; ++i) NEAR(m[i] / sm, x[i], 1e-6, 1e-9, "composition", mon::fmt("%s: moles and fraction of %d", w, i));
    const double T = k.getTemp(), P = k.getPress() * 1000; double h = 0, e = 0, mw = 0; for (int i = 0; i < K::N; ++i) { h += x[i] * k.h(i, T); e += x[i] * k.s(i, T, P * x[i]); mw += x[i] * k.mw(i); } NEAR(k.getMolecWeight(), mw, 1e-9, 0, "mixture-weight", std::string(w) + ": molecular weight"); NEAR(k.getEnth(), h / mw, 1e-9, 1e-9, "mixture-enthalpy", std::string(w) + ": enthalpy"); NEAR(k.getEnt(), e / mw, 1e-9, 1e-12, "mixture-entropy", std::string(w) + ": entropy"); CHK(k.getGamma() > 1.0 && k.getGamma() < 1.7, "mixture-gamma", mon::fmt("%s: gamma %g", w, k.getGamma())); return !c.failed(); }
}
MON_PROP2(M06, combust, "methane combustion and expansion against an independent chemical equilibrium: elements, enthalpy, entropy, temperature, composition; distinct = mixtures burnt") {
    K k; const double he = c.r.p(0.4) ? 0.0 : c.r.uni(0, 0.3), fu = (1 - he) * c.r.uni(0.02, 0.7), ox = 1 - he - fu, P = c.r.logu(50, 2e4), T0 = c.r.uni(150, 900); double in[3] = {ox, fu, he}; FluidProperties::FluidType ty[3] = {FluidProperties::GUNNS_O2, FluidProperties::GUNNS_CH4, FluidProperties::GUNNS_HE}; std::vector<int> o = {0, 1, 2}; c.r.shuffle(o); double m[3]; FluidProperties::FluidType t[3]; for (int i = 0; i < 3; ++i) { m[i] = in[o[i]]; t[i] = ty[o[i]]; }
    c.note = mon::fmt("O2 %.5f CH4 %.5f He %.5f, %.5g kPa, %.4g K", ox, fu, he, P, T0); double h0 = 0, w0 = 0; { const int id[3] = {K::kO2, K::kCH4, K::kHe}; for (int i = 0; i < 3; ++i) { h0 += in[i] * k.h(id[i], T0); w0 += in[i] * k.mw(id[i]); } } h0 /= w0;
    const double guess = c.r.p(0.5) ? 2000 : c.r.uni(1500, 3500); try { k.updateCombustionMixture(guess, P, T0, m, t, 3); } catch (std::exception& e) { c.count("refused"); return; }
    const bool want = !(fu < 0.05 || fu > 2.5 * ox - 0.3928); CHK(k.burns() == want, "flammable", mon::fmt("burns %d, expected %d", k.burns(), want)); const double* mo = k.getMoles();
    if (!k.burns()) { NEAR(k.getTemp(), T0, 1e-12, 0, "inert-temperature", "temperature of a mixture that does not burn"); NEAR(mo[K::kO2], ox, 1e-12, 0, "inert", "oxygen"); NEAR(mo[K::kCH4], fu, 1e-12, 0, "inert", "methane"); NEAR(mo[K::kHe], he, 1e-12, 0, "inert", "helium"); NEAR(k.getEnth(), h0, 1e-9, 0, "inert", "enthalpy"); mixtureState(c, k, "inert"); c.count("inert"); c.hit(mon::mix(1, mon::hd(fu))); return; }
    const double b[3] = {4 * fu, 2 * ox, fu}; const char* en[3] = {"hydrogen", "oxygen", "carbon"}; Eq q; const double T = equilibriumT(k, b, he, P * 1000, h0, false, &q); if (T < 0) { c.count("oracle_failed"); return; } const bool band = k.band(); c.count(band ? "band" : "burnt"); c.hit(mon::mix(2, mon::hd(fu)));
    // the element equations let the inert helium of a fuel rich mixture drift with the total moles, and everything else with it
    const bool drifts = 2 * fu > ox && he > 0 && (band ? fabs(k.getTemp() - T) > 0.03 * T + 5 || fabs(k.getMolecWeight() - w0 / q.n) > 0.02 * w0 / q.n : fabs(mo[K::kHe] - he) > 1e-6 * he + 1e-9); if (!CHK(!drifts, "rich-helium-drift", mon::fmt("helium %.5g became %.5g mol, flame at %.5g K instead of %.5g K", he, mo[K::kHe], k.getTemp(), T))) return;
    NEAR(k.getTemp(), T, band ? 0.03 : 0.02, 5, "flame-temperature", "flame temperature"); NEAR(k.getMolecWeight(), w0 / q.n, 0.02, 0, "flame-weight", "molecular weight of the burnt gas");
    if (band) return;
    for (int e = 0; e < 3; ++e) { double v = 0; for (int i = 0; i < 9; ++i) v += EL[i][e] * mo[i]; NEAR(v, b[e], 1e-4, 0, "elements", std::string("conserved ") + en[e]); } NEAR(mo[K::kHe], he, 1e-6, 1e-9, "elements-helium", "conserved helium");
    NEAR(k.getEnth(), h0, 0.02, 0.02, "flame-enthalpy", "enthalpy before and after burning"); if (!mixtureState(c, k, "burnt")) return; for (int i = 0; i < 10; ++i) NEAR(k.getMoleFractions()[i], q.x[i], 0, 0.02, "flame-composition", mon::fmt("fraction of species %d", i));
    // expansion at constant entropy
    double s0 = k.getEnt(), p = P; const int steps = c.r.i(1, 4); for (int i = 0; i < steps; ++i) { p *= c.r.uni(0.2, 0.9); try { k.updateRecombinationMixture(k.getTemp(), p); } catch (std::exception& e) { c.count("expansion_refused"); return; } const double T2 = equilibriumT(k, b, he, p * 1000, s0, true, &q); if (T2 < 1000) { c.count("expansion_cold"); return; } c.count("expansions");
        NEAR(k.getTemp(), T2, 0.03, 5, "expansion-temperature", mon::fmt("temperature after expansion to %.4g kPa", p)); NEAR(k.getEnt(), s0, 0.02, 0, "expansion-entropy", "entropy of the expanding gas"); for (int e = 0; e < 3; ++e) { double v = 0; for (int j = 0; j < 9; ++j) v += EL[j][e] * k.getMoles()[j]; NEAR(v, b[e], 1e-4, 0, "expansion-elements", std::string("conserved ") + en[e]); } NEAR(k.getMoles()[K::kHe], he, 1e-6, 1e-9, "elements-helium", "conserved helium in expansion"); if (!mixtureState(c, k, "expanded")) return; s0 = k.getEnt(); }
}
