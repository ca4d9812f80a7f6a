// Monitors of the fluid property data (FluidProperties), the fluid mixture class (PolyFluid) and the
// shared fluid functions (GunnsFluidUtils) against independent oracles and laws.
#include "fnet.hpp"
#include "math/UnitConversion.hh"
#include "software/exceptions/TsInitializationException.hh"
using namespace fnet;

static const double R = 8.314472;                          // J/mol/K, as published by CODATA 2006
struct PR { double lo, hi; };
static PR cpRange(FluidProperties* p) {                    // the range the specific heat declares valid
    static std::map<int, PR> memo; auto it = memo.find(int(p->getType())); if (it != memo.end()) return it->second;
    PR r = {0, 0}; for (double T = 1; T < 3000; T += 0.5) { bool ok = true; try { p->mSpecificHeat->getExceptional(T); } catch (TsOutOfBoundsException&) { ok = false; } if (ok) { if (r.lo == 0) r.lo = T; r.hi = T; } }
    return memo[int(p->getType())] = r;
}
// Published molecular weights (g/mol) of the pure substances.
static double refMw(int t) {
    switch (t) { case FP::GUNNS_CO: return 28.0101; case FP::GUNNS_CO2: return 44.0095; case FP::GUNNS_H2O: case FP::GUNNS_WATER: case FP::GUNNS_WATER_PVT: return 18.0153; case FP::GUNNS_N2: case FP::GUNNS_N2_REAL_GAS: return 28.0134;
        case FP::GUNNS_O2: case FP::GUNNS_O2_REAL_GAS: case FP::GUNNS_OXYGEN: return 31.9988; case FP::GUNNS_NH3: case FP::GUNNS_AMMONIA: return 17.0305; case FP::GUNNS_H2: case FP::GUNNS_H2_REAL_GAS: case FP::GUNNS_HYDROGEN: return 2.01588;
        case FP::GUNNS_CH4: case FP::GUNNS_CH4_REAL_GAS: case FP::GUNNS_METHANE: return 16.0425; case FP::GUNNS_HCL: return 36.4609; case FP::GUNNS_HCN: return 27.0253; case FP::GUNNS_HE: case FP::GUNNS_HE_REAL_GAS: return 4.0026;
        case FP::GUNNS_AR: return 39.948; case FP::GUNNS_XE_REAL_GAS: return 131.293; case FP::GUNNS_NTO: return 92.011; case FP::GUNNS_MMH: return 46.0717; case FP::GUNNS_HYDRAZINE: return 32.0452; default: return 0; }
}

MON_PROP2(F07, data, "a fluid type, temperature and pressure, keyed by type and temperature decade") {
    static DefinedFluidProperties defs; const int t = int(c.caseIndex / 2 % 34); FP* p = defs.getProperties(FP::FluidType(t)); const PR q = cpRange(p);
    c.note = mon::fmt("type %d", t); const std::string T0 = mon::fmt("-%d", t);
    CHK(p->getType() == t && (p->getPhase() == FP::GAS) == (t < 18), "type", "wrong entry for type" + T0);
    if (refMw(t) > 0) NEAR(p->getMWeight(), refMw(t), 1e-3, 0, "mweight" + T0, "molecular weight of type" + T0);
    for (int bad : {34, 35, 63}) CHK(defs.getProperties(FP::FluidType(bad)) == 0, "bad-type", mon::fmt("type %d is given properties", bad));
    // interior of the valid range for inverses (fits are clamped at the ends)
    const double span = q.hi - q.lo, mlo = q.lo + 0.02 * span, mhi = q.hi - 0.02 * span;
    double plo = mlo, phi = mhi; if (t == FP::GUNNS_AMMONIA || t == FP::GUNNS_HYDRAZINE) { plo = q.lo + 0.1 * span; phi = q.hi - 0.1 * span; }
    for (int k = 0; k < 40 && !c.failed(); ++k) {
        const double T = c.r.uni(mlo, mhi), P = c.r.logu(0.5, 3000.0), T2 = c.r.uni(mlo, mhi), TP = c.r.uni(plo, phi);
        c.hit(uint64_t(t) * 1000 + uint64_t(T / 20)); c.note = mon::fmt("type %d T %g P %g", t, T, P);
        const double rho = p->getDensity(T, P), mu = p->getViscosity(T, P), cp = p->getSpecificHeat(T, P), k1 = p->getThermalConductivity(T, P), pr = p->getPrandtlNumber(T, P), g = p->getAdiabaticIndex(T, P);
        FIN(rho, "finite" + T0, "density"); FIN(mu, "finite" + T0, "viscosity"); FIN(cp, "finite" + T0, "Cp"); FIN(k1, "finite" + T0, "conductivity"); FIN(pr, "finite" + T0, "Prandtl"); FIN(g, "finite" + T0, "gamma");
        CHK(rho > 0, "density-sign" + T0, mon::fmt("density %g T %g P %g", rho, T, P)); CHK(cp > 0, "cp-sign" + T0, mon::fmt("Cp %g T %g", cp, T)); CHK(k1 > 0, "conductivity-sign" + T0, mon::fmt("k %g T %g", k1, T));
        CHK(pr > 0, "prandtl-sign" + T0, mon::fmt("Pr %g T %g", pr, T)); CHK(g > 0, "gamma-sign" + T0, mon::fmt("gamma %g T %g", g, T));
        if (!(mu > 0)) { const bool part = (t == FP::GUNNS_HFE7000 && T < 293.0) || (t == FP::GUNNS_HYDROGEN && T > 21.5); CHK(false, (part ? "viscosity-fit-sign" : "viscosity-sign") + T0, mon::fmt("viscosity %g T %g P %g", mu, T, P)); if (part) c.caseFailed = false; } else c.eval();
        // inverses
        if (t != FP::GUNNS_WATER_PVT) { const double r2 = p->getDensity(TP, P), back = p->getPressure(TP, r2); NEAR(back, P, 1e-7, (t >= 18) ? 1e-5 * 1.0 : 0, "pressure-inverse" + T0, mon::fmt("pressure of density at T %g", TP)); }
        const double h = p->getSpecificEnthalpy(T, P); NEAR(p->getTemperature(h, P), T, 1e-9, 0, "temperature-inverse" + T0, mon::fmt("temperature of enthalpy at T %g", T));
        const double h2 = p->getSpecificEnthalpy(T2, P); if (T2 > T + 1e-6) CHK(h2 > h, "enthalpy-order" + T0, mon::fmt("h(%g)=%g h(%g)=%g", T, h, T2, h2)); else if (T > T2 + 1e-6) CHK(h > h2, "enthalpy-order" + T0, mon::fmt("h(%g)=%g h(%g)=%g", T, h, T2, h2));
        NEAR(h, cp * T, 1e-12, 0, "enthalpy" + T0, mon::fmt("enthalpy at T %g", T));
        // equation of state
        if (t < 12) { NEAR(rho, P * p->getMWeight() / (R * T), 2e-5, 0, "ideal-gas" + T0, mon::fmt("density at T %g P %g", T, P)); NEAR(p->getPressure(T, rho), P, 1e-12, 0, "ideal-gas" + T0, "pressure"); }
        const double P2 = P * c.r.uni(1.001, 3.0), rho2 = p->getDensity(T, P2);
        CHK(t == FP::GUNNS_WATER_PVT ? P < p->getSaturationPressure(T) * 1.2 + 20 || rho2 >= rho * (1 - 1e-12) : t >= 12 && t < 18 ? rho2 >= rho * (1 - 1e-12) : t < 12 ? rho2 > rho : rho2 >= rho * (1 - 1e-12), "density-pressure-order" + T0, mon::fmt("rho(%g)=%.17g rho(%g)=%.17g at T %g", P, rho, P2, rho2, T));
        if (t < 12) { const double Tb = std::min(mhi, T * c.r.uni(1.001, 1.5)); if (Tb > T * 1.0005) CHK(p->getDensity(Tb, P) < rho, "density-temperature-order" + T0, mon::fmt("gas density grows with temperature at %g", T)); }
        // saturation line
        const double ps = p->getSaturationPressure(T), ps2 = p->getSaturationPressure(T2), tc = p->getCriticalTemperature();
        FIN(ps, "finite" + T0, "Psat"); CHK(ps >= 0, "psat-sign" + T0, mon::fmt("Psat %g", ps));
        if (T2 > T) CHK(ps2 >= ps * (1 - 1e-12), "psat-order" + T0, mon::fmt("Psat(%g)=%g Psat(%g)=%g", T, ps, T2, ps2)); else CHK(ps >= ps2 * (1 - 1e-12), "psat-order" + T0, mon::fmt("Psat(%g)=%g Psat(%g)=%g", T, ps, T2, ps2));
        if (ps > 0 && T < 0.99 * tc && T > (t == FP::GUNNS_GALDEN170 ? 226.0 : q.lo + 0.05 * span) && t != FP::GUNNS_HE && t != FP::GUNNS_HE_REAL_GAS) NEAR(p->getSaturationTemperature(ps), T, 1e-6, 0, "tsat-inverse" + T0, mon::fmt("Tsat of Psat at T %g", T));
        const double hv = p->getHeatOfVaporization(T), hv2 = p->getHeatOfVaporization(T2); FIN(hv, "finite" + T0, "heat of vaporization"); CHK(hv >= 0, "hvap-sign" + T0, mon::fmt("Hvap %g T %g", hv, T));
        CHK(T2 > T ? hv2 <= hv * (1 + 1e-12) + (t == FP::GUNNS_HYDROGEN ? 2.0 : 0.0) : hv <= hv2 * (1 + 1e-12) + (t == FP::GUNNS_HYDROGEN ? 2.0 : 0.0), "hvap-order" + T0, mon::fmt("Hvap(%g)=%g Hvap(%g)=%g", T, hv, T2, hv2));
        // continuity: a tiny move of temperature never makes any property jump (the real-gas tables included)
        const double dT = 1e-7 * T; const double j[5] = { p->getDensity(T + dT, P) / rho - 1, p->getSpecificHeat(T + dT, P) / cp - 1, p->getThermalConductivity(T + dT, P) / k1 - 1, p->getSpecificEnthalpy(T + dT, P) / h - 1, p->getDensity(T, P * (1 + 1e-7)) / rho - 1 };
        for (int m = 0; m < 5; ++m) CHK(std::fabs(j[m]) < 1e-4, mon::fmt("jump-%d", m) + T0, mon::fmt("property %d jumps by %g at T %g P %g", m, j[m], T, P));
        // outside the valid range the value is the one at the end of the range
        const double far = c.r.p(0.5) ? q.lo - c.r.uni(1, 20) : q.hi + c.r.uni(1, 500), cf = p->getSpecificHeat(far, P); FIN(cf, "finite" + T0, "Cp out of range"); CHK(cf > 0, "cp-sign" + T0, "Cp out of range");
        NEAR(cf, p->getSpecificHeat(far < q.lo ? far - 5 : far + 50, P), 1e-12, 0, "clamp" + T0, "Cp beyond the range");
    }
}

// Compounds: the chemical compound table agrees with the fluid table it refers to.
MON_PROP2(F07, compounds, "a chemical compound") {
    static DefinedFluidProperties defs; static DefinedChemicalCompounds comps; const int t = int(c.caseIndex / 2 % int(ChemicalCompound::NO_COMPOUND)); c.note = mon::fmt("compound %d", t);
    const ChemicalCompound* q = comps.getCompound(ChemicalCompound::Type(t)); CHK(q->mType == t, "compound-type", "wrong compound entry"); CHK(q->mMWeight > 0, "compound-mw", "molecular weight"); c.hit(uint64_t(5000000 + t));
    if (q->mFluidType != FP::NO_FLUID) { NEAR(q->mMWeight, defs.getProperties(q->mFluidType)->getMWeight(), 1e-3, 0, mon::fmt("compound-fluid-mw-%d", t), "compound and fluid molecular weight"); c.count("compounds_with_fluid"); }
}

// ------------------------------------------------------------------------------------------- PolyFluid
static std::unique_ptr<PolyFluid> mk(const Mix& m, const State& s) { Input in(s); return std::unique_ptr<PolyFluid>(new PolyFluid(*m.cfg, in.in)); }
static const double relH = 1e-9;
// the mixture laws of one fluid at temperature T (specific values weighted as documented)
static void laws(mon::Ctx& c, const Mix& m, PolyFluid* f, const char* where) {
    validFluid(c, f, where, false); if (c.failed()) return;
    double h = 0, cp = 0, imw = 0, rho = 0; for (int i = 0; i < m.n(); ++i) { FP* p = m.props.getProperties(m.types[i]); const double x = f->getMassFraction(i), pi = f->getPartialPressure(m.types[i]); h += x * p->getSpecificEnthalpy(f->getTemperature(), pi); cp += x * p->getSpecificHeat(f->getTemperature(), pi); imw += x / p->getMWeight(); rho += p->getDensity(f->getTemperature(), m.liquid ? f->getPressure() : pi) * (m.liquid ? f->getMoleFraction(i) : 1.0); }
    NEAR(f->getSpecificEnthalpy(), h, relH, 0, "mix-enthalpy", std::string(where) + " enthalpy of mixture"); NEAR(f->getSpecificHeat(), cp, relH, 0, "mix-cp", std::string(where) + " Cp of mixture"); NEAR(f->getMWeight() * imw, 1.0, 1e-9, 0, "mix-mw", std::string(where) + " molecular weight");
    if (!m.liquid && f->getPressure() > 0) NEAR(f->getDensity(), f->getPressure() * f->getMWeight() / (R * f->getTemperature()), 2e-5, 0, "mix-density", std::string(where) + " density of mixture");
    NEAR(f->computeTemperature(f->getSpecificEnthalpy()), f->getTemperature(), 1e-8, 0, "mix-temperature", std::string(where) + " temperature of own enthalpy"); NEAR(f->computeSpecificEnthalpy(f->getTemperature(), f->getPressure()), f->getSpecificEnthalpy(), 1e-9, 0, "mix-h-again", std::string(where) + " enthalpy function");
    int nz = 0; for (int i = 0; i < m.n(); ++i) if (f->getMassFraction(i) > 0) ++nz;
    if (f->getPressure() > 1e-3 && (nz == 1 || !m.liquid)) { NEAR(f->computeDensity(f->getTemperature(), f->getPressure()), f->getDensity(), 1e-9, 0, "mix-rho-again", std::string(where) + " density function"); NEAR(f->computePressure(f->getTemperature(), f->getDensity()), f->getPressure(), m.liquid ? 1e-3 : 1e-9, m.liquid ? 1.0 : 0, "mix-p-again", std::string(where) + " pressure function"); }
    double sm = 0, sn = 0; for (int i = 0; i < m.n(); ++i) { MonoFluid* q = f->getConstituent(m.types[i]); sm += q->getMass(); sn += q->getMole(); NEAR(q->getTemperature(), f->getTemperature(), 1e-14, 0, "mix-T", "constituent temperature"); }
    NEAR(sm, f->getMass(), 1e-9, 1e-300, "mix-mass", std::string(where) + " constituent masses"); NEAR(f->getMole() * f->getMWeight(), f->getMass(), 1e-9, 1e-300, "mix-mole", std::string(where) + " moles"); (void) sn;
}

MON_PROP2(F08, ops, "a history of operations on one fluid mixture, keyed by operation sequence") {
    const bool liq = c.r.p(0.3); Mix m(c.r, c.r.i(1, 6), c.r.p(0.5) ? c.r.i(1, 4) : 0, liq); State s = randomState(c.r, m); c.note = mon::fmt("%s n %d tc %d T %g P %g", liq ? "liquid" : "gas", m.n(), m.nTc(), s.T, s.P); c.sample(c.note);
    auto f = mk(m, s); uint64_t key = uint64_t(m.n() * 10 + m.nTc() + 100 * liq);
    NEAR(f->getTemperature(), s.T, 1e-14, 0, "init-T", "initial temperature"); NEAR(f->getPressure(), s.P, 1e-14, 0, "init-P", "initial pressure"); for (int i = 0; i < m.n(); ++i) NEAR(f->getMassFraction(i), s.x[i], 1e-12, 1e-15, "init-x", "initial mass fraction");
    laws(c, m, f.get(), "init");
    for (int k = 0; k < (c.thorough ? 40 : 14) && !c.failed(); ++k) {
        const int op = c.r.i(0, 8); key = mon::mix(key, uint64_t(op)); c.hit(key); c.count(mon::fmt("op_%d", op)); char w[40]; std::snprintf(w, sizeof w, "step %d op %d", k, op); c.eval();
        std::vector<double> x0; for (int i = 0; i < m.n(); ++i) x0.push_back(f->getMassFraction(i)); const double T0 = f->getTemperature(), P0 = f->getPressure(), M0 = f->getMass(), n0 = f->getMole(); std::vector<double> tc0; for (int i = 0; i < m.nTc(); ++i) tc0.push_back(f->getTraceCompounds()->getMoleFractions()[i]);
        auto keepX = [&]() { for (int i = 0; i < m.n(); ++i) NEAR(f->getMassFraction(i), x0[i], 1e-12, 1e-300, "keep-x", std::string(w) + " composition unchanged"); };
        if (op == 0) { const double T = liq ? c.r.uni(275, 360) : c.r.uni(205, 600); f->setTemperature(T); NEAR(f->getTemperature(), T, 1e-15, 0, "set-T", w); NEAR(f->getPressure(), P0, 1e-14, 0, "set-T-P", w); NEAR(f->getMass(), M0, 1e-14, 0, "set-T-m", w); keepX(); }
        else if (op == 1) { const double P = c.r.logu(0.01, 2000); f->setPressure(P); NEAR(f->getPressure(), P, 1e-15, 0, "set-P", w); NEAR(f->getTemperature(), T0, 1e-15, 0, "set-P-T", w); NEAR(f->getMass(), M0, 1e-14, 0, "set-P-m", w); keepX(); }
        else if (op == 2) { const double M = c.r.p(0.1) ? 0.0 : c.r.logu(1e-9, 1e4); f->setMass(M); NEAR(f->getMass(), M, 1e-14, 0, "set-m", w); keepX(); }
        else if (op == 3) { const double N = c.r.p(0.1) ? 0.0 : c.r.logu(1e-9, 1e4); f->setMole(N); NEAR(f->getMole(), N, 1e-14, 0, "set-n", w); NEAR(f->getMass(), N * f->getMWeight(), 1e-12, 0, "set-n-m", w); keepX(); }
        else if (op == 4) { std::vector<double> x = m.fractions(c.r); const double M = c.r.logu(1e-6, 1e3); f->setMassAndMassFractions(M, x.data()); NEAR(f->getMass(), M, 1e-12, 0, "set-mx", w); for (int i = 0; i < m.n(); ++i) NEAR(f->getMassFraction(i), x[i], 1e-9, 1e-15, "set-mx-x", w); NEAR(f->getTemperature(), T0, 1e-15, 0, "set-mx-T", w); f->setTemperature(T0); f->setPressure(P0); }
        else if (op == 5) { std::vector<double> y = m.fractions(c.r); const double N = c.r.logu(1e-6, 1e3); f->setMoleAndMoleFractions(N, y.data()); NEAR(f->getMole(), N, 1e-12, 0, "set-ny", w); for (int i = 0; i < m.n(); ++i) NEAR(f->getMoleFraction(i), y[i], 1e-9, 1e-15, "set-ny-y", w); f->setTemperature(T0); f->setPressure(P0); }
        else if (op == 6) { const double T = liq ? c.r.uni(275, 360) : c.r.uni(205, 600), P = c.r.logu(1, 500); f->edit(T, P); NEAR(f->getTemperature(), T, 1e-14, 0, "edit-T", w); NEAR(f->getPressure(), P, 1e-12, 0, "edit-P", w); keepX(); }
        else if (op == 7 && !liq) { std::vector<double> pp; double sum = 0; for (int i = 0; i < m.n(); ++i) { pp.push_back(c.r.p(0.2) ? 0.0 : c.r.logu(0.01, 200)); sum += pp.back(); } if (sum <= 0) { pp[0] = 10; sum = 10; } const double T = c.r.uni(205, 600); const std::vector<double> want = pp; f->edit(T, pp.data());
            NEAR(f->getTemperature(), T, 1e-14, 0, "editpp-T", w); NEAR(f->getPressure(), sum, 1e-9, 0, "editpp-P", w); NEAR(f->getMole(), n0, 1e-9, 1e-300, "editpp-n", w); for (int i = 0; i < m.n(); ++i) NEAR(f->getPartialPressure(m.types[i]), want[i], 1e-8, 1e-12, "editpp-pp", std::string(w) + " partial pressure"); }
        else if (op == 8) { State s2 = randomState(c.r, m); auto g = mk(m, s2); if (c.r.p(0.5)) g->setMass(c.r.logu(1e-6, 100)); f->setState(g.get());
            NEAR(f->getTemperature(), g->getTemperature(), 0, 0, "copy", w); NEAR(f->getPressure(), g->getPressure(), 0, 0, "copy", w); NEAR(f->getDensity(), g->getDensity(), 1e-15, 0, "copy", w); NEAR(f->getSpecificEnthalpy(), g->getSpecificEnthalpy(), 1e-15, 0, "copy", w); NEAR(f->getMWeight(), g->getMWeight(), 1e-15, 0, "copy", w); NEAR(f->getViscosity(), g->getViscosity(), 1e-15, 0, "copy", w); NEAR(f->getThermalConductivity(), g->getThermalConductivity(), 1e-15, 0, "copy", w); NEAR(f->getAdiabaticIndex(), g->getAdiabaticIndex(), 1e-15, 0, "copy", w); NEAR(f->getPrandtlNumber(), g->getPrandtlNumber(), 1e-15, 0, "copy", w);NEAR(f->getMass(), M0, 0, 0, "copy-mass", w); NEAR(f->getMole(), n0, 0, 0, "copy-mass", w);
            for (int i = 0; i < m.n(); ++i) { NEAR(f->getMassFraction(i), g->getMassFraction(i), 0, 0, "copy-x", w); NEAR(f->getMoleFraction(i), g->getMoleFraction(i), 0, 0, "copy-x", w); NEAR(f->getPartialPressure(m.types[i]), g->getPartialPressure(m.types[i]), 0, 0, "copy-pp", w); } for (int i = 0; i < m.nTc(); ++i) NEAR(f->getTraceCompounds()->getMoleFractions()[i], g->getTraceCompounds()->getMoleFractions()[i], 0, 0, "copy-tc", w);
            for (auto& v : tc0) v = -1; f->setMass(M0); }
        for (int i = 0; i < m.nTc(); ++i) if (tc0[i] >= 0) NEAR(f->getTraceCompounds()->getMoleFractions()[i], tc0[i], 1e-9, 1e-300, "keep-tc", std::string(w) + " trace mole fraction unchanged");
        if (c.failed()) return;
        laws(c, m, f.get(), w);
    }
}

// Mixing several streams: the result does not depend on the order, and conserves mass, species and enthalpy.
MON_PROP2(F08, mix, "streams mixed into an emptied fluid, keyed by sizes") {
    const bool liq = c.r.p(0.3); Mix m(c.r, c.r.i(1, 6), 0, liq); const int k = c.r.i(1, 5); c.note = mon::fmt("mix %d streams %d types", k, m.n()); c.hit(uint64_t(7000 + k * 100 + m.n() * 10 + liq) + (uint64_t(c.r.i(0, 999)) << 20));
    std::vector<std::unique_ptr<PolyFluid> > in; std::vector<double> fl; double F = 0, H = 0; std::vector<double> X(m.n(), 0.0); double tmin = 1e9, tmax = 0;
    for (int j = 0; j < k; ++j) { State s = randomState(c.r, m); in.push_back(mk(m, s)); fl.push_back(c.r.logu(1e-8, 10)); }
    fl[0] = std::max(fl[0], 1e-8); std::vector<int> ord; for (int j = 0; j < k; ++j) { ord.push_back(j); F += fl[j]; H += fl[j] * in[j]->getSpecificEnthalpy(); for (int i = 0; i < m.n(); ++i) X[i] += fl[j] * in[j]->getMassFraction(i); if (fl[j] > 0) { tmin = std::min(tmin, in[j]->getTemperature()); tmax = std::max(tmax, in[j]->getTemperature()); } }
    for (int rep = 0; rep < 3 && !c.failed(); ++rep) {
        c.r.shuffle(ord); auto out = mk(m, randomState(c.r, m)); out->resetState();
        for (int j : ord) { if (c.r.p(0.5)) out->addState(in[j].get(), fl[j]); else { in[j]->setFlowRate(fl[j]); out->addState(in[j].get()); } }
        NEAR(out->getFlowRate(), F, 1e-12, 0, "mix-flow", "mixed flow rate"); double sx = 0; for (int i = 0; i < m.n(); ++i) { NEAR(out->getMassFraction(i), X[i] / F, 1e-9, 1e-12, "mix-x", "mixed mass fraction"); sx += out->getMassFraction(i); } NEAR(sx, 1, 1e-12, 0, "mix-x-sum", "mixed mass fraction sum");
        NEAR(out->getSpecificEnthalpy(), H / F, 1e-8, 0, "mix-h", "mixed enthalpy"); NEAR(out->computeTemperature(H / F), out->getTemperature(), 1e-8, 0, "mix-T", "mixed temperature");
        CHK(out->getTemperature() >= tmin * (1 - 1e-9) && out->getTemperature() <= tmax * (1 + 1e-9), "mix-T-range", mon::fmt("mixed T %.17g outside [%.17g,%.17g]", out->getTemperature(), tmin, tmax));
    }
}

// Construction errors: bad mixtures and states are refused and never read out of bounds.
MON_PROP2(F08, bad, "an invalid construction of a fluid, keyed by kind") {
    Mix m(c.r, c.r.i(2, 5), 0, false); State s = randomState(c.r, m); const int kind = c.r.i(0, 7); c.note = mon::fmt("bad kind %d", kind); c.hit(uint64_t(9000 + kind * 10 + m.n()));
    PolyFluidConfigData cfg(*m.cfg); DefinedFluidProperties* none = 0; bool thrown = false; double T = s.T, P = s.P, fr = 0, mass = 0; std::vector<double> x = s.x;
    std::unique_ptr<PolyFluidConfigData> pc(new PolyFluidConfigData(*m.cfg)); std::vector<FP::FluidType> ty = m.types;
    switch (kind) { case 0: T = -c.r.u() * 300; break; case 1: P = -c.r.logu(1e-6, 100); break; case 2: for (auto& v : x) v *= 0.5; break; case 3: for (auto& v : x) v *= 1.01; break; case 4: for (auto& v : x) v = 0; break;
        case 5: pc.reset(new PolyFluidConfigData(none, ty.data(), int(ty.size()))); break; case 6: pc.reset(new PolyFluidConfigData(&m.props, ty.data(), 0)); break; case 7: for (auto& v : x) v = 1.0 / m.n(); ty[0] = FP::GUNNS_WATER; pc.reset(new PolyFluidConfigData(&m.props, ty.data(), int(ty.size()))); break; }
    PolyFluidInputData in(T, P, fr, mass, kind == 6 && c.r.p(0.5) ? 0 : x.data());
    try { PolyFluid f(*pc, in); thrown = false; } catch (const std::exception&) { thrown = true; }
    c.count(mon::fmt("bad_%d_%s", kind, thrown ? "refused" : "accepted"));
    CHK(thrown, mon::fmt("bad-accepted-%d", kind), mon::fmt("construction kind %d accepted", kind));
    // an operation naming a constituent that is not there is refused and changes nothing
    auto f = mk(m, s); FP::FluidType missing = FP::NO_FLUID; for (FP::FluidType g : gases()) { bool have = false; for (auto q : m.types) if (q == g) have = true; if (!have) missing = g; }
    thrown = false; try { f->getMassFraction(missing); } catch (const std::exception&) { thrown = true; } CHK(thrown, "missing-constituent", "missing constituent read");
    thrown = false; try { f->getMassFraction(c.r.p(0.5) ? -1 : m.n()); } catch (const std::exception&) { thrown = true; } CHK(thrown, "bad-index", "constituent index out of range accepted");
    Mix m2(c.r, m.n() == 5 ? 3 : m.n() + 1, 0, false); auto g = mk(m2, randomState(c.r, m2)); const double T0 = f->getTemperature(), h0 = f->getSpecificEnthalpy();
    thrown = false; try { f->setState(g.get()); } catch (const std::exception&) { thrown = true; } CHK(thrown, "mismatch-copy", "copy of a different mixture accepted"); NEAR(f->getTemperature(), T0, 0, 0, "mismatch-copy-T", "temperature after refusal"); NEAR(f->getSpecificEnthalpy(), h0, 0, 0, "mismatch-copy-h", "enthalpy after refusal");
    thrown = false; try { f->addState(g.get(), 1.0); } catch (const std::exception&) { thrown = true; } CHK(thrown, "mismatch-add", "mixing of a different mixture accepted");
}

// ------------------------------------------------------------------------------------- GunnsFluidUtils
typedef GunnsFluidUtils U;
MON_PROP2(F09, flow, "a pair of fluid states and a conductance, keyed by phase, regime and exponent") {
    const bool liq = c.r.p(0.3); Mix m(c.r, c.r.i(1, 5), 0, liq); State s0 = randomState(c.r, m), s1 = randomState(c.r, m); auto f0 = mk(m, s0), f1 = mk(m, s1); c.note = mon::fmt("%s T %g/%g P %g/%g", liq ? "liquid" : "gas", s0.T, s1.T, s0.P, s1.P);
    const double ex = c.r.p(0.3) ? 0.5 : c.r.p(0.3) ? 1.0 : c.r.uni(0.2, 1.3), lim = std::min(1.0, std::max(0.5, ex)), k = c.r.logu(1e-9, 1e-2), minP = c.r.p(0.3) ? c.r.logu(1, 100) : c.r.logu(1e-9, 1e-3), dP = s0.P - s1.P, eff = std::max(minP, std::fabs(dP));
    const double adm = U::computeAdmittance(k, minP, f0.get(), f1.get(), ex); c.hit(uint64_t(liq) + 2 * (ex <= 0.5) + 4 * (ex >= 1) + 8 * (std::fabs(dP) < minP) + 16 * (uint64_t(m.n())) + 1000 * (uint64_t(c.r.i(0, 500))));
    CHK(adm >= 0, "admittance-sign", "admittance negative"); NEAR(U::computeAdmittance(k, minP, f1.get(), f0.get(), ex), adm, 1e-14, 0, "admittance-symmetric", "admittance of swapped ports");
    const double rho = 0.5 * (f0->getDensity() + f1->getDensity()), mw = 0.5 * (f0->getMWeight() + f1->getMWeight()), mdot = k * std::pow(rho * eff * 1000.0, lim);
    NEAR(adm * eff * mw, mdot, 1e-10, 0, "admittance-law", "flow of the conductance law"); NEAR(U::computeAdmittance(0.0, minP, f0.get(), f1.get(), ex), 0, 0, 0, "admittance-zero", "admittance of zero conductance"); NEAR(U::computeAdmittance(3 * k, minP, f0.get(), f1.get(), ex), 3 * adm, 1e-12, 0, "admittance-linear", "admittance linear in conductance");
    if (std::fabs(dP) > 1e-9) { const double back = U::predictConductivity(c.r.p(0.5) ? mdot : -mdot, minP, f0.get(), f1.get(), ex); NEAR(back, k, 1e-9, 0, "conductivity-inverse", "predicted conductivity"); }
    // capacitance is dn/dP at fixed temperature
    const double V = c.r.logu(1e-6, 1e3), cap = U::computeCapacitance(f0.get(), V); CHK(cap >= 0, "capacitance-sign", "capacitance negative"); if (!liq) NEAR(cap, V / (R * s0.T), 1e-4, 0, "capacitance-law", "gas capacitance V/RT"); NEAR(U::computeCapacitance(f0.get(), 2 * V), 2 * cap, 1e-9, 0, "capacitance-linear", "capacitance linear in volume"); NEAR(U::computeCapacitance(f0.get(), 0), 0, 0, 0, "capacitance-zero", "capacitance of zero volume");
    // isentropic expansion
    const double sc = c.r.p(0.3) ? 1.0 : c.r.u(), p1 = c.r.logu(0.1, 1000), p2 = p1 * c.r.logu(1e-3, 1e3), Ti = U::computeIsentropicTemperature(sc, p1, p2, f0.get()), g = f0->getAdiabaticIndex();
    if (liq) NEAR(Ti, s0.T, 0, 0, "isentropic-liquid", "liquid temperature"); else { NEAR(Ti, s0.T * (1 + sc * (std::pow(p2 / p1, (g - 1) / g) - 1)), 1e-10, 0, "isentropic-law", "isentropic temperature"); CHK(Ti > 0, "isentropic-sign", "temperature"); NEAR(U::computeIsentropicTemperature(0.0, p1, p2, f0.get()), s0.T, 1e-15, 0, "isentropic-zero", "no expansion"); }
    if (!liq && std::fabs(dP) > 0.01 * std::max(s0.P, s1.P)) { const PolyFluid* up = dP > 0 ? f0.get() : f1.get(); const double ph = std::max(s0.P, s1.P), pl = std::min(s0.P, s1.P); const double want = c.r.u(), dT = U::computeIsentropicTemperature(want, ph, pl, up) - up->getTemperature();
        NEAR(U::predictExpansionScaleFactor(c.r.p(0.5) ? dT : -dT, f0.get(), f1.get()), want, 1e-7, 1e-9, "expansion-inverse", "predicted expansion scale"); }
    { const double q = U::predictExpansionScaleFactor(c.r.gauss() * 200, f0.get(), f1.get()); CHK(q >= 0 && q <= 1, "expansion-range", mon::fmt("expansion scale %g", q)); }
}
MON_PROP2(F09, heat, "a convective, conductive or radiative exchange, keyed by regime") {
    const bool liq = c.r.p(0.4); Mix m(c.r, c.r.i(1, 4), 0, liq); State s0 = randomState(c.r, m), s1 = randomState(c.r, m); if (liq) s0.T = c.r.uni(294, 350); if (s0.P < 5) s0.P = 50; bool ok = true; auto f0 = mk(m, s0), f1 = mk(m, s1); c.note = mon::fmt("%s T %g P %g", liq ? "liquid" : "gas", s0.T, s0.P); if (f0->getViscosity() <= 0) ok = false;
    const double re = c.r.p(0.2) ? c.r.uni(2000, 4500) : c.r.logu(1, 9e7), rod = c.r.p(0.2) ? 0.0 : c.r.logu(1e-6, 0.1), d = c.r.logu(1e-3, 1.0);
    c.hit(uint64_t(std::log10(re) * 10) + 1000 * liq + 2000 * uint64_t(m.n()) + 100000 * uint64_t(c.r.i(0, 50)));
    const double fr = U::computeFlowRegimeFactor(re), df = U::computeDarcyFrictionFactor(rod, re), nu = U::computeNusseltNumber(f0.get(), rod, re);
    NEAR(fr, re <= 2300 ? 0 : re >= 4000 ? 1 : (re - 2300) / 1700, 1e-12, 1e-15, "regime", "flow regime factor"); CHK(df > 0, "friction-sign", mon::fmt("Darcy %g", df)); CHK(nu > 0, "nusselt-sign", mon::fmt("Nu %g", nu));
    if (re <= 2300) { NEAR(df, 64 / re, 1e-12, 0, "laminar-friction", "laminar friction"); NEAR(nu, 3.66, 1e-12, 0, "laminar-nusselt", "laminar Nusselt"); }
    if (re >= 4000) { double x = 1 / std::sqrt(0.02); for (int i = 0; i < 60; ++i) x = -2 * std::log10(rod / 3.7 + 2.51 * x / re); const double a = std::log10(rod / 3.7 + 12 / re), b = std::log10(rod / 3.7 - 5.02 * a / re), e = std::log10(rod / 3.7 + 10.04 * a * b / re), variant = 0.25 / std::pow(a - (b - a) * (b - a) / (e - 2 * b + a), 2);   // the recorded finding: last term of the approximation
        const bool off = std::fabs(df * x * x - 1) > 5e-3, known = off && std::fabs(df / variant - 1) < 1e-9; CHK(!off, known ? "darcy-last-term" : "colebrook", mon::fmt("Darcy friction %g against Colebrook %g at Re %g r/D %g", df, 1 / (x * x), re, rod)); if (known) c.caseFailed = false;
       
        const double e8 = df / 8, p = f0->getPrandtlNumber(); if (p > 0.3) NEAR(nu, e8 * (re - 1000) * p / (1 + 12.7 * std::sqrt(e8) * (std::pow(p, 2.0 / 3) - 1)), 1e-10, 0, "gnielinski", "turbulent Nusselt"); }
    for (double r0 : {2300.0, 4000.0, re}) { const double a = U::computeDarcyFrictionFactor(rod, r0 * (1 - 1e-9)), b = U::computeDarcyFrictionFactor(rod, r0 * (1 + 1e-9)), a2 = U::computeNusseltNumber(f0.get(), rod, r0 * (1 - 1e-9)), b2 = U::computeNusseltNumber(f0.get(), rod, r0 * (1 + 1e-9)); NEAR(a, b, 1e-5, 0, "friction-jump", "friction factor across a limit"); NEAR(a2, b2, 1e-5, 0, "nusselt-jump", "Nusselt number across a limit"); }
    if (!ok) { c.count("no_viscosity"); return; }
    const double vel = c.r.logu(1e-3, 50); NEAR(U::computeReynoldsNumber(f0.get(), vel, d), f0->getDensity() * vel * d / f0->getViscosity(), 1e-12, 0, "reynolds", "Reynolds number");
    const double mdot = c.r.p(0.1) ? 0.0 : c.r.sgn() * c.r.logu(1e-9, 5), htc = U::computeConvectiveHeatTransferCoefficient(mdot, f0.get(), rod, d);
    CHK(htc >= 0 && std::isfinite(htc), "htc-sign", mon::fmt("heat transfer coefficient %g", htc)); NEAR(U::computeConvectiveHeatTransferCoefficient(-mdot, f0.get(), rod, d), htc, 1e-14, 0, "htc-symmetric", "heat transfer coefficient of reversed flow"); if (mdot == 0) NEAR(htc, 0, 0, 0, "htc-zero", "no flow"); else { const double rr = 4 * std::fabs(mdot) / (M_PI * d * f0->getViscosity()); if (rr < 9e7 && rr > 1e-12) NEAR(htc, U::computeNusseltNumber(f0.get(), rod, rr) * f0->getThermalConductivity() / d, 1e-6, 0, "htc-law", "heat transfer coefficient"); }
    // convection to a wall: heat equals the stream's own enthalpy change, temperature approaches the wall and never passes it
    const double UA = c.r.p(0.1) ? 0.0 : c.r.logu(1e-6, 1e6), Tw = liq ? c.r.uni(280, 360) : c.r.uni(210, 600), T0 = f0->getTemperature(), h0 = f0->getSpecificEnthalpy(), cp = f0->getSpecificHeat();
    std::unique_ptr<PolyFluid> w = mk(m, s0); const double q = U::computeConvectiveHeatFlux(w.get(), mdot, UA, Tw), T1 = w->getTemperature();
    NEAR(q, std::fabs(mdot) * (h0 - w->getSpecificEnthalpy()), 1e-9, 1e-12, "convection-energy", "heat against enthalpy change"); CHK(T1 >= std::min(T0, Tw) - 1e-9 && T1 <= std::max(T0, Tw) + 1e-9, "convection-range", mon::fmt("stream leaves at %g from %g with wall %g", T1, T0, Tw));
    CHK(q * (T0 - Tw) >= 0, "convection-direction", mon::fmt("heat %g from fluid %g to wall %g", q, T0, Tw)); if (mdot == 0 || UA == 0) { NEAR(q, 0, 0, 0, "convection-zero", "heat without flow"); NEAR(T1, T0, 0, 0, "convection-zero", "temperature without flow"); } else NEAR(T1, Tw + std::exp(-std::min(100.0, UA / std::fabs(mdot) / cp)) * (T0 - Tw), 1e-9, 0, "convection-law", "outlet temperature");
    { std::unique_ptr<PolyFluid> w2 = mk(m, s0), w3 = mk(m, s0); const double A = c.r.logu(1e-3, 10), qa = U::computeConvectiveHeatFlux(w2.get(), mdot, rod, d, A, Tw), qb = U::computeConvectiveHeatFlux(w3.get(), mdot, A * htc, Tw); NEAR(qa, qb, 1e-12, 1e-300, "convection-forms", "two forms of convection"); NEAR(w2->getTemperature(), w3->getTemperature(), 1e-14, 0, "convection-forms", "two forms of convection"); }
    const double A = c.r.logu(1e-4, 10), l0 = c.r.logu(1e-3, 5), l1 = c.r.logu(1e-3, 5), qc = U::computeConductiveHeatFlux(A, f0.get(), f1.get(), l0, l1);
    NEAR(U::computeConductiveHeatFlux(A, f1.get(), f0.get(), l1, l0), -qc, 1e-12, 1e-300, "conduction-antisymmetric", "conduction of swapped sides"); CHK(qc * (f0->getTemperature() - f1->getTemperature()) >= 0, "conduction-direction", "conduction from cold to hot"); NEAR(qc, A * (l0 * f0->getThermalConductivity() + l1 * f1->getThermalConductivity()) / (l0 + l1) / (l0 + l1) * (f0->getTemperature() - f1->getTemperature()), 1e-10, 1e-300, "conduction-law", "conduction");
    { bool thrown = false; try { U::computeConductiveHeatFlux(A, f0.get(), f1.get(), 0, c.r.p(0.5) ? 0 : -1); } catch (const TsOutOfBoundsException&) { thrown = true; } CHK(thrown, "conduction-length", "zero length accepted"); }
}
MON_PROP2(F09, mixtures, "a mixture conversion or transform, keyed by kind and sizes") {
    const bool liq = false; Mix m(c.r, c.r.i(1, 6), 0, liq); const int n = m.n(); c.note = mon::fmt("mixture %d", n); c.hit(uint64_t(n) + 100 * uint64_t(c.r.i(0, 5000)));
    std::vector<double> x = m.fractions(c.r), y(n), z(n), y0(n); double im = 0; for (int i = 0; i < n; ++i) im += x[i] / m.props.getProperties(m.types[i])->getMWeight(); for (int i = 0; i < n; ++i) y0[i] = x[i] / m.props.getProperties(m.types[i])->getMWeight() / im;
    U::convertMassFractionToMoleFraction(y.data(), x.data(), m.cfg.get()); for (int i = 0; i < n; ++i) NEAR(y[i], y0[i], 1e-10, 1e-15, "mass-to-mole", "mole fraction"); U::convertMoleFractionToMassFraction(z.data(), y.data(), m.cfg.get()); for (int i = 0; i < n; ++i) NEAR(z[i], x[i], 1e-10, 1e-15, "mole-to-mass", "mass fraction round trip");
    std::vector<double> al = x; U::convertMassFractionToMoleFraction(al.data(), al.data(), m.cfg.get()); for (int i = 0; i < n; ++i) NEAR(al[i], y0[i], 1e-10, 1e-15, "mass-to-mole-inplace", "in-place conversion");
    const double P = c.r.logu(0.1, 1000); U::convertMoleFractionToPartialPressure(z.data(), y.data(), m.cfg.get(), P); double sp = 0; for (double v : z) sp += v; NEAR(sp, P, 1e-10, 0, "pp-sum", "sum of partial pressures"); U::convertPartialPressureToMoleFraction(al.data(), z.data(), m.cfg.get()); for (int i = 0; i < n; ++i) NEAR(al[i], y0[i], 1e-9, 1e-15, "pp-to-mole", "partial pressure round trip");
    // normalisation
    std::vector<double> a(n); double sa = 0; for (auto& v : a) { v = c.r.p(0.2) ? 0.0 : c.r.p(0.1) ? -c.r.u() : c.r.logu(1e-12, 1e3); if (v > 0) sa += v; } if (c.r.p(0.2) && sa > 0) { for (auto& v : a) v /= sa; sa = 1; } std::vector<double> b = a; const bool chg = U::normalizeArray(b.data(), n); double sb = 0; for (int i = 0; i < n; ++i) { CHK(b[i] >= 0, "normalize-sign", "negative fraction"); sb += b[i]; if (sa > 0 && chg) NEAR(b[i], std::max(0.0, a[i]) / sa, 1e-9, 1e-15, "normalize", "normalised fraction"); }
    if (sa > 0) NEAR(sb, 1, 3e-7, 0, "normalize-sum", "sum of fractions"); CHK(chg == (std::fabs(sa - 1) > FLT_EPSILON), "normalize-flag", mon::fmt("normalisation reported %d for sum %.12g", chg, sa));
    // transform to another mixture
    Mix o(c.r, c.r.i(1, 6), 0, liq); std::vector<int> map(n + 1, -1234); FP::FluidType conv = c.r.p(0.5) ? FP::NO_FLUID : o.types[c.r.i(0, o.n() - 1)]; if (c.r.p(0.1)) { conv = FP::GUNNS_WATER; } bool common = conv != FP::NO_FLUID, thrown = false; for (auto t : m.types) for (auto q : o.types) if (t == q) common = true;
    try { U::buildTransformMap(map.data(), m.cfg.get(), o.cfg.get(), conv); } catch (const TsInitializationException&) { thrown = true; }
    CHK(thrown == (!common || conv == FP::GUNNS_WATER), "transform-refusal", mon::fmt("transform map %s", thrown ? "refused" : "accepted")); if (thrown) { c.count("transform_refused"); return; }
    CHK(map[0] == n, "transform-size", "map size"); std::vector<double> want(o.n(), 0.0); double ws = 0; for (int i = 0; i < n; ++i) { int at = -1; for (int j = 0; j < o.n(); ++j) if (o.types[j] == m.types[i]) at = j; if (at < 0 && conv != FP::NO_FLUID) for (int j = 0; j < o.n(); ++j) if (o.types[j] == conv) at = j; if (at >= 0) { want[at] += x[i]; ws += x[i]; } }
    auto out = mk(o, randomState(c.r, o)); std::vector<double> before; for (int j = 0; j < o.n(); ++j) before.push_back(out->getMassFraction(j)); const double T = c.r.uni(210, 500), PP = c.r.logu(0.1, 1000); U::transformState(out.get(), PP, T, x.data(), map.data());
    NEAR(out->getTemperature(), T, 1e-14, 0, "transform-T", "temperature"); NEAR(out->getPressure(), PP, 1e-12, 0, "transform-P", "pressure"); for (int j = 0; j < o.n(); ++j) NEAR(out->getMassFraction(j), ws > 0 ? want[j] / ws : before[j], 1e-9, 1e-12, "transform-x", "transformed fraction"); validFluid(c, out.get(), "transformed", false);
}
MON_PROP2(F09, masses, "a mass mixing or diffusion, keyed by sizes and directions") {
    Mix m(c.r, c.r.i(1, 6), c.r.p(0.5) ? c.r.i(1, 3) : 0, false); State s0 = randomState(c.r, m), s1 = randomState(c.r, m); s0.P = std::max(s0.P, 1.0); s1.P = std::max(s1.P, 1.0); auto a = mk(m, s0), b = mk(m, s1); const int n = m.n(); c.note = mon::fmt("masses %d", n); c.hit(uint64_t(n) + 1000 * uint64_t(c.r.i(0, 5000)));
    const double ma = c.r.p(0.1) ? 0.0 : c.r.logu(1e-6, 100), mb = c.r.p(0.1) ? 0.0 : c.r.p(0.2) && ma > 0 ? -ma * c.r.u() * 0.5 : c.r.logu(1e-6, 100);
    a->setMass(ma); std::vector<double> sp, tc; double neg = 0; for (int i = 0; i < n; ++i) { sp.push_back(ma * a->getMassFraction(i) + mb * b->getMassFraction(i)); if (sp.back() < 0) neg = 1; } if (m.nTc()) { a->getTraceCompounds()->updateMasses(); for (int i = 0; i < m.nTc(); ++i) tc.push_back(a->getTraceCompounds()->getMoleFractions()[i] * a->getMole() + mb / b->getMWeight() * b->getTraceCompounds()->getMoleFractions()[i]); }
    if (ma + mb < DBL_EPSILON) { bool th = false; try { U::mixFluidMasses(a.get(), ma, b.get(), mb, n); } catch (const TsOutOfBoundsException&) { th = true; } CHK(th, "mix-nothing", "mixing nothing accepted"); }
    else if (!neg) { U::mixFluidMasses(a.get(), ma, b.get(), mb, n); NEAR(a->getMass(), ma + mb, 1e-12, 0, "mixm-mass", "mixed mass"); for (int i = 0; i < n; ++i) NEAR(a->getMassFraction(i), sp[i] / (ma + mb), 1e-7, 1e-9, "mixm-x", "mixed fraction"); for (int i = 0; i < m.nTc(); ++i) if (tc[i] >= 0) { NEAR(a->getTraceCompounds()->getMasses()[i], tc[i] * m.comps.getCompound(m.tcTypes[i])->mMWeight, 1e-6, 1e-12, "mixm-tc", "mixed trace compound mass"); c.count("tc_mixed"); } }
    // diffusion: species go from the more to the less concentrated side, antisymmetric, none between equal mixtures
    auto f0 = mk(m, s0), f1 = mk(m, s1), o = mk(m, s0), o2 = mk(m, s0); const double A = c.r.logu(1e-4, 5), l0 = c.r.logu(0.01, 3), l1 = c.r.logu(0.01, 3), bulk = c.r.p(0.5) ? 0.0 : c.r.sgn() * c.r.logu(1e-12, 1e-2);
    const double q = U::computeGasDiffusion(o.get(), A, f0.get(), f1.get(), bulk, l0, l1), q2 = U::computeGasDiffusion(o2.get(), A, f1.get(), f0.get(), -bulk, l1, l0); NEAR(q, -q2, 1e-9, 1e-300, "diffusion-antisymmetric", "diffusion of swapped sides"); double tot = 0, pos = 0, negf = 0;
    for (int i = 0; i < n; ++i) { const double fl = o->getConstituent(m.types[i])->getMass(), dy = f0->getMoleFraction(i) - f1->getMoleFraction(i), mwi = m.props.getProperties(m.types[i])->getMWeight(); CHK(fl * dy >= 0, "diffusion-direction", mon::fmt("species %d flux %g for mole fraction difference %g", i, fl, dy)); NEAR(o2->getConstituent(m.types[i])->getMass(), -fl, 1e-9, 1e-300, "diffusion-antisymmetric-species", "species diffusion of swapped sides"); tot += fl; (fl > 0 ? pos : negf) += fl / mwi; }
    NEAR(tot * A, q, 1e-9, 1e-300, "diffusion-sum", "net diffusion"); NEAR(pos, -negf, 1e-6, (std::fabs(pos) + std::fabs(negf)) * 1e-9 + 1e-300, "diffusion-equimolar", "moles each way");
    { auto o3 = mk(m, s0), e = mk(m, s0); NEAR(U::computeGasDiffusion(o3.get(), A, f0.get(), e.get(), 0, l0, l1), 0, 0, 1e-15, "diffusion-equal", "diffusion between equal fluids"); }
    { bool th = false; try { U::computeGasDiffusion(o.get(), A, f0.get(), f1.get(), bulk, 0, 0); } catch (const TsOutOfBoundsException&) { th = true; } CHK(th, "diffusion-length", "zero length accepted"); }
}
