// EXTRA_FLAGS: -I{VERIF}/drivers/stubs
#include "mon.hpp"
#include "math/linear_algebra/CholeskyLdu.hh"
#include "math/linear_algebra/Sor.hh"
#include "math/root_finding/BrentMethod.hh"
#include "math/root_finding/LaguerreMethod.hh"
#include "math/elementary_functions/LambertW.hh"
#include "math/MsMath.hh"
#include "math/UnitConversion.hh"
#include "math/TS_random.hh"
#include "math/intersect/LineSegmentIntersect.cpp"
#include "math/approximation/CubicFit.hh"
#include "math/approximation/ExponentialFit.hh"
#include "math/approximation/InvLinearFit.hh"
#include "math/approximation/InvQuadraticFit.hh"
#include "math/approximation/LinearFit.hh"
#include "math/approximation/PowerFit.hh"
#include "math/approximation/ProductFit.hh"
#include "math/approximation/QuadLinFit.hh"
#include "math/approximation/QuadLinInvFit.hh"
#include "math/approximation/QuadraticFit.hh"
#include "math/approximation/QuadraticRootFit.hh"
#include "math/approximation/QuarticFit.hh"
#include "math/approximation/QuinticFit.hh"
#include "math/approximation/QuotientFit.hh"
#include "math/approximation/RationalFit.hh"
#include "math/approximation/ShowmateFit.hh"
#include "math/approximation/SutherlandFit.hh"
#include "math/approximation/TsLinearInterpolator.hh"
#include "math/approximation/TsBilinearInterpolator.hh"
#include "math/approximation/TsBilinearInterpolatorReverse.hh"
#include "software/exceptions/TsNumericalException.hh"
#include "software/exceptions/TsInitializationException.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include <climits>
#include <complex>
#include <functional>
#include <memory>
typedef long double ld;

// Random network-style symmetric positive definite matrix (off-diagonals <= 0).
static std::vector<double> spd(mon::Rng& r, int n, double dens, double slack) {
    std::vector<double> A(n * n, 0.0);
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (r.p(dens)) { const double g = r.logu(1e-4, 1e4); A[i * n + j] = A[j * n + i] = -g; A[i * n + i] += g; A[j * n + j] += g; }
    for (int i = 0; i < n; ++i) A[i * n + i] += (A[i * n + i] == 0 || r.p(0.7)) ? r.logu(1e-2, 1e3) * slack : 0.0;
    for (int i = 0; i < n; ++i) A[i * n + i] *= 1.0 + 1e-9;
    // any sign pattern keeps a diagonally dominant matrix positive definite (mutual inertias, rotated frames)
    if (r.p(0.4)) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (r.p(0.5)) { A[i * n + j] = -A[i * n + j]; A[j * n + i] = A[i * n + j]; }
    // and so does adding a Gram matrix
    if (r.p(0.2)) { std::vector<double> B(n * n); const double k = r.logu(1e-2, 1e2); for (double& v : B) v = r.uni(-1, 1) * k; for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { double q = 0; for (int m = 0; m < n; ++m) q += B[i * n + m] * B[j * n + m]; A[i * n + j] += q; A[j * n + i] = A[i * n + j]; } }
    return A;
}
static bool residualOk(mon::Ctx& c, const std::vector<double>& A, const double* x, const std::vector<double>& b, int n, const char* key, double tol) {
    for (int i = 0; i < n; ++i) { ld s = -b[i], m = std::fabs(b[i]); for (int j = 0; j < n; ++j) { s += ld(A[i * n + j]) * x[j]; m += std::fabs(A[i * n + j] * x[j]); }
        if (!(std::fabs(double(s)) <= tol * double(m) + 1e-250)) { c.fail(key, mon::fmt("row %d residual %g of magnitude %g (n %d)", i, double(s), double(m), n)); return false; } }
    return true;
}
MON_PROP(M01, "a random symmetric positive definite admittance matrix decomposed, solved or inverted, keyed by size, density and slack") {
    const int n = c.r.p(0.1) ? 1 : c.r.i(2, c.thorough ? 60 : 30); const double dens = c.r.pick(std::vector<double>{0.1, 0.3, 0.7, 1.0}); const double slack = c.r.logu(1e-4, 1.0);
    const std::vector<double> A = spd(c.r, n, dens, slack); std::vector<double> L = A, b(n), x(n, 99.0); for (double& v : b) v = c.r.p(0.2) ? 0.0 : c.r.sgn() * c.r.logu(1e-5, 1e5);
    CholeskyLdu ldu; bool ok = true; try { ldu.Decompose(L.data(), n); } catch (TsNumericalException&) { ok = false; }
    CHK(ok, "spd-rejected", mon::fmt("a positive definite %dx%d matrix was rejected", n, n)); if (!ok) return;
    for (int i = 0; i < n; ++i) { CHK(L[i * n + i] > 0, "pivot", "non-positive pivot"); for (int j = 0; j < i; ++j) CHK(L[i * n + j] == L[j * n + i], "ldu-symmetric", mon::fmt("decomposition not symmetric at %d,%d", i, j)); }
    // A = L D L^T
    for (int i = 0; i < n && !c.failed(); ++i) for (int j = 0; j <= i; ++j) { ld s = 0, m = 0; for (int k = 0; k <= j; ++k) { ld l = k == i ? 1 : L[i * n + k], u = k == j ? 1 : L[j * n + k], d = L[k * n + k]; s += l * d * u; m += std::fabs(double(l * d * u)); } CHK(std::fabs(double(s) - A[i * n + j]) <= 1e-13 * n * (double(m) + std::fabs(A[i * n + j])) + 1e-90, "ldu-product", mon::fmt("L*D*U at %d,%d is %.17g, matrix has %.17g", i, j, double(s), A[i * n + j])); }
    std::vector<double> b0 = b, L0 = L; ldu.Solve(L.data(), b.data(), x.data(), n); CHK(b == b0 && L == L0, "solve-mutates", "Solve changed its inputs");
    residualOk(c, A, x.data(), b0, n, "solve-residual", 1e-9);
    std::vector<double> xi = b; ldu.Solve(L.data(), xi.data(), xi.data(), n); for (int i = 0; i < n; ++i) CHK(xi[i] == x[i], "solve-in-place", "in-place solve differs");
    if (n <= 20) { std::vector<double> inv = L; ldu.Invert(inv.data(), n); ld worst = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { ld s = i == j ? -1 : 0, m = 1; for (int k = 0; k < n; ++k) { s += ld(A[i * n + k]) * inv[k * n + j]; m += std::fabs(A[i * n + k] * inv[k * n + j]); } worst = std::max(worst, ld(std::fabs(double(s / m)))); CHK(inv[i * n + j] == inv[j * n + i], "invert-symmetric", "inverse not symmetric"); } CHK(worst < 1e-7, "invert", mon::fmt("inverse residual %g", double(worst))); }
    // subset decomposition acts only on the chosen rows and equals the decomposition of the submatrix
    if (n >= 2) { std::vector<int> rows; for (int i = 0; i < n; ++i) if (c.r.p(0.5)) rows.push_back(i); if (rows.size() < 2) { rows.clear(); rows.push_back(0); rows.push_back(n - 1); }
        std::vector<double> F = A; std::vector<int> rc = rows; const int k = int(rows.size()); bool sok = true; try { ldu.Decompose(F.data(), n, rc); } catch (TsNumericalException&) { sok = false; }
        CHK(sok, "subset-rejected", "a positive definite submatrix was rejected"); if (sok) { std::vector<double> S(k * k); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) S[i * k + j] = A[rows[i] * n + rows[j]]; ldu.Decompose(S.data(), k);
            for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) NEAR(F[rows[i] * n + rows[j]], S[i * k + j], 1e-13, 1e-99, "subset-decompose", mon::fmt("subset decomposition at %d,%d", i, j));
            std::vector<char> in(n, 0); for (int q : rows) in[q] = 1; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!in[i] || !in[j]) CHK(F[i * n + j] == A[i * n + j], "subset-foreign", mon::fmt("entry %d,%d outside the subset was changed", i, j)); } }
    // an indefinite matrix must be refused, never solved silently
    if (n >= 2 && c.r.p(0.5)) { std::vector<double> B = A; const int i = c.r.i(1, n - 1); double s = 0; for (int j = 0; j < n; ++j) if (j != i) s += std::fabs(B[i * n + j]); B[i * n + i] = c.r.p(0.5) ? -c.r.logu(1e-3, 10.0) : 0.0; bool threw = false; try { ldu.Decompose(B.data(), n); } catch (TsNumericalException&) { threw = true; } CHK(threw, "indefinite-accepted", mon::fmt("matrix with diagonal %g decomposed without an exception", B[i * n + i])); c.count("indefinite"); }
    // SOR
    { std::vector<double> xs(n); for (double& v : xs) v = c.r.p(0.5) ? 0.0 : c.r.uni(-1, 1); std::vector<double> As = A; CHK(Sor::isPositiveDefinite(As.data(), n), "sor-spd", "SOR rejects a positive diagonal"); const int lim = c.r.i(2, 3000); const float w = float(c.r.uni(0.8, 1.6)); const double tol = c.r.logu(1e-12, 1e-6); double bm = 0; for (double v : b) bm = std::max(bm, std::fabs(v));
        const int k = Sor::solve(xs.data(), As.data(), b.data(), n, w, lim, tol); CHK(As == A, "sor-mutates", "SOR changed the matrix"); CHK(k == -1 || (k >= 1 && k < lim), "sor-count", mon::fmt("SOR returned %d with limit %d", k, lim));
        if (k > 0) { c.count("sor_converged"); // one more sweep moves the solution by at most a few tolerances
            std::vector<double> y = xs; Sor::solve(y.data(), As.data(), b.data(), n, w, 2, 0.0); double m = 0, mx = 0; for (int i = 0; i < n; ++i) { m += std::fabs(y[i] - xs[i]); mx += std::fabs(xs[i]); } CHK(m <= 50 * tol * n + 1e-13 * mx * n, "sor-converged", mon::fmt("SOR claimed convergence to %g but the next sweep moves %g", tol, m)); } else c.count("sor_limit"); }
    c.hit(mon::mix(mon::mix(n, int(dens * 10)), mon::hd(slack)));
}

MON_PROP(M02, "a root-finding problem solved, keyed by function family and parameters") {
    struct F : BrentMethod { std::function<double(double)> f; long n = 0; double evaluate(const double x) override { ++n; return f(x); } } f;
    const int kind = c.r.i(0, 6); const double a = c.r.uni(-3, 3), b = c.r.uni(0.05, 4), root = c.r.uni(-2, 2);
    switch (kind) { case 0: f.f = [=](double x) { return b * (x - root); }; break; case 1: f.f = [=](double x) { return std::pow(x - root, 3) * b + (x - root); }; break; case 2: f.f = [=](double x) { return std::exp(b * x) - std::exp(b * root); }; break; case 3: f.f = [=](double x) { return std::tanh(20 * b * (x - root)); }; break; case 4: f.f = [=](double x) { return std::pow(x - root, 9); }; break; case 5: f.f = [=](double x) { return x < root ? -b : 1.0; }; break; default: f.f = [=](double x) { return std::sin(3 * x + a); }; }
    double x1 = root - c.r.uni(0.01, 5), x2 = root + c.r.uni(0.01, 5); if (c.r.p(0.5)) std::swap(x1, x2); if (c.r.p(0.2)) { x1 = c.r.uni(-6, 6); x2 = c.r.uni(-6, 6); } const double tol = c.r.p(0.2) ? 0.0 : c.r.logu(1e-14, 1e-2);
    const double f1 = f.f(x1), f2 = f.f(x2); double x = 1e99; bool oob = false, lim = false; int it = 0; try { it = f.solve(x, x1, x2, tol); } catch (TsOutOfBoundsException&) { oob = true; } catch (TsNumericalException&) { lim = true; }
    CHK(oob == ((f1 > 0 && f2 > 0) || (f1 < 0 && f2 < 0)), "brent-bracket", mon::fmt("f(%g)=%g f(%g)=%g %s", x1, f1, x2, f2, oob ? "rejected" : "accepted"));
    if (!oob) { CHK(!lim || kind == 4, "brent-limit", mon::fmt("kind %d did not converge in [%g,%g]", kind, x1, x2)); if (!lim) { CHK(it >= 1 && it <= 100, "brent-count", "iteration count"); const double t = 4 * DBL_EPSILON * std::fabs(x) + tol + 1e-300, lo = std::min(x1, x2), hi = std::max(x1, x2); CHK(x >= lo - t && x <= hi + t, "brent-range", mon::fmt("root %g outside [%g,%g]", x, lo, hi));
        const double fm = f.f(std::max(lo, x - 2 * t)), fp = f.f(std::min(hi, x + 2 * t)), f0 = f.f(x); CHK(f0 == 0 || fm == 0 || fp == 0 || (fm > 0) != (fp > 0), "brent-root", mon::fmt("kind %d: no sign change within %g of the reported root %.17g (f %g %g %g)", kind, t, x, fm, f0, fp)); c.hit(mon::mix(mon::mix(kind, it), mon::hd(root))); } } else c.count("brent_unbracketed");
    // Laguerre: random polynomial from random roots, separated
    { const int m = c.r.i(1, 8); std::vector<std::complex<double> > rt(m); for (auto& z : rt) z = std::complex<double>(c.r.uni(-2, 2), c.r.p(0.5) ? 0 : c.r.uni(-2, 2)); std::vector<std::complex<double> > p(1, 1.0); for (auto& z : rt) { std::vector<std::complex<double> > q(p.size() + 1, 0.0); for (size_t i = 0; i < p.size(); ++i) { q[i + 1] += p[i]; q[i] -= z * p[i]; } p = q; }
      const std::complex<double> k(c.r.sgn() * c.r.logu(0.01, 100.0), 0); for (auto& z : p) z *= k; std::complex<double> x(c.r.uni(-3, 3), c.r.uni(-3, 3)); std::vector<std::complex<double> > p0 = p; int n = 0; bool ex = false; try { n = LaguerreMethod::solve(x, p.data(), m + 1); } catch (TsNumericalException&) { ex = true; }
      CHK(p == p0, "laguerre-mutates", "coefficients changed"); CHK(!ex, "laguerre-limit", mon::fmt("degree %d did not converge", m)); if (!ex) { CHK(n >= 1 && n <= 80, "laguerre-count", "count"); std::complex<ld> v = 0; ld mag = 0, ax = std::abs(std::complex<ld>(x.real(), x.imag())); for (int i = m; i >= 0; --i) { v = v * std::complex<ld>(x.real(), x.imag()) + std::complex<ld>(p[i].real(), p[i].imag()); mag = mag * ax + std::abs(std::complex<ld>(p[i].real(), p[i].imag())); } CHK(std::abs(v) <= 1e-12L * mag, "laguerre-root", mon::fmt("degree %d: |p(x)| %g of magnitude %g", m, double(std::abs(v)), double(mag))); c.count("laguerre"); } }
    // Lambert W
    { const int br = c.r.i(0, 1); double in; const double e1 = std::exp(-1.0); if (br == 0) in = c.r.p(0.3) ? c.r.uni(-e1, 0) : c.r.logu(1e-14, 1e299); else in = c.r.p(0.5) ? c.r.uni(-e1, 0) : -c.r.logu(1e-299, 0.367); if (c.r.p(0.1)) in = -e1 + c.r.logu(1e-15, 1e-3);
      if (in >= 0 && br == 1) in = -1e-10; bool ex = false; double w = 0, wf = 0; try { w = br ? LambertW::solveW1(in) : LambertW::solveW0(in); wf = br ? LambertW::fastSolveW1(in) : LambertW::fastSolveW0(in); } catch (TsOutOfBoundsException&) { ex = true; }
      CHK(!ex, "lambert-range", mon::fmt("valid input %g rejected", in)); if (!ex) { CHK(br ? w <= -1 + 1e-6 : w >= -1 - 1e-6, "lambert-branch", mon::fmt("branch %d of %g gives %g", br, in, w)); if (in > -e1 + 1e-6) { const double cond = std::fabs(1 + w) > 1e-9 ? 1 : 1; (void)cond; if (std::fabs(w) < 600) NEAR(w * std::exp(w), in, 1e-9, 1e-300, "lambert-inverse", mon::fmt("W%d(%g) = %.17g: w*exp(w)", br, in, w)); else NEAR(w + std::log(std::fabs(w)), std::log(std::fabs(in)), 1e-12, 0, "lambert-inverse", "log form"); }
        CHK(std::fabs(wf - w) <= 0.03001 * std::fabs(w) + 1e-12, "lambert-fast", mon::fmt("fast W%d(%g) = %g, exact %g", br, in, wf, w)); }
      bool t1 = false, t2 = false; const double bad = -e1 - c.r.logu(1e-9, 10.0); try { LambertW::solveW0(bad); } catch (TsOutOfBoundsException&) { t1 = true; } try { LambertW::fastSolveW1(c.r.p(0.5) ? bad : c.r.uni(0, 5)); } catch (TsOutOfBoundsException&) { t2 = true; } CHK(t1 && t2, "lambert-reject", mon::fmt("out-of-range input %g accepted", bad)); c.count("lambert"); }
}

// ---- curve fits ----
MON_PROP(M03, "a curve fit or table built from random parameters and evaluated, keyed by family and verdict") {
    auto co = [&]() { return c.r.p(0.1) ? 0.0 : c.r.sgn() * c.r.logu(1e-3, 10.0); };
    double A = co(), B = co(), C = co(), Dd = co(), E = co(), G = co(); double x0 = c.r.uni(-10, 10), x1 = x0 + c.r.logu(1e-3, 20.0), y0 = c.r.uni(-5, 5), y1 = y0 + c.r.logu(1e-3, 20.0); if (c.r.p(0.4)) { x0 = c.r.logu(1e-3, 10.0); x1 = x0 * c.r.uni(1.01, 50); } if (c.r.p(0.1)) x1 = x0 - c.r.u();
    std::unique_ptr<TsApproximation> a; std::function<ld(ld, ld)> f; const int k = c.r.i(0, 16); bool twoD = false, threw = false;
    try { switch (k) {
        case 0: f = [=](ld x, ld) { return A + ld(B) * x; }; a.reset(new LinearFit(A, B, x0, x1)); break;
        case 1: f = [=](ld x, ld) { return A + ld(B) * x + C * x * x; }; a.reset(new QuadraticFit(A, B, C, x0, x1)); break;
        case 2: f = [=](ld x, ld) { return A + ld(B) * x + C * x * x + Dd * x * x * x; }; a.reset(new CubicFit(A, B, C, Dd, x0, x1)); break;
        case 3: f = [=](ld x, ld) { return A + ld(B) * x + C * x * x + Dd * x * x * x + E * x * x * x * x; }; a.reset(new QuarticFit(A, B, C, Dd, E, x0, x1)); break;
        case 4: f = [=](ld x, ld) { return A + ld(B) * x + C * x * x + Dd * x * x * x + E * x * x * x * x + G * x * x * x * x * x; }; a.reset(new QuinticFit(A, B, C, Dd, E, G, x0, x1)); break;
        case 5: f = [=](ld x, ld) { return std::exp(A + B / x + C / (x * x)); }; a.reset(new ExponentialFit(A, B, C, x0, x1)); break;
        case 6: f = [=](ld x, ld) { return A * x + B + C / x; }; a.reset(new InvLinearFit(A, B, C, x0, x1)); break;
        case 7: f = [=](ld x, ld) { return A + B / x + C / (x * x); }; a.reset(new InvQuadraticFit(A, B, C, x0, x1)); break;
        case 8: B = std::fabs(B) + 0.01; f = [=](ld x, ld) { return A * std::pow(ld(B), x); }; a.reset(new PowerFit(A, B, x0, x1)); break;
        case 9: twoD = true; f = [=](ld x, ld y) { return A * x * y; }; a.reset(new ProductFit(A, x0, x1, y0, y1)); break;
        case 10: twoD = true; f = [=](ld x, ld y) { return A + ld(B) * y + (C + ld(Dd) * y) * x + (E + ld(G) * y) * x * x; }; a.reset(new QuadLinFit(A, B, C, Dd, E, G, x0, x1, y0, y1)); break;
        case 11: twoD = true; f = [=](ld x, ld y) { return (y - A - C * x - E * x * x) / (B + Dd * x + G * x * x); }; a.reset(new QuadLinInvFit(A, B, C, Dd, E, G, x0, x1, y0, y1)); break;
        case 12: twoD = true; f = [=](ld x, ld y) { return A * y / x; }; a.reset(new QuotientFit(A, x0, x1, y0, y1)); break;
        case 13: f = [=](ld x, ld) { return (A + B * x) / (1 + C * x + Dd * x * x); }; a.reset(new RationalFit(A, B, C, Dd, x0, x1)); break;
        case 14: f = [=](ld x, ld) { return A + B * 1e-3L * x + C * 1e-6L * x * x + Dd * 1e-9L * x * x * x + E * 1e6L / (x * x); }; a.reset(new ShowmateFit(A, B, C, Dd, E, x0, x1)); break;
        case 15: f = [=](ld x, ld) { return A * std::sqrt(x * x * x) / (B + x); }; a.reset(new SutherlandFit(A, B, x0, x1)); break;
        default: f = [=](ld x, ld) { return (-A + std::sqrt(ld(A) * A + 4 * B * x)) / (2 * B); }; a.reset(new QuadraticRootFit(A, B, x0, x1)); }
    } catch (TsInitializationException&) { threw = true; }
    CHK(threw || x1 > x0, "empty-range", mon::fmt("family %d accepted an empty range", k)); if (threw) { c.count("rejected"); c.hit(mon::mix(k, 1)); return; }
    CHK(a->isInitialized(), "initialized", mon::fmt("family %d not initialized after success", k)); c.count("built");
    for (int q = 0; q < 12 && !c.failed(); ++q) { double x = c.r.uni(x0, x1), y = twoD ? c.r.uni(y0, y1) : 0.0; if (q == 0) x = x0; if (q == 1) x = x1; const double v = a->get(x, y), e = double(f(x, y));
        // conditioning: sensitivity of the exact value to last-digit changes in x and the parameters
        const double s = std::fabs(double(f(std::nextafter(x, 1e9) * (1 + 1e-12), y)) - e) + std::fabs(double(f(x * (1 - 1e-12), y)) - e);
        if (!std::isfinite(e)) { if (k != 13) { c.count("singular_point"); continue; } }
        if (k == 11 || k == 15 || k == 16) { if (!std::isfinite(v) || s > 1e-6 * (1 + std::fabs(e))) { c.count("singular_neighbourhood"); continue; } }
        if (k == 13) { const ld den = 1 + ld(C) * x + ld(Dd) * x * x; if (std::fabs(double(den)) < 1e-9) { c.fail("rational-singularity", mon::fmt("validated range contains a pole at %g", x)); return; } }
        double mag = std::fabs(A) + std::fabs(B) + std::fabs(C) + std::fabs(Dd) + std::fabs(E) + std::fabs(G); double px = std::max(1.0, std::fabs(x)); if (k <= 4 || k == 10) mag *= std::pow(px, 5) * (1 + std::fabs(y)); else if (k == 6 || k == 7) mag *= (px + 1 / (x * x)); else if (k == 14) mag *= 1e6 / (x * x) + px; else if (k == 11) mag = 0; else mag = 0;
        if (k == 5 && !(e < 1e300)) continue;
        NEAR(v, e, k == 5 ? 1e-9 : 1e-10, 1e-12 * mag + 4 * s + 1e-13, "fit-value", mon::fmt("family %d at (%g,%g)", k, x, y));
        double g = 0; bool ex = false; try { g = a->getExceptional(x, y); } catch (TsOutOfBoundsException&) { ex = true; } CHK(!ex && g == v, "exceptional-inside", mon::fmt("family %d: range-checked value differs or was refused inside the range", k)); }
    // out of range: get() clamps, getExceptional() throws
    const double below = x0 - c.r.logu(1e-6, 10), above = x1 + c.r.logu(1e-6, 10), ym = twoD ? 0.5 * (y0 + y1) : 0;
    auto same = [](double p, double q) { return p == q || (std::isnan(p) && std::isnan(q)); };
    CHK(same(a->get(below, ym), a->get(x0, ym)) && same(a->get(above, ym), a->get(x1, ym)), "clamp-x", mon::fmt("family %d does not clamp x", k)); if (twoD) CHK(same(a->get(x0, y1 + 1), a->get(x0, y1)) && same(a->get(x0, y0 - 1), a->get(x0, y0)), "clamp-y", mon::fmt("family %d does not clamp y", k));
    int t = 0; try { a->getExceptional(below, ym); } catch (TsOutOfBoundsException&) { ++t; } try { a->getExceptional(above, ym); } catch (TsOutOfBoundsException&) { ++t; } if (twoD) { try { a->getExceptional(x0, y1 + 1); } catch (TsOutOfBoundsException&) { ++t; } } CHK(t == (twoD ? 3 : 2), "exceptional-outside", mon::fmt("family %d evaluated outside its range", k));
    c.hit(mon::mix(mon::mix(k, 2), mon::hd(x0) & 255));
}
// a pole search inside the validated range of a rational fit (deterministic roots)
MON_PROP2(M03, rational, "a rational fit whose denominator has a root, keyed by the root") {
    const double r1 = c.r.uni(-5, 5), r2 = c.r.uni(-5, 5); if (std::fabs(r1 * r2) < 1e-3 || std::fabs(r1 - r2) < 1e-3) return; const double Dd = 1.0 / (r1 * r2), C = -(r1 + r2) / (r1 * r2);
    const double w = c.r.logu(0.01, 10); bool threw = false; try { RationalFit f(1.0, 1.0, C, Dd, r1 - w, r1 + w * c.r.u() + 1e-3); } catch (TsInitializationException&) { threw = true; }
    c.hit(mon::hd(r1)); CHK(threw, "rational-singularity", mon::fmt("RationalFit accepts a range around the pole at %g", r1));
}

// ---- tables ----
static double bil(const std::vector<double>& X, const std::vector<double>& Y, const std::vector<double>& Z, double x, double y) {
    auto cell = [](const std::vector<double>& v, double q) { const bool up = v[1] > v[0]; for (size_t i = 0; i + 1 < v.size(); ++i) { double lo = std::min(v[i], v[i + 1]), hi = std::max(v[i], v[i + 1]); if (q >= lo && q <= hi) return int(i); } return up == (q > v[0]) ? int(v.size()) - 2 : 0; };
    const int i = cell(X, x), j = cell(Y, y), n = int(Y.size()); const double u = (x - X[i]) / (X[i + 1] - X[i]), w = (y - Y[j]) / (Y[j + 1] - Y[j]);
    return (1 - u) * ((1 - w) * Z[i * n + j] + w * Z[i * n + j + 1]) + u * ((1 - w) * Z[(i + 1) * n + j] + w * Z[(i + 1) * n + j + 1]);
}
static std::vector<double> axis(mon::Rng& r, int n, bool down) { std::vector<double> v(n); v[0] = r.uni(-10, 10); for (int i = 1; i < n; ++i) v[i] = v[i - 1] + r.logu(1e-2, 5.0); if (down) std::reverse(v.begin(), v.end()); return v; }
MON_PROP2(M03, tables, "a random interpolation table read in a random order, keyed by sizes and axis directions") {
    const int m = c.r.i(2, 9), n = c.r.i(2, 9); const bool dx = c.r.p(0.5), dy = c.r.p(0.5); std::vector<double> X = axis(c.r, m, dx), Y = axis(c.r, n, dy), Z(m * n), Z1(m); for (double& z : Z) z = c.r.uni(-100, 100); for (double& z : Z1) z = c.r.uni(-100, 100);
    const double xl = std::min(X[0], X[m - 1]), xh = std::max(X[0], X[m - 1]), yl = std::min(Y[0], Y[n - 1]), yh = std::max(Y[0], Y[n - 1]); const double zs = 100;
    const int keyed = mon::mix(mon::mix(m, n), dx * 2 + dy);
    TsLinearInterpolator lin; const int reinits = c.r.i(0, 2);
    for (int q = 0; q < reinits; ++q) { const int k = c.r.i(2, 20); std::vector<double> x = axis(c.r, k, false), z(k, 1.0); lin.init(x.data(), z.data(), k, x[0], x[k - 1]); lin.get(c.r.uni(x[0], x[k - 1])); if (c.r.p(0.3)) { bool t = false; try { lin.init(x.data(), z.data(), k, x[0] - 1, x[k - 1]); } catch (TsInitializationException&) { t = true; } CHK(t, "table-coverage", "a table that does not cover its range was accepted"); CHK(!lin.isInitialized(), "table-flag", "initialized after a failed init"); } }
    lin.init(X.data(), Z1.data(), m, xl, xh); CHK(lin.isInitialized(), "table-flag", "linear table not initialized");
    for (int q = 0; q < 30; ++q) { const double x = c.r.p(0.15) ? c.r.pick(X) : c.r.uni(xl - 1, xh + 1), xc = std::min(std::max(x, xl), xh); std::vector<double> Yd{0, 1}, Zd(2 * m); for (int i = 0; i < m; ++i) Zd[2 * i] = Zd[2 * i + 1] = Z1[i]; NEAR(lin.get(x), bil(X, Yd, Zd, xc, 0.5), 1e-10, 1e-9 * zs, "linear-table", mon::fmt("linear table (%d points, %s) at %g", m, dx ? "descending" : "ascending", x)); }
    { TsBilinearInterpolator t; if (c.r.p(0.3)) { std::vector<double> X2 = X; if (m > 2) { X2[m - 1] = X2[0]; bool th = false; try { t.init(X2.data(), Y.data(), Z.data(), m, n, xl, xh, yl, yh); } catch (TsInitializationException&) { th = true; } CHK(th, "table-order", "an unordered axis was accepted"); c.count("bilinear_bad_init"); } if (c.r.p(0.5)) { bool th = false; try { t.init(X.data(), Y.data(), Z.data(), m, n, xl - 1, xh, yl, yh); } catch (TsInitializationException&) { th = true; } CHK(th, "table-coverage", "a table that does not cover its range was accepted"); } }
      t.init(X.data(), Y.data(), Z.data(), m, n, xl, xh, yl, yh); CHK(t.isInitialized(), "bilinear-flag", "bilinear table reports it is not initialized after successful init");
      for (int q = 0; q < 30; ++q) { const double x = c.r.p(0.15) ? c.r.pick(X) : c.r.uni(xl - 1, xh + 1), y = c.r.p(0.15) ? c.r.pick(Y) : c.r.uni(yl - 1, yh + 1); NEAR(t.get(x, y), bil(X, Y, Z, std::min(std::max(x, xl), xh), std::min(std::max(y, yl), yh)), 1e-10, 1e-9 * zs, "bilinear-table", mon::fmt("bilinear table %dx%d (%s, %s) at (%g,%g)", m, n, dx ? "x descending" : "x ascending", dy ? "y descending" : "y ascending", x, y)); } }
    { // reverse lookup: rows strictly monotonic in y gives the unique y
      std::vector<double> Zm(m * n); const bool inc = c.r.p(0.5); double lo = 1e99, hi = -1e99; for (int i = 0; i < m; ++i) { double z = c.r.uni(-50, 50); for (int j = 0; j < n; ++j) { Zm[i * n + (inc ? j : n - 1 - j)] = z; z += c.r.logu(0.1, 10.0); } } for (double z : Zm) { lo = std::min(lo, z); hi = std::max(hi, z); }
      TsBilinearInterpolatorReverse t(X.data(), Y.data(), Zm.data(), m, n, xl, xh, yl, yh); CHK(t.isInitialized(), "table-flag", "reverse table not initialized");
      for (int q = 0; q < 30; ++q) { const double x = c.r.uni(xl, xh), y = c.r.p(0.2) ? c.r.pick(Y) : c.r.uni(yl, yh), z = bil(X, Y, Zm, x, y); double yr = t.get(x, z); const double zr = bil(X, Y, Zm, x, std::min(std::max(yr, yl), yh)); CHK(yr >= yl - 1e-9 && yr <= yh + 1e-9, "reverse-range", "reverse lookup outside the axis"); NEAR(zr, z, 1e-9, 1e-7, "reverse-table", mon::fmt("reverse lookup of table %dx%d (%s) at x %g z %g gave y %g, expected %g", m, n, inc ? "increasing" : "decreasing", x, z, yr, y)); bool ex = false; double ye = 0; try { ye = t.getExceptional(x, z); } catch (TsOutOfBoundsException&) { ex = true; } CHK(!ex, "reverse-limits", mon::fmt("a z value %g inside the table's range %g..%g was refused", z, lo, hi)); if (!ex) NEAR(bil(X, Y, Zm, x, std::min(std::max(ye, yl), yh)), z, 1e-9, 1e-7, "reverse-table", "range-checked reverse lookup"); } }
    c.hit(keyed); c.count("tables", 3);
}

MON_PROP(M04, "a unit conversion or protected math function evaluated, keyed by function and input decade") {
    typedef UnitConversion U; const double K0 = 273.15, mmHg = 0.133322, psi = 6.894757293168, lbm = 0.45359237;
    struct Ref { U::Type t; std::function<double(double)> f; double tol; };
    static const std::vector<Ref> R = { {U::NO_CONVERSION, [](double v) { return v; }, 0}, {U::UNIT_TO_MICRO, [](double v) { return v * 1e6; }, 1e-14}, {U::UNIT_TO_MILLI, [](double v) { return v * 1e3; }, 1e-14}, {U::UNIT_TO_KILO, [](double v) { return v * 1e-3; }, 1e-14}, {U::UNIT_TO_MEGA, [](double v) { return v * 1e-6; }, 1e-14}, {U::FRAC_TO_PERCENT, [](double v) { return v * 100; }, 1e-14}, {U::UNIT_PER_SEC_TO_UNIT_PER_HOUR, [](double v) { return v * 3600; }, 1e-14},
        {U::F_TO_R, [](double v) { return v + 459.67; }, 1e-12}, {U::F_TO_C, [](double v) { return (v - 32) / 1.8; }, 1e-12}, {U::F_TO_K, [](double v) { return (v + 459.67) / 1.8; }, 1e-12}, {U::R_TO_F, [](double v) { return v - 459.67; }, 1e-12}, {U::R_TO_C, [=](double v) { return v / 1.8 - K0; }, 1e-12}, {U::R_TO_K, [](double v) { return v / 1.8; }, 1e-12}, {U::C_TO_F, [](double v) { return v * 1.8 + 32; }, 1e-12}, {U::C_TO_R, [=](double v) { return (v + K0) * 1.8; }, 1e-12}, {U::C_TO_K, [=](double v) { return v + K0; }, 1e-12}, {U::K_TO_C, [=](double v) { return v - K0; }, 1e-12}, {U::K_TO_F, [](double v) { return v * 1.8 - 459.67; }, 1e-12}, {U::K_TO_R, [](double v) { return v * 1.8; }, 1e-12},
        {U::KPA_TO_PSI, [=](double v) { return v / psi; }, 1e-6}, {U::KPA_TO_MMHG, [=](double v) { return v / mmHg; }, 1e-5}, {U::KPA_TO_MILLITORR, [=](double v) { return v / 0.13332236842 * 1e3; }, 1e-5}, {U::KPA_TO_INH2O, [](double v) { return v / 0.2490889; }, 1e-3}, {U::PSI_TO_KPA, [=](double v) { return v * psi; }, 1e-6}, {U::KG_PER_SEC_TO_LBM_PER_HOUR, [=](double v) { return v / lbm * 3600; }, 1e-6}, {U::LBM_PER_HOUR_TO_KG_PER_SEC, [=](double v) { return v * lbm / 3600; }, 1e-6}, {U::DB_TO_PR, [](double v) { return std::pow(10, v / 10); }, 1e-12}, {U::RAD_TO_DEG, [](double v) { return v * 180 / M_PI; }, 1e-12}, {U::DEG_TO_RAD, [](double v) { return v * M_PI / 180; }, 1e-12}, {U::RADPERSEC_TO_RPM, [](double v) { return v * 30 / M_PI; }, 1e-9}, {U::RPM_TO_RADPERSEC, [](double v) { return v * M_PI / 30; }, 1e-9} };
    const Ref& q = c.r.pick(R); double v = c.r.p(0.1) ? 0.0 : c.r.sgn() * c.r.logu(1e-6, q.t == U::DB_TO_PR ? 1e2 : 1e6); const double got = U::convert(q.t, v), want = q.f(v); NEAR(got, want, q.tol, q.t >= U::F_TO_R && q.t <= U::K_TO_R ? 1e-9 : 1e-300, "unit-value", mon::fmt("conversion %d of %g", int(q.t), v));
    static const int inv[][2] = { {U::F_TO_R, U::R_TO_F}, {U::F_TO_C, U::C_TO_F}, {U::F_TO_K, U::K_TO_F}, {U::R_TO_C, U::C_TO_R}, {U::R_TO_K, U::K_TO_R}, {U::C_TO_K, U::K_TO_C}, {U::KPA_TO_PSI, U::PSI_TO_KPA}, {U::KG_PER_SEC_TO_LBM_PER_HOUR, U::LBM_PER_HOUR_TO_KG_PER_SEC}, {U::RAD_TO_DEG, U::DEG_TO_RAD}, {U::RADPERSEC_TO_RPM, U::RPM_TO_RADPERSEC}, {U::DB_TO_PR, U::PR_TO_DB} };
    const int* pr = inv[c.r.i(0, 10)]; if (pr[0] == U::DB_TO_PR) v = c.r.uni(-100, 100); NEAR(U::convert(U::Type(pr[1]), U::convert(U::Type(pr[0]), v)), v, 1e-8, 1e-9, "unit-round-trip", mon::fmt("conversion %d then %d of %g", pr[0], pr[1], v)); c.hit(mon::mix(int(q.t), int(std::log10(std::fabs(v) + 1e-9))));
    { bool t = false; try { U::convert(U::Type(c.r.p(0.5) ? -1 : int(U::NUM_CONVERSIONS)), 1.0); } catch (TsOutOfBoundsException&) { t = true; } CHK(t, "unit-type", "an invalid conversion type was accepted"); t = false; try { U::convertPrToDb(-c.r.u()); } catch (TsOutOfBoundsException&) { t = true; } CHK(t, "db-negative", "log of a negative power ratio"); }
    // angles, documented for inputs within one turn of the range
    { const double tp = 2 * M_PI; double a = c.r.uni(-3 * M_PI, 3 * M_PI) * 0.9999; const double p = MsMath::anglePi(a); CHK(p >= -M_PI && p < M_PI + 1e-15, "angle-pi", mon::fmt("anglePi(%.17g) = %.17g", a, p)); NEAR(std::remainder(p - a, tp), 0.0, 0, 1e-12, "angle-congruent", "anglePi"); a = c.r.uni(-2 * tp, 2 * tp) * 0.9999; const double z = MsMath::angle2Pi(a); CHK(z >= 0 && z < tp, "angle-2pi", mon::fmt("angle2Pi(%.17g) = %.17g", a, z)); NEAR(std::remainder(z - a, tp), 0.0, 0, 1e-12, "angle-congruent", "angle2Pi"); a = c.r.uni(-540, 540) * 0.9999; const double d = MsMath::angle180(a); CHK(d >= -180 && d < 180, "angle-180", mon::fmt("angle180(%.17g) = %.17g", a, d)); NEAR(std::remainder(d - a, 360.0), 0.0, 0, 1e-10, "angle-congruent", "angle180"); a = c.r.uni(-720, 720) * 0.9999; const double g = MsMath::angle360(a); CHK(g >= 0 && g < 360, "angle-360", mon::fmt("angle360(%.17g) = %.17g", a, g)); NEAR(std::remainder(g - a, 360.0), 0.0, 0, 1e-10, "angle-congruent", "angle360"); }
    { const double x = c.r.p(0.3) ? c.r.uni(-2, 2) : c.r.sgn() * c.r.logu(1e-12, 1e12); FIN(MsMath::protectedAsin(x), "protected", "asin"); NEAR(MsMath::protectedAsin(x), std::asin(std::min(1.0, std::max(-1.0, x))), 0, 3e-8, "protected", mon::fmt("asin(%g)", x)); NEAR(MsMath::protectedAcos(x), std::acos(std::min(1.0, std::max(-1.0, x))), 0, 3e-8, "protected", mon::fmt("acos(%g)", x)); NEAR(MsMath::protectedSqrt(x), x > 0 ? std::sqrt(x) : 0.0, 1e-15, 2e-8, "protected", "sqrt"); NEAR(MsMath::protectedLog(x), x >= DBL_EPSILON ? std::log(x) : 0.0, 1e-14, 1e-14, "protected", "log"); NEAR(MsMath::protectedLog10(x), x >= DBL_EPSILON ? std::log10(x) : 0.0, 1e-14, 1e-14, "protected", "log10"); NEAR(MsMath::asinh(x), std::asinh(x), 1e-9, 1e-9, "asinh", mon::fmt("asinh(%g)", x));
      const double den = c.r.p(0.3) ? 0.0 : c.r.sgn() * c.r.logu(1e-20, 10.0), th = c.r.p(0.5) ? DBL_EPSILON : c.r.logu(1e-12, 1.0), rv = c.r.uni(-1, 1); const double dv = MsMath::protectedDiv(x, den, th, rv); CHK(std::fabs(den) <= th ? dv == rv : dv == x / den, "protected-div", mon::fmt("%g / %g with threshold %g gave %g", x, den, th, dv)); }
    { const double lo = c.r.uni(-5, 5), hi = lo + c.r.uni(0, 5), x = c.r.p(0.2) ? lo : c.r.uni(-12, 12); const double l = MsMath::limitRange(lo, x, hi); CHK(l == (x < lo ? lo : x > hi ? hi : x), "limit", "limitRange double"); CHK(MsMath::isInRange(lo, x, hi) == (lo <= x && x <= hi), "in-range", "isInRange"); const int il = int(std::floor(lo)), ih = int(std::floor(hi)) + 1, ix = int(std::floor(x)); CHK(MsMath::limitRange(il, ix, ih) == std::max(il, std::min(ix, ih)), "limit", "limitRange int"); const double in = MsMath::innerLimit(lo, x, hi); CHK(in == (lo < x && x < hi ? (x < 0.5 * (lo + hi) ? lo : hi) : x), "inner-limit", "innerLimit"); }
    { const double res = c.r.p(0.1) ? 0.0 : c.r.logu(1e-9, 1e3), x = c.r.sgn() * c.r.logu(1e-6, 1e8), z = MsMath::quantize(x, res); if (res <= DBL_EPSILON) CHK(z == x, "quantize", "zero resolution changes the value"); else { CHK(std::fabs(z - x) <= 0.5 * res * (1 + 1e-9) + 1e-15 * std::fabs(x), "quantize", mon::fmt("quantize(%.17g, %g) = %.17g", x, res, z)); const double m = z / res; NEAR(m, std::round(m), 1e-12, 1e-9, "quantize-multiple", "quantized value is not a multiple"); } }
    { const double b = c.r.sgn() * c.r.logu(0.05, 20.0), e = c.r.p(0.5) ? double(c.r.i(-6, 6)) : c.r.uni(-4, 4); if (b > 0 || e == std::floor(e)) NEAR(MsMath::fastPow(b, e), std::pow(b, e), 1e-7, 1e-12, "fast-pow", mon::fmt("fastPow(%g, %g)", b, e)); }
    { int s = c.r.p(0.05) ? INT_MIN : c.r.p(0.05) ? INT_MAX : c.r.i(-2000, 2000), s2 = s; const double lo = c.r.uni(-10, 10), hi = c.r.uni(-10, 10); for (int k = 0; k < 5; ++k) { const double v = TS_random::randomDouble(s, lo, hi), v2 = TS_random::randomDouble(s2, lo, hi); CHK(v == v2 && s == s2, "random-deterministic", "same seed, different value"); CHK(v >= std::min(lo, hi) && v <= std::max(lo, hi), "random-range", "random double out of range"); CHK(s >= 0 && s < 1000, "random-seed", "seed out of table"); } const int a = c.r.p(0.1) ? -2000000000 : c.r.i(-50, 50), b = c.r.p(0.1) ? 2000000000 : c.r.i(-50, 50); const int v = TS_random::randomInt(s, a, b); CHK(v >= std::min(a, b) && v <= std::max(a, b), "random-range", mon::fmt("random int %d outside %d..%d", v, a, b));
      // every form draws from the same table and spreads over its whole range
      const double lo2 = std::min(lo, hi), w = std::fabs(hi - lo); { int p = s, q = s, q1 = s, q2 = s, q3 = s; const double u = TS_random::randomDouble(p); NEAR(TS_random::randomDouble(q, lo, hi), lo2 + u * w, 1e-12, 1e-12, "random-forms", "double in a range"); NEAR(TS_random::randomDouble(q1, hi), hi < 0 ? hi - u * hi : u * hi, 1e-12, 1e-12, "random-forms", "double up to a limit"); const int m = c.r.i(-40, 40), rm = TS_random::randomInt(q2, m), r0 = TS_random::randomInt(q3); CHK(rm >= std::min(0, m) && rm <= std::max(0, m) && rm == std::min(0, m) + int(std::floor(u * (std::abs(m) + 1.0))), "random-forms", mon::fmt("integer up to %d gives %d for a draw of %g", m, rm, u)); CHK(r0 >= 0 && std::fabs(r0 - u * RAND_MAX) < 3, "random-forms", mon::fmt("integer gives %d for a draw of %g", r0, u)); CHK(p == q && p == q1 && p == q2 && p == q3, "random-seed", "the forms advance the seed differently"); }
      if (c.r.p(0.1)) { const int n = c.r.i(2, 10), o = c.r.i(-20, 20); std::vector<int> h(n, 0); double sum = 0; int q = s; const bool sw = c.r.p(0.5); for (int k = 0; k < 1000; ++k) { const int v2 = TS_random::randomInt(q, sw ? o + n - 1 : o, sw ? o : o + n - 1); if (v2 >= o && v2 < o + n) ++h[v2 - o]; } for (int k = 0; k < n; ++k) CHK(h[k] > 500 / n && h[k] < 2000 / n, "random-spread", mon::fmt("value %d of %d..%d drawn %d times in 1000", o + k, o, o + n - 1, h[k])); for (int k = 0; k < 1000; ++k) sum += TS_random::randomDouble(q, lo, hi); NEAR(sum / 1000, (lo + hi) / 2, 0, 0.05 * w + 1e-12, "random-spread", "mean of 1000 draws");
        std::vector<double> seen; for (int k = 0; k < 20; ++k) { const double v2 = TS_random::uniqueRandomDouble(q, lo, hi, seen); CHK(v2 >= lo2 && v2 <= lo2 + w, "random-range", "unique draw out of range"); for (double z : seen) CHK(w < 1e-6 || std::fabs(z - v2) > 2.3e-16, "random-unique", "a unique draw repeats an excluded value"); seen.push_back(v2); if (w < 1e-3) break; } } }
}

// ---- geometry ----
struct V3 { double v[3]; double operator[](int i) const { return v[i]; } }; static V3 rv(mon::Rng& r, double s) { return V3{{r.uni(-s, s), r.uni(-s, s), r.uni(-s, s)}}; }
static V3 sub(V3 a, V3 b) { return V3{{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; } static double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; } static V3 cross(V3 a, V3 b) { return V3{{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; } static V3 at(V3 p, V3 q, double t) { return V3{{p[0] + (q[0] - p[0]) * t, p[1] + (q[1] - p[1]) * t, p[2] + (q[2] - p[2]) * t}}; } static double mag(V3 a) { return std::sqrt(dot(a, a)); }
static double onSegment(V3 p, V3 q, V3 x) { const V3 d = sub(q, p); const double t = std::min(1.0, std::max(0.0, dot(sub(x, p), d) / dot(d, d))); return mag(sub(x, at(p, q, t))); }
MON_PROP(M05, "a segment against a triangle, sphere, spheroid or cylinder, keyed by shape and verdict") {
    V3 p = rv(c.r, 3), q = rv(c.r, 3), x{{9e9, 9e9, 9e9}}; const int k = c.r.i(0, 3);
    if (k == 0) { V3 a = rv(c.r, 3), b = rv(c.r, 3), d = rv(c.r, 3); V3 n = cross(sub(b, a), sub(d, a)); if (c.r.p(0.5)) { const double u = c.r.u(), w = c.r.u() * (1 - u); V3 in; for (int i = 0; i < 3; ++i) in.v[i] = a[i] + u * (b[i] - a[i]) + w * (d[i] - a[i]); q = at(p, in, c.r.uni(0.8, 2.0)); }
        const double den = dot(n, sub(q, p)); if (std::fabs(den) < 1e-2) return; const double t = dot(n, sub(a, p)) / den; const V3 h = at(p, q, t); const double nn = dot(n, n); const double u = dot(cross(sub(h, a), sub(d, a)), n) / nn, w = dot(cross(sub(b, a), sub(h, a)), n) / nn; const double m = std::min(std::min(std::min(u, w), 1 - u - w), std::min(t, 1 - t)); if (std::fabs(m) < 1e-7) return; const bool want = m > 0, got = LineSegmentIntersect::triangle(p.v, q.v, a.v, b.v, d.v, x.v);
        CHK(want == got, "triangle", mon::fmt("triangle verdict %d, expected %d (margin %g)", got, want, m)); if (got && want) CHK(mag(sub(x, h)) < 1e-6 * (1 + mag(h)), "triangle-point", "wrong intersection point"); CHK(LineSegmentIntersect::triangle(q.v, p.v, a.v, d.v, b.v, nullptr) == got, "triangle-symmetric", "verdict depends on orientation"); c.hit(mon::mix(k, mon::mix(got, int(m * 50)))); }
    else if (k == 1 || k == 2) { V3 s = rv(c.r, 1.5); double r[3] = { c.r.logu(0.2, 3), 0, 0 }; r[1] = k == 1 ? r[0] : c.r.logu(0.2, 3); r[2] = k == 1 ? r[0] : c.r.logu(0.2, 3); V3 P, Q; for (int i = 0; i < 3; ++i) { P.v[i] = (p[i] - s[i]) / r[i]; Q.v[i] = (q[i] - s[i]) / r[i]; } const V3 d = sub(Q, P); if (mag(d) < 1e-3) return; const double t = std::min(1.0, std::max(0.0, -dot(P, d) / dot(d, d))); const double dist = mag(at(P, Q, t)); if (std::fabs(dist - 1) < 1e-7 || std::fabs(mag(P) - 1) < 1e-7 || std::fabs(mag(Q) - 1) < 1e-7) return;
        const bool want = dist < 1, got = k == 1 ? LineSegmentIntersect::sphere(p.v, q.v, s.v, r[0], x.v) : LineSegmentIntersect::spheroid(p.v, q.v, s.v, r[0], r[1], r[2], x.v); CHK(want == got, "sphere", mon::fmt("%s verdict %d, expected %d (closest approach %g radii)", k == 1 ? "sphere" : "spheroid", got, want, dist));
        if (got && want) { CHK(onSegment(p, q, x) < 1e-9 * 10, "sphere-on-segment", "intersection point off the segment"); V3 X; for (int i = 0; i < 3; ++i) X.v[i] = (x[i] - s[i]) / r[i]; if (mag(P) > 1) CHK(std::fabs(mag(X) - 1) < 1e-6, "sphere-on-surface", mon::fmt("point at %g radii", mag(X))); else CHK(mag(sub(X, P)) < 1e-9, "sphere-inside-start", "segment starting inside must report its start"); } c.hit(mon::mix(k, mon::mix(got, int(dist * 50)))); }
    else { V3 a = rv(c.r, 2), b = rv(c.r, 2); const V3 ax = sub(b, a); const double L = mag(ax), r = c.r.logu(0.1, 1.5); if (L < 0.2) return; auto radial = [&](V3 v) { const V3 e = sub(v, a); const double h = dot(e, ax) / L; return std::sqrt(std::max(0.0, dot(e, e) - h * h)); }; auto axial = [&](V3 v) { return dot(sub(v, a), ax) / L; };
        if (c.r.p(0.4)) { const double h = c.r.uni(0, 1); V3 in = at(a, b, h); q = at(p, in, c.r.uni(0.7, 2)); } if (c.r.p(0.2)) { V3 e = at(a, b, c.r.uni(-1, 2)), o = rv(c.r, r * 0.5); for (int i = 0; i < 3; ++i) p.v[i] = e[i] + o[i]; } if (radial(p) < r) c.count("cylinder_start_inside_radius"); if (std::fabs(radial(p) - r) < 1e-6) return;
        double best = 1e9; const int N = 4000; double tHit = -1; for (int i = 0; i <= N; ++i) { const double t = double(i) / N; const V3 z = at(p, q, t); const double m = std::max(radial(z) - r, std::max(-axial(z), axial(z) - L)); if (m < best) { best = m; } if (m <= 0 && tHit < 0) tHit = t; } const double step = mag(sub(q, p)) / N; if (std::fabs(best) < 2 * step) return;
        const bool want = best < 0, got = LineSegmentIntersect::cylinder(p.v, q.v, a.v, b.v, r, x.v); CHK(want == got, "cylinder", mon::fmt("cylinder verdict %d, expected %d (margin %g)", got, want, best)); if (got && want) CHK(onSegment(p, q, x) < 1e-9 && mag(sub(x, at(p, q, tHit))) < 3 * step, "cylinder-point", "wrong entry point"); c.hit(mon::mix(k, mon::mix(got, int(best * 50)))); }
}
