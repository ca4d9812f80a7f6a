#include "mon.hpp"
#include "aspects/dynamics/GunnsDynSingleRigidEom.hh"
#include "aspects/dynamics/GunnsDynEulerFactory.hh"
#include "aspects/dynamics/GunnsDynEulerBase.hh"
#include "aspects/dynamics/GunnsDynUtils.hh"
#include "software/exceptions/TsInitializationException.hh"
#include "software/exceptions/TsNumericalException.hh"
#include "software/exceptions/TsOutOfBoundsException.hh"
#include <cfloat>
#include <cmath>
#include <cstdarg>
#include <memory>
typedef GunnsDynUtils U;
typedef GunnsDynEulerFactory EF;
namespace {
// --- the simulation's integrator, as an interface double: RK4 or Euler over up to 16 states
struct Integ { int order = 4, stage = 0; double dt = 0.01, x0[16], k[4][16], in[16], out[16]; int n = 0; };
Integ* gI = 0;
typedef std::vector<double> V; typedef V M3;
V v3(double a, double b, double c) { return V{ a, b, c }; }
V cross(const V& a, const V& b) { return v3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
V add(const V& a, const V& b, double s = 1) { V r(a); for (size_t i = 0; i < r.size(); ++i) r[i] += s * b[i]; return r; }
V mul(const M3& m, const V& v) { V r(3, 0.0); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i] += m[3 * i + j] * v[j]; return r; }
V mulT(const M3& m, const V& v) { V r(3, 0.0); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i] += m[3 * j + i] * v[j]; return r; }
M3 mm(const M3& a, const M3& b) { M3 r(9, 0.0); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r[3 * i + j] += a[3 * i + k] * b[3 * k + j]; return r; }
double dot(const V& a, const V& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
double mag(const V& a) { return std::sqrt(dot(a, a)); }
// frame rotation about one axis: the matrix that takes coordinates in the old frame to the new
M3 elem(int axis, double a) { const double c = std::cos(a), s = std::sin(a); switch (axis) { case 1: return M3{ 1, 0, 0, 0, c, s, 0, -s, c }; case 2: return M3{ c, 0, -s, 0, 1, 0, s, 0, c }; default: return M3{ c, s, 0, -s, c, 0, 0, 0, 1 }; } }
double diff(const M3& a, const M3& b) { double d = 0; for (int i = 0; i < 9; ++i) d = std::max(d, std::fabs(a[i] - b[i])); return d; }
M3 toM(const double* q) { M3 m(9); U::QtoM(&m[0], q); return m; }
const EF::Sequences seqs[6] = { EF::XYZ, EF::XZY, EF::YXZ, EF::YZX, EF::ZXY, EF::ZYX };
V rv(mon::Rng& r, double s) { return v3(s * r.sgn() * r.u(), s * r.sgn() * r.u(), s * r.sgn() * r.u()); }
M3 euler(int seq, const double* a) { const int i = seq / 100, j = seq / 10 % 10, k = seq % 10; return mm(elem(k, a[2]), mm(elem(j, a[1]), elem(i, a[0]))); }
// a realizable inertia tensor about the center of mass with products <= 0
void inertia(mon::Rng& r, double m, double L, M3& I) { I.assign(9, 0.0); const int n = r.i(0, 5); V pr = v3(r.logu(0.01, 1), r.logu(0.01, 1), r.logu(0.01, 1)); V p = v3(pr[1] + pr[2], pr[0] + pr[2], pr[0] + pr[1]); double xy = 0, xz = 0, yz = 0; if (n > 2) { const double s = 0.3 * std::min(pr[0], std::min(pr[1], pr[2])); xy = -s * r.u(); if (n > 3) xz = -s * r.u(); if (n > 4) yz = -s * r.u(); } const double f = m * L * L; I[0] = p[0] * f; I[4] = p[1] * f; I[8] = p[2] * f; I[1] = I[3] = xy * f; I[2] = I[6] = xz * f; I[5] = I[7] = yz * f; }
void props(GunnsDynSingleRigidMassProps& mp, double m, const V& c, const M3& I) { mp = GunnsDynSingleRigidMassProps(m, &c[0], I[0], I[1], I[2], I[4], I[5], I[8]); }
// solves I x = b for a 3x3 symmetric matrix by cofactors
V solve(const M3& I, const V& b) { const double d = I[0] * (I[4] * I[8] - I[5] * I[7]) - I[1] * (I[3] * I[8] - I[5] * I[6]) + I[2] * (I[3] * I[7] - I[4] * I[6]); auto col = [&](int c) { M3 m(I); for (int i = 0; i < 3; ++i) m[3 * i + c] = b[i]; return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]); }; return v3(col(0) / d, col(1) / d, col(2) / d); }
}
#define COLLECT(dst) va_list ap; va_start(ap, w2); double* a[13] = { p0, p1, p2, v0, v1, v2, q0, q1, q2, q3, w0, w1, w2 }; va_end(ap); dst
typedef double* dp;
#define ARGS dp p0, dp p1, dp p2, dp v0, dp v1, dp v2, dp q0, dp q1, dp q2, dp q3, dp w0, dp w1, dp w2, ...
void load_state(ARGS) { COLLECT(for (int i = 0; i < 13; ++i) { gI->in[i] = *a[i]; if (gI->stage == 0) gI->x0[i] = *a[i]; }) }
void load_deriv(ARGS) { COLLECT(for (int i = 0; i < 13; ++i) gI->k[gI->stage][i] = *a[i];) }
int integrate() { Integ& g = *gI; const double h = g.dt; for (int i = 0; i < 13; ++i) { if (g.order == 1) g.out[i] = g.x0[i] + h * g.k[0][i]; else switch (g.stage) { case 0: case 1: g.out[i] = g.x0[i] + 0.5 * h * g.k[g.stage][i]; break; case 2: g.out[i] = g.x0[i] + h * g.k[2][i]; break; default: g.out[i] = g.x0[i] + h / 6 * (g.k[0][i] + 2 * g.k[1][i] + 2 * g.k[2][i] + g.k[3][i]); } } g.stage = (g.stage + 1) % g.order; return g.stage; }
void unload_state(ARGS) { COLLECT(for (int i = 0; i < 13; ++i) *a[i] = gI->out[i];) }

MON_PROP2(D01, attitude, "Euler angles of all six sequences, near and at the singularities, quaternions, matrices, vectors") {
    mon::Rng& r = c.r; EF f; const int seq = seqs[size_t(r.i(0, 5))]; GunnsDynEulerBase* e = f.create(EF::Sequences(seq)); double a[3] = { r.uni(-M_PI, M_PI), r.uni(-M_PI / 2, M_PI / 2), r.uni(-M_PI, M_PI) };
    const int kind = r.i(0, 6); if (kind == 0) a[1] = r.sgn() * M_PI / 2; else if (kind == 1) a[1] = r.sgn() * (M_PI / 2 - r.logu(1e-9, 1e-2)); else if (kind == 2) for (double& x : a) x = r.i(-4, 4) * M_PI / 4; else if (kind == 3) a[0] = a[1] = a[2] = 0; if (kind == 2) a[1] = r.i(-2, 2) * M_PI / 4;
    double q[4]; e->computeQuat(q, a); NEAR(U::magV(q, 4), 1, 1e-14, 0, "attitude-norm", "norm of the quaternion of Euler angles"); const M3 R = euler(seq, a), Q = toM(q); CHK(diff(R, Q) < 1e-13, "attitude-sequence", mon::fmt("sequence %d of %g %g %g: quaternion is another rotation (difference %g)", seq, a[0], a[1], a[2], diff(R, Q)));
    double q2[4]; std::copy(q, q + 4, q2); if (r.p(0.3)) for (double& x : q2) x = -x; if (r.p(0.3)) { const double s = 1 + r.uni(-1e-7, 1e-7); for (double& x : q2) x *= s; U::normalizeQ(q2); NEAR(U::magV(q2, 4), 1, 1e-13, 0, "attitude-normalize", "norm after normalizing"); }
    try { double* b = e->update(q2); double qb[4]; const double b3[3] = { b[0], b[1], b[2] }; const M3 B = euler(seq, b3); const double s2 = std::fabs(std::sin(a[1])), near = std::sqrt(std::max(0.0, 1 - s2 * s2)); const double tol = near < 2e-6 ? 4e-6 : 1e-13 / near / near + 1e-12; CHK(diff(B, R) < tol, "attitude-angles", mon::fmt("sequence %d of %g %.12g %g: angles %g %.12g %g are another rotation (difference %g)", seq, a[0], a[1], a[2], b3[0], b3[1], b3[2], diff(B, R))); CHK(std::fabs(b3[1]) <= M_PI / 2 + 1e-12 && std::fabs(b3[0]) <= M_PI + 1e-12 && std::fabs(b3[2]) <= M_PI + 1e-12, "attitude-range", "Euler angle out of range"); CHK((e->getSingularityCondition() == 0) || near < 2e-6, "attitude-singular", mon::fmt("singularity %d at pitch %g", e->getSingularityCondition(), a[1]));
        if (near > 1e-3) { for (int i = 0; i < 3; ++i) if (std::fabs(std::fabs(a[i]) - M_PI) > 1e-6) NEAR(b3[i], a[i], 0, 1e-9, "attitude-angles", "angle returned"); } e->computeQuat(qb); CHK(diff(toM(qb), B) < 1e-13, "attitude-sequence", "quaternion of the present angles"); } catch (const TsNumericalException&) { c.fail("attitude-throw", mon::fmt("no angles of sequence %d for the attitude %g %.12g %g", seq, a[0], a[1], a[2])); }
    // matrix: orthonormal; back to the quaternion
    M3 t(9); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) t[3 * i + j] = Q[3 * j + i]; CHK(diff(mm(Q, t), M3{ 1, 0, 0, 0, 1, 0, 0, 0, 1 }) < 1e-13, "attitude-matrix", "matrix is not orthonormal"); const double tr = Q[0] + Q[4] + Q[8]; try { double qm[4]; U::MtoQ(qm, &Q[0]); CHK(tr > -1, "attitude-matrix", "half turn accepted"); if (tr > -0.99) CHK(std::fabs(std::fabs(qm[0] * q[0] + qm[1] * q[1] + qm[2] * q[2] + qm[3] * q[3]) - 1) < 1e-10, "attitude-matrix", "quaternion from the matrix is another rotation"); } catch (const TsNumericalException&) { CHK(tr <= -1 + 1e-12, "attitude-matrix", mon::fmt("matrix with trace %g refused", tr)); }
    // rate: inertial to body frame, dM/dt = -w x M
    const V w = rv(r, r.logu(1e-3, 10)); double qd[4]; U::Qdot(qd, q, &w[0]); const double h = 1e-6 / (1 + mag(w)); double qh[4], ql[4]; for (int i = 0; i < 4; ++i) { qh[i] = q[i] + h * qd[i]; ql[i] = q[i] - h * qd[i]; } U::normalizeQ(qh); U::normalizeQ(ql); const M3 H = toM(qh), L = toM(ql); double sk[9]; U::skew(sk, &w[0]); const M3 D = mm(M3(sk, sk + 9), Q); for (int i = 0; i < 9; ++i) NEAR((H[i] - L[i]) / (2 * h), -D[i], 0, 1e-8 * (1 + mag(w)), "attitude-rate", "rate of the attitude matrix"); NEAR(qd[0] * q[0] + qd[1] * q[1] + qd[2] * q[2] + qd[3] * q[3], 0, 0, 1e-14 * (1 + mag(w)), "attitude-rate", "rate keeps the norm");
    // vector and matrix utilities, in place too
    const V x = rv(r, 10), y = rv(r, 10); double z[3]; U::crossV3(z, &x[0], &y[0]); const V cr = cross(x, y); const V sx = mul(M3{ 0, -x[2], x[1], x[2], 0, -x[0], -x[1], x[0], 0 }, y); for (int i = 0; i < 3; ++i) { NEAR(z[i], cr[i], 1e-12, 1e-12, "attitude-vector", "cross product"); NEAR(z[i], sx[i], 1e-12, 1e-12, "attitude-vector", "skew matrix product"); } V al(x); U::crossV3(&al[0], &al[0], &y[0]); for (int i = 0; i < 3; ++i) NEAR(al[i], cr[i], 1e-12, 1e-12, "attitude-vector", "cross product in place"); al = y; U::crossV3(&al[0], &x[0], &al[0]); for (int i = 0; i < 3; ++i) NEAR(al[i], cr[i], 1e-12, 1e-12, "attitude-vector", "cross product in place");
    double mv[3], mt[3]; U::multiplyMV(mv, &Q[0], &x[0], 3); U::multiplyMtV(mt, &Q[0], mv, 3); const V mx = mul(Q, x); for (int i = 0; i < 3; ++i) { NEAR(mv[i], mx[i], 1e-12, 1e-12, "attitude-vector", "matrix times vector"); NEAR(mt[i], x[i], 1e-12, 1e-12, "attitude-vector", "transposed rotation brings the vector back"); } al = x; U::multiplyMV(&al[0], &Q[0], &al[0], 3); for (int i = 0; i < 3; ++i) NEAR(al[i], mx[i], 1e-12, 1e-12, "attitude-vector", "matrix times vector in place"); { M3 A(Q), S(sk, sk + 9); const M3 AS = mm(A, S); U::multiplyMM(&A[0], &A[0], &S[0], 3); for (int i = 0; i < 9; ++i) NEAR(A[i], AS[i], 1e-12, 1e-12, "attitude-vector", "matrix product in place"); }
    V n(x); bool thr = false; try { U::normalizeV(&n[0]); } catch (const TsNumericalException&) { thr = true; } CHK(thr == (mag(x) < DBL_EPSILON), "attitude-vector", "normalization of a zero vector"); if (!thr) { NEAR(mag(n), 1, 1e-14, 0, "attitude-vector", "unit vector"); NEAR(dot(n, x), mag(x), 1e-13, 0, "attitude-vector", "direction"); } V zr(3, 0.0); CHK(!U::normalizeVSuccess(&zr[0], 3) && !U::isNonZeroV(&zr[0], 3) && U::isNonZeroV(&x[0], 3), "attitude-vector", "zero vectors"); V nn(x); CHK(U::normalizeVSuccess(&nn[0], 3) && diff(M3{ nn[0], nn[1], nn[2], 0, 0, 0, 0, 0, 0 }, M3{ n[0], n[1], n[2], 0, 0, 0, 0, 0, 0 }) < 1e-14, "attitude-vector", "normalization");
    bool bad = false; try { f.create(EF::NONE); } catch (const TsOutOfBoundsException&) { bad = true; } CHK(bad, "attitude-sequence", "sequence NONE accepted"); c.hit(mon::mix(seq * 8 + kind, e->getSingularityCondition() + 8 * int((a[0] + 4) * 0.7) + 64 * int((a[2] + 4) * 0.7)));
}

MON_PROP2(D01, derivative, "accelerations of a rigid body: mass properties that change, offset center of mass, forces, torques, spin") {
    mon::Rng& r = c.r; GunnsDynRotationalState st; std::memset(&st, 0, sizeof st); st.mQuaternion[0] = 1; GunnsDynSingleRigidMassProps mp; GunnsDynSingleRigidStateDeriv d(st, mp); d.initialize("d"); CHK(d.isInitialized(), "derivative-flag", "not initialized"); std::vector<GunnsDynAppliedForce> F(size_t(r.i(0, 4))); std::vector<GunnsDynAppliedTorque> T(size_t(r.i(0, 3))); for (auto& f : F) d.addAppliedForce(&f); for (auto& t : T) d.addAppliedTorque(&t);
    const double m0 = r.logu(0.1, 1e5), L0 = r.logu(0.1, 20); double m = m0; V cm(3, 0.0); M3 I; inertia(r, m, L0, I); auto act = [&] { for (auto& f : F) { f.mActive = r.p(0.7); const V a = rv(r, m0 * r.logu(1e-3, 10)), b = rv(r, 3 * L0); for (int i = 0; i < 3; ++i) { f.mForce[i] = a[i]; f.mLocation[i] = b[i]; } } for (auto& t : T) { t.mActive = r.p(0.7); const V a = rv(r, m0 * L0 * r.logu(1e-3, 10)); for (int i = 0; i < 3; ++i) t.mTorque[i] = a[i]; } }; act();
    for (int k = 0; k < r.i(2, 12) && !c.failed(); ++k) { if (k == 0 || r.p(0.3)) { if (r.p(0.5)) m = m0 * r.uni(0.5, 2); if (r.p(0.5)) cm = r.p(0.4) ? V(3, 0.0) : rv(r, L0 * r.logu(1e-3, 2)); if (r.p(0.3)) cm[size_t(r.i(0, 2))] = 0; if (r.p(0.5)) inertia(r, m0, L0, I); } if (r.p(0.5)) act(); const V w = r.p(0.2) ? V(3, 0.0) : rv(r, r.logu(1e-3, 3)); for (int i = 0; i < 3; ++i) st.mVelocity[i] = w[i]; V qv = rv(r, 1); { double q[4] = { r.uni(-1, 1), qv[0], qv[1], qv[2] }; U::normalizeQ(q); std::copy(q, q + 4, st.mQuaternion); } props(mp, m, cm, I);
        if (r.p(0.05)) { GunnsDynSingleRigidMassProps keep(mp); switch (r.i(0, 4)) { case 0: mp.mMass = 0; break; case 1: mp.mIxx = 0; break; case 2: mp.mIyy = -1; break; case 3: mp.mIzz = 0; break; default: mp.mIxz = 0.1; } bool t = false; try { d.update(); } catch (const TsOutOfBoundsException&) { t = true; } CHK(t, "derivative-refuse", "invalid mass properties accepted"); mp = keep; }
        d.update(); c.count("updates"); const V a(d.getAcceleration(), d.getAcceleration() + 3), al(d.getAngAcceleration(), d.getAngAcceleration() + 3); V f(3, 0.0), tq(3, 0.0); double fs = 0, ts = 0; for (auto& x : F) if (x.mActive) { const V fo(x.mForce, x.mForce + 3), lo(x.mLocation, x.mLocation + 3); f = add(f, fo); tq = add(tq, cross(add(lo, cm, -1), fo)); fs += mag(fo); ts += mag(fo) * (mag(lo) + mag(cm)); } for (auto& x : T) if (x.mActive) { const V t(x.mTorque, x.mTorque + 3); tq = add(tq, t); ts += mag(t); }
        // Newton for the center of mass, Euler about it
        const V ww = cross(w, cross(w, cm)), acm = add(add(a, cross(al, cm)), ww), H = mul(I, w), lhs = add(mul(I, al), cross(w, H)); const double amax = mag(I) ; for (int i = 0; i < 3; ++i) { const double sc = fs + m * (mag(a) + mag(al) * mag(cm) + mag(ww)); NEAR(m * acm[i], f[i], 0, 1e-9 * sc + 1e-12, "derivative-force", mon::fmt("force on the center of mass, axis %d (offset %g %g %g)", i, cm[0], cm[1], cm[2])); NEAR(lhs[i], tq[i], 0, 1e-9 * (ts + amax * (mag(al) + dot(w, w)) + mag(cm) * sc) + 1e-12, "derivative-torque", mon::fmt("torque about the center of mass, axis %d (offset %g %g %g)", i, cm[0], cm[1], cm[2])); }
        double qd[4]; U::Qdot(qd, st.mQuaternion, &w[0]); for (int i = 0; i < 4; ++i) NEAR(d.getQdot()[i], qd[i], 1e-12, 1e-15, "derivative-rate", "attitude rate"); c.hit(50 + mon::mix(mag(cm) > 0, (mag(w) > 0) + 2 * F.size() + 16 * T.size() + 128 * (I[1] < 0) + 256 * (I[5] < 0))); }
}

MON_PROP2(D01, motion, "trajectories of a rigid body: free, forced, offset center of mass, any attitude sequence, both integration orders") {
    mon::Rng& r = c.r; Integ in; gI = &in; in.order = 4; GunnsDynSingleRigidEom e; bool early = false; try { e.update(); } catch (const TsInitializationException&) { early = true; } CHK(early, "motion-flag", "update before initialization"); early = false; try { e.integ(); } catch (const TsInitializationException&) { early = true; } CHK(early, "motion-flag", "integration before initialization");
    const double m = r.logu(0.1, 1e4), L = r.logu(0.1, 5); const V cm = r.p(0.5) ? V(3, 0.0) : rv(r, L * r.logu(1e-2, 1)); M3 I; inertia(r, m, L, I); GunnsDynSingleRigidMassProps mp; props(mp, m, cm, I); const V p0 = rv(r, 100), v0 = rv(r, 10), w0 = rv(r, r.logu(1e-2, 2)); const int seq = seqs[size_t(r.i(0, 5))]; double a[3] = { r.uni(-3, 3), r.uni(-1.4, 1.4), r.uni(-3, 3) }; if (r.p(0.1)) a[1] = r.sgn() * M_PI / 2; const int bad = r.p(0.08) ? r.i(0, 1) : -1; if (bad == 0) mp.mMass = 0;
    GunnsDynSingleRigidEomInputData id(&p0[0], &v0[0], bad == 1 ? EF::NONE : EF::Sequences(seq), a, &w0[0], &mp); bool threw = false; try { e.initialize("e", id); } catch (const TsInitializationException&) { threw = true; } CHK(threw == (bad >= 0), "motion-refuse", mon::fmt("bad input %d %s", bad, threw ? "refused" : "accepted")); if (bad >= 0) { bool t = false; try { e.update(); } catch (const TsInitializationException&) { t = true; } CHK(t, "motion-flag", "refused body works"); c.hit(900 + bad); return; }
    auto& S = e.mState; M3 R0(S.mRotational.mTransMatrix, S.mRotational.mTransMatrix + 9); CHK(diff(R0, euler(seq, a)) < 1e-13, "motion-attitude", "initial attitude"); GunnsDynAppliedForce F; const bool forced = r.p(0.4); F.mActive = forced; const V fo = rv(r, m * r.logu(1e-3, 1)), lo = r.p(0.3) ? cm : add(cm, rv(r, L)); for (int i = 0; i < 3; ++i) { F.mForce[i] = fo[i]; F.mLocation[i] = lo[i]; } e.mStateDeriv.addAppliedForce(&F); GunnsDynAppliedTorque T; T.mActive = forced && r.p(0.5); const V tq = rv(r, m * L * L * r.logu(1e-3, 0.3)); for (int i = 0; i < 3; ++i) T.mTorque[i] = tq[i]; e.mStateDeriv.addAppliedTorque(&T);
    struct St { V P, H; double E; V X; }; auto state = [&] { const M3 R(S.mRotational.mTransMatrix, S.mRotational.mTransMatrix + 9); const V w(S.mRotational.mVelocity, S.mRotational.mVelocity + 3), v(S.mTranslational.mVelocity, S.mTranslational.mVelocity + 3), x(S.mTranslational.mPosition, S.mTranslational.mPosition + 3); const V vc = add(v, mulT(R, cross(w, cm))), xc = add(x, mulT(R, cm)); St s; s.P = v3(m * vc[0], m * vc[1], m * vc[2]); s.H = add(mulT(R, mul(I, w)), cross(xc, s.P)); s.E = 0.5 * m * dot(vc, vc) + 0.5 * dot(w, mul(I, w)); s.X = xc; return s; };
    in.dt = r.logu(0.002, 0.01) / (1 + mag(w0)); St A = state(); const int n = r.i(10, 60); V dP(3, 0.0), dH(3, 0.0); double W = 0; for (int k = 0; k < n && !c.failed(); ++k) { auto load = [&] (V& f, V& h, double& pw) { const M3 R(S.mRotational.mTransMatrix, S.mRotational.mTransMatrix + 9); const V w(S.mRotational.mVelocity, S.mRotational.mVelocity + 3), v(S.mTranslational.mVelocity, S.mTranslational.mVelocity + 3), x(S.mTranslational.mPosition, S.mTranslational.mPosition + 3); f = V(3, 0.0); h = V(3, 0.0); pw = 0; if (F.mActive) { f = mulT(R, fo); const V at = add(x, mulT(R, lo)); h = cross(at, f); pw = dot(f, add(v, mulT(R, cross(w, lo)))); } if (T.mActive) { h = add(h, mulT(R, tq)); pw += dot(tq, w); } };
        V f0, h0, f1, h1; double w_0, w_1; load(f0, h0, w_0); int guard = 0; do { e.update(); if (e.integ() == 0) break; } while (++guard < 10); CHK(guard == 3, "motion-integration", "number of integration passes"); load(f1, h1, w_1); c.count("steps"); for (int i = 0; i < 3; ++i) { dP[i] += 0.5 * in.dt * (f0[i] + f1[i]); dH[i] += 0.5 * in.dt * (h0[i] + h1[i]); } W += 0.5 * in.dt * (w_0 + w_1);
        NEAR(U::magV(S.mRotational.mQuaternion, 4), 1, 1e-12, 0, "motion-attitude", "norm of the attitude"); CHK(diff(toM(S.mRotational.mQuaternion), M3(S.mRotational.mTransMatrix, S.mRotational.mTransMatrix + 9)) < 1e-13, "motion-attitude", "matrix belongs to the quaternion"); double q[3] = { S.mRotational.mEuler->mAngles[0], S.mRotational.mEuler->mAngles[1], S.mRotational.mEuler->mAngles[2] }; CHK(diff(euler(seq, q), M3(S.mRotational.mTransMatrix, S.mRotational.mTransMatrix + 9)) < 1e-5, "motion-attitude", "angles belong to the quaternion"); const V w(S.mRotational.mVelocity, S.mRotational.mVelocity + 3); NEAR(S.mRotational.mVelocityMag, mag(w), 1e-13, 0, "motion-spin", "spin magnitude"); if (mag(w) > 1e-12) for (int i = 0; i < 3; ++i) NEAR(S.mRotational.mVelocityUnit[i] * mag(w), w[i], 1e-12, 1e-15, "motion-spin", "spin axis"); }
    const St B = state(); const double t = n * in.dt, loose = forced ? 3e-4 : 1e-6, hs = mag(A.H) + mag(A.X) * mag(A.P) + mag(I) * mag(w0) + mag(B.H) + mag(dH), ps = mag(A.P) + mag(B.P) + mag(dP) + m * mag(cm) * mag(w0), es = std::fabs(A.E) + std::fabs(B.E) + std::fabs(W) + (forced ? mag(fo) * (mag(v0) + mag(w0) * mag(lo)) * t : 0); for (int i = 0; i < 3; ++i) { NEAR(B.P[i], A.P[i] + dP[i], 0, loose * ps, "motion-momentum", mon::fmt("linear momentum after %g s (offset %g, spin %g)", t, mag(cm), mag(w0))); NEAR(B.H[i], A.H[i] + dH[i], 0, loose * hs, "motion-angular", mon::fmt("angular momentum after %g s (offset %g, spin %g)", t, mag(cm), mag(w0))); if (!forced) NEAR(B.X[i], A.X[i] + A.P[i] / m * t, 0, 1e-6 * (mag(A.X) + mag(A.P) / m * t + mag(cm)), "motion-path", "path of the center of mass"); } NEAR(B.E, A.E + W, 0, loose * es, "motion-energy", mon::fmt("kinetic energy after %g s (offset %g, spin %g)", t, mag(cm), mag(w0)));
    c.hit(950 + mon::mix(seq + 1000 * forced + 2000 * T.mActive, (mag(cm) > 0) + 2 * int(mag(w0) * 4))); gI = 0;
}
