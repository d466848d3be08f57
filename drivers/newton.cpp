// bounded stand-in: Newton correction on random homotopies
#include "trk.hpp"
#include "bertini2/trackers/newton_corrector.hpp"
using namespace vt; using bertini::SuccessCode; using bertini::tracking::correct::NewtonCorrector; using bertini::tracking::AdaptiveMultiplePrecisionConfig;
static AdaptiveMultiplePrecisionConfig amp() { AdaptiveMultiplePrecisionConfig c; c.epsilon = ri(1, 16); c.Phi = rd(0, 50); c.Psi = rd(0, 50); c.safety_digits_1 = ri(-1, 8); c.safety_digits_2 = ri(-1, 8); return c; }
static std::string code(SuccessCode c) { return c == SuccessCode::Success ? "Success" : c == SuccessCode::FailedToConverge ? "FailedToConverge" : c == SuccessCode::MatrixSolveFailure ? "MatrixSolveFailure" : c == SuccessCode::HigherPrecisionNecessary ? "HigherPrecisionNecessary" : "code " + str(int(c)); }
template<class T> double dist(Vec<T> const& a, Vec<T> const& b) { if (a.size() != b.size()) return 1e300; double m = 0; for (int i = 0; i < a.size(); ++i) { double d = m_<T>(a(i) - b(i)); if (!(d <= m)) m = d; } return m; }
template<class T> bool run(Hom& h, NewtonCorrector& nc, MV const& start, MP const& t0, int prec, std::string const& base) {
    double eps = eps_<T>(prec); bertini::DefaultPrecision(prec); Vec<T> x = vec_of<T>(start, h.N); T t = cv<T>(t0); std::vector<Vec<T>> chain{x}; std::vector<double> steps, nj, ninv; const int K = ri(1, 6); std::string tn = std::is_same<T, D>::value ? "double" : "multiprecision " + str(prec);
    // single steps against the oracle
    for (int k = 0; k < K; ++k) {
        bertini::DefaultPrecision(prec + 30); Lin l; bool ok = h.newton(back<T>(chain.back()), up<T>(t), l); bertini::DefaultPrecision(prec);
        if (!ok || l.cond > 1e4 || l.ninv > 1e4 || inf_(l.x) > 10) break;
        Vec<T> y; auto c = nc.Correct(y, h.r.S, chain.back(), t, 1e300, 1u, 1u); ctx(base + tn + " single step");
        if (!check(c == SuccessCode::Success, "newton-single", "one step without tolerance gives " + code(c))) return false; if (!check(y.size() == h.N, "newton-size", "size")) return false;
        double tol = 1e4*eps*(l.cond + l.ninv*1e3) + 1e3*eps; for (int i = 0; i < h.N; ++i) { MP w = up<T>(chain.back()(i)) + l.x[i]; if (!check(mag(MP(up<T>(y(i)) - w)) <= tol, "newton-step", "coordinate " + str(i) + " after one step is " + str(y(i)) + " expected " + str(w))) return false; }
        chain.push_back(y); steps.push_back(inf_(l.x)); nj.push_back(l.nj); ninv.push_back(l.ninv); cover(std::is_same<T, D>::value ? "newton-step-double" : "newton-step-multiprecision");
    }
    int n = steps.size(); if (!n) return false;
    for (int trial = 0; trial < 8; ++trial) {
        unsigned mx = ri(1, n), mn = ri(0, mx); double tol; int pick = ri(0, 3); if (pick == 0) tol = 1e-300; else { double lo = steps[ri(0, n-1)]; tol = lo*std::pow(10.0, rd(-2, 2)); } bool clear = true; for (double s : steps) if (s > 1e-3*tol && s < 1e3*eps) clear = false; for (double s : steps) if (std::abs(s - tol) < 0.3*tol || (s < 1e5*eps*1e3 && tol < 1e6*eps*1e3)) clear = false; if (!clear) continue;
        unsigned k = 0; SuccessCode want = SuccessCode::FailedToConverge; for (k = 0; k < mx; ++k) if (steps[k] < tol && k+1 >= mn) { want = SuccessCode::Success; ++k; break; }
        std::string d = tn + " tolerance " + str(tol) + " minimum " + str(mn) + " maximum " + str(mx); ctx(base + d);
        Vec<T> y; int which = ri(0, 2); auto c = SuccessCode::Success;
        if (which == 0) { c = nc.Correct(y, h.r.S, x, t, tol, mn, mx); check(c == want, "newton-code", "gives " + code(c) + " expected " + code(want)); check(dist<T>(y, chain[k]) <= 1e3*eps*(1 + ninv[k-1]), "newton-iterations", "the point is not that of iteration " + str(k)); cover("newton-fixed-" + code(want)); continue; }
        auto cfg = amp(); double a = -1, b = -1, e = -1, cn = -1; if (which == 1) c = nc.Correct(y, h.r.S, x, t, tol, mn, mx, cfg); else c = nc.Correct(y, a, b, e, cn, h.r.S, x, t, tol, mn, mx, cfg);
        // which iteration did it stop at?
        int at = 0; for (unsigned i = 1; i <= mx; ++i) if (dist<T>(y, chain[i]) <= 1e3*eps*(1 + ninv[i-1]) && (at == 0 || std::abs(int(i)-int(k)) < std::abs(at-int(k)))) at = i; if (!check(at > 0, "newton-iterations", "the point is none of the iterates")) continue;
        if (c == SuccessCode::Success || c == SuccessCode::FailedToConverge) { check(c == want, "newton-code", "adaptive gives " + code(c) + " expected " + code(want)); check(dist<T>(y, chain[k]) <= 1e3*eps*(1 + ninv[k-1]), "newton-iterations", "adaptive: the point is not that of iteration " + str(k)); }
        else check(c == SuccessCode::HigherPrecisionNecessary, "newton-code", "adaptive gives " + code(c));
        if (c == SuccessCode::HigherPrecisionNecessary && want == SuccessCode::Success) check(dist<T>(y, chain[k]) > 0 || at < int(k) || k > unsigned(at), "newton-precision-late", "asks for precision although the step met the tolerance");
        if (which == 2) {
            int i = at-1; double s = std::sqrt(double(h.N)); check(std::abs(a - steps[i]) <= 1e-3*steps[i] + 1e4*eps*(nj[i]*ninv[i] + 1e3*ninv[i]) , "newton-norm-step", "norm of the step " + str(a) + " expected " + str(steps[i])); check(std::abs(b - nj[i]) <= 1e-6*nj[i], "newton-norm-jacobian", "norm of the Jacobian " + str(b) + " expected " + str(nj[i]));
            check(e <= 1.01*s*ninv[i] && e >= 0.99*s/nj[i], "newton-norm-inverse", "norm of the inverse " + str(e) + " is not in the range of " + str(ninv[i])); check(std::abs(cn - b*e) <= 1e-9*cn, "newton-condition", "condition number");
            auto digits = std::is_same<T, D>::value ? 16.0 : double(prec); if (at > int(mx)) continue;
            double Dv = std::log10(e*((2+cfg.epsilon)*b + cfg.epsilon*cfg.Phi) + 1), B = cfg.safety_digits_1 + Dv + (-std::log10(tol) + std::log10(a))/(mx - i), C = cfg.safety_digits_2 - std::log10(tol) + std::log10(e*cfg.Psi + two(back<T>(y)));
            bool failB = B >= digits, failC = C >= digits; bool sharp = std::abs(B - digits) > 1e-3 && std::abs(C - digits) > 1e-3 && std::abs(std::log10(a) - std::log10(steps[i])) < 0.01;
            if (sharp) { if (c == SuccessCode::HigherPrecisionNecessary) check(failB || failC, "newton-precision-claim", "asks for precision although criteria B and C hold at iteration " + str(at)); if (c == SuccessCode::FailedToConverge) check(!failB && !failC, "newton-precision-missed", "criterion B or C fails at the last iteration but precision is not asked for"); cover("newton-adaptive-criteria"); }
        }
        cover("newton-adaptive-" + code(c));
    }
    return true;
}
int main(int argc, char** argv) {
    init(argc, argv); int rounds = tier() ? 4000 : 400; alarm(850);
    for (int q = 0; q < rounds; ++q) {
        bertini::DefaultPrecision(30); Hom h; make_hom(h); std::string base = h.r.desc + " :: "; ctx(base);
        guarded("newton", [&] {
            Hom h2; make_hom(h2, false, 2); NewtonCorrector nc(coin() ? h.r.S : h2.r.S); nc.ChangeSystem(h.r.S);
            for (int k = 0; k < 3; ++k) { auto p = sys_point(h.N); MP t = p.back(); p.pop_back(); int prec = ri(20, 60); if (coin()) { h.precision(prec); run<D>(h, nc, p, t, 16, base); } else { for (auto& z : p) z = MP(z, prec); t.precision(prec); h.precision(prec); nc.ChangePrecision(prec); check(nc.precision() == unsigned(prec), "newton-reported-precision", "precision"); run<MP>(h, nc, p, t, prec, base); } }
        });
    }
    // singular linearisations are failures
    for (int k = 0; k < 20; ++k) {
        auto x = make_vars(2); auto t = bertini::node::Variable::Make("t"); System S; S.AddVariableGroup({x[0], x[1]}); S.AddPathVariable(t); int w = k % 4; if (w == 0) { S.AddFunction(x[0]*x[0] - t); S.AddFunction(x[0]*x[1] - 1); } if (w == 1) { S.AddFunction(x[0] + x[1] - t); S.AddFunction(2*x[0] + 2*x[1] + 1); } if (w == 2) { S.AddFunction(x[0]*x[0] - t); S.AddFunction(x[1]*x[1] - t); } if (w == 3) { S.AddFunction(bertini::node::pow(x[1], 3) - t); S.AddFunction(x[0] - 1); }
        ctx("singular system " + str(w)); guarded("newton-singular", [&] { NewtonCorrector nc(S); Vec<D> a(2), y; a << D(0), D(0); if (w == 1) a << D(rd(), rd()), D(rd(), rd()); auto c = nc.Correct(y, S, a, D(0.3), 1e10, 1u, 3u); check(c == SuccessCode::MatrixSolveFailure, "newton-singular", "gives " + code(c)); c = nc.Correct(y, S, a, D(0.3), 1e10, 1u, 3u, amp()); check(c == SuccessCode::MatrixSolveFailure, "newton-singular", "adaptive gives " + code(c)); double n1, n2, n3, n4; c = nc.Correct(y, n1, n2, n3, n4, S, a, D(0.3), 1e10, 1u, 3u, amp()); check(c == SuccessCode::MatrixSolveFailure, "newton-singular", "adaptive gives " + code(c)); cover("newton-singular"); });
    }
    return finish();
}
