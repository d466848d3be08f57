// bounded stand-in: predictions along paths known in closed form; observed orders in high precision, both number types, any history of methods, precisions, systems
#include "trk.hpp"
#include "bertini2/trackers/explicit_predictors.hpp"
using namespace vt; using bertini::SuccessCode; using bertini::tracking::Predictor; using bertini::tracking::predict::ExplicitRKPredictor; using bertini::tracking::AdaptiveMultiplePrecisionConfig; namespace bp = bertini::tracking::predict;
struct Me { Predictor m; const char* name; int order; bool est; int est_order; };      // order of the local error minus one; order of the estimate
static const Me methods[] = {{Predictor::Constant, "Constant", 0, false, 0}, {Predictor::Euler, "Euler", 1, false, 0}, {Predictor::HeunEuler, "HeunEuler", 2, true, 2}, {Predictor::RK4, "RK4", 4, false, 0}, {Predictor::RKF45, "RKF45", 4, true, 5}, {Predictor::RKCashKarp45, "RKCashKarp45", 4, true, 5}, {Predictor::RKDormandPrince56, "RKDormandPrince56", 5, true, 6}, {Predictor::RKVerner67, "RKVerner67", 6, true, 7}};
static AdaptiveMultiplePrecisionConfig amp(bool lax) { AdaptiveMultiplePrecisionConfig c; c.epsilon = ri(1, 16); c.Phi = rd(0, 50); c.Psi = rd(0, 50); c.safety_digits_1 = lax ? -50 : ri(-1, 60); c.safety_digits_2 = lax ? -400 : ri(-1, 60); return c; }
template<class T> struct Out { SuccessCode c; Vec<T> y; double err = -1, size = -1, nj = -1, ninv = -1, cond = -1; };
template<class T> Out<T> predict(ExplicitRKPredictor& P, System const& S, Vec<T> const& x, T const& t, T const& h, int which, AdaptiveMultiplePrecisionConfig const& c, double tol) { Out<T> o; unsigned k = 5; if (which == 0) o.c = P.Predict(o.y, S, x, t, h, o.cond, k, 1u, tol); else if (which == 1) o.c = P.Predict(o.y, o.size, o.nj, o.ninv, S, x, t, h, o.cond, k, 1u, tol, c); else o.c = P.Predict(o.y, o.err, o.size, o.nj, o.ninv, S, x, t, h, o.cond, k, 1u, tol, c); return o; }
int main(int argc, char** argv) {
    init(argc, argv); int rounds = tier() ? 600 : 50; alarm(850); 
    for (auto& m : methods) { ctx(std::string("method ") + m.name); guarded("predict-claims", [&] { check(int(bp::Order(m.m)) == m.order, "predict-claimed-order", "claimed order " + str(bp::Order(m.m))); check(bp::HasErrorEstimate(m.m) == m.est, "predict-claimed-estimate", "claims an estimate or not"); }); }
    for (int q = 0; q < rounds; ++q) {
        bertini::DefaultPrecision(60); Path p, p2; make_path(p, ri(1, 3)); make_path(p2, ri(1, 2)); int n = p.h.N; std::string base = p.h.r.desc + " :: "; ctx(base); const Me* me = &methods[ri(0, 7)]; std::string h;
        guarded("predict", [&] {
            const Me& first = methods[ri(0, 7)]; ExplicitRKPredictor P = coin() ? ExplicitRKPredictor(first.m, coin() ? p.h.r.S : p2.h.r.S) : ExplicitRKPredictor(p.h.r.S); h += std::string(first.name) + " "; 
            MP t0 = tomp(D(rd(-0.5, 0.5), rd(-0.5, 0.5))); MP dir = tomp(std::polar(1.0, rd(-3.1, 3.1)));
            bertini::DefaultPrecision(90); Lin l; if (!p.h.tangent(at(p, t0), t0, l) || l.cond > 500 || l.ninv > 30 || inf_(l.x) > 10) return; bertini::DefaultPrecision(60);
            for (int k = 0; k < 3; ++k) {
                int act = ri(0, 3); if (act == 0) { P.ChangeSystem(p2.h.r.S); h += "other "; } P.ChangeSystem(p.h.r.S); if (act == 1) { int b = ri(20, 60); p.h.precision(b); P.ChangePrecision(b); h += "precision" + str(b) + " "; }
                me = &methods[ri(0, 7)]; P.PredictorMethod(me->m); h += std::string(me->name) + " "; ctx(base + h); check(P.Order() == unsigned(me->order) && P.PredictorMethod() == me->m && P.HasErrorEstimate() == me->est, "predict-method", "reported method");
                // orders, in high precision
                int prec = 220; p.h.precision(prec); P.ChangePrecision(prec); check(P.precision() == unsigned(prec), "predict-precision", "reported precision"); MP t = t0; t.precision(prec); MP d = dir; d.precision(prec); double e[2], s[2]; Vec<MP> y3; MV x0 = at(p, t); Vec<MP> x = vec_of<MP>(x0, n); auto cfg = amp(true); bool bad = false; int which = me->est ? 2 : ri(0, 1);
                for (int i = 0; i < 2; ++i) { MP st = d*pow(MP(10), MP(-12 - 2*i)); auto o = predict<MP>(P, p.h.r.S, x, t, st, which, cfg, 1e-5); if (!check(o.c == SuccessCode::Success, "predict-code", "code " + str(int(o.c)))) { bad = true; break; } MV w = at(p, MP(t + st)); MV df; for (int j = 0; j < n; ++j) df.push_back(o.y(j) - w[j]); e[i] = inf_(df); s[i] = o.err;
                    if (which) { check(std::abs(o.nj - l.nj) <= 1e-6*l.nj, "predict-norm-jacobian", "norm of the Jacobian " + str(o.nj) + " expected " + str(l.nj)); check(o.ninv <= 1.01*std::sqrt(double(n))*l.ninv && o.ninv >= 0.99*std::sqrt(double(n))/l.nj, "predict-norm-inverse", "norm of the inverse " + str(o.ninv)); check(std::abs(o.cond - o.nj*o.ninv) <= 1e-9*o.cond, "predict-condition", "condition number " + str(o.cond) + " expected " + str(o.nj*o.ninv)); }
                    if (me->est) { double want = o.err/std::pow(mag(st), me->order+1); check(std::abs(o.size - want) <= 1e-6*want, "predict-size", "size proportion " + str(o.size) + " expected " + str(want)); } }
                if (bad) break; double zero = 1e-200; double oe = e[0] < zero ? 99 : std::log10(e[0]/e[1])/2; check(oe >= me->order + 0.9, "predict-order", std::string(me->name) + " has observed local order " + str(oe) + " claimed " + str(me->order+1)); cover(std::string("order-") + me->name);
                if (me->est && s[0] > zero) { double os = std::log10(s[0]/s[1])/2; check(std::abs(os - me->est_order) < 0.1, "predict-estimate-order", std::string(me->name) + " has observed order of the estimate " + str(os) + " expected " + str(me->est_order)); }
                // ordinary steps: both types agree with the high precision result of the same step
                for (int j = 0; j < 3; ++j) {
                    double len = std::pow(10.0, rd(-3, -1.3)); MP st = tomp(todbl(d)*len); bool dbl_ = coin(); int pr = ri(20, 60); auto c2 = amp(coin()); double tol = std::pow(10.0, rd(-9, -3)); int wh = me->est ? ri(0, 2) : ri(0, 1); D tn = todbl(t0), hn = todbl(st); MV z = x0; for (auto& a : z) a = tomp(todbl(a)); for (auto& a : z) a.precision(prec);
                    p.h.precision(prec); P.ChangePrecision(prec); MP tt = tomp(tn), hh = tomp(hn); auto ref = predict<MP>(P, p.h.r.S, vec_of<MP>(z, n), tt, hh, me->est ? 2 : 1, cfg, 1e-5); if (ref.c != SuccessCode::Success) continue; Lin lz; p.h.tangent(z, tt, lz);
                    auto cmp = [&](MV const& y, double eps, SuccessCode c, double nj, double ninv, double err, int digits, double nz) { double tolx = 1e6*eps; for (int i = 0; i < n; ++i) check(mag(MP(y[i] - ref.y(i))) <= tolx, "predict-types", std::string(me->name) + " coordinate " + str(i) + " is " + str(y[i]) + " expected " + str(ref.y(i)) + " at " + str(digits) + " digits"); if (wh == 2) check(std::abs(err - ref.err) <= 1e6*eps + 1e-3*ref.err, "predict-estimate", "estimate " + str(err) + " expected " + str(ref.err));
                        if (wh) { double A = c2.safety_digits_1 + std::log10(ninv*c2.epsilon*(nj + c2.Phi)), C = c2.safety_digits_2 - std::log10(tol) + std::log10(ninv*c2.Psi + nz); if (std::abs(A - digits) > 1e-3 && std::abs(C - digits) > 1e-3) { bool want = A < digits && C < digits; check(c == (want ? SuccessCode::Success : SuccessCode::HigherPrecisionNecessary), "predict-criteria", "code " + str(int(c)) + " although criteria A and C " + (want ? "hold" : "fail")); cover(want ? "predict-criteria-hold" : "predict-criteria-fail"); } } else check(c == SuccessCode::Success, "predict-code", "code " + str(int(c))); };
                    if (dbl_) { bertini::DefaultPrecision(30); auto o = predict<D>(P, p.h.r.S, vec_of<D>(z, n), tn, hn, wh, c2, tol); MV y; for (int i = 0; i < n; ++i) y.push_back(tomp(o.y(i))); cmp(y, 2e-16, o.c, o.nj, o.ninv, o.err, 16, two(z)); cover("predict-double"); }
                    else { p.h.precision(pr); P.ChangePrecision(pr); MV w = z; for (auto& a : w) a.precision(pr); MP t1 = tomp(tn), h1 = tomp(hn); auto o = predict<MP>(P, p.h.r.S, vec_of<MP>(w, n), t1, h1, wh, c2, tol); MV y; for (int i = 0; i < n; ++i) y.push_back(o.y(i)); cmp(y, std::pow(10.0, 1-pr), o.c, o.nj, o.ninv, o.err, pr, two(z)); cover("predict-multiprecision"); }
                }
            }
        });
    }
    for (int k = 0; k < 16; ++k) { auto& m = methods[k % 8]; bertini::DefaultPrecision(30); auto x = make_vars(2); auto t = bertini::node::Variable::Make("t"); System S; S.AddVariableGroup({x[0], x[1]}); S.AddPathVariable(t); S.AddFunction(x[0]*x[0] - t); S.AddFunction(x[0]*x[1] - 1); ctx(std::string("singular start, method ") + m.name); guarded("predict-singular", [&] { ExplicitRKPredictor P(m.m, S); Vec<D> a(2); a << D(0), D(1); auto o = predict<D>(P, S, a, D(0.3), D(0.1), m.est ? 2 : 1, amp(true), 1e-5); check(o.c == SuccessCode::MatrixSolveFailureFirstPartOfPrediction, "predict-singular", "code " + str(int(o.c))); cover("predict-singular"); }); }
    return finish();
}
