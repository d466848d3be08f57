// bounded stand-in: the adaptive-precision criteria and the choice of precision and step size
#include "trk.hpp"
#include "bertini2/trackers/tracker.hpp"
using namespace vt; namespace bt = bertini::tracking; using Cfg = bt::AdaptiveMultiplePrecisionConfig;
static Cfg cfg() { Cfg c; c.epsilon = std::pow(10.0, rd(-1, 3)); c.Phi = std::pow(10.0, rd(-3, 6)); c.Psi = std::pow(10.0, rd(-3, 6)); c.safety_digits_1 = ri(-2, 6); c.safety_digits_2 = ri(-2, 6); return c; }
static bool rel(double a, double b, double t = 1e-9) { return std::abs(a - b) <= t*(1 + std::abs(b)); }
int main(int argc, char** argv) {
    init(argc, argv); int rounds = tier() ? 40000 : 4000; alarm(850);
    for (int q = 0; q < rounds; ++q) {
        Cfg c = cfg(); double J = std::pow(10.0, rd(-6, 12)), I = std::pow(10.0, rd(-12, 40)), tol = std::pow(10.0, rd(-30, -1)), res = std::pow(10.0, rd(-30, 3)), z = std::pow(10.0, rd(-5, 8)); unsigned N = ri(1, 8); int prec = ri(17, 120); bertini::DefaultPrecision(prec);
        ctx("norm of J " + str(J) + " of its inverse " + str(I) + " tolerance " + str(tol) + " step " + str(res) + " iterations " + str(N) + " epsilon " + str(c.epsilon) + " Phi " + str(c.Phi) + " Psi " + str(c.Psi) + " safety " + str(c.safety_digits_1) + "," + str(c.safety_digits_2) + " precision " + str(prec));
        guarded("amp", [&] {
            double A = c.safety_digits_1 + std::log10(I*c.epsilon*(J + c.Phi)), Dv = std::log10(I*((2 + c.epsilon)*J + c.epsilon*c.Phi) + 1), B = c.safety_digits_1 + Dv + (std::log10(res) - std::log10(tol))/N, C = c.safety_digits_2 - std::log10(tol) + std::log10(I*c.Psi + z);
            check(rel(bt::amp::CriterionARHS(J, I, c), A), "amp-A", "right side of criterion A"); check(rel(bt::amp::D(J, I, c), Dv), "amp-D", "D"); check(rel(bt::amp::CriterionBRHS(J, I, N, tol, res, c), B), "amp-B", "right side of criterion B is " + str(bt::amp::CriterionBRHS(J, I, N, tol, res, c)) + " expected " + str(B)); check(rel(bt::amp::CriterionCRHS(I, z, tol, c), C), "amp-C", "right side of criterion C");
            auto sharp = [&](double r, double d) { return std::abs(r - d) > 1e-9*(1 + std::abs(r)); };
            if (sharp(A, 16)) check(bt::amp::CriterionA<D>(J, I, c) == (16 > A), "amp-A-holds", "criterion A in double"); if (sharp(A, prec)) check(bt::amp::CriterionA<MP>(J, I, c) == (prec > A), "amp-A-holds", "criterion A in multiple precision"); if (sharp(B, 16)) check(bt::amp::CriterionB<D>(J, I, N, tol, res, c) == (16 > B), "amp-B-holds", "criterion B in double"); if (sharp(B, prec)) check(bt::amp::CriterionB<MP>(J, I, N, tol, res, c) == (prec > B), "amp-B-holds", "criterion B in multiple precision");
            int n = ri(1, 4); Vec<D> v(n); Vec<MP> w(n); double s = 0; for (int i = 0; i < n; ++i) { v(i) = D(rd(), rd())*z; w(i) = tomp(v(i)); s += std::norm(v(i)); } s = std::sqrt(s); double C2 = c.safety_digits_2 - std::log10(tol) + std::log10(I*c.Psi + s);
            if (sharp(C2, 16)) check(bt::amp::CriterionC<D>(I, v, tol, c) == (16 > C2), "amp-C-holds", "criterion C in double"); if (sharp(C2, prec)) check(bt::amp::CriterionC<MP>(I, w, tol, c) == (prec > C2), "amp-C-holds", "criterion C in multiple precision"); cover("criteria");
        });
        // step sizes and costs
        unsigned p = coin(3) ? 16 : ri(17, 200), dB = coin() ? ri(0, 60) : ri(0, 250), it = ri(1, 6), ord = ri(0, 7); double ttg = std::pow(10.0, rd(-40, 1)); ctx("precision " + str(p) + " digits " + str(dB) + " iterations " + str(it) + " order " + str(ord) + " time to go " + str(ttg));
        guarded("amp-step", [&] {
            double e = (double(p) - double(dB))*it/(ord+1); if (e > -290 && e < 290) { double got = double(bt::StepsizeSatisfyingCriterionB(p, dB, it, ord)); check(got <= std::pow(10.0, e)*(1 + 1e-6), "amp-step-B", "step size " + str(got) + " exceeds that of criterion B, " + str(std::pow(10.0, e))); check(got >= std::pow(10.0, std::floor(e))*(1 - 1e-6), "amp-step-B", "step size " + str(got) + " is smaller than criterion B needs, " + str(std::pow(10.0, e))); }
            check(rel(bt::ArithmeticCost(p), p == 16 ? 1 : 10.35 + 0.13*p), "amp-cost", "cost"); double m = std::log10(ttg) + 3 - double(p); if (m > -280 && !(p == 16 && m < -149)) { check(rel(double(log10(bt::MinTimeForCurrentPrecision(p, MPR(ttg)))), m, 1e-6), "amp-min-time", "minimal time"); check(rel(double(log10(bt::MinStepSizeForPrecision(p, MPR(ttg)))), m, 1e-6), "amp-min-time", "minimal step size"); }
            double a = std::pow(10.0, rd(-60, -1)), b = std::pow(10.0, rd(-60, -1)); double d = std::max(std::ceil(-std::log10(a)), std::ceil(-std::log10(b))) + std::ceil(std::log10(ttg)) + 3; if (d >= 0) { unsigned g = bt::MinDigitsForStepsizeInterval(MPR(a), MPR(b), MPR(ttg)); check(std::abs(double(g) - d) < 0.5, "amp-min-digits", "digits " + str(g) + " expected " + str(d)); } cover("steps");
        });
        // the choice
        unsigned mn = coin(3) ? 16 : ri(10, 180), mx = coin() ? mn + ri(0, 25) : ri(10, 330); double ms = std::pow(10.0, rd(-12, 0)), lo = ms*std::pow(10.0, rd(-3, 0)); unsigned need = coin(4) ? dB : std::min<unsigned>(dB, mn + 0); ctx("choice with precision from " + str(mn) + " to " + str(mx) + " step up to " + str(ms) + " digits of criterion B " + str(need) + " iterations " + str(it) + " order " + str(ord));
        guarded("amp-choice", [&] {
            unsigned np = 0; MPR ns = 0; bt::MinimizeTrackingCost(np, ns, mn, MPR(lo), mx, MPR(ms), need, it, ord); std::set<unsigned> cand; if (mn <= 16) cand.insert(16); for (unsigned k = 20; k <= mx; k += 10) if (k >= mn) cand.insert(k);
            auto step = [&](unsigned k) { double e = (double(k) - double(need))*it/(ord+1); return std::min(ms, std::pow(10.0, e)); }; auto cost = [&](unsigned k) { return (k == 16 ? 1 : 10.35 + 0.13*k)/step(k); };
            if (np == bertini::MaxPrecisionAllowed() + 1) { bool any = false; for (unsigned k : cand) if ((double(k) - double(need))*it/(ord+1) > -290) any = true; check(!any, "amp-choice-none", "no choice although there are candidates"); cover("choice-none"); return; }
            check(np >= mn, "amp-choice-precision", "chosen precision " + str(np) + " is below the required " + str(mn)); double e = (double(np) - double(need))*it/(ord+1); if (e > -290) check(double(ns) <= step(np)*(1 + 1e-6), "amp-choice-step", "chosen step size " + str(ns) + " at precision " + str(np) + " violates criterion B or the largest step"); check(double(ns) > 0, "amp-choice-step", "step size");
            double got = (np == 16 ? 1 : 10.35 + 0.13*np)/double(ns); bool exact = e == std::floor(e) || ms <= std::pow(10.0, std::floor(e)); for (unsigned k : cand) { double f = (double(k) - double(need))*it/(ord+1); if (f < -280) continue; if (exact || (k == np)) check(got <= cost(k)*(k == np && !exact ? 10.0001 : 1.0001) || (f != std::floor(f) && ms > std::pow(10.0, std::floor(f)) && got <= cost(k)*10), "amp-choice-cost", "precision " + str(np) + " was chosen, " + str(k) + " is cheaper"); } cover("choice");
        });
    }
    for (int q = 0; q < (tier() ? 400 : 60); ++q) {
        bertini::DefaultPrecision(30); Hom h; make_hom(h, true, 2); ctx(h.r.desc); guarded("amp-config", [&] { System const& S = h.r.S; auto c = bt::AMPConfigFrom(S); Cfg c2(S); int db = S.DegreeBound(); double nv = S.NumVariables(); auto dg = S.Degrees(S.Variables()); int m = 0; for (int d : dg) m = std::max(m, d); check(db == m, "amp-degree-bound", "degree bound " + str(db) + " expected " + str(m));
            for (auto& k : {c, c2}) { check(rel(k.epsilon, nv*nv) && rel(k.degree_bound, db) && rel(k.Phi, k.degree_bound*(k.degree_bound-1)*k.coefficient_bound) && rel(k.Psi, k.degree_bound*k.coefficient_bound) && k.coefficient_bound >= 0, "amp-config", "bounds of the configuration"); } cover("config"); });
    }
    return finish();
}
