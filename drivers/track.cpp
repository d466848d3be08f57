// bounded stand-in: path tracking in the three precision modes, watched step by step
#include "trk.hpp"
#include "bertini2/trackers/tracker.hpp"
#include "bertini2/trackers/observers.hpp"
using namespace vt; namespace bt = bertini::tracking; using bertini::SuccessCode; using bt::Predictor;
static const Predictor preds[] = {Predictor::Constant, Predictor::Euler, Predictor::HeunEuler, Predictor::RK4, Predictor::RKF45, Predictor::RKCashKarp45, Predictor::RKDormandPrince56, Predictor::RKVerner67};
static const char* pname[] = {"Constant", "Euler", "HeunEuler", "RK4", "RKF45", "RKCashKarp45", "RKDormandPrince56", "RKVerner67"};
struct Set { double tol, thr; bt::SteppingConfig st; bt::NewtonConfig nw; unsigned maxprec; int safety = 1; bool trunc; int pred; };
// length of the Newton step at a point, by the oracle
static double defect(Hom& h, MV x, MP t, double* cond = nullptr) { auto keep = bertini::DefaultPrecision(); bertini::DefaultPrecision(120); for (auto& z : x) z.precision(120); t.precision(120); Lin l; bool ok = h.newton(x, t, l); bertini::DefaultPrecision(keep); if (!ok) return -1; if (cond) *cond = l.cond; return inf_(l.x); }
template<class Tr> struct Watch : public bertini::Observer<Tr> {
    using Em = typename bt::TrackerTraits<Tr>::EventEmitterType; using CT = typename bt::TrackerTraits<Tr>::BaseComplexType; Set const* s; Hom* h; MP t0, t1; long news = 0, succ = 0, failed = 0, ended = 0, inf = 0; MP last; double far = 0; bool first = true; int looks = 0;
    MP mp(CT const& z) { return up<CT>(z); }
    void Observe(bertini::AnyEvent const& e) override {
        if (auto p = dynamic_cast<const bt::NewStep<Em>*>(&e)) { auto& T = p->Get(); ++news; double dt = mag(mp(T.DeltaT())), ss = double(T.CurrentStepsize()), left = mag(MP(t1 - mp(T.CurrentTime()))); check(dt <= ss*(1 + 1e-9), "track-step-long", "step " + str(dt) + " is longer than the step size " + str(ss)); check(dt <= double(s->st.max_step_size)*(1 + 1e-9), "track-step-max", "step " + str(dt) + " is longer than the largest allowed"); check(ss >= double(s->st.min_step_size)*(1 - 1e-9), "track-step-min", "a step is tried with size " + str(ss) + " below the smallest allowed"); check(std::abs(dt - std::min(ss, left)) <= 1e-6*dt, "track-step-length", "step " + str(dt) + " is neither the step size " + str(ss) + " nor the rest of the way " + str(left)); check(unsigned(succ) < s->st.max_num_steps, "track-step-count", "more than the maximal number of steps"); if (news > 5000) throw std::runtime_error("too many steps"); }
        else if (auto p = dynamic_cast<const bt::SuccessfulStep<Em>*>(&e)) { auto& T = p->Get(); ++succ; MP now = mp(T.CurrentTime()); double before = mag(MP(t1 - last)), after = mag(MP(t1 - now)); check(after < before, "track-forward", "a step does not lead towards the end time"); last = now; MV x; auto v = T.CurrentPoint(); for (int i = 0; i < v.size(); ++i) x.push_back(up<CT>(v(i)));
            auto keep = bertini::DefaultPrecision(); if (s->trunc) { Vec<MP> y(x.size()); bertini::DefaultPrecision(50); for (size_t i = 0; i < x.size(); ++i) { MP z = x[i]; z.precision(50); y(i) = z; } MV d; auto q = h->r.S.DehomogenizePoint(y); for (int i = 0; i < q.size(); ++i) d.push_back(q(i)); check(two(d) <= s->thr*(1 + 1e-9), "track-threshold", "a step ends at a point of size " + str(two(d)) + " beyond the threshold " + str(s->thr)); bertini::DefaultPrecision(keep); }
            if (looks++ < 12) { double c = 0, r = defect(*h, x, now, &c); if (r >= 0 && c < 1e6) { check(r <= 20*s->tol + 1e-10, "track-on-path", "after a step the point is " + str(r) + " off the path, tolerance " + str(s->tol)); cover("steps-checked"); } } }
        else if (dynamic_cast<const bt::FailedStep<Em>*>(&e)) ++failed; else if (dynamic_cast<const bt::TrackingEnded<Em>*>(&e)) ++ended; else if (dynamic_cast<const bt::InfinitePathTruncation<Em>*>(&e)) ++inf;
    }
};
static std::string cname(SuccessCode c) { switch (c) { case SuccessCode::Success: return "Success"; case SuccessCode::MaxNumStepsTaken: return "MaxNumStepsTaken"; case SuccessCode::MinStepSizeReached: return "MinStepSizeReached"; case SuccessCode::MaxPrecisionReached: return "MaxPrecisionReached"; case SuccessCode::GoingToInfinity: return "GoingToInfinity"; case SuccessCode::SingularStartPoint: return "SingularStartPoint"; default: return "code" + str(int(c)); } }
template<class Tr> void track(Hom& h, Tr& tr, Set const& s, MV const& start, MP const& t0, MP const& t1, MV const* expect, std::string const& base, std::string const& mode, int want = -1) {
    using CT = typename bt::TrackerTraits<Tr>::BaseComplexType; ctx(base + " :: " + mode + " " + pname[s.pred] + " tolerance " + str(s.tol) + " initial step " + str(double(s.st.initial_step_size)) + " from " + str(todbl(t0)) + " to " + str(todbl(t1)) + " max steps " + str(s.st.max_num_steps) + " min step " + str(double(s.st.min_step_size)) + " threshold " + str(s.thr) + " max precision " + str(s.maxprec));
    tr.Setup(preds[s.pred], s.tol, s.thr, s.st, s.nw); tr.SetInfiniteTruncation(s.trunc); Watch<Tr> w; w.s = &s; w.h = &h; w.t0 = t0; w.t1 = t1; w.last = t0; tr.AddObserver(w); Vec<CT> x = vec_of<CT>(start, h.N), y; SuccessCode c; 
    try { c = tr.TrackPath(y, cv<CT>(t0), cv<CT>(t1), x); } catch (std::exception const& e) { tr.RemoveObserver(w); if (std::string(e.what()) == "too many steps") { cover("given-up"); return; } throw; }
    tr.RemoveObserver(w); cover(mode.substr(0, mode.find(' ')) + "-" + cname(c)); if (want >= 0) check(c == SuccessCode(want), "track-code", "reports " + cname(c) + " expected " + cname(SuccessCode(want)));
    check(w.ended == 1, "track-ended", "the end of tracking is announced " + str(w.ended) + " times"); check((w.inf > 0) == (c == SuccessCode::GoingToInfinity), "track-infinity-event", "truncation event"); check(w.news >= w.succ, "track-events", "more successes than steps");
    MP now = up<CT>(tr.CurrentTime()); MV at; auto v = tr.CurrentPoint(); for (int i = 0; i < v.size(); ++i) at.push_back(up<CT>(v(i)));
    if (c == SuccessCode::Success) {
        check(mag(MP(now - t1)) <= 1e-14*(mag(t1)), "track-endtime", "success at time " + str(todbl(now)) + " instead of the end time"); if (!check(y.size() == h.N, "track-solution-size", "size of the solution")) return; MV z; for (int i = 0; i < h.N; ++i) z.push_back(up<CT>(y(i))); double d = 0; for (int i = 0; i < h.N; ++i) d = std::max(d, mag(MP(z[i] - at[i]))); check(d <= 1e-14*(1 + inf_(z)), "track-solution", "the solution is not the current point");
        double cn = 0, r = defect(h, z, t1, &cn); if (r >= 0 && cn < 1e7) check(r <= 20*s.tol + 1e-10, "track-solution-on-path", "success with a point " + str(r) + " off the path, tolerance " + str(s.tol)); if (expect) { double e = 0; for (int i = 0; i < h.N; ++i) e = std::max(e, mag(MP(z[i] - (*expect)[i]))); cover(e < 1e-3 ? "same-path" : "other-path"); } if (mag(MP(t1 - t0)) > 0) check(w.succ > 0, "track-steps", "success without a step");
    } else if (c == SuccessCode::MaxNumStepsTaken) check(unsigned(w.succ) >= s.st.max_num_steps, "track-reason", "maximal number of steps reported after " + str(w.succ));
    else if (c == SuccessCode::MinStepSizeReached) check(double(tr.CurrentStepsize()) < double(s.st.min_step_size)*(1 + 1e-9), "track-reason", "smallest step size reported at " + str(tr.CurrentStepsize()));
    else if (c == SuccessCode::GoingToInfinity) { auto keep = bertini::DefaultPrecision(); bertini::DefaultPrecision(50); Vec<MP> q(h.N); for (int i = 0; i < h.N; ++i) { MP z = at[i]; z.precision(50); q(i) = z; } auto d = h.r.S.DehomogenizePoint(q); MV dd; for (int i = 0; i < d.size(); ++i) dd.push_back(d(i)); check(s.trunc && two(dd) > s.thr*(1 - 1e-6), "track-reason", "going to infinity reported at size " + str(two(dd))); bertini::DefaultPrecision(keep); }
    else if (c == SuccessCode::MaxPrecisionReached) check(std::is_same<Tr, bt::AMPTracker>::value && tr.CurrentPrecision() > s.maxprec, "track-reason", "maximal precision reported at " + str(tr.CurrentPrecision()));
    else check(c == SuccessCode::SingularStartPoint && std::is_same<Tr, bt::AMPTracker>::value, "track-reason", "unknown reason " + cname(c));
}
static Set settings() { Set s; s.pred = coin(3) ? 4 : ri(1, 7); s.tol = std::pow(10.0, rd(-9, -4)); s.thr = coin(3) ? std::pow(10.0, rd(0, 2)) : 1e5; s.trunc = !coin(5); auto Q = [](int a, int b) { return bertini::mpq_rational(a, b); }; s.st.initial_step_size = Q(1, ri(5, 40)); s.st.max_step_size = coin() ? s.st.initial_step_size : bertini::mpq_rational(Q(ri(1, 3), 10)); if (s.st.max_step_size < s.st.initial_step_size) s.st.max_step_size = s.st.initial_step_size; s.st.min_step_size = coin(3) ? Q(1, ri(50, 2000)) : Q(1, 1000000000); if (s.st.min_step_size > s.st.initial_step_size) s.st.min_step_size = s.st.initial_step_size/2; s.st.max_num_steps = coin(4) ? ri(1, 12) : 400; s.st.min_num_steps = ri(1, 4); s.st.consecutive_successful_steps_before_stepsize_increase = ri(1, 5); s.nw.max_num_newton_iterations = ri(2, 4); s.nw.min_num_newton_iterations = ri(1, 2); s.maxprec = coin(3) ? ri(2, 6)*10 : 120; return s; }
template<class F> void with(int mode, Hom& h, Set const& s, MV start, MP t0, MP t1, F f) {      // build the tracker of the mode and call f(tracker, start, t0, t1, name)
    if (mode == 0) { h.precision(30); bt::DoublePrecisionTracker tr(h.r.S); f(tr, start, t0, t1, std::string("double")); }
    else if (mode == 1) { int p = ri(20, 50); h.precision(p); for (auto& z : start) z.precision(p); t0.precision(p); t1.precision(p); bt::MultiplePrecisionTracker tr(h.r.S); f(tr, start, t0, t1, "fixed " + str(p)); }
    else { int p = coin() || s.safety > 1 ? 16 : ri(2, 4)*10; bertini::DefaultPrecision(p); h.r.S.precision(p); for (auto& z : start) z.precision(p); t0.precision(p); t1.precision(p); bt::AMPTracker tr(h.r.S); auto c = bt::AMPConfigFrom(h.r.S); c.maximum_precision = s.maxprec; c.safety_digits_1 = c.safety_digits_2 = s.safety; tr.PrecisionSetup(c); f(tr, start, t0, t1, "adaptive " + str(p)); }
}
int main(int argc, char** argv) {
    init(argc, argv); int rounds = tier() ? 1200 : 60; alarm(850);
    for (int q = 0; q < rounds; ++q) {
        bertini::DefaultPrecision(50); Path p; make_path(p, ri(1, 3)); std::string base = p.h.r.desc; ctx(base); MP t0 = tomp(D(rd(-0.6, 0.6), rd(-0.6, 0.6))), t1 = tomp(D(rd(-0.6, 0.6), rd(-0.6, 0.6))); if (coin(5)) t1 = MP(0); Lin l; if (!p.h.tangent(at(p, t0), t0, l) || l.cond > 500) continue; MV x = at(p, t0), e = at(p, t1);
        // start points as exact as the lowest precision
        guarded("track", [&] { for (int k = 0; k < 2; ++k) { Set s = settings(); int mode = ri(0, 2); with(mode, p.h, s, x, t0, t1, [&](auto& tr, MV const& st, MP const& a, MP const& b, std::string const& name) { track(p.h, tr, s, st, a, b, &e, base, name); if (coin(3)) { Set s2 = settings(); if (name[0] != 'a') track(p.h, tr, s2, st, a, b, &e, base, name + " again"); } }); } });
    }
    // adaptive tracking that needs more digits than allowed
    for (int k = 0; k < (tier() ? 60 : 12); ++k) { bertini::DefaultPrecision(50); Path p; make_path(p, ri(1, 2)); MP t0 = tomp(D(rd(-0.6, 0.6), rd(-0.6, 0.6))), t1 = tomp(D(rd(-0.6, 0.6), rd(-0.6, 0.6))); Lin l; if (!p.h.tangent(at(p, t0), t0, l) || l.cond > 500) continue; bertini::DefaultPrecision(100); MP a = t0, b = t1; a.precision(100); MV x = at(p, a); bertini::DefaultPrecision(50);
        guarded("track-tight", [&] { Set s = settings(); s.st.max_num_steps = 20; s.maxprec = ri(2, 5)*10; s.tol = std::pow(10.0, -int(s.maxprec) + rd(-3, 8)); s.st.min_step_size = bertini::mpq_rational(1, 1000000000); s.trunc = false; if (coin()) { s.safety = ri(3, 20); s.tol = 1e-10; s.maxprec = ri(17, 30); } ctx(p.h.r.desc); with(2, p.h, s, x, t0, t1, [&](auto& tr, MV const& st, MP const& a, MP const& b, std::string const& name) { track(p.h, tr, s, st, a, b, nullptr, p.h.r.desc, name + " tight"); }); }); }
    // paths that end in a singular point, go to infinity, or start at one
    for (int k = 0; k < (tier() ? 120 : 24); ++k) {
        bertini::DefaultPrecision(50); Hom h; RSys& r = h.r; r.nv = 1; Grp g; g.kind = 0; g.v = {0}; r.groups.push_back(g); r.path = true; r.b.x = make_vars(1); r.t = bertini::node::Variable::Make("t"); r.b.x.push_back(r.t); int w = k % 4, mode = (k/4) % 3; E x = var(0), t = var(1);
        if (w == 0) r.f.push_back(mk(SUB, {mk(IPOW, {x}, 2), t})); if (w == 1) r.f.push_back(mk(SUB, {mk(MUL, {x, t}), cint(1)})); if (w == 2) r.f.push_back(mk(SUB, {mk(MUL, {cint(2), x}), t})); if (w == 3) r.f.push_back(mk(SUB, {mk(IPOW, {x}, 3), mk(MUL, {t, cint(2)})}));
        add_structure(r, r.S); for (auto& f : r.f) r.S.AddFunction(r.b(f)); bool pat = w == 1 && coin(); if (pat) { r.S.Homogenize(); r.S.AutoPatch(); r.homog = r.patched = true; } h.finish(); r.show_(); MV st{w == 3 ? MP(pow(MP(2), MP(MPR(1)/MPR(3)))) : w == 2 ? MP(MPR(1)/MPR(2)) : MP(1)}; if (pat) { Vec<MP> v(2); v(0) = 1; v(1) = 1; r.S.precision(50); r.S.RescalePointToFitPatchInPlace(v); st = {v(0), v(1)}; }
        guarded("track-special", [&] { Set s = settings(); s.pred = 4; s.thr = 1e4; s.st.max_num_steps = 2000; s.st.min_step_size = bertini::mpq_rational(1, 1000000000); s.trunc = true; s.maxprec = coin() ? 40 : 80; ctx(r.desc); with(mode, h, s, st, MP(1), MP(0), [&](auto& tr, MV const& a, MP const& b, MP const& c, std::string const& name) { track(h, tr, s, a, b, c, nullptr, r.desc, name + " special", w == 1 ? int(SuccessCode::GoingToInfinity) : w == 2 ? int(SuccessCode::Success) : -1); }); });
    }
    return finish();
}
