// bounded stand-in: interpolation of polynomials, and both endgames on paths with a known limit and cycle number
#include "trk.hpp"
#include "bertini2/trackers/tracker.hpp"
#include "bertini2/endgames.hpp"
using namespace vt; namespace bt = bertini::tracking; namespace be = bertini::endgame; using bertini::SuccessCode; using bt::Predictor;
// ---- interpolation
static MP horner(MV const& c, MP const& t) { MP r = 0; for (size_t k = c.size(); k--; ) r = MP(r*t + c[k]); return r; }
static MV deriv(MV const& c) { MV d; for (size_t k = 1; k < c.size(); ++k) d.push_back(MP(c[k]*int(k))); if (d.empty()) d.push_back(MP(0)); return d; }
// what the recorded defect of HermiteInterpolateAndSolve computes: Horner's scheme with node ii in place of node 2*ii
static MP defective(MP const& t, MV const& times, MV const& f, MV const& df) { size_t n = times.size(); std::vector<MV> S(2*n, MV(2*n, MP(0))); MV z(2*n);
    for (size_t i = 0; i < n; ++i) { S[2*i][0] = S[2*i+1][0] = f[i]; S[2*i+1][1] = df[i]; z[2*i] = z[2*i+1] = times[i]; } for (size_t i = 1; i < n; ++i) S[2*i][1] = (S[2*i][0] - S[2*i-1][0])/(z[2*i] - z[2*i-1]);
    for (size_t i = 2; i < 2*n; ++i) for (size_t j = 2; j <= i; ++j) S[i][j] = (S[i][j-1] - S[i-1][j-1])/(z[i] - z[i-j]); MP R = S[2*n-1][2*n-1]; for (size_t i = n-1; i >= 1; --i) R = MP((R*(t - z[i]) + S[2*i][2*i])*(t - z[i-1]) + S[2*i-1][2*i-1]); return R*(t - z[0]) + S[0][0]; }
template<class CT> void hermite(int digits) {
    bertini::DefaultPrecision(80); int n = ri(1, 5), dim = ri(1, 3), extra = coin() ? ri(0, 2) : 0; bool back = coin(); std::vector<MV> c(dim); for (auto& v : c) for (int k = 0; k <= ri(0, 2*n-1) || k == 0; ++k) v.push_back(tomp(D(ri(-8, 8)/4.0, ri(-8, 8)/4.0)));
    std::vector<D> ts; double rad = rd(0.3, 1); for (int i = 0; i < n + extra; ++i) { D d; bool ok; int tries = 0; do { d = D(ri(-64, 64)/64.0, ri(-64, 64)/64.0)*D(2*rad >= 1 ? 1 : 1); ok = true; for (auto& e : ts) if (std::abs(d - e) < 0.15) ok = false; } while (!ok && ++tries < 1000); ts.push_back(d); }
    D target = coin(3) ? D(0) : D(ri(-32, 32)/64.0, ri(-32, 32)/64.0); bertini::TimeCont<CT> times; bertini::SampCont<CT> samples, ders; MV tu; bertini::DefaultPrecision(digits);
    std::vector<MV> F(dim), dF(dim); for (int i = 0; i < n + extra; ++i) { times.push_back(cv<CT>(tomp(ts[i]))); Vec<CT> s(dim), d(dim); bertini::DefaultPrecision(80); MP t = tomp(ts[i]); t.precision(80); MV sv, dv; for (int k = 0; k < dim; ++k) { sv.push_back(horner(c[k], t)); dv.push_back(horner(deriv(c[k]), t)); } bertini::DefaultPrecision(digits); for (int k = 0; k < dim; ++k) { MP a = sv[k], b = dv[k]; a.precision(digits); b.precision(digits); s(k) = cv<CT>(a); d(k) = cv<CT>(b); F[k].push_back(sv[k]); dF[k].push_back(dv[k]); } samples.push_back(s); ders.push_back(d); }
    std::string info = str(n) + " of " + str(n + extra) + " samples from the " + (back ? "back" : "front") + " target " + str(target) + " digits " + str(digits); for (auto& d : ts) info += " t=" + str(d); ctx("interpolation " + info);
    auto r = be::HermiteInterpolateAndSolve<CT>(cv<CT>(tomp(target)), n, times, samples, ders, back ? bertini::ContStart::Back : bertini::ContStart::Front); bertini::DefaultPrecision(80); if (!check(r.size() == dim, "hermite-size", "size of the interpolated value")) return;
    for (int k = 0; k < dim; ++k) { MP t = tomp(target); t.precision(80); MP want = horner(c[k], t); MP got = up<CT>(r(k)); got.precision(80); MV tt, ff, dd; for (int i = 0; i < n; ++i) { int j = back ? n + extra - 1 - i : n - 1 - i; MP q = tomp(ts[j]); q.precision(80); tt.push_back(q); ff.push_back(F[k][j]); dd.push_back(dF[k][j]); } MP bad = defective(t, tt, ff, dd); double tol = std::pow(10.0, -digits + 8)*(1 + mag(want)); double e = mag(MP(got - want)); 
        if (e <= tol) { check(true, "hermite-value", ""); cover(n == 1 ? "hermite-one" : "hermite-exact"); } else check(false, n > 1 && mag(MP(got - bad)) <= tol ? "hermite-nodes" : "hermite-value", "the polynomial of degree " + str(c[k].size() - 1) + " has the value " + str(todbl(want)) + " and the interpolation gives " + str(todbl(got))); }
}
// ---- endgames
struct Case { Hom h; int c; std::vector<std::vector<D>> A; std::vector<MV> p; D T, scale; bool inf = false; };      // coordinates A*(y, p_1(y), ..) with y^c = scale*(t - T)
static MV point(Case& q, MP const& y) { int n = q.A.size(); MV u{y}, x; for (auto& c : q.p) u.push_back(horner(c, y)); for (int i = 0; i < n; ++i) { MP s = 0; for (int j = 0; j < n; ++j) s += tomp(q.A[i][j])*u[j]; x.push_back(s); } return x; }
static E flt(D d) { return mk(FLT, {}, std::lround(d.real()*1024), 1, std::lround(d.imag()*1024)); }
static void make(Case& q) {
    RSys& r = q.h.r; int n = ri(1, 2); r.nv = n; Grp g; g.kind = 0; for (int i = 0; i < n; ++i) g.v.push_back(i); r.groups.push_back(g); r.path = true; r.b.x = make_vars(n); r.t = bertini::node::Variable::Make("t"); r.b.x.push_back(r.t); q.c = ri(1, 4); q.T = coin() ? D(0) : D(ri(-200, 200)/1024.0, ri(-200, 200)/1024.0); q.scale = D(1);
    // unimodular linear change of coordinates: x = A u, u0 = x0 - a x1 etc., entries exact
    D a(ri(-512, 512)/1024.0, ri(-512, 512)/1024.0); q.A.assign(n, std::vector<D>(n)); for (int i = 0; i < n; ++i) q.A[i][i] = D(1); if (n == 2) q.A[0][1] = a; E u0 = n == 2 ? mk(SUB, {var(0), mk(MUL, {flt(a), var(1)})}) : var(0);
    D off(ri(-512, 512)/1024.0, ri(-512, 512)/1024.0); E y = mk(SUB, {u0, flt(off)}); (void)off; if (q.inf) { off = D(ri(60, 200), ri(-100, 100)); y = mk(SUB, {u0, flt(off)}); } else if (coin()) { off = D(0); y = u0; } q.scale = off;      // scale holds the shift of u0
    r.f.push_back(mk(SUB, {mk(IPOW, {y}, q.c), mk(SUB, {var(n), flt(q.T)})})); for (int i = 1; i < n; ++i) { MV c; E e = flt(D(ri(-900, 900)/1024.0, ri(-900, 900)/1024.0)); c.push_back(tomp(D(e->a/1024.0, e->c/1024.0))); for (int k = 1; k <= ri(1, 4); ++k) { D d(ri(-900, 900)/1024.0, ri(-900, 900)/1024.0); c.push_back(tomp(d)); e = mk(ADD, {e, mk(MUL, {flt(d), mk(IPOW, {y}, k)})}); } q.p.push_back(c); r.f.push_back(mk(SUB, {var(i), e})); }
    add_structure(r, r.S); r.S.SetEvalMethod(coin() ? EvalMethod::SLP : EvalMethod::FunctionTree); r.S.SetDerivMethod(coin() ? DerivMethod::JacobianNode : DerivMethod::Derivatives); add_functions(r, r.S, false); q.h.finish(); r.show_();
}
static MV at(Case& q, MP const& y) { MV x = point(q, y); x[0] += tomp(q.scale); return x; }
template<class EG> struct Watch : public bertini::Observer<EG> { std::vector<MV> est; int conv = 0; void Observe(bertini::AnyEvent const& e) override { if (auto p = dynamic_cast<const be::ApproximatedRoot<EG>*>(&e)) { auto& v = p->Get().template FinalApproximation<typename EG::BaseComplexType>(); MV x; for (int i = 0; i < v.size(); ++i) x.push_back(up<typename EG::BaseComplexType>(v(i))); est.push_back(x); if (est.size() > 60) throw std::runtime_error("too many estimates"); } else if (dynamic_cast<const be::Converged<EG>*>(&e)) ++conv; } };
static std::string cname(SuccessCode c) { switch (c) { case SuccessCode::Success: return "Success"; case SuccessCode::MinTrackTimeReached: return "MinTrackTimeReached"; case SuccessCode::CycleNumTooHigh: return "CycleNumTooHigh"; case SuccessCode::SecurityMaxNormReached: return "SecurityMaxNormReached"; default: return "code" + str(int(c)); } }
static double dist(MV const& a, MV const& b) { double d = 0; for (size_t i = 0; i < a.size(); ++i) d = std::max(d, mag(MP(a[i] - b[i]))); return d; }
template<class CT> const bertini::TimeCont<CT>& times_of(be::PowerSeriesEndgame<be::AMPEndgame>& e);
template<class EG> auto& ptimes(EG& e, int) { return e.template GetTimes<typename EG::BaseComplexType>(); }
template<class EG> struct IsC : std::false_type {}; template<class P> struct IsC<be::CauchyEndgame<P>> : std::true_type {};
template<class EG> MV etimes(EG& e) { MV r; using CT = typename EG::BaseComplexType; if constexpr (IsC<EG>::value) { for (auto& t : e.template GetPSEGTimes<CT>()) r.push_back(up<CT>(t)); } else for (auto& t : e.template GetTimes<CT>()) r.push_back(up<CT>(t)); return r; }
static long psall = 0, psother = 0;
template<class Tr, class EG> void run(Case& q, Tr& tr, int digits, std::string const& name, bool dead) {
    using CT = typename bt::TrackerTraits<Tr>::BaseComplexType; be::EndgameConfig ec; be::SecurityConfig sc; ec.num_sample_points = IsC<EG>::value ? ri(3, 8) : ri(3, 5); int fa = coin() ? 2 : ri(2, 4), fb = fa == 2 && coin() ? 1 : fa == 4 && coin() ? 3 : 1; if (fa == 3 && coin()) fb = 2; ec.sample_factor = bertini::mpq_rational(fb, fa); double f = double(fb)/fa; ec.final_tolerance = std::pow(10.0, -rd(6, digits > 20 ? 11 : dead ? 7 : 9)); sc.level = coin() ? 1 : 0; sc.max_norm = dead ? rd(2, 50) : 1e4; 
    EG eg(tr, ec, sc); double radius = rd(0.05, 0.3), ang = rd(0, 6.28)/q.c; MP y0 = tomp(D(std::lround(1048576*std::pow(radius, 1.0/q.c)*std::cos(ang))/1048576.0, std::lround(1048576*std::pow(radius, 1.0/q.c)*std::sin(ang))/1048576.0)); bertini::DefaultPrecision(120); y0.precision(120); MP t0 = tomp(q.T); MP pw = y0; for (int k = 1; k < q.c; ++k) pw *= y0; t0 += pw; MV x0 = at(q, y0); bertini::DefaultPrecision(digits); t0.precision(digits); for (auto& z : x0) z.precision(digits); q.h.r.S.precision(digits);
    ctx(q.h.r.desc + " :: " + name + " digits " + str(digits) + " cycle number " + str(q.c) + " samples " + str(ec.num_sample_points) + " factor " + str(fb) + "/" + str(fa) + " tolerance " + str(double(ec.final_tolerance)) + " from " + str(todbl(t0)) + " to " + str(q.T) + " level " + str(sc.level) + " largest norm " + str(double(sc.max_norm)));
    Watch<EG> w; eg.AddObserver(w); SuccessCode c; MP T = tomp(q.T); T.precision(digits); try { c = eg.Run(cv<CT>(t0), vec_of<CT>(x0, q.h.N), cv<CT>(T)); } catch (std::exception const& e) { eg.RemoveObserver(w); if (std::string(e.what()) == "too many estimates") { cover("given-up"); return; } throw; } eg.RemoveObserver(w);
    cover(name + "-" + cname(c)); MV et = etimes(eg); for (size_t k = 1; k < et.size(); ++k) { double a = mag(MP(et[k] - T)), b = mag(MP(et[k-1] - T)); if (a > 1e-9) check(mag(MP((et[k] - T) - (et[k-1] - T)*f)) <= 1e-7*b, "endgame-times", "successive sample times " + str(todbl(et[k-1])) + " and " + str(todbl(et[k])) + " are not in the sample factor towards " + str(q.T)); }
    bertini::DefaultPrecision(60); MV lim = at(q, MP(0)); for (auto& z : lim) z.precision(60); auto F = eg.template FinalApproximation<CT>();
    if (dead && sc.level == 0) { check(c != SuccessCode::Success || w.est.size() <= 1, "endgame-security", "success with estimates beyond the largest norm"); if (c == SuccessCode::SecurityMaxNormReached) check(w.est.size() <= 2, "endgame-security-late", "stopped after " + str(w.est.size()) + " estimates beyond the largest norm"); return; }
    if (c == SuccessCode::Success) { check(w.conv == 1, "endgame-event", "convergence is announced " + str(w.conv) + " times"); MV g; if (!check(F.size() == q.h.N, "endgame-size", "size of the result")) return; for (int i = 0; i < q.h.N; ++i) g.push_back(up<CT>(F(i))); if (!check(w.est.size() >= 1, "endgame-estimates", "no estimate")) return; check(dist(g, w.est.back()) <= 1e-14, "endgame-result", "the result is not the last estimate"); if (w.est.size() > 1) check(dist(w.est.back(), w.est[w.est.size()-2]) <= double(ec.final_tolerance)*(1 + 1e-6), "endgame-converged", "success with estimates " + str(dist(w.est.back(), w.est[w.est.size()-2])) + " apart, tolerance " + str(double(ec.final_tolerance)));
        for (size_t k = 1; k + 1 < w.est.size(); ++k) check(dist(w.est[k], w.est[k-1]) >= double(ec.final_tolerance)*(1 - 1e-6), "endgame-stop", "estimates agreed earlier"); double e = dist(g, lim); check(e <= 300*double(ec.final_tolerance) + std::pow(10.0, -digits + 6), "endgame-limit", "the result is " + str(e) + " off the limit of the path, tolerance " + str(double(ec.final_tolerance))); unsigned cn = eg.CycleNumber(); if (cn == unsigned(q.c)) cover(name + "-cycle"); else if (IsC<EG>::value && double(tr.TrackingTolerance()) < 1e-6 && mag(MP(et.back() - T)) > 1e-4) check(false, "endgame-cycle", "cycle number " + str(cn) + " instead of " + str(q.c)); else { cover(name + (cn % unsigned(q.c) ? "-other-cycle" : "-multiple-cycle")); if (cn % unsigned(q.c)) ++psother; } if (!IsC<EG>::value) ++psall; }
    else if (c == SuccessCode::SecurityMaxNormReached) check(false, "endgame-norm", "the limit is declared to be at infinity"); 
}
template<class Tr, class F> void with_tracker(Case& q, Tr& tr, F f) { bt::SteppingConfig st; bt::NewtonConfig nw; tr.Setup(Predictor::RKF45, 1e-7, 1e5, st, nw); f(tr); }
int main(int argc, char** argv) {
    init(argc, argv); alarm(850);
    for (int k = 0; k < (tier() ? 2000 : 200); ++k) guarded("hermite", [&] { if (coin()) hermite<D>(16); else hermite<MP>(ri(2, 5)*10); });
    for (int k = 0; k < (tier() ? 6000 : 300); ++k) { bertini::DefaultPrecision(50); Case q; q.inf = k % 7 == 3; make(q); 
        guarded("endgame", [&] { int mode = k % 3; bool ps = coin(); 
            if (mode == 0) { bertini::DefaultPrecision(16); bt::DoublePrecisionTracker tr(q.h.r.S); with_tracker(q, tr, [&](auto& t) { if (ps) run<bt::DoublePrecisionTracker, be::EndgameSelector<bt::DoublePrecisionTracker>::PSEG>(q, t, 16, "double-powerseries", q.inf); else run<bt::DoublePrecisionTracker, be::EndgameSelector<bt::DoublePrecisionTracker>::Cauchy>(q, t, 16, "double-cauchy", q.inf); }); }
            else if (mode == 1) { int p = ri(3, 5)*10; q.h.precision(p); bt::MultiplePrecisionTracker tr(q.h.r.S); with_tracker(q, tr, [&](auto& t) { if (ps) run<bt::MultiplePrecisionTracker, be::EndgameSelector<bt::MultiplePrecisionTracker>::PSEG>(q, t, p, "fixed-powerseries", q.inf); else run<bt::MultiplePrecisionTracker, be::EndgameSelector<bt::MultiplePrecisionTracker>::Cauchy>(q, t, p, "fixed-cauchy", q.inf); }); }
            else { int p = coin() ? 16 : 30; q.h.precision(p); bt::AMPTracker tr(q.h.r.S); tr.PrecisionSetup(bt::AMPConfigFrom(q.h.r.S)); with_tracker(q, tr, [&](auto& t) { if (ps) run<bt::AMPTracker, be::EndgameSelector<bt::AMPTracker>::PSEG>(q, t, p, "adaptive-powerseries", q.inf); else run<bt::AMPTracker, be::EndgameSelector<bt::AMPTracker>::Cauchy>(q, t, p, "adaptive-cauchy", q.inf); }); } }); }
    ctx("all power series runs"); if (psall >= 40) check(psother*4 < psall, "endgame-ps-cycle", str(psother) + " of " + str(psall) + " power series endgames ended with a wrong cycle number");
    return finish();
}
