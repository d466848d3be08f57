// bounded stand-in: the midpath check on made-up boundary data, and whole solves of systems with known roots
#include "trk.hpp"
#include "bertini2/system/start_systems.hpp"
#include "bertini2/trackers/tracker.hpp"
#include "bertini2/endgames.hpp"
#include "bertini2/nag_algorithms/zero_dim_solve.hpp"
using namespace vt; namespace bt = bertini::tracking; namespace be = bertini::endgame; namespace ba = bertini::algorithm; using bertini::SuccessCode;
// ---- midpath check
template<class CT> struct Starts { std::vector<Vec<CT>> p; template<class T> Vec<T> StartPoint(unsigned long long i) const { return p[i]; } };
template<class CT> double nrm(Vec<CT> const& v) { double r = 0; for (int i = 0; i < v.size(); ++i) r = std::max(r, mag(up<CT>(v(i)))); return r; }
template<class CT> void midpath() {
    using RT = typename Eigen::NumTraits<CT>::Real; using MD = ba::EGBoundaryMetaData<CT>; bertini::DefaultPrecision(30); ba::MidPathConfig mc; double tol = std::pow(10.0, -ri(2, 7)); mc.same_point_tolerance = tol; ba::MidpathChecker<RT, CT, MD> mp(mc); check(mp.Passed(), "midpath-initial", "a new checker has not passed");
    for (int round = 0; round < 3; ++round) { int n = ri(0, 7), dim = ri(1, 3), pool = ri(1, 4); std::vector<Vec<CT>> ends, starts; auto rv = [&] { Vec<CT> v(dim); for (int i = 0; i < dim; ++i) v(i) = cv<CT>(tomp(D(rd(-2, 2), rd(-2, 2)))); return v; }; for (int i = 0; i < pool; ++i) { ends.push_back(rv()); starts.push_back(rv()); }
        ba::SolnCont<MD> data; Starts<CT> st; std::string info = "tolerance " + str(tol) + " round " + str(round); std::vector<bool> ok; for (int i = 0; i < n; ++i) { int e = ri(0, pool-1), s = ri(0, pool-1); Vec<CT> v = ends[e]; if (coin(3)) for (int k = 0; k < dim; ++k) v(k) += cv<CT>(tomp(D(tol*0.2*rd(-1, 1), tol*0.2*rd(-1, 1)))); else if (coin(3)) v(0) += cv<CT>(tomp(D(20*tol, 0))); bool good = !coin(4); ok.push_back(good); data.push_back(MD(v, good ? SuccessCode::Success : SuccessCode::GoingToInfinity, RT(0.1))); Vec<CT> w = coin() ? starts[s] : rv(); st.p.push_back(w); info += " [" + str(e) + " " + str(s) + (good ? "" : " failed") + "]"; }
        ctx("midpath check " + info); std::map<int, std::map<int, bool>> want; bool pass = true, clear = true; for (int i = 0; i < n; ++i) for (int j = i+1; j < n; ++j) if (ok[i] && ok[j]) { double d = nrm<CT>(Vec<CT>(data[i].path_point - data[j].path_point))/nrm<CT>(data[i].path_point), sd = nrm<CT>(Vec<CT>(st.p[i] - st.p[j])); if (std::abs(d - tol) < 1e-6*tol || std::abs(sd - tol) < 1e-6*tol) clear = false; if (d < tol) { pass = false; bool same = sd < tol; want[i][j] = same; want[j][i] = same; } } if (!clear) return;
        bool got = mp.Check(data, st); check(got == pass, "midpath-result", "the check gives " + str(got) + " expected " + str(pass)); check(mp.Passed() == pass, "midpath-passed", "Passed"); auto cp = mp.GetCrossedPaths(); check(cp.size() == want.size(), "midpath-count", str(cp.size()) + " crossed paths, expected " + str(want.size())); std::set<int> seen; for (auto& c : cp) { int i = int(c.index()); check(seen.insert(i).second, "midpath-twice", "path " + str(i) + " listed twice"); if (!check(want.count(i), "midpath-extra", "path " + str(i) + " is listed without a crossing")) continue; bool re = false; for (auto& p : want[i]) re = re || !p.second; check(c.rerun() == re, "midpath-rerun", "path " + str(i) + " rerun " + str(c.rerun()) + " expected " + str(re)); } cover(pass ? "midpath-pass" : "midpath-cross"); }
}
// ---- whole solves
struct Known { RSys r; std::vector<MV> roots; bool regular = true; bool full = true; };      // f_1(x_0), f_2(x_0, x_1), ..: monic in their last variable
static E flt(D d) { return mk(FLT, {}, std::lround(d.real()*1024), 1, std::lround(d.imag()*1024)); }
static D rcoef() { return D(ri(-1500, 1500)/1024.0, ri(-1500, 1500)/1024.0); }
static void make(Known& q, int kind) {      // kind 0 regular, 1 with a double root, 2 with roots at infinity
    RSys& r = q.r; int n = ri(1, 2); r.nv = n; r.path = false; r.b.x = make_vars(n); if (n == 2 && coin(3)) { Grp a, b; a.kind = b.kind = 0; a.v = {0}; b.v = {1}; r.groups = {a, b}; } else { Grp g; g.kind = 0; for (int i = 0; i < n; ++i) g.v.push_back(i); r.groups.push_back(g); } r.b.style = ri(0, 3); std::vector<MV> roots{{}};
    for (int i = 0; i < n; ++i) { int d = ri(1, kind == 2 ? 2 : 3); if (kind == 1 && i == 0) d = ri(2, 3); E f; std::vector<std::pair<D, D>> used; std::vector<std::pair<D, D>> lin; for (int k = 0; k < d; ++k) { D a, b; int tries = 0; bool ok; do { a = rcoef(); b = i ? D(ri(-500, 500)/1024.0, ri(-500, 500)/1024.0) : D(0); ok = true; for (auto& u : used) { if (std::abs(u.first - a) < 0.3) ok = false; } } while (!ok && ++tries < 200); if (kind == 1 && i == 0 && k == 1) { a = used[0].first; b = used[0].second; q.regular = false; } used.push_back({a, b}); E l = mk(SUB, {var(i), flt(a)}); if (i) l = mk(SUB, {l, mk(MUL, {flt(b), var(i-1)})}); f = k ? mk(MUL, {f, l}) : l; }
        if (kind == 2 && i == n-1) { if (n == 1) kind = 0; else { f = mk(SUB, {mk(MUL, {var(0), f}), cint(1)}); q.full = q.regular = false; } }
        if (coin()) f = mk(MUL, {flt(D(ri(500, 2000)/1024.0, ri(-500, 500)/1024.0)), f}); r.f.push_back(f); if (q.full) { std::vector<MV> nr; for (auto& x : roots) for (auto& u : used) { MV y = x; MP z = tomp(u.first); if (i) z += tomp(u.second)*x[i-1]; y.push_back(z); nr.push_back(y); } roots = nr; } }
    q.roots = roots; add_structure(r, r.S); add_functions(r, r.S, false); if (r.groups.size() > 1) { r.S.SetEvalMethod(EvalMethod::FunctionTree); r.S.SetDerivMethod(DerivMethod::JacobianNode); } r.show_();
}
template<class Tr> struct Count : public bertini::Observer<Tr> { using Em = typename bt::TrackerTraits<Tr>::EventEmitterType; using CT = typename bt::TrackerTraits<Tr>::BaseComplexType; struct Ev { bool init; double t; Vec<CT> x; unsigned next, prev; }; std::vector<Ev> ev; long started = 0;
    void Observe(bertini::AnyEvent const& e) override { if (auto p = dynamic_cast<const bt::Initializing<Em, CT>*>(&e)) { ++started; ev.push_back(Ev{true, mag(up<CT>(p->StartTime())), p->StartPoint(), 0, 0}); } else if (auto p = dynamic_cast<const bt::PrecisionChanged<Em>*>(&e)) ev.push_back(Ev{false, 0, Vec<CT>(), unsigned(p->Next()), unsigned(p->Previous())}); }
    // the highest precision and whether it rose, for each path; false when some path was tracked more than once
    template<class BD> bool split(BD const& bd, unsigned start, std::vector<unsigned>& maxp, std::vector<bool>& inc) const { size_t N = bd.size(); maxp.assign(N, start); inc.assign(N, false); long cur = -1; size_t begun = 0; bool eg = false; for (auto& e : ev) { if (e.init && e.t > 0.99 && !eg) { if (begun == N) return false; cur = long(begun++); } else if (e.init && std::abs(e.t - 0.1) < 1e-9) { if (begun != N) return false; for (size_t i = eg ? size_t(cur+1) : 0; i < N; ++i) if (bd[i].success_code == SuccessCode::Success) { if (bd[i].path_point == e.x) { cur = long(i); eg = true; } break; } } else if (!e.init && cur >= 0) { maxp[cur] = std::max(maxp[cur], e.next); if (e.next > e.prev) inc[cur] = true; } } return begun == N; } };
template<class Tr, class EG, class SS> bool solve(Known& q, std::string const& name, bool last) {
    using CT = typename bt::TrackerTraits<Tr>::BaseComplexType; bertini::DefaultPrecision(std::is_same<Tr, bt::MultiplePrecisionTracker>::value ? 30 : 16); auto zd = ba::ZeroDim<Tr, EG, bertini::System, SS>(q.r.S); if (std::is_same<Tr, bt::MultiplePrecisionTracker>::value) { auto c = zd.template Get<ba::ZeroDimConfig<CT>>(); c.initial_ambient_precision = 30; zd.Set(c); }
    auto tol = zd.template Get<ba::TolerancesConfig>(); tol.newton_before_endgame = 1e-6; tol.newton_during_endgame = 1e-7; zd.Set(tol); auto ec = zd.template GetFromEndgame<be::EndgameConfig>(); ec.final_tolerance = 1e-9; zd.SetToEndgame(ec); auto pp = zd.template Get<ba::PostProcessingConfig>(); pp.same_point_tolerance = 1e-4; zd.Set(pp); double mtol = 1e-5; bool all = coin(2); if (all) { ba::MidPathConfig mc; mtol = coin(4) ? 1e6 : std::exp(rd(-1.5, 1.0)); mc.same_point_tolerance = mtol; zd.SetMidpath(mc); } unsigned attempts = ri(0, 3); { auto c = zd.template Get<ba::ZeroDimConfig<CT>>(); c.max_num_crossed_path_resolve_attempts = attempts; zd.Set(c); } 
    ctx(q.r.desc + " :: " + name + (all ? " with the midpath tolerance " + str(mtol) + " and " + str(attempts) + " attempts" : "")); int times = coin(4) ? 2 : 1; bool allfound = true; for (int rep = 0; rep < times; ++rep) { auto& tr = zd.GetTracker(); Count<Tr> cnt; tr.AddObserver(cnt); 
        zd.Solve(); tr.RemoveObserver(cnt); auto& sol = zd.FinalSolutions(); auto& md = zd.FinalSolutionMetadata(); auto& bd = zd.EndgameBoundaryData(); size_t N = size_t(zd.StartSystem().NumStartPoints()); if (!check(sol.size() == N && md.size() == N && bd.size() == N, "solve-count", str(sol.size()) + " results for " + str(N) + " start points")) return true; if (q.full) check(N >= q.roots.size(), "solve-paths", "fewer paths than roots"); std::vector<int> hit(q.roots.size(), 0); std::vector<std::vector<MP>> fin(N); int succ = 0, pre = 0;
        for (size_t i = 0; i < N; ++i) { check(md[i].path_index == i && md[i].solution_index == i, "solve-index", "metadata of path " + str(i) + " carries index " + str(md[i].path_index)); check(md[i].pre_endgame_success == bd[i].success_code, "solve-boundary-code", "boundary code of path " + str(i)); if (bd[i].success_code == SuccessCode::Success) ++pre; 
            if (bd[i].success_code == SuccessCode::Success && coin(3)) { auto t = zd.template Get<ba::ZeroDimConfig<CT>>().endgame_boundary; auto p = bd[i].path_point; unsigned pr = bertini::Precision(p); bertini::DefaultPrecision(pr); bertini::Precision(t, pr); zd.Homotopy().precision(pr); auto v = zd.Homotopy().Eval(p, t); check(nrm<CT>(v) < 1e-3, "solve-boundary-point", "the point of path " + str(i) + " at the boundary has residual " + str(nrm<CT>(v))); }
            if (md[i].pre_endgame_success != SuccessCode::Success) { check(md[i].endgame_success != SuccessCode::Success, "solve-code", "endgame success after a failed path"); continue; } if (md[i].endgame_success != SuccessCode::Success) { cover(name + "-endgame-code" + str(int(md[i].endgame_success))); continue; } ++succ;
            auto v = sol[i]; unsigned pr = bertini::Precision(v); bertini::DefaultPrecision(pr); zd.TargetSystem().precision(pr); auto d = zd.TargetSystem().DehomogenizePoint(v); MV x; for (int k = 0; k < d.size(); ++k) x.push_back(up<CT>(d(k))); fin[i] = back<CT>(v); double res = nrm<CT>(zd.TargetSystem().Eval(v)); check(std::abs(res - double(md[i].function_residual)) <= 1e-9*(1 + res), "solve-residual", "stored residual " + str(double(md[i].function_residual)) + " of path " + str(i) + ", it is " + str(res)); if (q.regular) check(res < 1e-6, "solve-small", "success of path " + str(i) + " with residual " + str(res));
            bertini::DefaultPrecision(50); if (q.full) { double best = 1e9; int at = -1; for (size_t k = 0; k < q.roots.size(); ++k) { double e = 0; for (int m = 0; m < int(x.size()); ++m) { MP z = x[m]; z.precision(50); e = std::max(e, mag(MP(z - q.roots[k][m]))); } if (e < best) { best = e; at = int(k); } } check(best < (q.regular ? 1e-5 : 1e-3), "solve-root", "the end point of path " + str(i) + " is " + str(best) + " away from the nearest root"); hit[at]++; } }
        for (size_t i = 0; i < N; ++i) if (!fin[i].empty()) { int m = 1; bool clear = true; for (size_t j = 0; j < N; ++j) if (j != i && !fin[j].empty()) { double e = 0; for (size_t k = 0; k < fin[i].size(); ++k) e += std::pow(mag(MP(fin[i][k] - fin[j][k])), 2); e = std::sqrt(e); if (e < 1e-4) ++m; if (e > 0.9e-4 && e < 1.1e-4) clear = false; } if (clear) check(md[i].multiplicity == m, "solve-multiplicity", "multiplicity " + str(md[i].multiplicity) + " of path " + str(i) + ", expected " + str(m) + " repetition " + str(rep)); }
        long retr = cnt.started; check(retr >= long(N), "solve-tracked", str(retr) + " tracks for " + str(N) + " paths"); if (all && pre == int(N) && mtol < 100) { bertini::DefaultPrecision(zd.template Get<ba::ZeroDimConfig<CT>>().initial_ambient_precision); zd.StartSystem().precision(bertini::DefaultPrecision()); bool clear = true; std::set<size_t> re; std::vector<Vec<CT>> st; for (size_t i = 0; i < N; ++i) st.push_back(zd.StartSystem().template StartPoint<CT>(i)); for (size_t i = 0; i < N; ++i) for (size_t j = i+1; j < N; ++j) { double d = nrm<CT>(Vec<CT>(bd[i].path_point - bd[j].path_point))/nrm<CT>(bd[i].path_point), sd = nrm<CT>(Vec<CT>(st[i] - st[j])); if (std::abs(d - mtol) < 1e-2*mtol || std::abs(sd - mtol) < 1e-2*mtol) clear = false; if (d < mtol && !(sd < mtol)) { re.insert(i); re.insert(j); } } long at1 = 0; for (auto& e : cnt.ev) if (e.init && e.t > 0.99) ++at1; long want = long(N) + long(attempts)*long(re.size()); if (clear) { if (re.size() && attempts) cover("rerun"); check(at1 == want, "solve-rerun", str(at1) + " tracks from the start time, expected " + str(want) + " for " + str(re.size()) + " crossed paths"); } } if (bt::TrackerTraits<Tr>::IsAdaptivePrec) { std::vector<unsigned> mp; std::vector<bool> inc; if (cnt.split(bd, zd.template Get<ba::ZeroDimConfig<CT>>().initial_ambient_precision, mp, inc)) { cover("precision-metadata"); for (size_t i = 0; i < N; ++i) { if (inc[i]) cover("precision-rose"); check(md[i].precision_changed == inc[i], "solve-precision-changed", "precision_changed of path " + str(i) + " is " + str(md[i].precision_changed) + ", expected " + str(inc[i])); check(md[i].max_precision_used == mp[i], "solve-max-precision", "max_precision_used of path " + str(i) + " is " + str(md[i].max_precision_used) + ", expected " + str(mp[i])); } } } for (size_t k = 0; k < hit.size(); ++k) if (q.full && hit[k] == 0) allfound = false; cover(name + "-solved"); if (succ == int(N)) cover(name + "-all-succeeded"); }
    if (q.full && q.regular && last) check(allfound, "solve-all-roots", "a nonsingular isolated root is missed in three solves"); return allfound || !q.full || !q.regular;
}
template<class Tr> void one(Known& q, std::string const& tn) { using PS = typename be::EndgameSelector<Tr>::PSEG; using CA = typename be::EndgameSelector<Tr>::Cauchy; bool mh = q.r.groups.size() > 1, ps = coin(); namespace ss = bertini::start_system; for (int a = 0; a < 3; ++a) { bool last = a == 2; bool done; if (!mh) done = ps ? solve<Tr, PS, ss::TotalDegree>(q, tn + "-totaldegree-powerseries", last) : solve<Tr, CA, ss::TotalDegree>(q, tn + "-totaldegree-cauchy", last); else done = ps ? solve<Tr, PS, ss::MHomogeneous>(q, tn + "-mhom-powerseries", last) : solve<Tr, CA, ss::MHomogeneous>(q, tn + "-mhom-cauchy", last); if (done) return; cover("resolved"); } }
int main(int argc, char** argv) {
    init(argc, argv); alarm(850); for (int k = 0; k < (tier() ? 5000 : 600); ++k) guarded("midpath", [&] { if (coin()) midpath<D>(); else midpath<MP>(); });
    for (int k = 0; k < (tier() ? 400 : 24); ++k) { bertini::DefaultPrecision(k % 3 == 2 ? 30 : k % 6 == 4 ? 50 : 16); Known q; make(q, k % 4 == 2 ? 1 : k % 4 == 3 ? 2 : 0); guarded("solve", [&] { if (k % 3 == 0) one<bt::DoublePrecisionTracker>(q, "double"); else if (k % 3 == 1) one<bt::AMPTracker>(q, "adaptive"); else one<bt::MultiplePrecisionTracker>(q, "fixed"); }); }
    return finish();
}
