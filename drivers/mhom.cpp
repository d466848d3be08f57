// bounded stand-in: multihomogeneous start systems of random square polynomial systems in affine groups of variables
#include "sys.hpp"
#include "bertini2/system/start_systems.hpp"
using namespace vt; using bertini::start_system::MHomogeneous; namespace bn = bertini::node;
using DM = std::vector<std::vector<int>>;
// the multihomogeneous Bezout number: coefficient of prod a_j^{n_j} in prod_i sum_j d_ij a_j
static unsigned long long bezout(DM const& d, std::vector<int> n, size_t row = 0) { if (row == d.size()) { for (int a : n) if (a) return 0; return 1; } unsigned long long r = 0; for (size_t j = 0; j < n.size(); ++j) if (n[j] && d[row][j]) { --n[j]; r += d[row][j]*bezout(d, n, row+1); ++n[j]; } return r; }
template<class T> Vec<T> values(System const& S, Vec<T> const& x) { return S.Eval(x); }
template<class T> void roots(System const& mh, std::function<Vec<T>(unsigned long long)> sp, unsigned long long n, int prec, int dm, std::string const& key) {
    double eps = eps_<T>(prec); std::vector<Vec<T>> seen; std::vector<unsigned long long> ix; for (unsigned long long i = 0; i < n; ++i) ix.push_back(i); if (n > 40) { std::shuffle(ix.begin(), ix.end(), rng()); ix.resize(40); std::sort(ix.begin(), ix.end()); }
    for (auto i : ix) {
        Vec<T> x = sp(i); if (!check(size_t(x.size()) == mh.NumVariables(), key + "-size", "size of the start point")) return;
        double big = 1; bool fin = true; for (int j = 0; j < x.size(); ++j) { double m = m_<T>(x(j)); if (!(m < 1e300)) fin = false; big = std::max(big, m); }
        if (!check(fin, key + "-finite", "start point " + str(i) + " is not finite")) continue; if (big > 1e3) { cover(key + "-large"); seen.push_back(x); continue; }     // ill conditioned linear system
        Vec<T> v = values<T>(mh, x); for (int j = 0; j < v.size(); ++j) check(m_<T>(v(j)) <= 1e6*eps*std::pow(4*big, dm), key + "-root", "start point " + str(i) + " has value " + str(v(j)) + " in row " + str(j));
        seen.push_back(x); cover(key + (mh.IsPatched() ? "-patched" : "-affine"));
    }
    for (size_t a = 0; a < seen.size(); ++a) for (size_t b = 0; b < a; ++b) { double d = 0, s = 0; for (int j = 0; j < seen[a].size(); ++j) { d = std::max(d, m_<T>(seen[a](j) - seen[b](j))); s = std::max(s, m_<T>(seen[a](j))); } check(d > 1e-9*s, key + "-distinct", "start points " + str(ix[a]) + " and " + str(ix[b]) + " coincide"); }
}
template<class T> void all(MHomogeneous const& mh, unsigned long long n, int prec, int dm, std::string const& key) { roots<T>(mh, [&](unsigned long long i) { return mh.StartPoint<T>(i); }, n, prec, dm, key); }
int main(int argc, char** argv) {
    init(argc, argv); int rounds = tier() ? 1500 : 160; alarm(850);
    for (int t = 0; t < rounds; ++t) {
        int ng = ri(1, 3), nv = 0; std::vector<int> sz; DM gv; for (int k = 0; k < ng; ++k) { int s = ri(1, ng == 1 ? 3 : 2); sz.push_back(s); gv.push_back({}); for (int i = 0; i < s; ++i) gv.back().push_back(nv++); }
        Builder b; b.x = make_vars(nv); b.style = ri(0, 3); std::vector<E> f; DM d(nv); int dm = 1; bertini::DefaultPrecision(ri(17, 90));
        // a column of the matrix must not vanish, nor a row
        bool ok; do { ok = true; for (auto& r : d) { r.assign(ng, 0); int sum = 0; for (auto& a : r) { a = coin(3) ? 0 : ri(1, nv > 3 ? 2 : 3); sum += a; } if (!sum) ok = false; dm = std::max(dm, sum); } for (int j = 0; j < ng; ++j) { int c = 0; for (auto& r : d) c += r[j]; if (!c) ok = false; } } while (!ok);
        for (int i = 0; i < nv; ++i) { E e = cint(ri(1, 5)); for (int j = 0; j < ng; ++j) { if (!d[i][j]) continue; E h = cint(ri(-3, 3)); for (int k = 0, K = ri(1, 3); k < K; ++k) { int left = k ? ri(0, d[i][j]) : d[i][j]; E m = mk(RAT, {}, ri(1, 7), 3); for (size_t v = 0; v < gv[j].size(); ++v) { int a = v + 1 == gv[j].size() ? left : ri(0, left); left -= a; if (a) m = mk(MUL, {m, a == 1 ? var(gv[j][v]) : mk(IPOW, {var(gv[j][v])}, a)}); } h = mk(coin() ? ADD : SUB, {h, m}); } e = j == 0 || coin(3) ? mk(MUL, {h, e}) : mk(MUL, {e, h}); } if (coin(3)) e = mk(ADD, {e, cint(2)}); f.push_back(e); }
        std::string s = "multihomogeneous start system of {"; for (auto& e : f) s += show(e) + "; "; s += "} groups"; for (int a : sz) s += " " + str(a); bool patched = coin(); if (patched) s += " homogenized and patched"; ctx(s);
        guarded("mhom", [&] {
            System S; for (auto& g : gv) { bertini::VariableGroup vg; for (int v : g) vg.push_back(b.x[v]); S.AddVariableGroup(vg); } for (auto& e : f) S.AddFunction(b(e)); if (patched) { S.Homogenize(); S.AutoPatch(); }
            MHomogeneous mh(S); mh.SetEvalMethod(EvalMethod::FunctionTree); mh.SetDerivMethod(DerivMethod::JacobianNode); unsigned long long w = bezout(d, sz);
            if (!check(mh.NumStartPoints() == w, "mhom-number", "number of start points " + str(mh.NumStartPoints()) + " expected " + str(w))) return; if (w == 0) cover("mhom-no-start-points");
            check(mh.NumVariables() == S.NumVariables() && mh.NumTotalFunctions() == S.NumTotalFunctions(), "mhom-shape", "shape"); for (int j = 0; j < ng; ++j) { auto dg = mh.Degrees(S.VariableGroups()[j]); for (int i = 0; i < nv; ++i) check(dg[i] == d[i][j], "mhom-degrees", "degree of start function " + str(i) + " in group " + str(j) + " is " + str(dg[i]) + " expected " + str(d[i][j])); }
            for (int i = 0; i < nv; ++i) for (int j = 0; j < ng; ++j) check(mh.degree_matrix_(i, j) == d[i][j], "mhom-degree-matrix", "entry " + str(i) + "," + str(j));
            for (int k = 0; k < 3; ++k) { if (coin(3)) all<D>(mh, w, 16, dm, "mhom-double"); else { int p = ri(17, 100); bertini::DefaultPrecision(p); mh.precision(p); ctx(s + " precision " + str(p)); all<MP>(mh, w, p, dm, "mhom-multiprecision"); } }
            if (coin(3)) { mh *= bn::Rational::Make(bertini::mpq_rational(ri(1, 9), 7), bertini::mpq_rational(ri(-5, 5), 3)); check(mh.NumStartPoints() == w, "mhom-number", "number of start points after scaling"); all<D>(mh, w, 16, dm, "mhom-scaled"); int p = ri(17, 60); bertini::DefaultPrecision(p); mh.precision(p); all<MP>(mh, w, p, dm, "mhom-scaled-multiprecision"); }
            if (coin()) { bool thrown = false; try { mh.StartPoint<D>(w); } catch (std::exception const&) { thrown = true; } check(thrown, "mhom-index", "an index past the last start point is accepted"); }
        });
    }
    for (int k = 0; k < 4; ++k) { ctx("unsuitable system of kind " + str(k)); bool thrown = false; auto x = make_vars(3); System S; bertini::VariableGroup a{x[0], x[1]}, c{x[2]};
        try { if (k == 0) { S.AddVariableGroup(a); S.AddFunction(x[0]*x[1]); } if (k == 1) { S.AddVariableGroup(a); S.AddPathVariable(x[2]); S.AddFunction(x[0]*x[2]); S.AddFunction(x[1]); } if (k == 2) { S.AddVariableGroup(a); S.AddFunction(bn::exp(x[0])); S.AddFunction(x[1]); } if (k == 3) { S.AddVariableGroup(a); S.AddFunction(x[0]); S.AddFunction(x[1]); S.AddFunction(x[1]*x[0]); } MHomogeneous mh(S); } catch (std::exception const&) { thrown = true; }
        check(thrown, "mhom-unsuitable", "accepted"); cover("mhom-unsuitable"); }
    return finish();
}
