// bounded stand-in: total-degree start systems of random square polynomial systems in one affine group
#include "sys.hpp"
#include "bertini2/system/start_systems.hpp"
using namespace vt; using bertini::start_system::TotalDegree; namespace bn = bertini::node;
template<class T> void roots(System const& td, std::function<Vec<T>(unsigned long long)> sp, unsigned long long n, int prec, std::vector<int> const& deg, std::string const& key) {
    double eps = eps_<T>(prec); std::vector<Vec<T>> seen; std::vector<unsigned long long> ix;
    for (unsigned long long i = 0; i < n; ++i) ix.push_back(i); if (n > 40) { std::shuffle(ix.begin(), ix.end(), rng()); ix.resize(40); ix.push_back(n-1); ix.push_back(0); std::sort(ix.begin(), ix.end()); ix.erase(std::unique(ix.begin(), ix.end()), ix.end()); }
    for (auto i : ix) {
        Vec<T> x = sp(i); if (!check(size_t(x.size()) == td.NumVariables(), key + "-size", "size of the start point")) return;
        double big = 1; for (int j = 0; j < x.size(); ++j) big = std::max(big, m_<T>(x(j)));
        Vec<T> v = td.Eval(x); int dm = 1; for (int d : deg) dm = std::max(dm, d);
        for (int j = 0; j < v.size(); ++j) check(m_<T>(v(j)) <= 1e4*eps*std::pow(big, dm), key + "-root", "start point " + str(i) + " has value " + str(v(j)) + " in row " + str(j));
        seen.push_back(x);
    }
    bool hom = td.IsPatched();
    for (size_t a = 0; a < seen.size(); ++a) for (size_t b = 0; b < a; ++b) { double d = 0, s = 0; for (int j = 0; j < seen[a].size(); ++j) { d = std::max(d, m_<T>(seen[a](j) - seen[b](j))); s = std::max(s, m_<T>(seen[a](j))); } check(d > 1e-6*s, key + "-distinct", "start points " + str(ix[a]) + " and " + str(ix[b]) + " coincide"); }
    cover(key + (hom ? "-patched" : "-affine"), ix.size());
}
template<class T> void all(TotalDegree const& td, unsigned long long n, int prec, std::vector<int> const& deg, std::string const& key) { roots<T>(td, [&](unsigned long long i) { return td.StartPoint<T>(i); }, n, prec, deg, key); }
static Gen pg(int nv) { Gen g; g.nv = nv; g.poly = true; g.maxpow = 3; return g; }
int main(int argc, char** argv) {
    init(argc, argv); int rounds = tier() ? 1500 : 160; alarm(850);
    for (int t = 0; t < rounds; ++t) {
        int nv = ri(1, 4); Gen g = pg(nv); Builder b; b.x = make_vars(nv); b.style = ri(0, 3); std::vector<int> deg; std::vector<E> f; std::set<int> all_v; for (int i = 0; i < nv; ++i) all_v.insert(i);
        int cap = nv == 1 ? 12 : nv == 2 ? 9 : 5, kind = ri(0, 5); bertini::DefaultPrecision(ri(17, 90));
        for (int i = 0; i < nv; ++i) { E e; int d = 0; do { if (kind == 0) { int p = ri(1, cap); e = cint(0); for (int k = 0; k < 2; ++k) { E m = cint(ri(1, 5)); int left = p; for (int v = 0; v < nv; ++v) { int a = v + 1 == nv ? left : ri(0, left); left -= a; if (a) m = mk(MUL, {m, mk(IPOW, {var(v)}, a)}); } e = mk(ADD, {e, m}); } } else e = gen(g, ri(1, 4)); d = fdeg(e, all_v); } while (d < 1 || d > cap); f.push_back(e); deg.push_back(d); }
        std::string s = "total degree start system of {"; for (auto& e : f) s += show(e) + "; "; s += "}"; bool patched = coin(); if (patched) s += " homogenized and patched"; ctx(s);
        guarded("td", [&] {
            System S; bertini::VariableGroup vg(b.x.begin(), b.x.end()); S.AddVariableGroup(vg); for (auto& e : f) S.AddFunction(b(e)); if (patched) { S.Homogenize(); S.AutoPatch(); }
            TotalDegree td(S); unsigned long long w = 1; for (int d : deg) w *= d;
            if (!check(td.NumStartPoints() == w, "td-number", "number of start points " + str(td.NumStartPoints()) + " expected " + str(w))) return;
            check(td.NumVariables() == S.NumVariables() && td.NumTotalFunctions() == S.NumTotalFunctions(), "td-shape", "shape"); auto dg = td.Degrees(); for (int i = 0; i < nv; ++i) check(dg[i] == deg[i], "td-degrees", "degree of start function " + str(i));
            td.SetEvalMethod(coin() ? EvalMethod::SLP : EvalMethod::FunctionTree);
            for (int k = 0; k < 3; ++k) { if (coin(3)) all<D>(td, w, 16, deg, "td-double"); else { int p = ri(17, 100); bertini::DefaultPrecision(p); td.precision(p); ctx(s + " precision " + str(p)); all<MP>(td, w, p, deg, "td-multiprecision"); } }
            if (coin(3)) { TotalDegree tb = td; N q = bn::Rational::Make(bertini::mpq_rational(ri(1, 9), 7), bertini::mpq_rational(ri(-5, 5), 3)); System C = bertini::Clone(static_cast<System const&>(td)); C *= q; roots<D>(C, [&](unsigned long long i) { return td.StartPoint<D>(i); }, w, 16, deg, "td-scaled"); 
                if (coin()) { auto r = td.RandomValues().size(); check(r == size_t(nv), "td-random-values", "number of random values"); } }
            if (coin(3)) { td *= bn::Rational::Make(bertini::mpq_rational(ri(1, 9), 7), bertini::mpq_rational(ri(-5, 5), 3)); check(td.NumStartPoints() == w, "td-number", "number of start points after scaling"); all<D>(td, w, 16, deg, "td-scaled"); int p = ri(17, 60); bertini::DefaultPrecision(p); td.precision(p); all<MP>(td, w, p, deg, "td-scaled-multiprecision"); }
            if (coin()) { bool thrown = false; try { td.StartPoint<D>(w); } catch (std::exception const&) { thrown = true; } check(thrown, "td-index", "an index past the last start point is accepted"); }
        });
    }
    // unsuitable systems are refused
    for (int k = 0; k < 6; ++k) { ctx("unsuitable system of kind " + str(k)); bool thrown = false; auto x = make_vars(3); System S; bertini::VariableGroup a{x[0], x[1]}, c{x[2]};
        try { if (k == 0) { S.AddVariableGroup(a); S.AddFunction(x[0]*x[1]); } if (k == 1) { S.AddVariableGroup(a); S.AddVariableGroup(c); S.AddFunction(x[0]); S.AddFunction(x[1]); S.AddFunction(x[2]); } if (k == 2) { S.AddHomVariableGroup(a); S.AddFunction(x[0]); S.AddFunction(x[1]); }
            if (k == 3) { S.AddVariableGroup(a); S.AddPathVariable(x[2]); S.AddFunction(x[0]*x[2]); S.AddFunction(x[1]); } if (k == 4) { S.AddVariableGroup(a); S.AddFunction(bn::exp(x[0])); S.AddFunction(x[1]); } if (k == 5) { S.AddVariableGroup(a); S.AddFunction(x[0]); S.AddFunction(x[1]); S.AddFunction(x[1]*x[0]); } TotalDegree td(S); } catch (std::exception const&) { thrown = true; }
        check(thrown, "td-unsuitable", "accepted"); cover("td-unsuitable"); }
    return finish();
}
