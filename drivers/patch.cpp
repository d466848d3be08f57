// bounded stand-in: patches on random products of spaces, both number types, any history of precision changes and copies
#include "common.hpp"
#include "bertini2/system/patch.hpp"
using namespace vt; using bertini::Vec; using bertini::Patch;
using Co = std::vector<std::vector<MP>>;
static Co coeffs(Patch const& p, std::vector<unsigned> const& s) {   // from the Jacobian at the highest precision
    bertini::DefaultPrecision(200); p.Precision(200); unsigned n = 0; for (auto a : s) n += a; Vec<MP> x(n); for (unsigned i = 0; i < n; ++i) x(i) = MP(0);
    auto J = p.Jacobian(x); Co c(s.size()); unsigned o = 0; for (size_t g = 0; g < s.size(); ++g) { for (unsigned j = 0; j < s[g]; ++j) c[g].push_back(J(g, o+j)); o += s[g]; } return c;
}
template<class T> T cv(MP const& z); template<> D cv<D>(MP const& z) { return todbl(z); } template<> MP cv<MP>(MP const& z) { return z; }
template<class T> double m_(T const& z); template<> double m_<D>(D const& z) { return std::abs(z); } template<> double m_<MP>(MP const& z) { return mag(z); }
template<class T> void verify(Patch const& p, std::vector<unsigned> const& s, Co const& c, double eps, std::string const& tag) {
    unsigned n = 0; for (auto a : s) n += a; unsigned G = s.size();
    auto pt = rand_point(n, 3); Vec<T> x(n); for (unsigned i = 0; i < n; ++i) x(i) = cv<T>(pt[i]);
    auto f = p.Eval(x); if (!check(f.size() == G, "patch-size", tag + " number of values")) return;
    auto lin = [&](Vec<T> const& y, unsigned g) { MP r = 0; unsigned o = 0; for (unsigned h = 0; h < g; ++h) o += s[h]; for (unsigned j = 0; j < s[g]; ++j) r += MP(y(o+j))*c[g][j]; return r; };
    for (unsigned g = 0; g < G; ++g) check(mag(MP(MP(f(g)) - (lin(x, g) - MP(1)))) <= eps*100*n, "patch-eval", tag + " group " + str(g) + ": value " + str(f(g)) + " expected " + str(MP(lin(x, g) - MP(1))));
    Vec<T> big(G + 3); for (unsigned i = 0; i < G+3; ++i) big(i) = T(7); p.EvalInPlace(big, x);
    for (unsigned i = 0; i < 3; ++i) check(big(i) == T(7), "patch-inplace", tag + " rows before the patch rows were changed"); for (unsigned g = 0; g < G; ++g) check(m_<T>(big(g+3) - f(g)) <= eps*100, "patch-inplace", tag + " last rows");
    auto J = p.Jacobian(x); check(J.rows() == G && J.cols() == n, "patch-jacobian-size", tag);
    unsigned o = 0; for (unsigned g = 0; g < G; ++g) { for (unsigned j = 0; j < n; ++j) { MP w = (j >= o && j < o + s[g]) ? c[g][j-o] : MP(0); check(mag(MP(MP(J(g, j)) - w)) <= eps*10, "patch-jacobian", tag + " entry " + str(g) + "," + str(j) + " is " + str(J(g, j)) + " expected " + str(w)); } o += s[g]; }
    Mat<T> JB(G+2, n); for (unsigned i = 0; i < G+2; ++i) for (unsigned j = 0; j < n; ++j) JB(i, j) = T(5); p.JacobianInPlace(JB, x);
    for (unsigned i = 0; i < 2; ++i) for (unsigned j = 0; j < n; ++j) check(JB(i, j) == T(5), "patch-jacobian-inplace", tag + " rows before");
    o = 0; for (unsigned g = 0; g < G; ++g) { for (unsigned j = o; j < o+s[g]; ++j) check(m_<T>(JB(g+2, j) - J(g, j)) <= eps, "patch-jacobian-inplace", tag); o += s[g]; }
    auto y = p.RescalePoint(x); o = 0; bool ok = y.size() == int(n); check(ok, "patch-rescale-size", tag); if (!ok) return;
    for (unsigned g = 0; g < G; ++g) { MP d = lin(x, g); if (mag(d) < 1e-2) { o += s[g]; continue; } for (unsigned j = o; j < o+s[g]; ++j) check(mag(MP(MP(y(j)) - MP(x(j))/d)) <= eps*1000*n/mag(d)/mag(d)*4, "patch-rescale", tag + " coordinate " + str(j) + " is " + str(y(j)) + " expected " + str(MP(MP(x(j))/d))); o += s[g]; }
    cover(tag);
}
int main(int argc, char** argv) {
    init(argc, argv); int rounds = tier() ? 1500 : 150;
    for (int t = 0; t < rounds; ++t) {
        std::vector<unsigned> s(ri(1, 4)); for (auto& a : s) a = ri(1, 5); unsigned n = 0; std::string d; for (auto a : s) { n += a; d += std::to_string(a) + " "; }
        bertini::DefaultPrecision(ri(17, 120)); int kind = ri(0, 2); ctx("patch with group sizes " + d + "kind " + str(kind));
        guarded("patch", [&] {
            Patch p = kind == 0 ? Patch(s) : kind == 1 ? Patch::Random(s) : Patch::RandomReal(s);
            check(p.NumVariables() == n && p.NumVariableGroups() == s.size(), "patch-counts", "number of variables or groups");
            Co c = coeffs(p, s); if (kind == 2) for (auto& r : c) for (auto& z : r) check(boost::multiprecision::imag(z) == 0, "patch-real", "coefficient of a real patch is not real");
            Patch q(p); check(q == p && !(q != p), "patch-copy", "a copy differs from its original"); Patch r(s); if (n) check(r != p, "patch-equal", "two random patches compare equal");
            Patch* cur = &p; std::string h;
            for (int k = 0; k < 8; ++k) {
                int w = ri(0, 3); if (w == 0) { cur = coin() ? &p : &q; h += cur == &p ? "P" : "Q"; }
                if (w == 1) { q = Patch(*cur); h += "c"; cur = &q; }
                int prec = ri(17, 150); bertini::DefaultPrecision(prec); cur->Precision(prec); h += std::to_string(prec) + ","; ctx("patch sizes " + d + "kind " + str(kind) + " history " + h);
                check(cur->Precision() == unsigned(prec), "patch-precision", "reported precision");
                if (coin()) verify<D>(*cur, s, c, 1e-15, "double"); else verify<MP>(*cur, s, c, std::pow(10.0, 1.0-prec), "multiprecision");
            }
            bertini::DefaultPrecision(200); Co c2 = coeffs(p, s), c3 = coeffs(q, s); for (size_t g = 0; g < s.size(); ++g) for (size_t j = 0; j < s[g]; ++j) check(mag(MP(c2[g][j]-c[g][j])) < 1e-198 && mag(MP(c3[g][j]-c[g][j])) < 1e-198, "patch-coefficients-lost", "coefficients after precision changes differ from the original ones");
        });
    }
    return finish();
}
