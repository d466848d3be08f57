// bounded stand-in: random linear slices
#include "common.hpp"
#include "bertini2/system/slice.hpp"
using namespace vt; using bertini::Vec; using bertini::LinearSlice;
template<class T> T cv(MP const& z); template<> D cv<D>(MP const& z) { return todbl(z); } template<> MP cv<MP>(MP const& z) { return z; }
template<class T> void verify(LinearSlice const& s, Mat<MP> const& C, Vec<MP> const& K, bool hom, double eps, std::string const& tag) {
    unsigned d = C.rows(), n = C.cols(); auto p = rand_point(n, 2); Vec<T> x(n); for (unsigned i = 0; i < n; ++i) x(i) = cv<T>(p[i]); Mat<T> xm(n, 1); for (unsigned i = 0; i < n; ++i) xm(i, 0) = x(i);
    auto f = s.Eval(x); Vec<T> g(coin() ? d : 0); s.Eval(g, x); if (!check(f.size() == d && g.size() == d, "slice-size", tag)) return;
    for (unsigned i = 0; i < d; ++i) { MP w = hom ? MP(0) : K(i); for (unsigned j = 0; j < n; ++j) w += C(i, j)*MP(x(j)); double tol = eps*100*(n+1);
        check(mag(MP(MP(f(i)) - w)) <= tol, "slice-eval", tag + " row " + str(i) + " is " + str(f(i)) + " expected " + str(w)); check(mag(MP(MP(g(i)) - w)) <= tol, "slice-eval-inplace", tag + " row " + str(i) + " is " + str(g(i)) + " expected " + str(w)); }
    Mat<T> J = s.Jacobian(xm), H(1, 1); s.Jacobian(H, xm); if (!check(J.rows() == d && J.cols() == n && H.rows() == d && H.cols() == n, "slice-jacobian-size", tag)) return;
    for (unsigned i = 0; i < d; ++i) for (unsigned j = 0; j < n; ++j) check(mag(MP(MP(J(i, j)) - C(i, j))) <= eps*10 && mag(MP(MP(H(i, j)) - C(i, j))) <= eps*10, "slice-jacobian", tag + " entry " + str(i) + "," + str(j));
    cover(tag + (hom ? "-homogeneous" : "-affine"));
}
int main(int argc, char** argv) {
    init(argc, argv); int rounds = tier() ? 3000 : 300;
    for (int t = 0; t < rounds; ++t) {
        int n = ri(1, 6), d = ri(1, 5); bool hom = coin(), orth = coin(), real = coin(); bertini::DefaultPrecision(ri(20, 100)); auto v = make_vars(n); bertini::VariableGroup vg(v.begin(), v.end());
        ctx("slice of " + str(n) + " variables, dimension " + str(d) + (hom ? " homogeneous" : "") + (orth ? " orthogonal" : "") + (real ? " real" : ""));
        guarded("slice", [&] {
            LinearSlice s = real ? LinearSlice::RandomReal(vg, d, hom, orth) : LinearSlice::RandomComplex(vg, d, hom, orth);
            check(s.Dimension() == unsigned(d) && s.NumVariables() == unsigned(n), "slice-counts", "dimension or number of variables");
            bertini::DefaultPrecision(200); s.Precision(200); Vec<MP> z(n); Mat<MP> zm(n, 1); for (int i = 0; i < n; ++i) z(i) = zm(i, 0) = MP(0); Mat<MP> C = s.Jacobian(zm); Vec<MP> K = s.Eval(z);
            if (hom) for (int i = 0; i < d; ++i) check(mag(K(i)) == 0, "slice-constants", "a homogeneous slice has constants");
            else { double m = 0; for (int i = 0; i < d; ++i) m += mag(K(i)); check(m > 0, "slice-constants", "an affine slice has no constants"); }
            std::string h; auto base = R().ctx;
            for (int k = 0; k < 6; ++k) { int prec = coin(5) ? 16 : ri(17, 150); if (prec > 16) bertini::DefaultPrecision(prec); s.Precision(prec); h += str(prec) + ","; ctx(base + " history " + h); check(s.Precision() == unsigned(prec), "slice-precision", "reported precision");
                LinearSlice q(s); LinearSlice& u = coin() ? q : s; if (coin() || prec == 16) verify<D>(u, C, K, hom, 1e-15, "double"); else verify<MP>(u, C, K, hom, std::pow(10.0, 1.0-prec), "multiprecision"); }
        });
    }
    return finish();
}
