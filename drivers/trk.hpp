// random square homotopies with an oracle: values, Jacobian, time derivative, linear algebra in multiple precision
#pragma once
#include "sys.hpp"
namespace vt {
using MM = std::vector<std::vector<MP>>; using MV = std::vector<MP>;
struct Lin { MV x; double cond = 0, ninv = 0, nj = 0; bool ok = true; };      // solution of A x = b with norms of A and its inverse
inline bool inverse(MM a, MM& inv) { size_t n = a.size(); inv.assign(n, MV(n, MP(0))); for (size_t i = 0; i < n; ++i) inv[i][i] = 1;
    for (size_t c = 0; c < n; ++c) { size_t p = c; for (size_t r = c; r < n; ++r) if (mag(a[r][c]) > mag(a[p][c])) p = r; if (mag(a[p][c]) < 1e-12) return false; std::swap(a[p], a[c]); std::swap(inv[p], inv[c]); MP d = a[c][c]; for (size_t k = 0; k < n; ++k) { a[c][k] /= d; inv[c][k] /= d; }
        for (size_t r = 0; r < n; ++r) if (r != c) { MP f = a[r][c]; for (size_t k = 0; k < n; ++k) { a[r][k] -= f*a[c][k]; inv[r][k] -= f*inv[c][k]; } } } return true; }
inline double fro(MM const& a) { double s = 0; for (auto& r : a) for (auto& z : r) { double m = mag(z); s += m*m; } return std::sqrt(s); }
inline double inf_(MV const& v) { double s = 0; for (auto& z : v) s = std::max(s, mag(z)); return s; }
inline double two(MV const& v) { double s = 0; for (auto& z : v) s += mag(z)*mag(z); return std::sqrt(s); }
inline MV mul(MM const& a, MV const& b) { MV r; for (auto& row : a) { MP s = 0; for (size_t j = 0; j < b.size(); ++j) s += row[j]*b[j]; r.push_back(s); } return r; }
inline Lin solve(MM const& a, MV const& b) { Lin l; MM inv; if (!inverse(a, inv)) { l.ok = false; return l; } l.x = mul(inv, b); l.nj = fro(a); l.ninv = fro(inv); l.cond = l.nj*l.ninv; return l; }
struct Hom {      // a square system with a path variable
    RSys r; bertini::Patch patch; bool has_patch = false; int N = 0; std::vector<std::vector<E>> J; std::vector<E> T;
    bool finish() { r.oracle(); N = r.n; J.clear(); T.clear(); for (auto& e : r.F) { J.push_back({}); for (int j = 0; j < r.n; ++j) J.back().push_back(diff(e, j)); T.push_back(diff(e, r.n)); } has_patch = r.S.IsPatched(); if (has_patch) { patch = r.S.GetPatch(); } return true; }
    MV pt(MV const& x, MP const& t) { MV p = x; p.push_back(t); return p; }
    Vec<MP> ev(MV const& x) { Vec<MP> v(N); for (int i = 0; i < N; ++i) { MP z = x[i]; z.precision(bertini::DefaultPrecision()); v(i) = z; } return v; }
    bool values(MV const& x, MP const& t, MV& f) { f.clear(); auto p = pt(x, t); for (auto& e : r.F) { auto w = eval(e, p); if (!w.ok || mag(w.v) > 1e4 || w.err > 1e5) return false; f.push_back(w.v); } if (has_patch) { patch.Precision(bertini::DefaultPrecision()); auto q = patch.Eval(ev(x)); for (int i = 0; i < q.size(); ++i) f.push_back(q(i)); } return true; }
    bool jac(MV const& x, MP const& t, MM& j) { j.clear(); auto p = pt(x, t); for (auto& row : J) { j.push_back({}); for (auto& e : row) { auto w = eval(e, p); if (!w.ok || mag(w.v) > 1e4 || w.err > 1e5) return false; j.back().push_back(w.v); } } if (has_patch) { patch.Precision(bertini::DefaultPrecision()); auto q = patch.Jacobian(ev(x)); for (int i = 0; i < q.rows(); ++i) { j.push_back({}); for (int k = 0; k < N; ++k) j.back().push_back(q(i, k)); } } return true; }
    bool dt(MV const& x, MP const& t, MV& f) { f.clear(); auto p = pt(x, t); for (auto& e : T) { auto w = eval(e, p); if (!w.ok || mag(w.v) > 1e4 || w.err > 1e5) return false; f.push_back(w.v); } while (int(f.size()) < N) f.push_back(MP(0)); return true; }
    // Newton step and path tangent, with the condition number
    bool newton(MV const& x, MP const& t, Lin& l) { MV f; MM j; if (!values(x, t, f) || !jac(x, t, j)) return false; for (auto& z : f) z = -z; l = solve(j, f); return l.ok; }
    bool tangent(MV const& x, MP const& t, Lin& l) { MV f; MM j; if (!dt(x, t, f) || !jac(x, t, j)) return false; for (auto& z : f) z = -z; l = solve(j, f); return l.ok; }
    void precision(int p) { bertini::DefaultPrecision(p); r.S.precision(p); }
};
inline void make_hom(Hom& h, bool allow_patch = true, int depth = 3) {
    RSys& r = h.r; bool pat = allow_patch && coin(3); SysOpt o; o.poly = true; o.hom = false; o.ungrouped = !pat; o.maxg = 2; o.depth = depth; o.maxpow = 3; structure(r, o); if (!r.path) { r.path = true; r.g.nv = r.nv + 1; } r.g.pool.clear();
    // every function depends on its own variable so that Jacobians are often regular
    for (int i = 0; i < r.nv; ++i) { E e = gen(r.g, ri(0, depth)); e = mk(coin() ? ADD : SUB, {mk(MUL, {cint(ri(1, 3)), var(i)}), e}); if (coin(3)) e = mk(ADD, {e, mk(MUL, {var(r.nv), var(ri(0, r.nv-1))})}); r.f.push_back(e); }
    add_structure(r, r.S); r.S.SetEvalMethod(coin() ? EvalMethod::SLP : EvalMethod::FunctionTree); r.S.SetDerivMethod(coin() ? DerivMethod::JacobianNode : DerivMethod::Derivatives); add_functions(r, r.S, false);
    if (pat) { bool fits = true; for (auto& e : r.f) for (auto& g : r.groups) { int d = fdeg(e, std::set<int>(g.v.begin(), g.v.end())); if (d < 0 || d > 6) fits = false; } if (fits) { r.S.Homogenize(); r.S.AutoPatch(); r.homog = r.patched = true; } }
    h.finish(); r.show_();
}
template<class T> MV back(Vec<T> const& v) { MV r; for (int i = 0; i < v.size(); ++i) r.push_back(up<T>(v(i))); return r; }
struct Path { Hom h; std::vector<E> phi; };
inline E poly(int v, int d) { E e = mk(FLT, {}, ri(-900, 900), 1, ri(-900, 900)); for (int k = 1; k <= d; ++k) e = mk(ADD, {e, mk(MUL, {mk(FLT, {}, ri(-700, 700), 1, ri(-700, 700)), mk(IPOW, {var(v)}, k)})}); return e; }
// a homotopy with the path phi: G(x,t) - G(phi(t),t)
inline void make_path(Path& p, int nv) {
    RSys& r = p.h.r; r.nv = nv; Grp g; g.kind = coin(4) ? 2 : 0; for (int i = 0; i < nv; ++i) g.v.push_back(i); r.groups.push_back(g); r.path = true; r.b.x = make_vars(nv); r.t = bertini::node::Variable::Make("t"); r.b.x.push_back(r.t); r.b.style = ri(0, 3); r.g.nv = nv+1; r.g.poly = true;
    std::vector<E> s; for (int i = 0; i < nv; ++i) { p.phi.push_back(poly(nv, 4)); s.push_back(p.phi.back()); } s.push_back(var(nv));
    for (int i = 0; i < nv; ++i) { E G = mk(MUL, {cint(3), var(i)}); for (int k = 0; k < 3; ++k) { E m = mk(FLT, {}, ri(-600, 600), 1, ri(-600, 600)); for (int j = 0; j < 2; ++j) m = mk(MUL, {m, mk(IPOW, {var(ri(0, nv))}, ri(1, 3))}); G = mk(ADD, {G, mk(MUL, {m, var(ri(0, nv-1))})}); } r.f.push_back(mk(SUB, {G, subst(G, s)})); }
    add_structure(r, r.S); r.S.SetEvalMethod(coin() ? EvalMethod::SLP : EvalMethod::FunctionTree); r.S.SetDerivMethod(coin() ? DerivMethod::JacobianNode : DerivMethod::Derivatives); add_functions(r, r.S, false); p.h.finish(); r.show_();
}
inline MV at(Path& p, MP const& t) { MV z(p.h.N+1, t), r; for (auto& e : p.phi) r.push_back(eval(e, z).v); return r; }
}
