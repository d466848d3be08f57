// random systems with an oracle: functions in the coordinates of the variable ordering (and the path variable as last coordinate)
#pragma once
#include "common.hpp"
#include "bertini2/system/system.hpp"
#include "fdeg.hpp"
namespace vt {
using bertini::Vec; using bertini::System; using bertini::EvalMethod; using bertini::DerivMethod;
template<class T> T cv(MP const& z); template<> inline D cv<D>(MP const& z) { return todbl(z); } template<> inline MP cv<MP>(MP const& z) { return z; }
template<class T> double m_(T const& z); template<> inline double m_<D>(D const& z) { return std::abs(z); } template<> inline double m_<MP>(MP const& z) { return mag(z); }
inline E subst(E e, std::vector<E> const& s) { if (e->op == VAR) return s.at(e->var); if (e->k.empty()) return e; auto f = std::make_shared<Ex>(*e); for (auto& c : f->k) c = subst(c, s); return f; }
struct Grp { int kind; std::vector<int> v; };      // kind 0 affine, 1 homogeneous, 2 ungrouped; natural variables
struct RSys {
    int nv = 0; std::vector<Grp> groups; bool path = false, homog = false, patched = false; Builder b; Gen g;
    std::vector<E> f;            // in natural variables 0..nv-1, path variable nv
    System S; std::string desc; V t;
    std::vector<E> F;            // in the coordinates of the ordering, path variable last
    std::vector<int> coord;      // natural variable -> coordinate
    int n = 0;                   // number of coordinates
    // the oracle functions for the present state (natural or homogenized)
    void oracle() {
        coord.assign(nv, -1); int c = 0; std::vector<E> s(nv+1); std::vector<std::pair<std::set<int>, int>> hs;
        for (auto& gr : groups) { int h = -1; if (gr.kind == 0 && homog) h = c++; for (int v : gr.v) { coord[v] = c; s[v] = h < 0 ? var(c) : mk(DIV, {var(c), var(h)}); ++c; } if (h >= 0) hs.push_back({std::set<int>(gr.v.begin(), gr.v.end()), h}); }
        n = c; s[nv] = var(n); F.clear();
        for (auto& e : f) { E r = subst(e, s); for (auto& h : hs) { int d = fdeg(e, h.first); if (d > 0) r = mk(MUL, {mk(IPOW, {var(h.second)}, d), r}); } F.push_back(r); }
    }
    void show_() { desc = "system {"; for (auto& e : f) desc += show(e) + "; "; desc += "} groups "; for (auto& gr : groups) { desc += "aho"[gr.kind]; desc += std::to_string(gr.v.size()) + " "; } if (path) desc += "path variable x" + std::to_string(nv) + " "; if (homog) desc += "homogenized "; if (patched) desc += "patched "; desc += S.GetEvalMethod() == EvalMethod::SLP ? "SLP " : "tree "; desc += S.GetDerivMethod() == DerivMethod::JacobianNode ? "jacobian-node " : "derivatives "; desc += "style " + std::to_string(b.style); }
    std::string opts;
};
inline E hom_of(Gen& g, std::vector<int> const& hv, int d, int depth) {     // homogeneous of degree d in the variables hv
    E r; for (int k = 0; k < 2; ++k) { E m = gen(g, depth); int left = d; for (size_t i = 0; i < hv.size(); ++i) { int a = i + 1 == hv.size() ? left : ri(0, left); left -= a; if (a) m = mk(MUL, {m, a == 1 ? var(hv[i]) : mk(IPOW, {var(hv[i])}, a)}); } r = r ? mk(ADD, {r, m}) : m; } return r;
}
struct SysOpt { bool poly = false, hom = true, ungrouped = true, path = true, slp = true; int nf = 0, maxg = 3, depth = 4, maxpow = 4; };
// the structure (variables) of the random system; functions are added by fill()
inline void structure(RSys& r, SysOpt o) {
    int ng = ri(1, o.maxg); for (int k = 0; k < ng; ++k) { Grp g; g.kind = coin(3) ? (o.hom ? 1 : 0) : coin(4) ? (o.ungrouped ? 2 : 0) : 0; int s = g.kind == 2 ? ri(1, 2) : g.kind == 1 ? ri(2, 3) : ri(1, 3); for (int i = 0; i < s; ++i) g.v.push_back(r.nv++); r.groups.push_back(g); }
    r.path = o.path && coin(); r.b.x = make_vars(r.nv); r.t = bertini::node::Variable::Make("t"); r.b.x.push_back(r.t); r.b.style = ri(0, 3); r.b.share = !coin(3);
    r.g.nv = r.nv + (r.path ? 1 : 0); r.g.poly = o.poly; r.g.maxpow = o.maxpow; r.g.trans = !o.poly && coin();
}
inline void add_structure(RSys& r, System& S) {
    for (auto& g : r.groups) { bertini::VariableGroup vg; for (int v : g.v) vg.push_back(r.b.x[v]); if (g.kind == 0) S.AddVariableGroup(vg); else if (g.kind == 1) S.AddHomVariableGroup(vg); else if (vg.size() == 1 && coin()) S.AddUngroupedVariable(vg[0]); else S.AddUngroupedVariables(vg); }
    if (r.path) S.AddPathVariable(r.t);
}
inline void fill(RSys& r, SysOpt o, int nf) {
    for (int i = 0; i < nf; ++i) {
        E e; std::vector<int> hv; for (auto& g : r.groups) if (g.kind == 1) hv = g.v;
        if (!hv.empty() && o.poly) { Gen g2 = r.g; std::vector<int> pool; for (auto& g : r.groups) if (g.kind != 1) for (int v : g.v) pool.push_back(v); if (r.path) pool.push_back(r.nv);
            g2.pool.clear(); std::vector<E> s(r.nv+1); for (int v = 0; v <= r.nv; ++v) s[v] = pool.empty() ? cint(ri(1, 4)) : var(pool[ri(0, pool.size()-1)]); for (int v : pool) s[v] = var(v);
            e = cint(1); bool first = true; for (auto& g : r.groups) if (g.kind == 1) { E h; for (int k = 0, d = ri(0, 2), K = ri(1, 2); k < K; ++k) { E m = subst(gen(g2, ri(0, o.depth-2)), s); int left = d; for (size_t j = 0; j < g.v.size(); ++j) { int a = j + 1 == g.v.size() ? left : ri(0, left); left -= a; if (a) m = mk(MUL, {m, mk(IPOW, {var(g.v[j])}, a)}); } h = h ? mk(ADD, {h, m}) : m; } e = first ? h : mk(MUL, {e, h}); first = false; } }
        else e = gen(r.g, ri(0, o.depth));
        r.f.push_back(e);
    }
}
// a point in the coordinates of the ordering plus time, at which every function and the oracle derivatives are well behaved
inline bool sane(RSys& r, std::vector<MP> const& p, double bound = 1e5) {
    for (auto& e : r.F) { auto w = eval(e, p); if (!w.ok || mag(w.v) > bound || w.err > 1e7) return false; for (int j = 0; j <= r.n; ++j) { if (j == r.n && !r.path) continue; auto d = eval(diff(e, j), p); if (!d.ok || mag(d.v) > bound*10 || d.err > 1e8) return false; } } return true;
}
template<class T> double eps_(int prec); template<> inline double eps_<D>(int) { return 2.3e-16; } template<> inline double eps_<MP>(int prec) { return std::pow(10.0, 1.0-prec); }
template<class T> Vec<T> vec_of(std::vector<MP> const& p, int n) { Vec<T> x(n); for (int i = 0; i < n; ++i) x(i) = cv<T>(p[i]); return x; }
template<class T> bool near_(T const& got, VE const& w, double eps, double slack = 1000) { double e = mag(MP(MP(got) - w.v)); return e <= slack*eps*(w.err + mag(w.v) + 1e-3); }
template<class T> MP up(T const& z); template<> inline MP up<D>(D const& z) { return tomp(z); } template<> inline MP up<MP>(MP const& z) { return z; }
// compare values with the oracle
template<class T> void chk_values(RSys& r, System const& S, Vec<T> const& v, std::vector<MP> const& p, int prec, std::string const& key) {
    size_t N = r.F.size(), G = S.IsPatched() ? S.NumPatches() : 0; if (!check(size_t(v.size()) == N + G, key + "-size", "number of values " + str(v.size()) + " expected " + str(N+G))) return;
    for (size_t i = 0; i < N; ++i) { auto w = eval(r.F[i], p); if (!w.ok) continue; double e = mag(MP(up<T>(v(i)) - w.v)); check(e <= 1000*eps_<T>(prec)*(w.err + mag(w.v) + 1e-3), key, "function " + str(i) + " is " + str(v(i)) + " expected " + str(w.v)); }
    if (G) { auto P = S.GetPatch(); if (std::is_same<T, MP>::value) P.Precision(prec); Vec<T> q = P.Eval(vec_of<T>(p, r.n)); for (size_t g = 0; g < G; ++g) check(m_<T>(v(N+g) - q(g)) <= 1000*eps_<T>(prec)*(1 + m_<T>(q(g))), key + "-patch", "patch row " + str(g) + " is " + str(v(N+g)) + " expected " + str(q(g))); }
    cover(key);
}
template<class T> void chk_jac(RSys& r, System const& S, bertini::Mat<T> const& J, std::vector<MP> const& p, int prec, std::string const& key) {
    size_t N = r.F.size(), G = S.IsPatched() ? S.NumPatches() : 0; if (!check(size_t(J.rows()) == N + G && J.cols() == r.n, key + "-size", "shape")) return;
    for (size_t i = 0; i < N; ++i) for (int j = 0; j < r.n; ++j) { auto w = eval(diff(r.F[i], j), p); if (!w.ok) continue; double e = mag(MP(up<T>(J(i, j)) - w.v)); check(e <= 3000*eps_<T>(prec)*(w.err + mag(w.v) + 1), key, "entry " + str(i) + "," + str(j) + " is " + str(J(i, j)) + " expected " + str(w.v)); }
    if (G) { auto P = S.GetPatch(); if (std::is_same<T, MP>::value) P.Precision(prec); auto q = P.Jacobian(vec_of<T>(p, r.n)); for (size_t g = 0; g < G; ++g) for (int j = 0; j < r.n; ++j) check(m_<T>(J(N+g, j) - q(g, j)) <= 1000*eps_<T>(prec), key + "-patch", "patch row " + str(g) + " column " + str(j) + " is " + str(J(N+g, j)) + " expected " + str(q(g, j))); }
    cover(key);
}
template<class T> void chk_dt(RSys& r, System const& S, Vec<T> const& v, std::vector<MP> const& p, int prec, std::string const& key) {
    size_t N = r.F.size(), G = S.IsPatched() ? S.NumPatches() : 0; if (!check(size_t(v.size()) == N + G, key + "-size", "size")) return;
    for (size_t i = 0; i < N; ++i) { auto w = eval(diff(r.F[i], r.n), p); if (!w.ok) continue; double e = mag(MP(up<T>(v(i)) - w.v)); check(e <= 3000*eps_<T>(prec)*(w.err + mag(w.v) + 1), key, "function " + str(i) + " is " + str(v(i)) + " expected " + str(w.v)); }
    for (size_t g = 0; g < G; ++g) check(v(N+g) == T(0), key + "-patch", "time derivative of a patch row is not zero"); cover(key);
}
template<class T> void evaluate(RSys& r, System const& S, std::vector<MP> const& p, int prec, int what, std::string const& pre = "system") {
    Vec<T> x = vec_of<T>(p, r.n); T t = cv<T>(p[r.n]);
    if (what == 0) { Vec<T> v = r.path ? S.Eval(x, t) : S.Eval(x); chk_values<T>(r, S, v, p, prec, pre + "-eval"); }
    if (what == 1) { bertini::Mat<T> J = r.path ? S.Jacobian(x, t) : S.Jacobian(x); chk_jac<T>(r, S, J, p, prec, pre + "-jacobian"); }
    if (what == 2 && r.path) { Vec<T> v = S.TimeDerivative(x, t); chk_dt<T>(r, S, v, p, prec, pre + "-time-derivative"); }
    // everything else at the point that was set last
    if (what == 3) { if (r.path) S.SetAndReset<T>(x, t); else S.SetAndReset<T>(x); chk_values<T>(r, S, S.Eval<T>(), p, prec, pre + "-eval-last"); chk_jac<T>(r, S, S.Jacobian<T>(), p, prec, pre + "-jacobian-last"); if (r.path) chk_dt<T>(r, S, S.TimeDerivative<T>(), p, prec, pre + "-time-derivative-last"); }
    // one call moves the point, the others reuse it
    if (what == 4) { int k = ri(0, 2); if (k == 2 && !r.path) k = 0; evaluate<T>(r, S, p, prec, k, pre); for (int j = 0; j < 3; ++j) { int a = ri(0, 2); if (a == 0) chk_values<T>(r, S, S.Eval<T>(), p, prec, pre + "-eval-reused"); if (a == 1) chk_jac<T>(r, S, S.Jacobian<T>(), p, prec, pre + "-jacobian-reused"); if (a == 2 && r.path) chk_dt<T>(r, S, S.TimeDerivative<T>(), p, prec, pre + "-time-derivative-reused"); } }
}
// the functions become nodes of the system; some are shared, repeated, or parts of earlier ones
inline void add_functions(RSys& r, System& S, bool tricks = true) {
    namespace bn = bertini::node; if (tricks && coin(4) && !r.f.empty()) { E a = r.f[0]; auto g = bn::Function::Make(r.b(a), "g0"); r.f.erase(r.f.begin()); int k = ri(0, 2);
        if (k == 0) { r.f.insert(r.f.begin(), {a, a}); S.AddFunction(g); S.AddFunction(g); for (size_t i = 2; i < r.f.size(); ++i) S.AddFunction(r.b(r.f[i])); return; }
        if (k == 1) { r.f.insert(r.f.begin(), {mk(ADD, {a, cint(3)}), a}); S.AddFunction(bn::Function::Make(g + 3, "g1")); S.AddFunction(g); for (size_t i = 2; i < r.f.size(); ++i) S.AddFunction(r.b(r.f[i])); return; }
        r.f.insert(r.f.begin(), {a, mk(MUL, {cint(2), a})}); S.AddFunction(g); S.AddFunction(bn::Function::Make(2*g, "g1")); for (size_t i = 2; i < r.f.size(); ++i) S.AddFunction(r.b(r.f[i])); return; }
    for (auto& e : r.f) { if (coin()) S.AddFunction(r.b(e)); else S.AddFunction(bn::Function::Make(r.b(e), "g")); }
}
inline std::vector<MP> sys_point(int n) { std::vector<MP> p; for (int i = 0; i <= n; ++i) p.push_back(tomp(D(rd(0.4, 1.3)*(coin() ? 1 : -1), rd(-1, 1)))); return p; }
}
