// bounded stand-in: random systems, evaluated in every mode and order, against the oracle
#include "sys.hpp"
using namespace vt;
int main(int argc, char** argv) {
    init(argc, argv); int rounds = tier() ? 12000 : 1200;
    for (int t = 0; t < rounds; ++t) {
        int prec = 30; bertini::DefaultPrecision(prec); RSys r; SysOpt o; o.poly = coin(); bool wanthom = o.poly && coin(); if (wanthom) o.ungrouped = false; else o.hom = !o.poly || coin(); structure(r, o); fill(r, o, ri(1, 3)); add_structure(r, r.S);
        r.S.SetEvalMethod(coin() ? EvalMethod::SLP : EvalMethod::FunctionTree); r.S.SetDerivMethod(coin() ? DerivMethod::JacobianNode : DerivMethod::Derivatives); r.S.SetAutoSimplify(coin());
        add_functions(r, r.S, !wanthom);
        r.oracle(); auto p = sys_point(r.n); if (!sane(r, p)) continue; r.show_(); ctx(r.desc);
        guarded("system", [&] {
            // ordering
            auto vars = r.S.Variables(); bool ok = check(int(vars.size()) == r.n && int(r.S.NumVariables()) == r.n, "system-ordering", "number of variables"); if (ok) for (int v = 0; v < r.nv; ++v) check(vars[r.coord[v]] == r.b.x[v], "system-ordering", "variable " + str(v) + " not at place " + str(r.coord[v]));
            if (coin()) evaluate<D>(r, r.S, p, prec, ri(0, 3));
            if (wanthom) { bool fits = true; for (auto& e : r.f) for (auto& g : r.groups) { int d = fdeg(e, std::set<int>(g.v.begin(), g.v.end())); if (d < 0 || d > 8 || (g.kind == 1 && !r.b(e)->IsHomogeneous([&]{ bertini::VariableGroup q; for (int v : g.v) q.push_back(r.b.x[v]); return q; }()))) fits = false; } if (!fits) return;
                r.S.Homogenize(); r.homog = true; r.oracle(); p = sys_point(r.n); if (!sane(r, p)) return; if (coin()) { r.S.AutoPatch(); r.patched = true; } r.show_(); cover(r.patched ? "patched" : "homogenized"); }
            std::string base = r.desc, h;
            for (int k = 0; k < 7; ++k) {
                int act = ri(0, 11);
                if (act == 0) { auto q = sys_point(r.n); if (sane(r, q)) { p = q; h += "move "; } }
                else if (act == 1) { prec = ri(20, 60); bertini::DefaultPrecision(prec); r.S.precision(prec); h += "precision" + str(prec) + " "; for (auto& z : p) z.precision(prec); }
                else if (act == 2) { auto m = coin() ? EvalMethod::SLP : EvalMethod::FunctionTree; r.S.SetEvalMethod(m); r.S.precision(prec); h += m == EvalMethod::SLP ? "use-SLP " : "use-tree "; }
                else if (act == 3) { auto m = coin() ? DerivMethod::JacobianNode : DerivMethod::Derivatives; r.S.SetDerivMethod(m); r.S.precision(prec); h += m == DerivMethod::JacobianNode ? "use-jacobian-node " : "use-derivatives "; }
                else if (act == 4 && coin()) { auto q = rand_point(r.nv+1); for (auto& z : q) z.precision(prec); for (auto& v : r.b.x) v->precision(prec); set_point(r.b.x, q); for (auto& f : r.S.GetNaturalFunctions()) f->Reset(); r.S.Simplify(); r.S.precision(prec); h += "simplify "; }
                else if (act == 5 && !r.homog && r.f.size() < 4) { E e = gen(r.g, ri(0, 3)); r.f.push_back(e); r.oracle(); if (!sane(r, p)) { r.f.pop_back(); r.oracle(); } else { r.S.AddFunction(r.b(e)); r.S.precision(prec); h += "add " + show(e) + " "; } }
                else if (act == 6 && o.poly && !r.homog && coin()) { auto old = r.S.GetNaturalFunctions(); bool dec = coin(); std::set<int> all; for (int v = 0; v < r.nv; ++v) all.insert(v); bool ok = true; for (auto& e : r.f) if (fdeg(e, all) < 0) ok = false; if (!ok) continue; if (dec) r.S.ReorderFunctionsByDegreeDecreasing(); else r.S.ReorderFunctionsByDegreeIncreasing(); r.S.precision(prec);
                    auto now = r.S.GetNaturalFunctions(); std::vector<E> nf; std::vector<bool> used(old.size()); ctx(base + " :: " + h + "reorder"); if (!check(now.size() == old.size(), "reorder", "number of functions")) return; for (size_t i = 0; i < now.size(); ++i) { size_t j = 0; while (j < old.size() && (used[j] || old[j] != now[i])) ++j; if (!check(j < old.size(), "reorder", "functions are not a permutation of the former")) return; used[j] = true; nf.push_back(r.f[j]); }
                    for (size_t i = 0; i + 1 < nf.size(); ++i) { int a = fdeg(nf[i], all), b = fdeg(nf[i+1], all); check(dec ? a >= b : a <= b, "reorder", "degrees not sorted"); } r.f = nf; r.oracle(); h += dec ? "decreasing " : "increasing "; cover("reorder"); }
                else { int what = ri(0, 4); bool d = coin(); h += std::string(d ? "d" : "m") + "EJTAR"[what] + " "; ctx(base + " :: " + h); if (d) evaluate<D>(r, r.S, p, prec, what); else evaluate<MP>(r, r.S, p, prec, what); }
            }
            // dehomogenization
            auto x = vec_of<MP>(p, r.n); auto y = r.S.DehomogenizePoint(x); ctx(base + " :: dehomogenize"); if (!check(y.size() == r.nv, "dehomogenize-size", "size")) return; int c = 0, k = 0;
            for (auto& g : r.groups) { MP hv = 1; if (g.kind == 0 && r.homog) hv = p[c++]; for (size_t i = 0; i < g.v.size(); ++i) { MP w = p[c++]/hv; check(mag(MP(y(k) - w)) < 1e-14*(1 + mag(w)), "dehomogenize", "coordinate " + str(k) + " is " + str(y(k)) + " expected " + str(w)); ++k; } }
        });
    }
    return finish();
}
