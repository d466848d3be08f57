// bounded stand-in: sums, multiples, concatenations, copies and clones of random systems
#include "sys.hpp"
using namespace vt; namespace bn = bertini::node;
static void look(RSys& r, System const& S, std::vector<MP> const& p, std::string const& key, int n = 3) { for (int i = 0; i < n; ++i) { int w = ri(0, 4); if (coin()) evaluate<D>(r, S, p, 30, w, key); else evaluate<MP>(r, S, p, 30, w, key); } }
int main(int argc, char** argv) {
    init(argc, argv); int rounds = tier() ? 8000 : 900; bertini::DefaultPrecision(30);
    for (int t = 0; t < rounds; ++t) {
        RSys a; SysOpt o; o.poly = coin(); bool wanthom = o.poly && coin(); if (wanthom) { o.hom = false; o.ungrouped = false; } structure(a, o); RSys b = a; int n = ri(1, 3), m = coin() ? n : ri(1, 3); if (wanthom) m = n; fill(a, o, n); fill(b, o, m); b.b.style = ri(0, 3);
        add_structure(a, a.S); add_structure(b, b.S); for (auto* S : {&a.S, &b.S}) { S->SetEvalMethod(coin() ? EvalMethod::SLP : EvalMethod::FunctionTree); S->SetDerivMethod(coin() ? DerivMethod::JacobianNode : DerivMethod::Derivatives); S->SetAutoSimplify(coin()); }
        add_functions(a, a.S, false); add_functions(b, b.S, false); a.oracle(); b.oracle(); auto p = sys_point(a.n); if (!sane(a, p) || !sane(b, p)) continue; a.show_(); b.show_();
        guarded("sysops", [&] {
            ctx(a.desc + " and " + b.desc); if (coin()) look(a, a.S, p, "first", 1); if (coin()) look(b, b.S, p, "second", 1);
            if (wanthom) { bool fits = true; for (auto* r : {&a, &b}) for (auto& e : r->f) for (auto& g : r->groups) { int d = fdeg(e, std::set<int>(g.v.begin(), g.v.end())); if (d < 0 || d > 6) fits = false; } if (!fits) return;
                a.S.Homogenize(); a.homog = b.homog = true; System T; T.CopyVariableStructure(a.S); { System U; U.CopyVariableStructure(a.S); for (auto& f : b.S.GetNaturalFunctions()) U.AddFunction(f); U.SetEvalMethod(b.S.GetEvalMethod()); U.SetDerivMethod(b.S.GetDerivMethod()); U.Homogenize(); b.S = U; } a.oracle(); b.oracle(); p = sys_point(a.n); if (!sane(a, p) || !sane(b, p)) return;
                if (coin()) { a.S.AutoPatch(); a.patched = true; if (coin()) b.S.CopyPatches(a.S), b.patched = true; } if (a.patched != b.patched && coin()) { b.S.CopyPatches(a.S); b.patched = true; } a.show_(); b.show_(); cover("homogenized"); }
            int op = ri(0, 6); E c = gen(a.g, 1); bool ungrp = false; (void)ungrp;
            std::vector<E> s(a.nv+1); for (int v = 0; v < a.nv; ++v) s[v] = var(v); 
            if (op == 0 && n == m && a.patched == b.patched) { RSys r = a; bool inplace = coin(); if (inplace) r.S += b.S; else r.S = a.S + b.S; r.F.clear(); for (int i = 0; i < n; ++i) r.F.push_back(mk(ADD, {b.F[i], a.F[i]})); r.show_(); ctx("sum of " + a.desc + " and " + b.desc); if (sane(r, p)) look(r, r.S, p, "sum"); ctx("operand of a sum " + a.desc); look(a, a.S, p, "sum-first"); ctx("operand of a sum " + b.desc); look(b, b.S, p, "sum-second"); }
            else if (op == 1 || op == 2) { E k = op == 1 ? cint(ri(2, 5)) : a.path ? mk(ADD, {cint(1), mk(MUL, {cint(ri(1, 3)), var(a.nv)})}) : cint(-3); RSys r = a; auto N = a.b(k); int form = ri(0, 2); if (form == 0) r.S *= N; else if (form == 1) r.S = a.S*N; else r.S = N*a.S; std::vector<E> s2(a.nv+1); for (int v = 0; v < a.nv; ++v) s2[v] = cint(0); s2[a.nv] = var(a.n); E K = subst(k, s2); for (auto& e : r.F) e = mk(MUL, {K, e}); ctx("multiple " + show(k) + " of " + a.desc); if (sane(r, p)) look(r, r.S, p, "multiple"); ctx("operand of a multiple " + a.desc); look(a, a.S, p, "multiple-operand"); }
            else if (op == 3) { if (b.patched && !a.patched) return; RSys r = a; bool self = coin(4); r.S = Concatenate(a.S, self ? a.S : b.S); for (auto& e : self ? a.F : b.F) r.F.push_back(e); ctx("concatenation of " + a.desc + " and " + (self ? "itself" : b.desc)); check(r.S.NumNaturalFunctions() == r.F.size(), "concatenate", "number of functions"); look(r, r.S, p, "concatenate"); look(a, a.S, p, "concatenate-first"); look(b, b.S, p, "concatenate-second"); }
            else if (op == 4) { if (!a.patched) return; RSys r = b; System U = b.S; if (b.patched) return; r.S = Concatenate(b.S, a.S); r.patched = true; for (auto& e : a.F) r.F.push_back(e); ctx("concatenation of " + b.desc + " and the patched " + a.desc); check(r.S.IsPatched() && r.S.GetPatch() == a.S.GetPatch(), "concatenate-patch", "the concatenation lost the patch"); look(r, r.S, p, "concatenate"); cover("concatenate-patch"); }
            else if (op == 5) { RSys r = a; System C(a.S); System Q; Q = a.S; ctx("copy of " + a.desc); check(C.GetDerivMethod() == a.S.GetDerivMethod() && C.GetEvalMethod() == a.S.GetEvalMethod() && C.IsAutoSimplifying() == a.S.IsAutoSimplifying(), "copy", "methods lost"); look(a, C, p, "copy"); look(a, Q, p, "assigned"); System M(std::move(C)); look(a, M, p, "moved"); look(a, a.S, p, "copy-original"); }
            else if (op == 6) {
                System C = Clone(a.S); ctx("clone of " + a.desc); check(C.NumNaturalFunctions() == a.F.size() && int(C.NumVariables()) == a.n, "clone", "shape"); look(a, C, p, "clone"); look(a, a.S, p, "clone-original");
                auto q = sys_point(a.n); if (!sane(a, q)) return; RSys z = a; if (coin()) { if (a.path) { C.SetAndReset<MP>(vec_of<MP>(q, a.n), q[a.n]); } else C.SetAndReset<MP>(vec_of<MP>(q, a.n)); if (a.path) a.S.SetAndReset<MP>(vec_of<MP>(p, a.n), p[a.n]); else a.S.SetAndReset<MP>(vec_of<MP>(p, a.n)); auto v = C.Eval<MP>(); chk_values<MP>(z, C, v, q, 30, "clone-independent"); }
                else { C *= bn::Integer::Make(5); look(a, a.S, p, "clone-original-after-scaling-clone"); a.S *= bn::Integer::Make(7); RSys y = a; for (auto& e : y.F) e = mk(MUL, {cint(5), e}); ctx("scaled clone of " + a.desc); look(y, C, p, "clone-scaled"); } cover("clone"); }
        });
    }
    return finish();
}
