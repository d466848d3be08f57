// bounded stand-in: simplification keeps the value of random expressions, also of expressions that share parts with it
#include "common.hpp"
#include "bertini2/function_tree/simplify.hpp"
using namespace vt;
int main(int argc, char** argv) {
    init(argc, argv); bertini::DefaultPrecision(40);
    int rounds = tier() ? 80000 : 9000;
    for (int t = 0; t < rounds; ++t) {
        Gen g; g.nv = ri(1, 3); g.trans = coin(3); g.poly = coin(4); Builder b; b.x = make_vars(g.nv); b.style = ri(0, 3); b.share = !coin(3);
        // many zeros and ones among the constants
        std::function<E(E)> salt = [&](E e) -> E {
            if (e->k.empty()) { if (e->op != VAR && coin()) return cint(ri(0, 1)); return e; }
            if (e->op == FPOW) return e;
            auto f = std::make_shared<Ex>(*e); for (auto& c : f->k) c = salt(c);
            if (coin(6)) switch (ri(0, 4)) { case 0: return mk(ADD, {f, cint(0)}); case 1: return mk(MUL, {cint(1), f}); case 2: return mk(SUB, {cint(0), f}); case 3: return mk(DIV, {f, cint(1)}); case 4: return mk(DIV, {cint(1), f}); }
            return f;
        };
        E e = salt(gen(g, ri(1, 5))), o; N n = b(e);
        bool other = b.share && !e->k.empty() && coin();
        N m; if (other) { o = mk(ADD, {e->k[0], mk(MUL, {var(0), e->k.back()})}); m = b(o); }
        auto p = rand_point(g.nv); set_point(b.x, p); auto w = eval(e, p); if (!w.ok) continue;
        // parts that differ from zero or one by less than the double rounding are taken for zero or one
        std::function<bool(E)> tiny = [&](E a) { auto v = eval(a, p); double z = mag(v.v), u = mag(MP(v.v - MP(1))); if (!v.ok || (z > 1e-36 && z < 1e-11) || (u > 1e-36 && u < 1e-11)) return true; for (auto& k : a->k) if (tiny(k)) return true; return false; };
        if (tiny(e) || (o && tiny(o))) { cover("skipped"); continue; }
        ctx("Simplify of " + show(e) + " style " + std::to_string(b.style));
        guarded("simplify", [&] {
            bool before = coin(); if (before) { n->Eval<D>(); n->Eval<MP>(); }
            N s = n; 
            int how = ri(0, 4);
            if (how == 0) s->EliminateZeros(); else if (how == 1) s->EliminateOnes(); else if (how == 2) s->ReduceDepth(); else bertini::Simplify(s);
            D d = s->Eval<D>(); check(near(d, w, 300), "simplify-value", "value now " + str(d) + " expected " + str(todbl(w.v)) + " operation " + std::to_string(how));
            s->Reset(); d = s->Eval<D>(); check(near(d, w, 300), "simplify-value", "value after reset " + str(d) + " expected " + str(todbl(w.v)) + " operation " + std::to_string(how));
            MP dm = s->Eval<MP>(); check(near(dm, w, 40, 300), "simplify-value-mp", "value now " + str(dm) + " expected " + str(w.v)); cover("simplified");
            auto q = rand_point(g.nv); auto w2 = eval(e, q); if (!w2.ok) return;
            set_point(b.x, q); s->Reset(); d = s->Eval<D>(); check(near(d, w2, 300), "simplify-moved", "value at another point " + str(d) + " expected " + str(todbl(w2.v)) + " operation " + std::to_string(how));
            if (other) { auto wo = eval(o, q); if (wo.ok) { m->Reset(); d = m->Eval<D>(); check(near(d, wo, 300), "simplify-shared", "an expression sharing parts changed its value"); cover("shared"); } }
        });
    }
    return finish();
}
