// bounded stand-in: derivatives of random expressions against an independent differentiator
#include "common.hpp"
using namespace vt;
int main(int argc, char** argv) {
    init(argc, argv); bertini::DefaultPrecision(50);
    int rounds = tier() ? 50000 : 6000;
    for (int t = 0; t < rounds; ++t) {
        Gen g; g.nv = ri(1, 4); g.trans = coin(); g.poly = coin(4); Builder b; b.x = make_vars(g.nv); b.style = ri(0, 3); b.share = !coin(3);
        E e = gen(g, ri(1, 4)); N n = b(e); auto p = rand_point(g.nv); set_point(b.x, p);
        if (!eval(e, p).ok) continue;
        ctx("d/dx of " + show(e) + " style " + std::to_string(b.style));
        guarded("diff", [&] {
            auto J = bertini::node::Jacobian::Make(n->Differentiate());
            auto order = std::vector<int>(); for (int v = 0; v < g.nv; ++v) order.push_back(v); std::shuffle(order.begin(), order.end(), rng());
            for (int v : order) {
                auto de = diff(e, v); auto w = eval(de, p); if (!w.ok) { cover("skipped"); continue; }
                N dn = n->Differentiate(b.x[v]);
                D d = dn->Eval<D>(); check(near(d, w, 300), "derivative-double", "w.r.t. x" + std::to_string(v) + " got " + str(d) + " expected " + str(todbl(w.v)));
                MP m = dn->Eval<MP>(); check(near(m, w, 50, 300), "derivative-multiprecision", "w.r.t. x" + std::to_string(v) + " got " + str(m) + " expected " + str(w.v));
                D jd = J->EvalJ<D>(b.x[v]); check(near(jd, w, 300), "jacobian-double", "total differential evaluated for x" + std::to_string(v) + " got " + str(jd) + " expected " + str(todbl(w.v)));
                MP jm = J->EvalJ<MP>(b.x[v]); check(near(jm, w, 50, 300), "jacobian-multiprecision", "total differential evaluated for x" + std::to_string(v));
                cover("derivatives");
                // the derivative is an expression in its own right: it must follow the variables
                if (coin(4)) {
                    auto q = rand_point(g.nv); auto w2 = eval(de, q); if (!eval(e, q).ok || !w2.ok) continue;
                    set_point(b.x, q); dn->Reset(); J->Reset();
                    D d2 = dn->Eval<D>(); check(near(d2, w2, 300), "derivative-moved", "after moving the point: got " + str(d2) + " expected " + str(todbl(w2.v)));
                    D j2 = J->EvalJ<D>(b.x[v]); check(near(j2, w2, 300), "jacobian-moved", "after moving the point");
                    set_point(b.x, p); dn->Reset(); J->Reset();
                }
                // second derivatives
                if (coin(4)) {
                    int u = ri(0, g.nv-1); auto w3 = eval(diff(de, u), p); if (!w3.ok) continue;
                    N d3 = dn->Differentiate(b.x[u]); D v3 = d3->Eval<D>(); check(near(v3, w3, 3000), "second-derivative", "w.r.t. x" + std::to_string(v) + ", x" + std::to_string(u) + " got " + str(v3) + " expected " + str(todbl(w3.v))); cover("second");
                }
            }
        });
    }
    return finish();
}
