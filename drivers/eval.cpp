// bounded stand-in: evaluation of random expressions against an independent evaluator
#include "common.hpp"
using namespace vt;
int main(int argc, char** argv) {
    init(argc, argv); bertini::DefaultPrecision(50);
    int rounds = tier() ? 60000 : 6000;
    for (int t = 0; t < rounds; ++t) {
        Gen g; g.nv = ri(1, 4); g.trans = coin(); g.poly = coin(4); Builder b; b.x = make_vars(g.nv); b.style = ri(0, 3); b.share = !coin(3);
        int nroots = ri(1, 3); std::vector<E> es; std::vector<N> ns;
        for (int i = 0; i < nroots; ++i) { es.push_back(gen(g, ri(1, 5))); ns.push_back(b(es.back())); }
        std::vector<MP> p;
        bool fresh = true;
        for (int step = 0; step < 4; ++step) {
            if (step == 0 || coin()) { p = rand_point(g.nv); set_point(b.x, p); for (auto& n : ns) n->Reset(); fresh = true; }
            for (int i = 0; i < nroots; ++i) {
                auto w = eval(es[i], p); if (!w.ok) { cover("skipped"); continue; }
                ctx("expression " + show(es[i]) + " style " + std::to_string(b.style) + " step " + std::to_string(step));
                guarded("eval", [&] {
                    int m = ri(0, 3);
                    if (m != 1) { D d = ns[i]->Eval<D>(); if (m == 3) ns[i]->EvalInPlace<D>(d); check(near(d, w), "eval-double", "got " + str(d) + " expected " + str(todbl(w.v))); cover("double"); }
                    if (m != 0) { MP d = ns[i]->Eval<MP>(); if (m == 3) ns[i]->EvalInPlace<MP>(d); check(near(d, w, 50), "eval-multiprecision", "got " + str(d) + " expected " + str(w.v)); cover("multiprecision"); }
                });
            }
        }
    }
    // histories: evaluations of the expressions and of their shared parts, changes of the point, resets of single expressions.
    // A node is checked only if it was reset since the point last changed.
    for (int t = 0; t < (tier() ? 20000 : 2500); ++t) {
        Gen g; g.nv = ri(1, 3); g.trans = coin(4); Builder b; b.x = make_vars(g.nv); b.style = ri(0, 3); std::vector<E> es; std::vector<N> ns;
        for (int i = 0; i < 2; ++i) { es.push_back(gen(g, ri(2, 4))); ns.push_back(b(es.back())); }
        std::vector<std::pair<E, N>> all; for (int i = 0; i < 2; ++i) all.push_back({es[i], ns[i]});
        std::function<void(E)> subs = [&](E e) { for (auto& k : e->k) { auto it = b.memo.find(k.get()); if (it != b.memo.end() && all.size() < 12) all.push_back({k, it->second}); subs(k); } }; for (auto& e : es) subs(e);
        auto p = rand_point(g.nv); set_point(b.x, p); for (auto& a : all) a.second->Reset(); std::set<N> fresh; for (auto& a : all) fresh.insert(a.second); std::string hist;
        for (int step = 0; step < 14; ++step) {
            int i = coin(3) ? ri(0, 1) : ri(0, all.size()-1); auto& a = all[i]; int act = ri(0, 3);
            if (act == 0) { p = rand_point(g.nv); set_point(b.x, p); fresh.clear(); hist += " move"; }
            else if (act == 1) { a.second->Reset(); fresh.insert(a.second); hist += " reset[" + show(a.first) + "]"; }
            else { if (fresh.count(a.second) == 0) { if (coin()) { a.second->Reset(); fresh.insert(a.second); hist += " reset[" + show(a.first) + "]"; } else continue; }
                auto w = eval(a.first, p); if (!w.ok) continue; hist += " eval[" + show(a.first) + "]";
                ctx("history" + hist + " style " + std::to_string(b.style)); guarded("eval", [&] {
                    if (coin()) { D d = a.second->Eval<D>(); check(near(d, w), "eval-history", "got " + str(d) + " expected " + str(todbl(w.v))); } else { MP d = a.second->Eval<MP>(); check(near(d, w, 50), "eval-history", "got " + str(d) + " expected " + str(w.v)); } cover("histories"); });
            }
        }
    }
    // integer powers of every kind, sums and products with many operands and every sign pattern
    using namespace bertini::node;
    auto x = make_vars(5);
    for (int n = -9; n <= 20; ++n) {
        auto p = rand_point(5, 1.0); if (mag(p[0]) < 0.2) p[0] = MP(1); set_point(x, p);
        N e = pow(N(x[0]), n); auto w = eval(mk(IPOW, {var(0)}, n), p); if (!w.ok) continue;
        ctx("x^" + std::to_string(n)); check(near(e->Eval<D>(), w), "eval-power", "double " + str(e->Eval<D>()) + " expected " + str(todbl(w.v))); check(near(e->Eval<MP>(), w, 50), "eval-power", "multiprecision");
    }
    for (int m = 0; m < 32; ++m) for (int kind = 0; kind < 2; ++kind) {
        auto p = rand_point(5, 1.5); for (auto& q : p) if (mag(q) < 0.2) q = MP(2); set_point(x, p); MP want = kind ? 1 : 0; std::shared_ptr<NaryOperator> op;
        for (int i = 0; i < 5; ++i) {
            bool f = m >> i & 1;
            if (kind) { if (!op) op = MultOperator::Make(Integer::Make(1)); std::dynamic_pointer_cast<MultOperator>(op)->AddOperand(x[i], f); if (f) want *= p[i]; else want /= p[i]; }
            else { if (!op) op = SumOperator::Make(x[i], f); else std::dynamic_pointer_cast<SumOperator>(op)->AddOperand(x[i], f); if (f) want += p[i]; else want -= p[i]; }
        }
        ctx(std::string(kind ? "product" : "sum") + " of five operands, flags " + std::to_string(m)); VE w{want, 20*mag(want) + 20};
        check(near(op->Eval<D>(), w), "eval-nary", "double"); check(near(op->Eval<MP>(), w, 50), "eval-nary", "multiprecision");
        // a second evaluation after changing one variable and resetting must see the change
        auto q = p; q[2] = p[2] + MP(1); set_point(x, q); op->Reset();
        MP w2 = kind ? 1 : 0; for (int i = 0; i < 5; ++i) { bool f = m >> i & 1; if (kind) { if (f) w2 *= q[i]; else w2 /= q[i]; } else { if (f) w2 += q[i]; else w2 -= q[i]; } }
        VE ww{w2, 20*mag(w2) + 20}; check(near(op->Eval<D>(), ww), "eval-reset", "double after reset"); check(near(op->Eval<MP>(), ww, 50), "eval-reset", "multiprecision after reset");
    }
    // precision: values follow a change of working precision
    for (int t = 0; t < (tier() ? 300 : 60); ++t) {
        bertini::DefaultPrecision(30);
        Gen g; g.nv = 2; g.trans = coin(); Builder b; b.x = make_vars(2); vt::E e = gen(g, ri(1, 4)); N n = b(e);
        auto p = rand_point(2); set_point(b.x, p); auto w0 = eval(e, p); if (!w0.ok) continue;
        ctx("precision change, " + show(e));
        guarded("eval", [&] {
            n->Eval<MP>();
            bertini::DefaultPrecision(70); n->precision(70); for (auto& v : b.x) v->precision(70); auto q = rand_point(2); for (auto& z : q) z.precision(70);
            set_point(b.x, q); n->Reset(); auto w = eval(e, q); if (!w.ok) return;
            MP r = n->Eval<MP>(); check(near(r, w, 68), "eval-precision", "70 digits: got " + str(r) + " expected " + str(w.v)); cover("precision");
        });
    }
    return finish();
}
