// bounded stand-in: the arithmetic operators and functions on expressions build what they denote
#include "common.hpp"
using namespace vt;
using namespace bertini::node;
using Z = bertini::mpz_int; using Q = bertini::mpq_rational;
int main(int argc, char** argv) {
    init(argc, argv); bertini::DefaultPrecision(40);
    int rounds = tier() ? 20000 : 2500;
    for (int t = 0; t < rounds; ++t) {
        Gen g; g.nv = 3; g.trans = coin(3); Builder b; b.x = make_vars(3); b.style = ri(0, 3);
        vt::E ea = gen(g, ri(0, 3)), eb = coin(4) ? mk(IPOW, {ea}, ri(0, 4)) : gen(g, ri(0, 3)); if (coin(4)) { vt::E k = gen(g, ri(0, 2)); ea = mk(IPOW, {k}, ri(-2, 4)); eb = mk(IPOW, {k}, ri(-2, 4)); }
        N a = b(ea), c = b(eb); auto p = rand_point(3); set_point(b.x, p); auto wa = eval(ea, p), wb = eval(eb, p); if (!wa.ok || !wb.ok) continue;
        if (mag(wa.v) > 1e4 || mag(wb.v) > 1e4) continue;
        double va = mag(wa.v), vb = mag(wb.v);
        auto chk = [&](N n, MP want, double err, const char* what) {
            ctx(std::string(what) + " with a = " + show(ea) + ", b = " + show(eb)); VE w{want, err};
            D d = n->Eval<D>(); check(near(d, w, 300), std::string("operator-") , std::string("got ") + str(d) + " expected " + str(todbl(want)));
            MP m = n->Eval<MP>(); check(near(m, w, 40, 300), "operator-mp", std::string("got ") + str(m) + " expected " + str(want)); cover("operators");
            D a2 = a->Eval<D>(); check(near(a2, wa, 300), "operand-changed", "the first operand changed its value"); D c2 = c->Eval<D>(); check(near(c2, wb, 300), "operand-changed", "the second operand changed its value");
            a->Reset(); c->Reset(); a2 = a->Eval<D>(); check(near(a2, wa, 300), "operand-changed", "the first operand changed its value"); c2 = c->Eval<D>(); check(near(c2, wb, 300), "operand-changed", "the second operand changed its value");
        };
        guarded("operator", [&] {
            double es = wa.err + wb.err, em = wa.err*vb + wb.err*va + 4*va*vb, ed = vb > 1e-3 ? wa.err/vb + wb.err*va/vb/vb + 6*va/vb : 0;
            chk(a + c, wa.v + wb.v, es, "a+b"); chk(a - c, wa.v - wb.v, es, "a-b"); chk(a*c, wa.v*wb.v, em, "a*b"); if (vb > 1e-3) chk(a/c, wa.v/wb.v, ed, "a/b"); chk(-a, -wa.v, wa.err, "-a");
            { N l = a, keep = a + Integer::Make(1); l += c; chk(l, wa.v + wb.v, es, "l+=b"); chk(keep, wa.v + 1, wa.err + 1, "kept expression after +="); }
            { N l = a, keep = a*Integer::Make(3); l -= c; chk(l, wa.v - wb.v, es, "l-=b"); chk(keep, wa.v*3, 3*wa.err + 4*va, "kept expression after -="); }
            { N l = a, keep = -a; l *= c; chk(l, wa.v*wb.v, em, "l*=b"); chk(keep, -wa.v, wa.err, "kept expression after *="); N twice = l; l *= c; chk(l, wa.v*wb.v*wb.v, em*vb + va*vb*(wb.err + 4*vb), "l*=b twice"); chk(twice, wa.v*wb.v, em, "kept product after a second *="); }
            if (vb > 1e-3) { N l = a, keep = a - Integer::Make(2); l /= c; chk(l, wa.v/wb.v, ed, "l/=b"); chk(keep, wa.v - 2, wa.err + 2, "kept expression after /="); N once = l; l += c; chk(once, wa.v/wb.v, ed, "kept quotient after +="); }
            { N l = a; l += l; chk(l, wa.v*2, 2*wa.err, "l+=l"); N m = a; m *= m; chk(m, wa.v*wa.v, 2*va*wa.err + 4*va*va, "m*=m"); }
            // numbers on either side
            int i = ri(-5, 5); if (!i) i = 2; Z z(i); Q q(i, 7); MPR f = MPR(i)/8; MP cf(MPR(i)/8, MPR(ri(-8, 8))/4);
            auto each = [&](auto num, MP v, const char* nm) {
                double e1 = wa.err + mag(v), e2 = (wa.err + 4*va)*mag(v), av = mag(v); std::string s(nm);
                chk(a + num, wa.v + v, e1, (s + ": a+n").c_str()); chk(num + a, wa.v + v, e1, (s + ": n+a").c_str()); chk(a - num, wa.v - v, e1, (s + ": a-n").c_str()); chk(num - a, v - wa.v, e1, (s + ": n-a").c_str());
                chk(a*num, wa.v*v, e2, (s + ": a*n").c_str()); chk(num*a, wa.v*v, e2, (s + ": n*a").c_str()); chk(a/num, wa.v/v, (wa.err + 6*va)/av, (s + ": a/n").c_str());
                if (va > 1e-3) chk(num/a, v/wa.v, wa.err*av/va/va + 6*av/va, (s + ": n/a").c_str());
            };
            each(i, MP(i), "int"); each(z, MP(i), "big integer"); each(q, MP(MPR(i)/7), "rational"); each(f, MP(f), "real"); each(cf, cf, "complex");
            // functions
            auto fun = [&](N n, Op o, const char* nm) { auto w = eval(mk(o, {ea}), p); if (w.ok) chk(n, w.v, w.err, nm); };
            fun(sqrt(a), SQRT, "sqrt(a)"); fun(exp(a), EXP, "exp(a)"); fun(log(a), LOG, "log(a)"); fun(sin(a), SIN, "sin(a)"); fun(cos(a), COS, "cos(a)"); fun(tan(a), TAN, "tan(a)"); fun(asin(a), ASIN, "asin(a)"); fun(acos(a), ACOS, "acos(a)"); fun(atan(a), ATAN, "atan(a)");
            int n = ri(-3, 6); auto w = eval(mk(IPOW, {ea}, n), p); if (w.ok) chk(pow(a, n), w.v, w.err, "pow(a, int)");
            if (!nearcut(wa.v)) { auto pw = [&](N nn, vt::E ex, const char* nm) { auto w = eval(mk(FPOW, {ea, ex}), p); if (w.ok) chk(nn, w.v, w.err, nm); };
                pw(pow(a, c), eb, "pow(a, b)"); vt::E r = mk(RAT, {}, ri(-5, 5), 3); pw(pow(a, Q(r->a, 3)), r, "pow(a, rational)"); vt::E fl = mk(FLT, {}, ri(-3000, 3000), 1, coin() ? ri(-1000, 1000) : 0);
                pw(pow(a, MP(MPR(fl->a)/1024, MPR(fl->c)/1024)), fl, "pow(a, complex)"); vt::E fr = mk(FLT, {}, ri(-3000, 3000)); pw(pow(a, MPR(MPR(fr->a)/1024)), fr, "pow(a, real)"); }
            // building blocks with every sign and factor pattern
            { auto s = SumOperator::Make(a, false); s->AddOperand(c); s->AddOperand(a, true); s->AddOperand(c, false); chk(s, MP(0), 2*es, "-a+b+a-b"); auto s2 = SumOperator::Make(a, false, c, true); chk(s2, wb.v - wa.v, es, "sum with flags"); (*s2) += a; s2->Reset(); chk(s2, wb.v, 2*es, "sum += a"); (*s2) -= c; s2->Reset(); chk(s2, MP(0), 2*es, "sum -= b"); }
            { auto s = MultOperator::Make(a); s->AddOperand(c); chk(s, wa.v*wb.v, em, "product by AddOperand"); if (vb > 1e-3) { s->AddOperand(c, false); s->Reset(); chk(s, wa.v, (em + 4*va*vb)/vb + va*wb.err/vb, "product with quotient"); auto r = MultOperator::Make(a, true, c, false); chk(r, wa.v/wb.v, ed, "quotient with flags"); } }
        });
    }
    return finish();
}
