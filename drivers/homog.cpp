// bounded stand-in: homogenization of random polynomials, reported homogeneity
#include "common.hpp"
#include "bertini2/system/system.hpp"
using namespace vt;
#include "fdeg.hpp"
int main(int argc, char** argv) {
    init(argc, argv); bertini::DefaultPrecision(40);
    int rounds = tier() ? 40000 : 5000;
    for (int t = 0; t < rounds; ++t) {
        int nf = ri(1, 2); Gen g; g.nv = ri(1, 4); g.poly = true; g.maxpow = 3; Builder b; b.x = make_vars(g.nv); b.style = ri(0, 3); b.share = !coin(3);
        std::vector<E> es; std::vector<N> ns; std::string all; for (int i = 0; i < nf; ++i) { es.push_back(gen(g, ri(1, 4))); ns.push_back(b(es.back())); all += show(es.back()) + "; "; }
        // a partition of some of the variables into groups
        int ng = ri(1, std::min(2, g.nv)); std::vector<std::set<int>> grp(ng); for (int v = 0; v < g.nv; ++v) { int k = v < ng ? v : ri(0, ng); if (k < ng) grp[k].insert(v); }
        std::vector<bertini::VariableGroup> vg(ng); std::vector<V> hv; for (int k = 0; k < ng; ++k) { for (int v : grp[k]) vg[k].push_back(b.x[v]); hv.push_back(bertini::node::Variable::Make("h" + std::to_string(k))); }
        auto p = rand_point(g.nv); bool skip = false; std::vector<std::vector<int>> deg(nf, std::vector<int>(ng));
        for (int i = 0; i < nf; ++i) { auto w = eval(es[i], p); if (!w.ok || mag(w.v) > 1e5) skip = true; for (int k = 0; k < ng; ++k) { deg[i][k] = fdeg(es[i], grp[k]); if (deg[i][k] < 0 || deg[i][k] > 12) skip = true; } }
        if (skip) continue;
        ctx("homogenize " + all + " with " + std::to_string(ng) + " groups, style " + std::to_string(b.style) + (b.share ? " sharing" : ""));
        guarded("homogenize", [&] {
            for (int i = 0; i < nf; ++i) for (int k = 0; k < ng; ++k) if (ns[i]->IsHomogeneous(vg[k])) {
                // reported homogeneous: scaling the group scales the value by the power of the degree
                auto q = p; MP lam = tomp(D(1.3, 0.4)); for (int v : grp[k]) q[v] *= lam; MP f = 1; for (int j = 0; j < deg[i][k]; ++j) f *= lam;
                auto w = eval(es[i], p), u = eval(es[i], q); if (w.ok && u.ok) { check(mag(MP(u.v - f*w.v)) <= 1e-25*(u.err + mag(f)*w.err + 1), "homogeneous-claim", "function " + std::to_string(i) + " reported homogeneous in group " + std::to_string(k) + " but does not scale"); cover("claims"); }
            }
            for (int k = 0; k < ng; ++k) for (auto& n : ns) n->Homogenize(vg[k], hv[k]);
            set_point(b.x, p); for (auto& h : hv) { h->set_current_value<D>(D(1)); h->set_current_value<MP>(MP(1)); }
            for (int i = 0; i < nf; ++i) {
                auto w = eval(es[i], p); ns[i]->Reset(); D d = ns[i]->Eval<D>(); check(near(d, w, 1000), "homogenize-value", "value at h=1 is " + str(d) + " expected " + str(todbl(w.v)) + " function " + std::to_string(i));
                MP m = ns[i]->Eval<MP>(); check(near(m, w, 40, 1000), "homogenize-value-mp", "value at h=1"); cover("homogenized");
            }
            // scaling at a general point
            std::vector<MP> h; for (int k = 0; k < ng; ++k) h.push_back(tomp(D(rd(0.5, 1.5), rd(-1, 1))));
            auto at = [&](int i, std::vector<MP> const& x, std::vector<MP> const& hh) { set_point(b.x, x); for (int k = 0; k < ng; ++k) { hv[k]->set_current_value<D>(todbl(hh[k])); hv[k]->set_current_value<MP>(hh[k]); } ns[i]->Reset(); return ns[i]->Eval<MP>(); };
            for (int i = 0; i < nf; ++i) {
                MP v0 = at(i, p, h); MP want = 1; // dehomogenize: f(x/h) h^deg
                auto q = p; for (int k = 0; k < ng; ++k) { for (int v : grp[k]) q[v] /= h[k]; for (int j = 0; j < deg[i][k]; ++j) want *= h[k]; }
                auto w = eval(es[i], q); if (!w.ok) continue; double tol = 1e-25*(w.err + mag(w.v) + 1)*(mag(want) + 1)*(1e6);
                check(mag(MP(v0 - want*w.v)) <= tol, "homogenize-form", "value at a general point is " + str(v0) + " expected " + str(MP(want*w.v)) + " function " + std::to_string(i)); cover("scaled");
                for (int k = 0; k < ng; ++k) { auto g2 = vg[k]; g2.push_back(hv[k]); int dd = ns[i]->Degree(g2); check(dd == deg[i][k], "homogenize-degree", "degree after homogenization " + str(dd) + " expected " + str(deg[i][k]) + " in group " + std::to_string(k));
                    check(ns[i]->IsHomogeneous(g2), "homogenize-reported", "not reported homogeneous in group " + std::to_string(k) + " after homogenization"); }
            }
        });
    }
    // whole systems
    for (int t = 0; t < (tier() ? 5000 : 800); ++t) {
        Gen g; g.nv = ri(1, 4); g.poly = true; g.maxpow = 3; Builder b; b.x = make_vars(g.nv); b.style = ri(0, 3);
        int nf = ri(1, 3), ng = ri(1, std::min(2, g.nv)); std::vector<E> es; bertini::System S; std::string all; std::vector<std::set<int>> grp(ng); for (int v = 0; v < g.nv; ++v) grp[v < ng ? v : ri(0, ng-1)].insert(v);
        std::vector<int> order; for (auto& s : grp) { bertini::VariableGroup vgp; for (int v : s) { vgp.push_back(b.x[v]); order.push_back(v); } S.AddVariableGroup(vgp); }
        bool skip = false; for (int i = 0; i < nf; ++i) { es.push_back(gen(g, ri(1, 4))); all += show(es.back()) + "; "; S.AddFunction(b(es.back())); for (auto& s : grp) if (fdeg(es.back(), s) < 0 || fdeg(es.back(), s) > 12) skip = true; }
        auto p = rand_point(g.nv); for (auto& e : es) { auto w = eval(e, p); if (!w.ok || mag(w.v) > 1e5) skip = true; } if (skip) continue;
        ctx("System::Homogenize of " + all + " groups " + std::to_string(ng));
        guarded("system-homogenize", [&] {
            S.Homogenize(); if (coin()) S.Homogenize();
            check(S.IsHomogeneous(), "system-homogeneous", "the system is not reported homogeneous after Homogenize"); check(S.IsPolynomial(), "system-polynomial", "no longer polynomial");
            std::vector<MP> h; for (int k = 0; k < ng; ++k) h.push_back(tomp(D(rd(0.5, 1.5), rd(-1, 1))));
            bertini::Vec<MP> x(S.NumVariables()); check(S.NumVariables() == size_t(g.nv + ng), "system-variables", "number of variables"); int c = 0;
            for (int k = 0; k < ng; ++k) { x(c++) = h[k]; for (int v : grp[k]) x(c++) = p[v]; }
            auto f = S.Eval(x);
            for (int i = 0; i < nf; ++i) { MP want = 1; auto q = p; for (int k = 0; k < ng; ++k) { for (int v : grp[k]) q[v] /= h[k]; int d = fdeg(es[i], grp[k]); for (int j = 0; j < d; ++j) want *= h[k]; }
                auto w = eval(es[i], q); if (!w.ok) continue; check(mag(MP(f(i) - want*w.v)) <= 1e-19*(w.err + mag(w.v) + 1)*(mag(want) + 1), "system-homogenize-form", "function " + std::to_string(i) + " value " + str(f(i)) + " expected " + str(MP(want*w.v))); cover("systems"); }
        });
    }
    return finish();
}
