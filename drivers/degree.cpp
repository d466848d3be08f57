// bounded stand-in: degrees, polynomiality of random expressions against an independent formal degree
#include "common.hpp"
#include "fdeg.hpp"
using namespace vt;
std::string names(std::set<int> const& s) { std::string r; for (int i : s) r += " x" + std::to_string(i); return r; }
int main(int argc, char** argv) {
    init(argc, argv); bertini::DefaultPrecision(30);
    int rounds = tier() ? 120000 : 14000;
    for (int t = 0; t < rounds; ++t) {
        Gen g; g.nv = ri(1, 4); g.poly = !coin(3); g.trans = !g.poly && coin(); g.maxpow = 3; Builder b; b.x = make_vars(g.nv); b.style = ri(0, 3); b.share = !coin(3);
        E e = gen(g, ri(1, 4)); N n = b(e); set_point(b.x, rand_point(g.nv)); ctx(show(e));
        auto agree = [&](int got, int want) { return want == SKIP || (want < 0 ? got < 0 : got == want); };
        guarded("degree", [&] {
            std::set<int> all; for (int v = 0; v < g.nv; ++v) all.insert(v);
            std::vector<int> per; bool opinion = true, poly = true;
            for (int v = 0; v < g.nv; ++v) {
                int w = fdeg(e, {v}); per.push_back(w); if (w == SKIP) { opinion = false; continue; } if (w < 0) poly = false;
                int d = n->Degree(b.x[v]); check(agree(d, w), "degree-variable", "degree in x" + std::to_string(v) + ": got " + str(d) + " expected " + str(w));
                check(n->IsPolynomial(b.x[v]) == (w >= 0), "polynomial-variable", "IsPolynomial in x" + std::to_string(v) + " expected " + str(w >= 0)); cover(w < 0 ? "nonpolynomial" : "polynomial");
            }
            for (int r = 0; r < 3; ++r) {
                std::set<int> s; bertini::VariableGroup vg; std::vector<int> ord;
                for (int v = 0; v < g.nv; ++v) if (r == 0 || coin()) { s.insert(v); ord.push_back(v); }
                std::shuffle(ord.begin(), ord.end(), rng()); for (int v : ord) vg.push_back(b.x[v]);
                if (s.empty()) continue;
                int w = fdeg(e, s); if (w == SKIP) continue;
                int d = n->Degree(vg); check(agree(d, w), "degree-group", "degree in the group" + names(s) + ": got " + str(d) + " expected " + str(w)); cover("groups");
                check(n->IsPolynomial(vg) == (w >= 0), "polynomial-group", "IsPolynomial in the group" + names(s) + " expected " + str(w >= 0));
                auto md = n->MultiDegree(vg); bool ok = md.size() == ord.size();
                for (size_t i = 0; ok && i < ord.size(); ++i) if (per[ord[i]] != SKIP) ok = agree(md[i], per[ord[i]]);
                check(ok, "multidegree", "degrees variable by variable in the group" + names(s) + " differ from the degrees in the single variables");
            }
            int w = fdeg(e, all); if (w != SKIP) { int d = n->Degree(); check(agree(d, w), "degree-total", "total degree: got " + str(d) + " expected " + str(w)); }
        });
    }
    return finish();
}
