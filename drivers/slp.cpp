// bounded stand-in: straight-line programs of random systems against the oracle and against the trees
#include "sys.hpp"
#include "bertini2/system/straight_line_program.hpp"
using namespace vt; using bertini::StraightLineProgram; using bertini::SLPCompiler;
template<class T> void got(RSys& r, StraightLineProgram const& s, std::vector<MP> const& p, int prec, int what) {
    System none; if (what == 0) { bertini::Vec<T> v = s.GetFuncVals<T>(); chk_values<T>(r, none, v, p, prec, "slp-functions"); }
    if (what == 1) { bertini::Mat<T> J = s.GetJacobian<T>(); chk_jac<T>(r, none, J, p, prec, "slp-jacobian"); }
    if (what == 2 && r.path) { bertini::Vec<T> v = s.GetTimeDeriv<T>(); chk_dt<T>(r, none, v, p, prec, "slp-time-derivative"); }
}
template<class T> void place(RSys& r, StraightLineProgram const& s, std::vector<MP> const& p, bool eval) {
    auto x = vec_of<T>(p, r.n); T t = cv<T>(p[r.n]);
    if (eval) { if (r.path) s.Eval(x, t); else s.Eval(x); } else { s.SetVariableValues(x); if (r.path) s.SetPathVariable(t); }
}
int main(int argc, char** argv) {
    init(argc, argv); int rounds = tier() ? 12000 : 1500; SLPCompiler comp;
    for (int k = 0; k < rounds; ++k) {
        int prec = 30; bertini::DefaultPrecision(prec); RSys r; SysOpt o; o.poly = coin(3); o.depth = 5; structure(r, o); fill(r, o, ri(1, 3)); add_structure(r, r.S);
        r.S.SetEvalMethod(coin() ? EvalMethod::SLP : EvalMethod::FunctionTree); r.S.SetDerivMethod(coin() ? DerivMethod::JacobianNode : DerivMethod::Derivatives); r.S.SetAutoSimplify(coin()); add_functions(r, r.S);
        r.oracle(); auto p = sys_point(r.n), pd = p, pm = p; if (!sane(r, p)) continue; r.show_(); ctx(r.desc);
        guarded("slp", [&] {
            StraightLineProgram s = coin() ? StraightLineProgram(r.S) : comp.Compile(r.S); std::string h; bool hd = false, hm = false;
            check(s.NumFunctions() == r.F.size() && int(s.NumVariables()) == r.n && s.HavePathVariable() == r.path, "slp-shape", "numbers of functions, variables or the path variable");
            for (int i = 0; i < 9; ++i) {
                int act = ri(0, 9); bool d = coin(); if (act <= 2 || (act > 3 && !(d ? hd : hm))) { auto q = sys_point(r.n); if (!coin(3) && sane(r, q)) { for (auto& z : q) z.precision(prec); (d ? pd : pm) = q; } for (auto& z : pm) z.precision(prec); h += d ? "set-d " : "set-m "; ctx(r.desc + " :: " + h); if (d) place<D>(r, s, pd, act == 1); else place<MP>(r, s, pm, act == 1); (d ? hd : hm) = true; }
                else if (act == 3) { prec = ri(20, 70); bertini::DefaultPrecision(prec); s.precision(prec); for (auto& z : pm) z.precision(prec); h += "precision" + str(prec) + " "; bool again = coin(); if (again || prec > 30) hm = false; }
                else { int what = ri(0, 2); h += std::string(d ? "d" : "m") + "FJT"[what] + " "; ctx(r.desc + " :: " + h); if (d) got<D>(r, s, pd, prec, what); else got<MP>(r, s, pm, prec, what); if (act == 9) { StraightLineProgram c = s; if (d) got<D>(r, c, pd, prec, what); else got<MP>(r, c, pm, prec, what); cover("copied"); } }
            }
        });
    }
    return finish();
}
