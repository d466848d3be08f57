// Shared support of the bounded stand-in drivers: random expressions with an independent evaluator (oracle),
// failure reporting, seeds.  Nothing here calls the code under test except to build trees.
#pragma once
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
#include <memory>
#include <random>
#include <set>
#include <map>
#include <vector>
#include <string>
#include <functional>
#include <csignal>
#include <unistd.h>
#include <sys/resource.h>
#include "bertini2/function_tree.hpp"

namespace vt {
using MP = bertini::mpfr_complex;
using MPR = bertini::mpfr_float;
using D = bertini::dbl;
using N = std::shared_ptr<bertini::node::Node>;
using V = std::shared_ptr<bertini::node::Variable>;

// ------------------------------------------------------------------ reporting
struct Report {
    long cases = 0; int fails = 0; std::string ctx;
    std::map<std::string, int> by;
    std::map<std::string, long> cover;
};
inline Report& R() { static Report r; return r; }
inline void ctx(std::string const& s) { R().ctx = s; }
inline void cover(std::string const& k, long n = 1) { R().cover[k] += n; }
// key identifies the kind of failure (matched against the known-findings file)
inline void fail(std::string const& key, std::string const& what) {
    auto& r = R(); r.fails++;
    if (r.by[key]++ < 3) { std::cout << "FAIL key=" << key << " :: " << r.ctx << " :: " << what << std::endl; }
}
inline bool check(bool ok, std::string const& key, std::string const& what) { R().cases++; if (!ok) fail(key, what); return ok; }
inline int finish() {
    auto& r = R();
    std::cout << "CASES " << r.cases << std::endl;
    for (auto& c : r.cover) std::cout << "COVER " << c.first << " " << c.second << std::endl;
    return r.fails ? 1 : 0;
}
inline void on_signal(int s) {
    char b[64]; int n = snprintf(b, sizeof b, "FAIL key=crash-signal-%d :: ", s); (void)!write(1, b, n);
    (void)!write(1, R().ctx.c_str(), R().ctx.size()); (void)!write(1, " :: the process was killed by a signal\n", 39); _exit(1);
}
inline std::mt19937_64& rng() { static std::mt19937_64 g(1); return g; }
inline int scale() { static int s = 1; return s; }
inline int& tier() { static int t = 0; return t; }   // 0 quick, 1 thorough
inline void init(int argc, char** argv) {
    unsigned long seed = 1; const char* e = getenv("VERIF_SEED"); if (e) seed = strtoul(e, 0, 10);
    e = getenv("VERIF_TIER"); if (e && !strcmp(e, "thorough")) tier() = 1;
    rng().seed(seed*7919+13);
    struct rlimit lim{12ul << 30, 12ul << 30}; setrlimit(RLIMIT_AS, &lim);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, on_signal);
}
inline int ri(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng()); }
inline double rd(double a = -1, double b = 1) { return std::uniform_real_distribution<double>(a, b)(rng()); }
inline bool coin(int n = 2) { return ri(0, n-1) == 0; }
template<class T> std::string str(T const& x) { std::ostringstream s; s.precision(20); s << x; return s.str(); }

// ------------------------------------------------------------------ numbers
inline double mag(MP const& z) { if (!boost::multiprecision::isfinite(MPR(z.real())) || !boost::multiprecision::isfinite(MPR(z.imag()))) return std::numeric_limits<double>::infinity(); return static_cast<double>(MPR(boost::multiprecision::abs(z))); }
inline D todbl(MP const& z) { return D(static_cast<double>(MPR(boost::multiprecision::real(z))), static_cast<double>(MPR(boost::multiprecision::imag(z)))); }
inline MP tomp(D z) { return MP(MPR(z.real()), MPR(z.imag())); }
// value with an error amplification factor: |computed - v| <= eps * err
struct VE { MP v; double err; bool ok = true; };

// ------------------------------------------------------------------ expressions
struct Ex;
using E = std::shared_ptr<const Ex>;
enum Op { INT, RAT, FLT, PI_, E_, VAR, NEG, ADD, SUB, MUL, DIV, IPOW, FPOW, SQRT, EXP, LOG, SIN, COS, TAN, ASIN, ACOS, ATAN, HANDLE };
struct Ex { Op op; std::vector<E> k; long a = 0, b = 1, c = 0; int var = -1; };
inline E mk(Op o, std::vector<E> k = {}, long a = 0, long b = 1, long c = 0) { auto e = std::make_shared<Ex>(); e->op = o; e->k = k; e->a = a; e->b = b; e->c = c; return e; }
inline E cint(long a) { return mk(INT, {}, a); }
inline E var(int i) { auto e = std::make_shared<Ex>(); e->op = VAR; e->var = i; return e; }
inline std::string show(E e) {
    static const char* fn[] = {"","","","","","","","","","","","","","sqrt","exp","log","sin","cos","tan","asin","acos","atan","F"};
    auto s = [&](int i) { return show(e->k[i]); };
    switch (e->op) {
        case INT: return std::to_string(e->a);
        case RAT: return "(" + std::to_string(e->a) + "/" + std::to_string(e->b) + ")";
        case FLT: return "(" + std::to_string(e->a/1024.0) + "+I*" + std::to_string(e->c/1024.0) + ")";
        case PI_: return "Pi"; case E_: return "E"; case VAR: return "x" + std::to_string(e->var);
        case NEG: return "-(" + s(0) + ")"; case ADD: return "(" + s(0) + " + " + s(1) + ")"; case SUB: return "(" + s(0) + " - " + s(1) + ")";
        case MUL: return "(" + s(0) + "*" + s(1) + ")"; case DIV: return "(" + s(0) + "/" + s(1) + ")";
        case IPOW: return "(" + s(0) + ")^" + std::to_string(e->a); case FPOW: return "(" + s(0) + ")^(" + s(1) + ")";
        default: return std::string(fn[e->op]) + "(" + s(0) + ")";
    }
}
// ---- oracle evaluation, with a running error factor
inline VE bad() { return VE{MP(0), 0, false}; }
inline bool nearcut(MP const& z) { double m = mag(z); D d = todbl(z); return m < 1e-3 || (d.real() <= 0 && std::abs(d.imag()) < 1e-3*m); }
inline VE eval(E e, std::vector<MP> const& x) {
    using namespace boost::multiprecision;
    std::vector<VE> k; for (auto& c : e->k) { k.push_back(eval(c, x)); if (!k.back().ok) return bad(); }
    auto un = [&](MP v, double dfdx) { double m = mag(v); if (!(m < 1e6) || !(dfdx < 1e6)) return bad(); return VE{v, dfdx*k[0].err + 4*m + 1e-3}; };
    // the inverse functions of MPC need unbounded memory next to the axes and at some short dyadic numbers
    if (e->op == ASIN || e->op == ACOS || e->op == ATAN) { D z = todbl(k[0].v); if (std::abs(z.real()) < 1e-6 || std::abs(z.imag()) < 1e-6) return bad();
        auto dy = [](double a) { double b = a*1048576; return std::abs(b - std::round(b)) < 1e-6; }; if (dy(z.real()) && dy(z.imag())) return bad(); }
    switch (e->op) {
        case INT: return VE{MP(e->a), 0.0 + std::abs((double)e->a)};
        case RAT: return VE{MP(MPR(e->a)/MPR(e->b), MPR(e->c)/MPR(e->b)), 2*(std::abs((double)e->a)+std::abs((double)e->c))/e->b};
        case FLT: return VE{MP(MPR(e->a)/1024, MPR(e->c)/1024), (std::abs((double)e->a)+std::abs((double)e->c))/1024};
        case PI_: return VE{MP(acos(MPR(-1))), 4}; case E_: return VE{MP(exp(MPR(1))), 4};
        case VAR: return VE{x.at(e->var), mag(x[e->var])};
        case NEG: return VE{-k[0].v, k[0].err}; 
        case HANDLE: return k[0];
        case ADD: { MP v = k[0].v + k[1].v; return VE{v, k[0].err + k[1].err + mag(v)}; }
        case SUB: { MP v = k[0].v - k[1].v; return VE{v, k[0].err + k[1].err + mag(v)}; }
        case MUL: { MP v = k[0].v * k[1].v; return VE{v, k[0].err*mag(k[1].v) + k[1].err*mag(k[0].v) + 4*mag(v)}; }
        case DIV: { double m = mag(k[1].v); if (m < 1e-3) return bad(); MP v = k[0].v / k[1].v; return VE{v, k[0].err/m + k[1].err*mag(v)/m + 6*mag(v)}; }
        case IPOW: {
            long n = e->a; double m = mag(k[0].v);
            if (n <= 0 && m < 1e-2) return bad();
            MP v = 1; for (long i = 0; i < std::labs(n); ++i) v *= k[0].v;
            if (n < 0) v = MP(1)/v;
            if (!(mag(v) < 1e8)) return bad();
            double der = n == 0 ? 0 : n == 1 ? 1 : std::abs((double)n)*std::pow(m, (double)n-1);
            return VE{v, der*k[0].err + 8*(std::labs(n)+1)*mag(v) + 1e-3};
        }
        case FPOW: { if (nearcut(k[0].v)) return bad(); MP v = exp(k[1].v*log(k[0].v)); double m = mag(k[0].v); double p = mag(k[1].v);
            double l = 1 + std::abs(std::log(m)) + 3.2; if (!(mag(v) < 1e6)) return bad(); return VE{v, mag(v)*(p*k[0].err/m + k[1].err*l) + 16*(1+p*l)*mag(v) + 1e-3}; }
        case SQRT: if (nearcut(k[0].v)) return bad(); { MP v = sqrt(k[0].v); return un(v, 0.5/mag(v)); }
        case EXP: { if (todbl(k[0].v).real() > 10 || mag(k[0].v) > 100) return bad(); MP v = exp(k[0].v); return un(v, mag(v)); }
        case LOG: if (nearcut(k[0].v)) return bad(); return un(log(k[0].v), 1/mag(k[0].v));
        case SIN: if (mag(k[0].v) > 8) return bad(); return un(sin(k[0].v), mag(cos(k[0].v)));
        case COS: if (mag(k[0].v) > 8) return bad(); return un(cos(k[0].v), mag(sin(k[0].v)));
        case TAN: { if (mag(k[0].v) > 8 || mag(cos(k[0].v)) < 1e-2) return bad(); MP v = tan(k[0].v); return un(v, 1+mag(v)*mag(v)); }
        case ASIN: case ACOS: { D d = todbl(k[0].v); if (std::abs(d) > 20 || (std::abs(d.imag()) < 1e-2 && std::abs(d.real()) > 0.9)) return bad();
            return un(e->op == ASIN ? MP(asin(k[0].v)) : MP(acos(k[0].v)), 1/mag(sqrt(MP(1)-k[0].v*k[0].v))); }
        case ATAN: { D d = todbl(k[0].v); if (std::abs(d) > 20 || (std::abs(d.real()) < 1e-2 && std::abs(d.imag()) > 0.9)) return bad();
            return un(MP(atan(k[0].v)), 1/mag(MP(1)+k[0].v*k[0].v)); }
    }
    return bad();
}
// ---- oracle derivative
inline E diff(E e, int v) {
    auto A = [&](E a, E b) { return mk(ADD, {a, b}); }; auto M = [&](E a, E b) { return mk(MUL, {a, b}); }; auto Q = [&](E a, E b) { return mk(DIV, {a, b}); };
    auto d = [&](int i) { return diff(e->k[i], v); };
    switch (e->op) {
        case INT: case RAT: case FLT: case PI_: case E_: return cint(0);
        case VAR: return cint(e->var == v);
        case NEG: return mk(NEG, {d(0)}); case ADD: return A(d(0), d(1)); case SUB: return mk(SUB, {d(0), d(1)}); case HANDLE: return d(0);
        case MUL: return A(M(d(0), e->k[1]), M(e->k[0], d(1)));
        case DIV: return Q(mk(SUB, {M(d(0), e->k[1]), M(e->k[0], d(1))}), mk(IPOW, {e->k[1]}, 2));
        case IPOW: return e->a == 0 ? cint(0) : M(cint(e->a), M(mk(IPOW, {e->k[0]}, e->a-1), d(0)));
        case FPOW: return M(M(e->k[1], mk(FPOW, {e->k[0], mk(SUB, {e->k[1], cint(1)})})), d(0));      // constant exponents
        case SQRT: return Q(d(0), M(cint(2), mk(SQRT, {e->k[0]})));
        case EXP: return M(mk(EXP, {e->k[0]}), d(0)); case LOG: return Q(d(0), e->k[0]);
        case SIN: return M(mk(COS, {e->k[0]}), d(0)); case COS: return mk(NEG, {M(mk(SIN, {e->k[0]}), d(0))});
        case TAN: return Q(d(0), mk(IPOW, {mk(COS, {e->k[0]})}, 2));
        case ASIN: return Q(d(0), mk(SQRT, {mk(SUB, {cint(1), mk(IPOW, {e->k[0]}, 2)})}));
        case ACOS: return mk(NEG, {Q(d(0), mk(SQRT, {mk(SUB, {cint(1), mk(IPOW, {e->k[0]}, 2)})}))});
        case ATAN: return Q(d(0), A(cint(1), mk(IPOW, {e->k[0]}, 2)));
    }
    return cint(0);
}
// ---- random expressions
struct Gen { int nv = 3; bool poly = false; bool trans = true; bool division = true; bool handles = true; bool negpow = true; bool fpow = true; int maxpow = 5; std::vector<E> pool; };
inline E gconst(Gen const& g) {
    switch (ri(0, g.poly ? 2 : 3)) { case 0: return cint(ri(-4, 5)); case 1: { auto e = mk(RAT, {}, ri(-9, 9), ri(1, 9), coin() ? ri(-5, 5) : 0); return e; }
        case 2: return mk(FLT, {}, ri(-2048, 2048), 1, coin() ? ri(-2048, 2048) : 0); default: return mk(coin() ? PI_ : E_); }
}
inline E gen(Gen& g, int depth) {
    if (depth <= 0) { if (coin(3)) return gconst(g); return var(ri(0, g.nv-1)); }
    if (!g.pool.empty() && coin(8)) return g.pool[ri(0, g.pool.size()-1)];     // shared subexpression
    E e; auto s = [&] { return gen(g, depth-1-ri(0, 1)); };
    int w = ri(0, g.trans && !g.poly ? 15 : 9);
    switch (w) {
        case 0: case 1: e = mk(ADD, {s(), s()}); break; case 2: e = mk(SUB, {s(), s()}); break; case 3: case 4: e = mk(MUL, {s(), s()}); break;
        case 5: e = mk(NEG, {s()}); break; case 6: e = (g.division && !g.poly) ? mk(DIV, {s(), s()}) : mk(DIV, {s(), cint(ri(1, 5))}); break;
        case 7: case 8: { int n = ri(0, g.maxpow); if (g.negpow && !g.poly && coin(5)) n = -ri(1, 3); e = mk(IPOW, {s()}, n); break; }
        case 9: e = g.handles ? mk(HANDLE, {s()}) : s(); break;
        case 10: e = (g.fpow) ? mk(FPOW, {s(), coin() ? mk(RAT, {}, ri(-5, 9), 2) : mk(FLT, {}, ri(-2000, 3000))}) : s(); break;
        default: e = mk(Op(SQRT + ri(0, 8)), {s()}); break;
    }
    if (coin(3)) g.pool.push_back(e);
    return e;
}
// ---- build the tree of the code under test
struct Builder {
    std::vector<V> x; std::map<const Ex*, N> memo; bool share = true; int style = 0;
    N operator()(E e) {
        if (share) { auto it = memo.find(e.get()); if (it != memo.end()) return it->second; }
        N n = make(e); if (share) memo[e.get()] = n; return n;
    }
    N make(E e) {
        using namespace bertini::node;
        auto c = [&](int i) { return (*this)(e->k[i]); };
        if (style == 3 && (e->op == ADD || e->op == SUB)) {     // one sum with many operands and signs
            std::vector<std::pair<E, bool>> ts; std::function<void(E, bool)> walk = [&](E a, bool s) {
                if (a->op == ADD || a->op == SUB) { walk(a->k[0], s); walk(a->k[1], a->op == ADD ? s : !s); } else if (a->op == NEG) walk(a->k[0], !s); else ts.push_back({a, s}); };
            walk(e, true); auto S = SumOperator::Make((*this)(ts[0].first), ts[0].second); for (size_t i = 1; i < ts.size(); ++i) S->AddOperand((*this)(ts[i].first), ts[i].second); return S;
        }
        if (style == 3 && (e->op == MUL || e->op == DIV)) {     // one product with many factors and divisors
            std::vector<std::pair<E, bool>> ts; std::function<void(E, bool)> walk = [&](E a, bool s) {
                if (a->op == MUL || (a->op == DIV && s)) { walk(a->k[0], s); walk(a->k[1], a->op == MUL ? s : !s); } else ts.push_back({a, s}); };
            static const E one = cint(1); walk(e, true); if (coin(3)) ts.insert(ts.begin(), {one, true}); if (coin(4) && ts.size() > 1) std::swap(ts[0], ts[1]);
            N first = (*this)(ts[0].first); auto M = MultOperator::Make(first); if (!ts[0].second) { M = MultOperator::Make(first, false, (*this)(ts[1].first), ts[1].second); }
            for (size_t i = ts[0].second ? 1 : 2; i < ts.size(); ++i) M->AddOperand((*this)(ts[i].first), ts[i].second); return M;
        }
        switch (e->op) {
            case INT: return Integer::Make((int)e->a);
            case RAT: return Rational::Make(bertini::mpq_rational((int)e->a, (int)e->b), bertini::mpq_rational((int)e->c, (int)e->b));
            case FLT: return Float::Make(MP(MPR((int)e->a)/1024, MPR((int)e->c)/1024));
            case PI_: return Pi(); case E_: return bertini::node::E();
            case VAR: return x.at(e->var);
            case NEG: if (style) return NegateOperator::Make(c(0)); return -c(0);
            case ADD: if (style) { auto a = c(0), b = c(1); return style == 1 ? N(SumOperator::Make(a, b)) : N(SumOperator::Make(a, true, b, true)); } return c(0) + c(1);
            case SUB: if (style) { auto a = c(0), b = c(1); return SumOperator::Make(a, true, b, false); } return c(0) - c(1);
            case MUL: if (style) { auto a = c(0), b = c(1); return style == 1 ? N(MultOperator::Make(a, b)) : N(MultOperator::Make(a, true, b, true)); } return c(0) * c(1);
            case DIV: if (style) { auto a = c(0), b = c(1); return MultOperator::Make(a, true, b, false); } return c(0) / c(1);
            case IPOW: if (style) return IntegerPowerOperator::Make(c(0), (int)e->a); return pow(c(0), (int)e->a);
            case FPOW: if (style) return PowerOperator::Make(c(0), c(1)); return pow(c(0), c(1));
            case SQRT: return style ? N(SqrtOperator::Make(c(0))) : sqrt(c(0)); case EXP: return style ? N(ExpOperator::Make(c(0))) : exp(c(0)); case LOG: return style ? N(LogOperator::Make(c(0))) : log(c(0));
            case SIN: return sin(c(0)); case COS: return cos(c(0)); case TAN: return tan(c(0)); case ASIN: return asin(c(0)); case ACOS: return acos(c(0)); case ATAN: return atan(c(0));
            case HANDLE: return Function::Make(c(0), "f");
        }
        return nullptr;
    }
};
inline std::vector<V> make_vars(int n) { std::vector<V> x; for (int i = 0; i < n; ++i) x.push_back(bertini::node::Variable::Make("x" + std::to_string(i))); return x; }
inline std::vector<MP> rand_point(int n, double r = 1.2) { std::vector<MP> p; for (int i = 0; i < n; ++i) p.push_back(tomp(D(rd(-r, r), rd(-r, r)))); return p; }
inline void set_point(std::vector<V> const& x, std::vector<MP> const& p) { for (size_t i = 0; i < x.size(); ++i) { x[i]->set_current_value<D>(todbl(p[i])); x[i]->set_current_value<MP>(p[i]); } }
// is a computed value within rounding of the oracle?
inline bool near(D got, VE const& w, double slack = 64) { double e = std::abs(got - todbl(w.v)); return e <= slack*2.3e-16*(w.err + mag(w.v) + 1e-3); }
inline bool near(MP const& got, VE const& w, int digits, double slack = 64) { double e = mag(MP(got - w.v)); return e <= slack*std::pow(10.0, 1.0-digits)*(w.err + mag(w.v) + 1e-3); }
template<class F> void guarded(std::string const& key, F f) {
    try { f(); } catch (std::exception const& ex) { fail(key + "-exception", std::string("unexpected exception: ") + ex.what()); }
}
}
