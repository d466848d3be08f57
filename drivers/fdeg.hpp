#pragma once
#include "common.hpp"
namespace vt {
static const int SKIP = -77;
// formal degree in the variables of s; -1: not a polynomial in them; SKIP: no opinion
inline int fdeg(E e, std::set<int> const& s) {
    std::vector<int> k; for (auto& c : e->k) { k.push_back(fdeg(c, s)); if (k.back() == SKIP) return SKIP; }
    switch (e->op) {
        case INT: case RAT: case FLT: case PI_: case E_: return 0;
        case VAR: return s.count(e->var) ? 1 : 0;
        case NEG: case HANDLE: return k[0];
        case ADD: case SUB: return k[0] < 0 || k[1] < 0 ? -1 : std::max(k[0], k[1]);
        case MUL: return k[0] < 0 || k[1] < 0 ? -1 : k[0] + k[1];
        case DIV: return k[0] < 0 || k[1] != 0 ? -1 : k[0];
        case IPOW: if (k[0] < 0) return e->a == 0 ? SKIP : -1; return e->a >= 0 ? (int)e->a*k[0] : k[0] == 0 ? 0 : -1;
        case FPOW: { if (k[1] != 0) return -1; if (k[0] == 0) return 0; E x = e->k[1]; double v = x->op == RAT ? (double)x->a/x->b : x->a/1024.0;
            if (v == std::floor(v)) { if (v == 0) return k[0] < 0 ? SKIP : 0; if (v < 0) return -1; return k[0] < 0 ? -1 : (int)v*k[0]; } return -1; }
        default: return k[0] == 0 ? 0 : -1;
    }
}
}
