// The operations of a straight-line program (shared by the driver and the enumerator).
#pragma once
#include <vector>
enum Kind { ADD, SUB, PLUS, MINUS, AXPY, SCALE, NEG, SCALED, DOT, MATVEC, APPLY, MADD, MSUB, MSCALE, MMUL, MPROD };
constexpr int NV = 2, NM = 2;
struct Op { int k, i, j, r, a, b; };
inline const std::vector<Op>& ops() {
    static const std::vector<Op> o = [] {
        std::vector<Op> r;
        for (int k: {ADD, SUB}) for (int i = 0; i < NV; ++i) for (int j = 0; j < NV; ++j) for (int d = 0; d < NV; ++d) r.push_back({k, i, j, d, 0, 0});
        r.push_back({PLUS, 0, 1, 0, 0, 0}); r.push_back({MINUS, 1, 0, 0, 0, 0});
        for (int i = 0; i < NV; ++i) for (int d = 0; d < NV; ++d) for (int a: {1, 2}) r.push_back({AXPY, i, 0, d, a, 0});
        for (int d = 0; d < NV; ++d) for (int a: {1, 2, 4}) r.push_back({SCALE, 0, 0, d, a, 0});
        r.push_back({NEG, 0, 0, 1, 0, 0}); r.push_back({NEG, 1, 0, 1, 0, 0}); r.push_back({SCALED, 0, 0, 1, 2, 0});
        r.push_back({DOT, 0, 1, 0, 0, 0}); r.push_back({DOT, 1, 1, 0, 0, 0}); r.push_back({DOT, 1, 0, 0, 0, 0});
        for (int m = 0; m < NM; ++m) for (int j = 0; j < NV; ++j) for (int d = 0; d < NV; ++d) for (int b: {0, 3, 2}) r.push_back({MATVEC, m, j, d, b == 2 ? 1 : 0, b});
        r.push_back({APPLY, 0, 0, 0, 0, 0}); r.push_back({APPLY, 1, 0, 1, 0, 0});
        r.push_back({MADD, 0, 1, 0, 0, 0}); r.push_back({MSUB, 0, 1, 1, 0, 0}); r.push_back({MSUB, 1, 1, 0, 0, 0});
        r.push_back({MSCALE, 0, 0, 0, 2, 0}); r.push_back({MSCALE, 0, 0, 1, 1, 0});
        for (int i = 0; i < NM; ++i) for (int j = 0; j < NM; ++j) for (int d = 0; d < NM; ++d) r.push_back({MMUL, i, j, d, d ? 0 : 2, d ? 1 : 3});
        r.push_back({MPROD, 0, 1, 0, 0, 0}); r.push_back({MPROD, 1, 1, 1, 0, 0});
        return r;
    }();
    return o;
}
