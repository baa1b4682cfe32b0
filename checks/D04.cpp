// D04: 2x2 inversion, all small-integer matrices plus rounding patterns, all call forms and histories of two inversions.
#include "mats.hpp"
using namespace lalib;
using mc::Ch;
using M2 = SM<2, 2>;

static void expect_inverse(Ch& ch, const char* what, const M2& r, const Plain& p, long double cond, W det) {
    W inv[4] = {mc::wide(p.e[3]) / det, -mc::wide(p.e[1]) / det, -mc::wide(p.e[2]) / det, mc::wide(p.e[0]) / det};
    long double big = 0; for (auto& x: inv) big = std::max(big, (long double)std::abs(x));
    for (int i = 0; i < 4; ++i) mc::expect<T>(ch, what, i, r(i / 2, i % 2), inv[i], std::abs(inv[i]) * cond, CX ? 40 : 12);
}
FAMILY(inverse) {
    int src = ch.pick(mc::NPAT); int form = ch.pick(6), rg = 0, cg = 0;
    Plain p(2, 2);
    if (src == 0) { static const int re[] = {0, 1, -1, 2, -3}, im[] = {0, 0, 2, -1, 0}; for (auto& x: p.e) { int k = ch.pick(5); x = cplx(re[k], im[k]); } rg = ch.of({0, 1, 2, 5}); cg = ch.of({0, 1, 2, 7}); p = graded(p, rg, cg); }
    else { int salt = ch.pick(40); p = pmat(src, 2, 2, salt + 1); }
    if (!ch.go()) return;
    const W a = mc::wide(p.e[0]), b = mc::wide(p.e[1]), c = mc::wide(p.e[2]), d = mc::wide(p.e[3]);
    W det = a * d - b * c;
    long double terms = std::abs(a * d) + std::abs(b * c);
    if (std::abs(det) < 1e-3L * terms || terms == 0) return;      // singular or nearly so: out of scope
    long double cond = 1 + terms / std::abs(det);
    ch.note("form %d of %s", form, mc::dump(p.e).c_str());
    M2 m = mkmat<M2>(p); const M2 cm = m;
    ch.op();
    switch (form) {
        case 0: { M2 r = inverted(m); expect_inverse(ch, "inverted", r, p, cond, det); expect_mat(ch, "argument", m, p); break; }
        case 1: { M2 r = M2::filled(T(9)); M2 s = invert(m, r); expect_inverse(ch, "destination", r, p, cond, det); expect_inverse(ch, "returned", s, p, cond, det); expect_mat(ch, "argument", m, p); break; }
        case 2: { M2& s = invert(m); ch.check(&s == &m, "the returned reference is not the argument"); expect_inverse(ch, "in-place", m, p, cond, det); break; }
        case 3: { M2 s = invert(m, m); expect_inverse(ch, "destination = argument", m, p, cond, det); expect_inverse(ch, "returned", s, p, cond, det); break; }
        case 4: { M2 r = inverted(cm); M2 q = inverted(cm); expect_inverse(ch, "first", r, p, cond, det); expect_inverse(ch, "second", q, p, cond, det); expect_mat(ch, "argument", cm, p); break; }
        case 5: {   // inverting twice gives the matrix back, A * A^-1 = I
            M2 r = inverted(m); M2 i = m * r;
            long double s = 0; for (auto& x: p.e) s = std::max(s, mag(x)); long double t = 0; for (int k = 0; k < 4; ++k) t = std::max(t, mag(r(k / 2, k % 2)));
            for (int k = 0; k < 4; ++k) mc::expect<T>(ch, "A * inverse", k, i(k / 2, k % 2), W(k == 0 || k == 3 ? 1 : 0), s * t * cond, CX ? 80 : 24);
            invert(r); for (int k = 0; k < 4; ++k) mc::expect<T>(ch, "inverted twice", k, r(k / 2, k % 2), mc::wide(p.e[k]), s * cond * cond, CX ? 80 : 24);
            break;
        }
    }
}
