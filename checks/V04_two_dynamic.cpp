// The two-operand cross product of two dynamic vectors must at least be callable.
#include "lib.hpp"
FAMILY(two_dynamic) {
    if (!ch.go()) return;
    lalib::DynVec<T> a(V{T(1), T(2), T(3)}), b(V{T(4), T(5), T(6)});
    ch.op();
    (void)lalib::cross(a, b);
}
