// Judging the outcomes of explored schedules.
#pragma once
#include "mc.hpp"
#include "sched.hpp"
namespace conc {
template<class T> void push(sched::Sink& s, const T& x) { if constexpr (mc::El<T>::cx) { s.push_back((double)x.real()); s.push_back((double)x.imag()); } else s.push_back((double)x); }
inline std::string schedule(const sched::Outcome& o) { std::string s; for (int d: o.decisions) s += (s.empty() ? "" : ".") + std::to_string(d); return s.empty() ? "default" : s; }
inline void same(mc::Ch& ch, const sched::Outcome& o, const sched::Sink& e, double tol, int threads) {
    if (o.status) ch.fail("%s (at most %d threads, schedule %s)", o.msg.c_str(), threads, schedule(o).c_str());
    if (o.vals.size() != e.size()) ch.fail("%zu values instead of %zu", o.vals.size(), e.size());
    double m = 0; if (tol) for (double x: e) m = std::max(m, std::fabs(x));
    for (size_t i = 0; i < e.size(); ++i) {
        if (mc::me()) mc::me()->checks++;
        if (!(o.vals[i] == e[i] || (e[i] != e[i] && o.vals[i] != o.vals[i]) || std::fabs(o.vals[i] - e[i]) <= tol * m)) ch.fail("value %zu is %.17g, expected %.17g (at most %d threads, schedule %s)", i, o.vals[i], e[i], threads, schedule(o).c_str());
    }
}
inline sched::Stats run(mc::Ch& ch, const sched::Config& c, const std::function<void(sched::Sink&)>& body, const std::function<void(const sched::Outcome&)>& judge) {
    // code without synchronisation needs one schedule; a tree full of it gets a share of the time
    static const double t0 = mc::now(); const double dt = mc::now() - t0;
    sched::Config k = c; if (!mc::thorough()) k.max_schedules = dt < 40 ? 400 : dt < 120 ? 60 : 8;
    sched::Stats s = sched::explore(k, body, judge);
    ch.op(s.schedules);
    if (auto* m = mc::me()) { m->schedules += s.schedules; m->points += s.points; m->accesses += s.accesses; m->conflicts += s.conflicts; if (s.capped) m->sched_capped++; }
    ch.note("%lu schedules, %lu scheduling points, %lu monitored accesses, %lu conflicting locations, up to %lu threads%s", (unsigned long)s.schedules, (unsigned long)s.points, (unsigned long)s.accesses, (unsigned long)s.conflicts, (unsigned long)s.threads, s.capped ? ", bounded" : "");
    return s;
}
}
