// Contracts for the times aggregated over the dependency table (property T02).
// hvc: std=model
// hvc: merge=loops
#include "deps.hpp"

using namespace helics;
using hvc::Deps;

namespace {
enum class Side { TOTAL, UP, DOWN };
struct Fold {
    Deps f;
    Side side;
    bool restricted;
    GlobalFederateId self;
    GlobalFederateId ignore;
    std::int32_t code;
    TimeData r;
    explicit Fold(Side s):
        side(s), restricted(hvc::any<bool>("restricted")), self(hvc::someId("self")), ignore(hvc::someId("ignore")),
        code(hvc::any<std::int32_t>("code"))
    {
        HVC_NATIVE(if (hvc_replaying() == 0) code = static_cast<std::uint32_t>(code) % 4;)
    }
    void run()
    {
        const auto& T = f.T;
        r = side == Side::TOTAL ? generateMinTimeTotal(T, restricted, self, ignore, code) :
            side == Side::UP    ? generateMinTimeUpstream(T, restricted, self, ignore, code) :
                                  generateMinTimeDownstream(T, restricted, self, ignore, code);
    }
    /// records that take part
    bool taken(const DependencyInfo& x) const
    {
        bool conn = side == Side::TOTAL ? true : (side == Side::UP) == (x.connection != ConnectionType::PARENT);
        return hvc::all(x.dependency, conn, !hvc::all(self.isValid(), x.minFedActual == self));
    }
    bool contributes(const DependencyInfo& x) const { return hvc::all(taken(x), x.fedID != ignore); }
    /// the limit one record puts on the dependent event time
    Time limit(const DependencyInfo& x) const
    {
        bool sound = x.minDe >= x.next;
        bool current = x.responseSequenceCounter == code;
        if (hvc::all(x.connection != ConnectionType::SELF, hvc::any_(code == 0, current, x.timingVersion == 0, !x.dependent))) {
            return sound ? x.minDe : Time(-1);
        }
        if (hvc::all(current, x.dependent)) {
            return sound ? x.minDe : Time::maxVal();
        }
        return x.next;
    }
};
/// one record's share of a valid state: reported times are never before the start of the simulation
bool sane(const DependencyInfo& x)
{
    return hvc::any_(x.mTimeState < TimeState::time_granted,
                     hvc::all(x.next >= timeZero, x.Te >= Time(-1), x.minDe >= Time(-1)));
}
void executing(Side s)
{
    Fold m(s);
    auto& f = m.f;
    hvc::assume_forall(0, f.n, [&](std::uint64_t k) -> bool {
        return hvc::any_(!m.taken(f.d[k]), hvc::all(f.d[k].fedID == m.ignore, f.d[k].mTimeState < TimeState::time_granted),
                         hvc::all(f.d[k].mTimeState >= TimeState::time_granted, f.d[k].next >= timeZero, f.d[k].Te >= Time(-1), f.d[k].minDe >= Time(-1))); });
    m.run();
    auto& r = m.r;
    hvc_cover("executing");
    hvc::check(r.minDe <= r.Te, "the dependent event time is never after the earliest reported event");
    hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return hvc::any_(!m.contributes(f.d[k]), r.Te <= f.d[k].Te); },
        "the event time is never after one a dependency reported");
    hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return hvc::any_(!m.contributes(f.d[k]), r.minDe <= m.limit(f.d[k])); },
        "the dependent event time is never after what a dependency allows");
    hvc::forall(0, f.n, [&](std::uint64_t k) -> bool {
        return hvc::any_(!m.taken(f.d[k]), f.d[k].fedID != m.ignore, !m.ignore.isBroker(), f.d[k].mTimeState < TimeState::time_granted,
                         r.minDe <= f.d[k].Te); },
        "the events of an ignored broker still bound the dependent event time");
    hvc::forall(0, f.n, [&](std::uint64_t k) -> bool {
        return hvc::any_(!m.contributes(f.d[k]), r.next <= f.d[k].next, hvc::all(!m.restricted, r.next <= r.minDe)); },
        "the next time is never after a dependency's, or raised only to the earliest dependent event");
    hvc::check(f.size() == f.n, "aggregating keeps the table");
}
void initializing(Side s)
{
    Fold m(s);
    auto& f = m.f;
    hvc::assume_forall(0, f.n, [&](std::uint64_t k) -> bool {
        return hvc::any_(f.d[k].mTimeState < TimeState::time_granted, f.d[k].next >= timeZero); });
    auto p = hvc::any<std::uint64_t>("initializing one");
    HVC_NATIVE(if (f.n != 0) p %= f.n;)
    hvc_assume(p < f.n);
    hvc_assume(hvc::all(m.contributes(f.d[p]), f.d[p].mTimeState < TimeState::time_granted));
    auto st = f.d[p].mTimeState;
    m.run();
    auto& r = m.r;
    hvc_cover("initializing");
    hvc::check(hvc::all(r.next == initializationTime, r.Te == initializationTime, r.minDe == initializationTime),
               "a dependency that has not entered execution holds everything at initialization time");
    hvc::check(r.mTimeState <= st, "the aggregate is no further in its entry to execution than any dependency");
}
/// nothing is held back further than the table requires
void lower(Side s)
{
    Fold m(s);
    auto& f = m.f;
    Time L = hvc::someTime("bound");
    Time Ln = hvc::someTime("next bound");
    Time Le = hvc::someTime("event bound");
    hvc_assume(L <= Le);
    hvc::assume_forall(0, f.n, [&](std::uint64_t k) -> bool { return sane(f.d[k]); });
    hvc::assume_forall(0, f.n, [&](std::uint64_t k) -> bool {
        const auto& x = f.d[k];
        return hvc::any_(!m.taken(x),
                         hvc::all(x.fedID != m.ignore, x.mTimeState >= TimeState::time_granted, m.limit(x) >= L, x.Te >= Le, x.next >= Ln),
                         hvc::all(x.fedID == m.ignore, hvc::any_(x.mTimeState < TimeState::time_granted, !m.ignore.isBroker(), x.Te >= L))); });
    m.run();
    auto& r = m.r;
    hvc::check(r.mTimeState >= TimeState::time_granted, "with every dependency executing the aggregate is executing");
    hvc::check(r.Te >= Le, "the event time is one a dependency reported");
    hvc::check(r.minDe >= L, "the dependent event time is no earlier than the dependencies require");
    hvc::check(r.next >= Ln, "the next time is no earlier than the dependencies require");
    hvc::check(hvc::any_(m.restricted, r.next >= r.minDe), "unrestricted timing advances to the earliest dependent event");
}
bool active(const DependencyInfo& x)
{
    return hvc::all(x.dependency, x.fedID.isFederate(), x.next < cTerminationTime);
}
}  // namespace
HARNESS(total_executing)
{
    executing(Side::TOTAL);
}
HARNESS(total_lower)
{
    lower(Side::TOTAL);
}
HARNESS(upstream_executing)
{
    executing(Side::UP);
}
HARNESS(upstream_lower)
{
    lower(Side::UP);
}
HARNESS(downstream_executing)
{
    executing(Side::DOWN);
}
HARNESS(downstream_lower)
{
    lower(Side::DOWN);
}
HARNESS(active_query)
{
    Deps f;
    const auto& T = f.T;
    bool some = T.hasActiveTimeDependencies();
    if (!some) {
        hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return !active(f.d[k]); }, "no active dependency is overlooked");
    } else {
        auto p = hvc::first(0, f.n, [&](std::uint64_t k) -> bool { return active(f.d[k]); });
        hvc::check(p < f.n, "an active dependency exists when one is reported");
    }
}
HARNESS(active_count)
{
    Deps f;
    const auto& T = f.T;
    hvc_assume(f.n < (1ULL << 31));
    auto c = T.activeDependencyCount();
    auto p = hvc::first(0, f.n, [&](std::uint64_t k) -> bool { return active(f.d[k]); });
    hvc::check((c == 0) == (p == f.n), "the number of active dependencies is zero exactly when there is none");
    hvc::check(c >= 0 && static_cast<std::uint64_t>(c) <= f.n, "no more dependencies are counted than exist");
}
HARNESS(min_dependency)
{
    Deps f;
    const auto& T = f.T;
    auto id = T.getMinDependency();
    auto p = hvc::first(0, f.n, [&](std::uint64_t k) -> bool { return f.d[k].fedID == id; });
    if (id.isValid()) {
        hvc_cover("found");
        hvc::check(p < f.n, "the minimum dependency is in the table");
        Time best = f.d[p].next;
        hvc::check(active(f.d[p]), "the minimum dependency is active");
        hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return hvc::any_(!active(f.d[k]), best <= f.d[k].next); }, "no active dependency is earlier than the minimum");
    } else {
        hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return !active(f.d[k]); }, "an active dependency yields a minimum");
    }
}
HARNESS(total_initializing)
{
    initializing(Side::TOTAL);
}
HARNESS(upstream_initializing)
{
    initializing(Side::UP);
}
HARNESS(downstream_initializing)
{
    initializing(Side::DOWN);
}
