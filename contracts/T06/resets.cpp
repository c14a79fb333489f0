// Contracts for the bulk resets of the dependency table (property T06).
// hvc: std=model
// hvc: merge=yes
#include "deps.hpp"

using namespace helics;
using hvc::Deps;

namespace {
/// dependencies that have not got beyond an (iterative) execution request
bool inExec(const DependencyInfo& d)
{
    return d.dependency &&
        (d.mTimeState == TimeState::initialized || d.mTimeState == TimeState::exec_requested_require_iteration ||
         d.mTimeState == TimeState::exec_requested_iterative);
}
}  // namespace

HARNESS(exec_requests)
{
    Deps f;
    f.T.resetIteratingExecRequests();
    hvc::check(f.size() == f.n, "a reset keeps the number of records");
    hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return inExec(f.d[k]) || hvc::same(f.at(k), f.d[k]); }, "records in other states are untouched");
    hvc::forall(
        0,
        f.n,
        [&](std::uint64_t k) -> bool {
            const auto& x = f.at(k);
            const auto& o = f.d[k];
            return !inExec(o) || (x.mTimeState == TimeState::initialized && x.grantedIteration == o.sequenceCounter && x.sequenceCounter == 0);
        },
        "an iterating execution request is reset and its iteration remembered");
    hvc::forall(
        0,
        f.n,
        [&](std::uint64_t k) -> bool {
            const auto& x = f.at(k);
            const auto& o = f.d[k];
            return hvc::sameTimes(x, o) && x.fedID == o.fedID && hvc::sameFlags(x, o) && x.dependency == o.dependency &&
                x.dependent == o.dependent && x.connection == o.connection;
        },
        "resetting execution requests keeps times, flags and roles");
}
HARNESS(time_requests)
{
    Deps f;
    auto t = hvc::someTime("t");
    f.T.resetIteratingTimeRequests(t);
    hvc::check(f.size() == f.n, "a reset keeps the number of records");
    auto hit = [&](const DependencyInfo& o) { return o.dependency && o.mTimeState == TimeState::time_requested_iterative && o.next == t; };
    hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return hit(f.d[k]) || hvc::same(f.at(k), f.d[k]); }, "records in other states are untouched");
    hvc::forall(
        0,
        f.n,
        [&](std::uint64_t k) -> bool {
            const auto& x = f.at(k);
            const auto& o = f.d[k];
            return !hit(o) ||
                (x.mTimeState == TimeState::time_granted && x.next == t && x.Te == t && x.minDe == t && x.fedID == o.fedID &&
                 hvc::sameFlags(x, o) && x.dependency && x.dependent == o.dependent && x.connection == o.connection);
        },
        "an iterating request at the granted time becomes a grant of that time");
}
HARNESS(dependent_events)
{
    Deps f;
    auto t = hvc::someTime("t");
    f.T.resetDependentEvents(t);
    hvc::check(f.size() == f.n, "a reset keeps the number of records");
    hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return f.d[k].dependency || hvc::same(f.at(k), f.d[k]); }, "records that are no dependency are untouched");
    hvc::forall(
        0,
        f.n,
        [&](std::uint64_t k) -> bool {
            const auto& x = f.at(k);
            const auto& o = f.d[k];
            return !o.dependency || (x.Te >= o.next && x.Te >= t && x.minDe >= o.next && x.minDe >= t);
        },
        "event times do not move before the reported or the granted time");
    hvc::forall(
        0,
        f.n,
        [&](std::uint64_t k) -> bool {
            const auto& x = f.at(k);
            const auto& o = f.d[k];
            return !o.dependency || ((x.Te == o.next || x.Te == t) && (x.minDe == o.next || x.minDe == t));
        },
        "event times restart at the reported or the granted time");
    hvc::forall(
        0,
        f.n,
        [&](std::uint64_t k) -> bool {
            const auto& x = f.at(k);
            const auto& o = f.d[k];
            return x.next == o.next && x.TeAlt == o.TeAlt && x.lastGrant == o.lastGrant && hvc::sameIds(x, o) && hvc::sameFlags(x, o) &&
                hvc::sameCounters(x, o);
        },
        "resetting events changes only the event times");
}
HARNESS(issues)
{
    Deps f;
    bool waiting = hvc::any<bool>("waiting");
    auto bad = [&](std::uint64_t k) -> bool {
        return f.d[k].dependency && f.d[k].dependent && f.d[k].delayedTiming && f.d[k].connection != ConnectionType::SELF;
    };
    auto p = hvc::first(0, f.n, bad);
    auto q = p < f.n ? hvc::first(p + 1, f.n, bad) : f.n;
    auto r = f.T.checkForIssues(waiting);
    hvc::check((r.first != 0) == (waiting ? p < f.n : q < f.n), "an issue is reported exactly when two waiting federates depend on each other");
    if (p < f.n) {
        hvc_cover("delayed");
        hvc::check(f.T.delayedDependency() == f.d[r.first != 0 && !waiting ? q : p].fedID, "the waiting dependency remembered is one of the table");
    } else {
        hvc::check(!f.T.hasDelayedDependency() && r.first == 0, "without waiting dependencies nothing is reported");
    }
    hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return hvc::same(f.at(k), f.d[k]); }, "checking changes no record");
}
