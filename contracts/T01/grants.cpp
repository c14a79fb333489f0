// Contracts for the grant checks over the dependency table (property T01).
// hvc: std=model
// hvc: merge=yes
#include "deps.hpp"

using namespace helics;
using hvc::Deps;

namespace {
bool isIterative(TimeState s)
{
    return s == TimeState::time_requested_iterative || s == TimeState::time_requested_require_iteration;
}
/// dependencies that can still act: not the federate itself, and with a next time before the end
bool other(const DependencyInfo& x)
{
    return hvc::all(x.dependency, x.connection != ConnectionType::SELF);
}
bool active(const DependencyInfo& x)
{
    return hvc::all(other(x), x.next < cTerminationTime);
}
/// it may still act at the time it reported: the grant there is not complete, or its request does not imply a grant
bool mayActAt(const DependencyInfo& x)
{
    return x.mTimeState == TimeState::time_granted || hvc::all(x.mTimeState == TimeState::time_requested, x.nonGranting);
}
bool blocks(const DependencyInfo& x, bool iterating, Time t, GrantDelayMode mode)
{
    bool before = x.next < t;
    bool at = x.next == t;
    bool b = before;
    if (iterating) {
        b = hvc::any_(b, hvc::all(at, x.mTimeState == TimeState::time_granted));
        b = hvc::any_(b, hvc::all(mode == GrantDelayMode::WAITING, isIterative(x.mTimeState), x.sequenceCounter < x.grantedIteration));
    } else if (mode == GrantDelayMode::NONE) {
        b = hvc::any_(b, hvc::all(at, mayActAt(x)));
    } else if (mode == GrantDelayMode::INTERRUPTED) {
        b = hvc::any_(b, hvc::all(at, mayActAt(x)), hvc::all(at, !x.interrupted, !x.delayedTiming));
    } else {
        b = hvc::any_(b, at);
    }
    return hvc::all(active(x), b);
}
void timeGrant(bool iterating, GrantDelayMode mode)
{
    Deps f;
    auto t = hvc::someTime("t");
    const auto& T = f.T;
    if (hvc::any<bool>("clear")) {
        hvc::assume_forall(0, f.n, [&](std::uint64_t k) -> bool { return !blocks(f.d[k], iterating, t, mode); });
        hvc_cover("clear");
        hvc::check(T.checkIfReadyForTimeGrant(iterating, t, mode), "a time no dependency blocks is not withheld");
        return;
    }
    if (T.checkIfReadyForTimeGrant(iterating, t, mode)) {
        hvc_cover("granted");
        hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return !active(f.d[k]) || f.d[k].next >= t; },
                    "no time is granted before every active dependency has reported to be at least that far");
        hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return !blocks(f.d[k], iterating, t, mode); },
                    "no time is granted while a dependency blocks it");
    }
    hvc::check(f.size() == f.n, "checking keeps the table");
}
}  // namespace

HARNESS(grant_plain)
{
    timeGrant(false, GrantDelayMode::NONE);
}
HARNESS(grant_interrupted)
{
    timeGrant(false, GrantDelayMode::INTERRUPTED);
}
HARNESS(grant_waiting)
{
    timeGrant(false, GrantDelayMode::WAITING);
}
HARNESS(grant_iterating)
{
    timeGrant(true, hvc::any<bool>("interrupted") ? GrantDelayMode::INTERRUPTED : GrantDelayMode::NONE);
}
HARNESS(grant_iterating_waiting)
{
    timeGrant(true, GrantDelayMode::WAITING);
}

namespace {
bool pastExec(const DependencyInfo& x, bool iterating)
{
    auto min = iterating ? TimeState::time_requested_require_iteration : TimeState::time_requested;
    return hvc::any_(!other(x), x.mTimeState >= min, hvc::all(x.mTimeState == TimeState::time_granted, x.next > timeZero));
}
bool holdsEntry(const DependencyInfo& x, bool iterating, bool waiting)
{
    if (iterating && waiting) {
        return hvc::all(other(x),
                        hvc::any_(hvc::all(x.mTimeState == TimeState::initialized, x.grantedIteration == 0),
                                  hvc::all(hvc::any_(x.mTimeState == TimeState::exec_requested_iterative,
                                                     x.mTimeState == TimeState::exec_requested_require_iteration),
                                           x.sequenceCounter < x.grantedIteration)));
    }
    if (iterating) {
        return hvc::all(x.dependency, x.mTimeState == TimeState::initialized);
    }
    if (waiting) {
        return !pastExec(x, false);
    }
    return hvc::all(other(x), x.mTimeState < TimeState::exec_requested);
}
void entry(bool iterating, bool waiting)
{
    Deps f;
    const auto& T = f.T;
    if (hvc::any<bool>("clear")) {
        hvc::assume_forall(0, f.n, [&](std::uint64_t k) -> bool { return !holdsEntry(f.d[k], iterating, waiting); });
        hvc_cover("entry clear");
        hvc::check(T.checkIfReadyForExecEntry(iterating, waiting), "an entry no dependency holds back is not withheld");
        return;
    }
    if (T.checkIfReadyForExecEntry(iterating, waiting)) {
        hvc_cover("entered");
        hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return !holdsEntry(f.d[k], iterating, waiting); },
                    "execution is not entered before every dependency has asked for it");
    }
    hvc::check(f.size() == f.n, "checking keeps the table");
}
}  // namespace
HARNESS(entry_plain)
{
    entry(false, false);
}
HARNESS(entry_waiting)
{
    entry(false, true);
}
HARNESS(entry_iterating)
{
    entry(true, false);
}
HARNESS(entry_iterating_waiting)
{
    entry(true, true);
}
HARNESS(past_exec)
{
    Deps f;
    const auto& T = f.T;
    bool iterating = hvc::any<bool>("iterating");
    if (hvc::any<bool>("clear")) {
        hvc::assume_forall(0, f.n, [&](std::uint64_t k) -> bool { return pastExec(f.d[k], iterating); });
        hvc::check(T.checkIfAllDependenciesArePastExec(iterating), "all dependencies being past the entry is noticed");
        return;
    }
    if (T.checkIfAllDependenciesArePastExec(iterating)) {
        hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return pastExec(f.d[k], iterating); },
                    "all dependencies are past the entry when that is reported");
    }
}
