// Contracts for processing one timing message (property T03).
// hvc: std=model
// hvc: merge=yes
// hvc: flags=-DFMT_HEADER_ONLY
// hvc: assume-lower_bound=std::lower_bound is its library contract: the first element not below the key, on a table checked to be in order
#include "msg.hpp"

using namespace helics;
using hvc::Deps;

namespace {
bool isDisconnect(std::int32_t a)
{
    for (auto c : {CMD_DISCONNECT, CMD_PRIORITY_DISCONNECT, CMD_BROADCAST_DISCONNECT, CMD_DISCONNECT_CORE, CMD_DISCONNECT_BROKER, CMD_DISCONNECT_FED}) {
        if (a == static_cast<std::int32_t>(c)) {
            return true;
        }
    }
    return false;
}
/// table, message, and the record of the sender before (o) and after (x) processing
struct Update {
    Deps f;
    ActionMessage m;
    std::uint64_t p{0};
    bool mine{false};
    TimeProcessingResult r{TimeProcessingResult::NOT_PROCESSED};
    bool flag(unsigned b) const { return ((m.flags >> b) & 1U) != 0; }
    void run()
    {
        p = f.pos(m.source_id.baseValue());
        mine = f.has(p, m.source_id.baseValue()) && f.d[p].dependency;
        r = f.T.updateTime(m);
        hvc::check(f.size() == f.n, "processing a message keeps the number of records");
        hvc::forall(0, p, [&](std::uint64_t k) -> bool { return hvc::same(f.at(k), f.d[k]); }, "records of other federates are unchanged");
        hvc::forall(mine ? p + 1 : p, f.n, [&](std::uint64_t k) -> bool { return hvc::same(f.at(k), f.d[k]); },
                    "records of other federates are unchanged");
        if (mine) {
            before.read(f.d[p]);
            after.read(f.at(p));
        } else {
            hvc::check(r == TimeProcessingResult::NOT_PROCESSED, "a message from an unknown sender is not processed");
        }
    }
    hvc::Rec before;
    hvc::Rec after;
    const hvc::Rec& o() const { return before; }
    const hvc::Rec& x() const { return after; }
    /// roles and identity of a record never change; neither does anything listed as kept
    void keep(bool times, bool flags, bool counters) const
    {
        hvc::check(hvc::all(x().fedID == o().fedID, x().dependency == o().dependency, x().dependent == o().dependent, x().connection == o().connection, x().forwarding == o().forwarding, x().cyclic == o().cyclic),
                   "a message does not change identity and roles of a record");
        hvc::check(!times || hvc::sameTimes(x(), o()), "times are kept by messages that carry none");
        hvc::check(!flags || hvc::sameFlags(x(), o()), "flags are kept by messages that carry none");
        hvc::check(!counters || hvc::sameCounters(x(), o()), "counters are kept by messages that carry none");
    }
};
std::int32_t s32(std::uint32_t v)
{
    return static_cast<std::int32_t>(v);
}
}  // namespace

HARNESS(exec_request)
{
    Update u;
    hvc::arbitrary(u.m);
    u.m.setAction(CMD_EXEC_REQUEST);
    u.run();
    if (!u.mine) {
        return;
    }
    hvc_cover("known");
    const auto& o = u.o();
    const auto& x = u.x();
    u.keep(true, false, false);
    auto want = !u.flag(iteration_requested_flag) ? TimeState::exec_requested :
        u.flag(required_flag)                      ? TimeState::exec_requested_require_iteration :
                                                     TimeState::exec_requested_iterative;
    hvc::check(x.mTimeState == want, "an execution request is recorded with its iteration mode");
    hvc::check(x.sequenceCounter == s32(u.m.counter), "the iteration counter of the request is recorded");
    hvc::check(x.responseSequenceCounter == (o.connection == ConnectionType::SELF ? s32(u.m.counter) : u.m.getExtraDestData()),
               "the answered iteration of the request is recorded");
    hvc::check(x.restrictionLevel == static_cast<std::uint8_t>(u.m.messageID), "the restriction level of the request is recorded");
    hvc::check(x.minFed.baseValue() == u.m.getExtraData(), "the limiting federate of the request is recorded");
    hvc::check(x.delayedTiming == u.flag(delayed_timing_flag), "delayed timing is recorded as requested");
    hvc::check(x.updateRequested == (o.updateRequested && x.responseSequenceCounter != o.grantedIteration), "an answered update request is settled");
    hvc::check(hvc::all(x.interrupted == o.interrupted, x.hasData == o.hasData, x.nonGranting == o.nonGranting, x.triggered == o.triggered, x.grantedIteration == o.grantedIteration, x.timeoutCount == o.timeoutCount, x.timingVersion == o.timingVersion, x.minFedActual == o.minFedActual),
               "an execution request changes nothing else");
    hvc::check(u.r == (x.delayedTiming && !o.delayedTiming ? TimeProcessingResult::PROCESSED_AND_CHECK : TimeProcessingResult::PROCESSED),
               "an execution request is processed, newly delayed timing is checked");
}
HARNESS(exec_grant)
{
    Update u;
    hvc::arbitrary(u.m);
    u.m.setAction(CMD_EXEC_GRANT);
    u.run();
    if (!u.mine) {
        return;
    }
    hvc_cover("known");
    const auto& o = u.o();
    const auto& x = u.x();
    u.keep(false, false, false);
    hvc::check(u.r == TimeProcessingResult::PROCESSED, "an execution grant is processed");
    if (u.flag(iteration_requested_flag)) {
        hvc_cover("iterating");
        hvc::check(hvc::all(x.mTimeState == TimeState::initialized, hvc::sameTimes(x, o)), "an iterating grant keeps the federate in initialization");
        hvc::check(hvc::all(x.sequenceCounter == s32(u.m.counter), x.responseSequenceCounter == 0, x.grantedIteration == o.grantedIteration),
                   "an iterating grant carries its iteration");
        hvc::check(hvc::all(x.minFed == o.minFed, x.timeoutCount == o.timeoutCount), "an iterating grant changes nothing else");
    } else {
        hvc_cover("entry");
        hvc::check(hvc::all(x.mTimeState == TimeState::time_granted, x.next == timeZero, x.Te == timeZero, x.minDe == timeZero),
                   "entering execution grants time zero");
        hvc::check(hvc::all(x.TeAlt == o.TeAlt, x.lastGrant == o.lastGrant), "an execution grant changes nothing else");
        hvc::check(hvc::all(x.sequenceCounter == 0, x.responseSequenceCounter == 0, x.grantedIteration == 0, x.timeoutCount == 0),
                   "entering execution restarts the counters");
        hvc::check(x.minFed == GlobalFederateId(), "entering execution clears the limiting federate");
    }
    hvc::check(hvc::all(x.restrictionLevel == 0, !x.hasData), "a grant clears the restriction and the data notice");
    hvc::check(hvc::all(x.interrupted == o.interrupted, x.delayedTiming == o.delayedTiming, x.nonGranting == o.nonGranting, x.triggered == o.triggered, x.updateRequested == o.updateRequested, x.timingVersion == o.timingVersion, x.minFedActual == o.minFedActual),
               "an execution grant changes nothing else");
}
namespace {
void timeRequest(bool iterate, bool required)
{
    Update u;
    hvc::arbitrary(u.m);
    u.m.setAction(CMD_TIME_REQUEST);
    hvc_assume(u.flag(iteration_requested_flag) == iterate && (!iterate || u.flag(required_flag) == required));
    u.run();
    if (!u.mine) {
        return;
    }
    hvc_cover("known");
    const auto& o = u.o();
    const auto& x = u.x();
    u.keep(false, false, false);
    auto want = !u.flag(iteration_requested_flag) ? TimeState::time_requested :
        u.flag(required_flag)                      ? TimeState::time_requested_require_iteration :
                                                     TimeState::time_requested_iterative;
    hvc::check(x.mTimeState == want, "a time request is recorded with its iteration mode");
    hvc::check(hvc::all(x.next == u.m.actionTime, x.Te == u.m.Te), "a time request carries its next and event time");
    hvc::check(x.minDe == u.m.Tdemin || x.minDe == u.m.Te, "the dependent event time is one the request carries");
    hvc::check(hvc::all(x.minDe <= u.m.Tdemin, x.minDe <= u.m.Te), "the dependent event time is never after the event time");
    hvc::check(x.TeAlt == o.TeAlt, "a time request changes nothing else");
    hvc::check(hvc::tick(x.lastGrant) == (o.mTimeState == TimeState::time_granted ? hvc::tick(o.next) : hvc::tick(o.lastGrant)), "a request after a grant remembers the granted time");
    hvc::check(hvc::all(x.minFed.baseValue() == u.m.getExtraData(), x.minFedActual == o.minFedActual), "the limiting federate of the request is recorded");
    hvc::check(hvc::all(x.interrupted == u.flag(interrupted_flag), x.triggered == u.flag(destination_target)), "interruption and trigger are recorded as requested");
    hvc::check(x.nonGranting == (o.nonGranting || u.flag(non_granting_flag)), "a request can declare non granting timing");
    hvc::check(x.delayedTiming == (o.delayedTiming || u.flag(delayed_timing_flag)), "a request can declare delayed timing");
    hvc::check(x.sequenceCounter == s32(u.m.counter), "the iteration counter of the request is recorded");
    hvc::check(x.responseSequenceCounter == (o.connection == ConnectionType::SELF ? s32(u.m.counter) : u.m.getExtraDestData()),
               "the answered iteration of the request is recorded");
    hvc::check(x.updateRequested == (o.updateRequested && x.responseSequenceCounter != o.grantedIteration), "an answered update request is settled");
    hvc::check(hvc::all(x.hasData == o.hasData, x.grantedIteration == o.grantedIteration, x.timeoutCount == o.timeoutCount, x.timingVersion == o.timingVersion, x.restrictionLevel == o.restrictionLevel),
               "a time request changes nothing else");
    if (x.delayedTiming && !o.delayedTiming) {
        hvc::check(u.r == TimeProcessingResult::PROCESSED_AND_CHECK, "newly delayed timing is checked");
    } else if (o.mTimeState == TimeState::time_granted) {
        hvc::check(u.r == TimeProcessingResult::PROCESSED_NEW_REQUEST, "a request after a grant is a new request");
    } else {
        hvc::check(u.r == TimeProcessingResult::PROCESSED, "a time request is processed");
    }
}
}  // namespace
HARNESS(time_request)
{
    timeRequest(false, false);
}
HARNESS(time_request_iterative)
{
    timeRequest(true, false);
}
HARNESS(time_request_required)
{
    timeRequest(true, true);
}
HARNESS(time_grant)
{
    Update u;
    hvc::arbitrary(u.m);
    u.m.setAction(CMD_TIME_GRANT);
    u.run();
    if (!u.mine) {
        return;
    }
    hvc_cover("known");
    const auto& o = u.o();
    const auto& x = u.x();
    u.keep(false, false, false);
    hvc::check(x.mTimeState == TimeState::time_granted, "a grant is recorded");
    hvc::check(hvc::all(x.next == u.m.actionTime, x.Te == u.m.actionTime, x.minDe == u.m.actionTime), "a grant makes all times the granted time");
    hvc::check(hvc::all(x.TeAlt == o.TeAlt, x.lastGrant == o.lastGrant), "a grant changes nothing else");
    hvc::check(hvc::all(x.minFed == GlobalFederateId(), !x.interrupted, !x.hasData, x.timeoutCount == 0), "a grant ends interruption, limits and data notices");
    hvc::check(x.sequenceCounter == s32(u.m.counter), "a grant carries its iteration");
    hvc::check(hvc::all(x.delayedTiming == o.delayedTiming, x.nonGranting == o.nonGranting, x.triggered == o.triggered, x.updateRequested == o.updateRequested, x.grantedIteration == o.grantedIteration, x.responseSequenceCounter == o.responseSequenceCounter, x.restrictionLevel == o.restrictionLevel, x.timingVersion == o.timingVersion, x.minFedActual == o.minFedActual),
               "a grant changes nothing else");
    hvc::check(u.r == TimeProcessingResult::PROCESSED, "a grant is processed");
}
HARNESS(leaving)
{
    Update u;
    hvc::arbitrary(u.m);
    auto a = static_cast<std::int32_t>(u.m.action());
    bool error = a == static_cast<std::int32_t>(CMD_LOCAL_ERROR) || a == static_cast<std::int32_t>(CMD_GLOBAL_ERROR);
    hvc_assume(error || isDisconnect(a));
    u.run();
    if (!u.mine) {
        return;
    }
    const auto& o = u.o();
    const auto& x = u.x();
    u.keep(false, false, false);
    hvc::check(hvc::all(x.next == Time::maxVal(), x.Te == Time::maxVal(), x.minDe == Time::maxVal()), "a dependency that left imposes no time constraint");
    hvc::check(hvc::all(x.minFed == GlobalFederateId(), x.timeoutCount == 0), "a dependency that left is limited by nobody");
    if (error) {
        hvc_cover("error");
        hvc::check(x.mTimeState == TimeState::error, "an error is recorded");
        hvc::check(hvc::sameFlags(x, o), "an error changes nothing else");
    } else {
        hvc_cover("disconnect");
        hvc::check(x.mTimeState == TimeState::time_granted, "a disconnect is recorded as granted forever");
        hvc::check(hvc::all(!x.hasData, !x.updateRequested), "after a disconnect nothing is outstanding");
        hvc::check(hvc::all(x.interrupted == o.interrupted, x.delayedTiming == o.delayedTiming, x.nonGranting == o.nonGranting, x.triggered == o.triggered),
                   "a disconnect changes nothing else");
    }
    hvc::check(hvc::all(x.TeAlt == o.TeAlt, x.lastGrant == o.lastGrant, x.sequenceCounter == o.sequenceCounter, x.responseSequenceCounter == o.responseSequenceCounter, x.grantedIteration == o.grantedIteration, x.restrictionLevel == o.restrictionLevel, x.timingVersion == o.timingVersion, x.minFedActual == o.minFedActual),
               "leaving changes nothing else");
    hvc::check(u.r == TimeProcessingResult::PROCESSED, "leaving is processed");
}
HARNESS(others)
{
    Update u;
    hvc::arbitrary(u.m);
    auto a = u.m.action();
    auto v = static_cast<std::int32_t>(a);
    hvc_assume(a != CMD_EXEC_REQUEST && a != CMD_EXEC_GRANT && a != CMD_TIME_REQUEST && a != CMD_TIME_GRANT && !isDisconnect(v) &&
               a != CMD_LOCAL_ERROR && a != CMD_GLOBAL_ERROR);
    u.run();
    if (!u.mine) {
        return;
    }
    const auto& o = u.o();
    const auto& x = u.x();
    bool info = a == CMD_TIMING_INFO;
    bool data = a == CMD_SEND_MESSAGE || a == CMD_PUB;
    bool ask = a == CMD_REQUEST_CURRENT_TIME;
    u.keep(true, !info && !data, !info && !ask);
    hvc::check(hvc::all(x.mTimeState == o.mTimeState, x.minFed == o.minFed, x.minFedActual == o.minFedActual), "such a message does not change the timing state");
    if (info) {
        hvc_cover("info");
        hvc::check(hvc::all(x.nonGranting == u.flag(non_granting_flag), x.delayedTiming == u.flag(delayed_timing_flag), x.timingVersion == static_cast<std::int8_t>(u.m.getExtraData())),
                   "timing properties are recorded as stated");
        hvc::check(hvc::all(x.hasData == o.hasData, x.interrupted == o.interrupted, x.triggered == o.triggered, x.updateRequested == o.updateRequested, x.sequenceCounter == o.sequenceCounter, x.responseSequenceCounter == o.responseSequenceCounter, x.grantedIteration == o.grantedIteration, x.restrictionLevel == o.restrictionLevel, x.timeoutCount == o.timeoutCount),
                   "timing properties change nothing else");
        hvc::check(u.r == TimeProcessingResult::PROCESSED_AND_CHECK, "timing properties are checked");
    } else if (data) {
        hvc_cover("data");
        hvc::check(x.hasData, "sent data is noticed");
        hvc::check(hvc::all(x.interrupted == o.interrupted, x.triggered == o.triggered, x.updateRequested == o.updateRequested, x.nonGranting == o.nonGranting, x.delayedTiming == o.delayedTiming),
                   "a data notice changes nothing else");
        hvc::check(u.r == TimeProcessingResult::PROCESSED, "a data notice is processed");
    } else if (ask) {
        hvc_cover("ask");
        hvc::check(x.sequenceCounter == s32(u.m.counter), "a query carries its counter");
        hvc::check(hvc::all(x.responseSequenceCounter == o.responseSequenceCounter, x.grantedIteration == o.grantedIteration, x.restrictionLevel == o.restrictionLevel, x.timeoutCount == o.timeoutCount, x.timingVersion == o.timingVersion),
                   "a query changes nothing else");
        hvc::check(u.r == TimeProcessingResult::PROCESSED, "a query is processed");
    } else {
        hvc_cover("foreign");
        hvc::check(u.r == TimeProcessingResult::NOT_PROCESSED, "messages that are not about timing are not processed");
    }
}
namespace {
void arbitrary(TimeData& t, const char* nm)
{
    auto* r = static_cast<DependencyInfo*>(hvc_array(nm, sizeof(DependencyInfo), 1, 1));
    HVC_NATIVE(hvc::tame(*r, 0);)
    hvc_assume(hvc::validRec(*r));
    t = *r;
}
}  // namespace
HARNESS(aggregate)
{
    TimeData a;
    TimeData b;
    arbitrary(a, "old");
    arbitrary(b, "new");
    const TimeData o = a;
    bool r = a.update(b);
    hvc::check(hvc::all(a.next == b.next, a.Te == b.Te, a.minDe == b.minDe, a.TeAlt == b.TeAlt, a.mTimeState == b.mTimeState, a.minFed == b.minFed, a.minFedActual == b.minFedActual, a.interrupted == b.interrupted, a.sequenceCounter == b.sequenceCounter, a.responseSequenceCounter == b.responseSequenceCounter),
               "an update takes over times, state, counters and limiting federates");
    hvc::check(r == !(o.next == b.next && o.Te == b.Te && o.minDe == b.minDe && o.TeAlt == b.TeAlt && o.mTimeState == b.mTimeState && o.minFed == b.minFed &&
                      o.minFedActual == b.minFedActual && o.interrupted == b.interrupted && o.responseSequenceCounter == b.responseSequenceCounter),
               "an update is reported exactly when something that limits time changed");
    hvc::check(hvc::all(a.lastGrant == o.lastGrant, a.timeoutCount == o.timeoutCount, a.grantedIteration == o.grantedIteration, a.hasData == o.hasData),
               "an update changes nothing else");
}
