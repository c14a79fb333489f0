// Fixture: a dependency table holding any number of arbitrary records in identifier order.
#pragma once
#include "model.hpp"

#include "helics/core/TimeDependencies.cpp"

namespace hvc {
using helics::ConnectionType;
using helics::DependencyInfo;
using helics::GlobalFederateId;
using helics::Time;
using helics::TimeDependencies;
using helics::TimeState;

inline bool validState(TimeState s)
{
    auto v = static_cast<std::uint8_t>(s);
    return v <= 3 || (v >= 5 && v <= 8) || v == 10;
}
template<class B>
inline bool isBool(const B& b)
{
    unsigned char c;
    __builtin_memcpy(&c, &b, 1);
    return c <= 1;
}
inline bool validRec(const DependencyInfo& d)
{
    return validState(d.mTimeState) && static_cast<std::uint8_t>(d.connection) <= 4 && isBool(d.hasData) && isBool(d.interrupted) &&
        isBool(d.delayedTiming) && isBool(d.cyclic) && isBool(d.dependent) && isBool(d.dependency) && isBool(d.forwarding) &&
        isBool(d.nonGranting) && isBool(d.triggered) && isBool(d.updateRequested);
}
inline std::int64_t tick(Time t)
{
    return t.getBaseTimeCode();
}
inline Time timeOf(std::int64_t c)
{
    Time t;
    t.setBaseTimeCode(c);
    return t;
}
#ifndef HVC_MODEL_STD
inline std::int64_t smallTime(std::int64_t v)
{
    if (hvc_replaying() != 0) {
        return v;
    }
    switch (static_cast<std::uint64_t>(v) % 16) {
        case 0: return Time::maxVal().getBaseTimeCode();
        case 1: return helics::cTerminationTime.getBaseTimeCode();
        case 2: return helics::initializationTime.getBaseTimeCode();
        case 3: return -1;
        default: return (static_cast<std::uint64_t>(v) / 16) % 4;
    }
}
inline void tame(unsigned char* p)
{
    *p &= 1U;
}
inline void tame(DependencyInfo& d, std::int32_t id)
{
    for (auto* t : {&d.next, &d.Te, &d.minDe, &d.TeAlt, &d.lastGrant}) {
        *t = timeOf(smallTime(t->getBaseTimeCode()));
    }
    for (void* b : {(void*)&d.hasData, (void*)&d.interrupted, (void*)&d.delayedTiming, (void*)&d.cyclic, (void*)&d.dependent,
                    (void*)&d.dependency, (void*)&d.forwarding, (void*)&d.nonGranting, (void*)&d.triggered, (void*)&d.updateRequested}) {
        tame(static_cast<unsigned char*>(b));
    }
    static const std::uint8_t S[9] = {0, 1, 2, 3, 5, 6, 7, 8, 10};
    auto* s = reinterpret_cast<std::uint8_t*>(&d.mTimeState);
    auto* c = reinterpret_cast<std::uint8_t*>(&d.connection);
    if (hvc_replaying() == 0) {
        *s = S[*s % 9];
        *c = *c % 5;
        d.fedID = GlobalFederateId(id);
        d.sequenceCounter = static_cast<std::uint32_t>(d.sequenceCounter) % 4;
        d.responseSequenceCounter = static_cast<std::uint32_t>(d.responseSequenceCounter) % 4;
        d.grantedIteration = static_cast<std::uint32_t>(d.grantedIteration) % 4;
        d.restrictionLevel = d.restrictionLevel % 3;
        d.timingVersion = d.timingVersion % 3;
        auto mf = static_cast<std::uint32_t>(d.minFed.baseValue()) % 8;
        d.minFed = mf == 7 ? GlobalFederateId() : GlobalFederateId(static_cast<std::int32_t>(mf));
        mf = static_cast<std::uint32_t>(d.minFedActual.baseValue()) % 8;
        d.minFedActual = mf == 7 ? GlobalFederateId() : GlobalFederateId(static_cast<std::int32_t>(mf));
    }
}
#endif
inline std::int32_t someId(const char* name)
{
    auto v = hvc::any<std::int32_t>(name);
    if (!hvc_symbolic() && hvc_replaying() == 0) {
        auto u = static_cast<std::uint32_t>(v) % 14;
        v = u >= 12 ? 0x70000000 + static_cast<std::int32_t>(u) - 10 : static_cast<std::int32_t>(u);
    }
    return v;
}
inline Time someTime(const char* name)
{
    auto v = hvc::any<std::int64_t>(name);
    HVC_NATIVE(v = smallTime(v);)
    return timeOf(v);
}

/// fills T with n arbitrary valid records sorted by identifier; the ghost copy is d
struct Deps {
    TimeDependencies own;
    TimeDependencies& T;
    std::uint64_t n;
    DependencyInfo* d;
    Deps(): T(own) { load(); }
    explicit Deps(TimeDependencies& t): T(t) { load(); }
    void load()
    {
        n = hvc::size("deps", 1ULL << 40, 4);
        d = static_cast<DependencyInfo*>(hvc_array("dep", sizeof(DependencyInfo), n, n));
#ifdef HVC_MODEL_STD
        hvc::assume_forall(0, n, [&](std::uint64_t k) -> bool { return validRec(d[k]); });
        hvc::assume_forall2(0, n, [&](std::uint64_t i, std::uint64_t j) -> bool { return !(i < j) || d[i].fedID.baseValue() < d[j].fedID.baseValue(); });
        fill(T);
#else
        std::int32_t id = 0;
        for (std::uint64_t k = 0; k < n; ++k) {
            auto v = static_cast<std::uint32_t>(d[k].fedID.baseValue());
            id += 1 + v % 3;
            if (k + 1 == n && v % 7 == 0) {
                id = 0x70000000 + static_cast<std::int32_t>(v % 4);
            }
            tame(d[k], id);
            hvc_assume(validRec(d[k]) && (k == 0 || d[k - 1].fedID < d[k].fedID));
        }
        T.setDependencyVector(std::vector<DependencyInfo>(d, d + n));
#endif
    }
#ifdef HVC_MODEL_STD
    template<class V>
    void copy(V& v)
    {
        v.e = v.b + n;
        __builtin_memcpy(static_cast<void*>(v.b), static_cast<const void*>(d), n * sizeof(DependencyInfo));
    }
    /// directly into the member under its present name, otherwise through the interface
    template<class TD>
    void fill(TD& t)
    {
        if constexpr (requires { t.dependencies.b; }) {
            copy(t.dependencies);
        } else {
            std::vector<DependencyInfo> v;
            copy(v);
            t.setDependencyVector(v);
        }
    }
#endif
    /// record k now
    const DependencyInfo& at(std::uint64_t k) const
    {
        const auto& c = T;
        return *(c.begin() + k);
    }
    std::uint64_t size() const { return T.size(); }
    /// first record whose identifier is not below id
    std::uint64_t pos(std::int32_t id) const
    {
        return hvc::first(0, n, [&](std::uint64_t k) -> bool { return d[k].fedID.baseValue() >= id; });
    }
    bool has(std::uint64_t p, std::int32_t id) const { return p < n && d[p].fedID.baseValue() == id; }
};
/// the fields of one record, read once
struct Rec {
    Time next{};
    Time Te{};
    Time minDe{};
    Time TeAlt{};
    Time lastGrant{};
    GlobalFederateId minFed{};
    GlobalFederateId minFedActual{};
    TimeState mTimeState{};
    bool hasData{};
    bool interrupted{};
    bool delayedTiming{};
    std::int8_t timingVersion{};
    std::uint8_t restrictionLevel{};
    std::int32_t timeoutCount{};
    std::int32_t sequenceCounter{};
    std::int32_t responseSequenceCounter{};
    std::int32_t grantedIteration{};
    GlobalFederateId fedID{};
    bool cyclic{};
    ConnectionType connection{};
    bool dependent{};
    bool dependency{};
    bool forwarding{};
    bool nonGranting{};
    bool triggered{};
    bool updateRequested{};
    void read(const DependencyInfo& d)
    {
        next = d.next;
        Te = d.Te;
        minDe = d.minDe;
        TeAlt = d.TeAlt;
        lastGrant = d.lastGrant;
        minFed = d.minFed;
        minFedActual = d.minFedActual;
        mTimeState = d.mTimeState;
        hasData = d.hasData;
        interrupted = d.interrupted;
        delayedTiming = d.delayedTiming;
        timingVersion = d.timingVersion;
        restrictionLevel = d.restrictionLevel;
        timeoutCount = d.timeoutCount;
        sequenceCounter = d.sequenceCounter;
        responseSequenceCounter = d.responseSequenceCounter;
        grantedIteration = d.grantedIteration;
        fedID = d.fedID;
        cyclic = d.cyclic;
        connection = d.connection;
        dependent = d.dependent;
        dependency = d.dependency;
        forwarding = d.forwarding;
        nonGranting = d.nonGranting;
        triggered = d.triggered;
        updateRequested = d.updateRequested;
    }
};
/// conjunction without short cuts (one condition instead of one path per operand)
template<class... B>
inline bool all(B... b)
{
    return ((static_cast<unsigned>(b)) & ...) != 0U;
}
template<class... B>
inline bool any_(B... b)
{
    return ((static_cast<unsigned>(b)) | ...) != 0U;
}
template<class A, class B>
inline bool sameTimes(const A& a, const B& b)
{
    return all(a.next == b.next, a.Te == b.Te, a.minDe == b.minDe, a.TeAlt == b.TeAlt, a.lastGrant == b.lastGrant);
}
template<class A, class B>
inline bool sameFlags(const A& a, const B& b)
{
    return all(a.hasData == b.hasData, a.interrupted == b.interrupted, a.delayedTiming == b.delayedTiming, a.cyclic == b.cyclic,
               a.forwarding == b.forwarding, a.nonGranting == b.nonGranting, a.triggered == b.triggered,
               a.updateRequested == b.updateRequested);
}
template<class A, class B>
inline bool sameCounters(const A& a, const B& b)
{
    return all(a.timeoutCount == b.timeoutCount, a.sequenceCounter == b.sequenceCounter,
               a.responseSequenceCounter == b.responseSequenceCounter, a.grantedIteration == b.grantedIteration,
               a.restrictionLevel == b.restrictionLevel, a.timingVersion == b.timingVersion);
}
template<class A, class B>
inline bool sameIds(const A& a, const B& b)
{
    return all(a.fedID == b.fedID, a.minFed == b.minFed, a.minFedActual == b.minFedActual, a.mTimeState == b.mTimeState,
               a.connection == b.connection, a.dependent == b.dependent, a.dependency == b.dependency);
}
template<class A, class B>
inline bool same(const A& a, const B& b)
{
    return all(sameIds(a, b), sameTimes(a, b), sameFlags(a, b), sameCounters(a, b));
}
}  // namespace hvc
