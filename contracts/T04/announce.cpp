// Contracts for the messages a coordinator sends to the federates that depend on it (property T04).
// hvc: std=model
// hvc: merge=loops
// hvc: flags=-DFMT_HEADER_ONLY
// hvc: assume-lower_bound=std::lower_bound is its library contract: the first element not below the key, on a table checked to be in order
#include "msg.hpp"

#include "helics/core/BaseTimeCoordinator.cpp"
#include "helics/core/TimeCoordinator.cpp"

using namespace helics;
using hvc::Deps;

namespace {
/// a coordinator with any dependency table, whose sent messages are observed one by one
struct Fx {
    TimeCoordinator C;
    Deps f;
    std::int32_t me;
    /// the receiving records, in sending order
    std::vector<std::uint64_t> to;
    /// an arbitrary record, and whether it was sent a message
    std::uint64_t x{0};
    bool seen{false};
    Fx(): f(C.dependencies)
    {
        me = hvc::someId("me");
        C.mSourceId = GlobalFederateId(me);
        C.sequenceCounter = hvc::someCount("sequence");
        HVC_MODEL(hvc::assume_forall(0, f.n, [&](std::uint64_t k) -> bool { return hvc_uf("rank", static_cast<std::uint32_t>(f.d[k].fedID.baseValue()), 0) == k; });)
        x = hvc_any("x", 64);
    }
    std::uint64_t rank(std::int32_t id) const
    {
        HVC_MODEL(return hvc_uf("rank", static_cast<std::uint32_t>(id), 0);)
        HVC_NATIVE(return f.pos(id);)
    }
    /// checks one message to a dependent and notes it
    template<class P>
    void sent(const ActionMessage& m, P&& valid)
    {
        auto id = m.dest_id.baseValue();
        auto k = rank(id);
        hvc::check(f.has(k, id), "a timing message goes to a federate of the table");
        hvc::check(f.d[k].dependent, "a federate that does not depend on this one gets no timing message");
        hvc::check(m.source_id.baseValue() == me, "a timing message names its sender");
        hvc::check(valid(m, f.d[k]), "a timing message carries the announced values");
        seen = hvc::any_(seen, k == x);
        to.push_back(k);
    }
    template<class W>
    void delivered(W&& wanted)
    {
        hvc::forall2(0, to.size(), [&](std::uint64_t i, std::uint64_t j) -> bool { return i == j || to[i] != to[j]; }, "a federate gets an announcement once");
        HVC_MODEL(
        hvc_assume(x < f.n);
        hvc_assume(wanted(f.d[x]));
        hvc_cover("a receiver");
        hvc::check(seen, "every federate that depends on this one gets the announcement");)
        HVC_NATIVE(
        for (std::uint64_t k = 0; k < f.n; ++k) {
            bool s = false;
            for (auto t : to) {
                s = s || t == k;
            }
            if (wanted(f.d[k])) {
                hvc_cover("a receiver");
                hvc::check(s, "every federate that depends on this one gets the announcement");
            }
        })
    }
};
bool flagOf(const ActionMessage& m, unsigned b)
{
    return ((m.flags >> b) & 1U) != 0;
}
}  // namespace

HARNESS(timing_info)
{
    Fx s;
    auto& C = s.C;
    C.nonGranting = hvc::any<bool>("nonGranting");
    C.delayedTiming = hvc::any<bool>("delayed");
    C.sendMessageFunction = [&s](const ActionMessage& m) {
        s.sent(m, [&](const ActionMessage& a, const DependencyInfo& /*d*/) -> bool {
            return hvc::all(a.messageAction == CMD_TIMING_INFO, flagOf(a, non_granting_flag) == s.C.nonGranting,
                            flagOf(a, delayed_timing_flag) == s.C.delayedTiming, a.getExtraData() == 1);
        });
    };
    C.sendTimingInfo();
    s.delivered([](const DependencyInfo& d) -> bool { return d.dependent; });
}
