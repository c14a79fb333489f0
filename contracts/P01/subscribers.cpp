// Contracts for the subscriber list and the options of helics::PublicationInfo (property P01).
// hvc: std=model
// hvc: flags=-DFMT_HEADER_ONLY
// hvc: assume-remove_if=std::remove_if is its library contract: the kept elements in their order at the front
#include "model.hpp"

#include "helics/core/PublicationInfo.cpp"

using namespace helics;

namespace {
struct Raw {
    std::int32_t fed;
    std::int32_t h;
    std::uint64_t key;
};
GlobalHandle handleOf(std::int32_t fed, std::int32_t h)
{
    return GlobalHandle(GlobalFederateId(fed), InterfaceHandle(h));
}
std::int32_t small(const char* name)
{
    return hvc::narrow<std::uint32_t>(hvc::any<std::int32_t>(name), 3);
}
HVC_MODEL(static_assert(sizeof(Raw) == sizeof(SubscriberInformation));)

/// a publication with any number of distinct subscribers
struct Fx {
    PublicationInfo P{GlobalHandle(), std::string_view(), std::string_view(), std::string_view()};
    std::uint64_t n;
    Raw* r;
    Fx()
    {
        n = hvc::size("subs", 1ULL << 40, 5);
        r = static_cast<Raw*>(hvc_array("sub", sizeof(Raw), n, n));
        HVC_NATIVE(for (std::uint64_t k = 0; k < n; ++k) {
            r[k].fed = hvc::narrow<std::uint32_t>(r[k].fed, 3);
            r[k].h = hvc::narrow<std::uint32_t>(r[k].h, 3);
            r[k].key = hvc::narrow<std::uint64_t>(r[k].key, 4);
        })
        hvc::assume_forall2(0, n, [&](std::uint64_t i, std::uint64_t j) -> bool { return i == j || r[i].fed != r[j].fed || r[i].h != r[j].h; });
#ifdef HVC_MODEL_STD
        P.subscribers.e = P.subscribers.b + n;
        __builtin_memcpy(static_cast<void*>(P.subscribers.b), r, n * sizeof(Raw));
#else
        for (std::uint64_t k = 0; k < n; ++k) {
            P.subscribers.emplace_back(handleOf(r[k].fed, r[k].h), hvc::str(r[k].key));
        }
#endif
    }
    bool at(std::uint64_t i, std::uint64_t k) const
    {
        auto& s = P.subscribers[i];
        return s.id.fed_id.baseValue() == r[k].fed && s.id.handle.baseValue() == r[k].h && hvc::tok(s.key) == r[k].key;
    }
    std::uint64_t now() const { return P.subscribers.size(); }
    /// where the former k-th entry is now, and where the present i-th one was
    std::uint64_t to(std::uint64_t k) const
    {
        HVC_MODEL(return std::hvcm::kept_to(1, k);)
        HVC_NATIVE(return hvc::first(0, now(), [&](std::uint64_t i) -> bool { return at(i, k); });)
    }
    std::uint64_t from(std::uint64_t i) const
    {
        HVC_MODEL(return std::hvcm::kept_from(1, i);)
        HVC_NATIVE(return hvc::first(0, n, [&](std::uint64_t k) -> bool { return at(i, k); });)
    }
    void once()
    {
        hvc::forall2(0, now(), [&](std::uint64_t i, std::uint64_t j) -> bool { return i == j || P.subscribers[i].id != P.subscribers[j].id; },
                     "each subscriber is listed once");
    }
    /// exactly the entries not taken out remain, in their order
    template<class G>
    void remain(G&& gone)
    {
        HVC_MODEL(if (std::hvcm::removals != 1) { hvc_unsupported("a removal that is not one remove_if"); })
        once();
        hvc::check(now() <= n, "removal adds nothing");
        hvc::forall(0, n, [&](std::uint64_t k) -> bool { return gone(k) || (to(k) < now() && at(to(k), k)); },
                    "removal keeps every subscriber not named");
        hvc::forall(0, now(), [&](std::uint64_t i) -> bool { return from(i) < n && at(i, from(i)) && !gone(from(i)); },
                    "removal leaves only former subscribers that were not named");
        hvc::forall2(0, now(), [&](std::uint64_t i, std::uint64_t j) -> bool { return !(i < j) || from(i) < from(j); },
                     "removal leaves the others in order");
    }
};
}  // namespace

HARNESS(add)
{
    Fx f;
    auto fed = small("fed");
    auto h = small("h");
    auto key = hvc::anyTok("key");
    auto had = hvc::first(0, f.n, [&](std::uint64_t k) -> bool { return f.r[k].fed == fed && f.r[k].h == h; }) < f.n;
    const bool added = f.P.addSubscriber(handleOf(fed, h), hvc::str(key));
    hvc::check(added == !had, "a subscriber is added unless it is listed already");
    hvc::check(f.now() == f.n + (had ? 0 : 1), "adding lists one more subscriber, a duplicate none");
    hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return f.at(k, k); }, "adding keeps the listed subscribers");
    if (added) {
        hvc_cover("subscriber added");
        auto& s = f.P.subscribers[f.n];
        hvc::check(s.id == handleOf(fed, h) && hvc::tok(s.key) == key, "the added subscriber is last, with its key");
    } else {
        hvc_cover("duplicate subscriber");
    }
    f.once();
}
HARNESS(remove)
{
    Fx f;
    auto fed = small("fed");
    auto h = small("h");
    f.P.removeSubscriber(handleOf(fed, h));
    hvc_cover("subscriber removed");
    f.remain([&](std::uint64_t k) -> bool { return f.r[k].fed == fed && f.r[k].h == h; });
}
HARNESS(disconnect)
{
    Fx f;
    auto fed = small("fed");
    f.P.disconnectFederate(GlobalFederateId(fed));
    hvc_cover("federate disconnected");
    f.remain([&](std::uint64_t k) -> bool { return f.r[k].fed == fed; });
}
/// subscriber list operations leave the filter state alone
HARNESS(list_frame)
{
    Fx f;
    auto fed = small("fed");
    auto h = small("h");
    auto t = hvc::any<std::int64_t>("last");
    auto g = hvc::any<std::int64_t>("gap");
    f.P.lastPublishTime.setBaseTimeCode(t);
    f.P.minTimeGap.setBaseTimeCode(g);
    auto oc = f.P.only_update_on_change = hvc::any<bool>("onChange");
    auto bd = f.P.buffer_data = hvc::any<bool>("keep");
    switch (hvc::pick("op", 3)) {
        case 0: f.P.addSubscriber(handleOf(fed, h), hvc::str(hvc::anyTok("key"))); break;
        case 1: f.P.removeSubscriber(handleOf(fed, h)); break;
        default: f.P.disconnectFederate(GlobalFederateId(fed)); break;
    }
    hvc::check(f.P.lastPublishTime.getBaseTimeCode() == t && f.P.minTimeGap.getBaseTimeCode() == g && f.P.only_update_on_change == oc &&
                   f.P.buffer_data == bd && f.P.data.size() == 0,
               "subscriber list operations leave the publishing state alone");
}
#ifndef HVC_SYMBOLIC
/// bounded: the listing of target names always shows the present subscribers (any sequence of up to six operations)
BOUNDED(listing)
{
    Fx f;
    auto ops = hvc::size("ops", 6, 6);
    for (std::uint64_t o = 0; o < ops; ++o) {
        auto h = handleOf(small("fed"), small("h"));
        switch (hvc::pick("op", 4)) {
            case 0: f.P.addSubscriber(h, hvc::str(hvc::anyTok("key"))); break;
            case 1: f.P.removeSubscriber(h); break;
            case 2: f.P.disconnectFederate(h.fed_id); break;
            default: f.P.getTargets(); break;
        }
    }
    std::string want;
    if (f.P.subscribers.size() == 1) {
        want = f.P.subscribers[0].key;
    } else if (!f.P.subscribers.empty()) {
        for (auto& s : f.P.subscribers) {
            want += (want.empty() ? "[\"" : ",\"") + s.key + "\"";
        }
        want += "]";
    }
    hvc::check(f.P.getTargets() == want, "the target listing shows the present subscribers");
}
#endif
