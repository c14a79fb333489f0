// Contracts for UnknownHandleManager (property U01).
// hvc: std=model
// hvc: assume-containers=unordered_multimap and std::function are the model library of hvc/std (symbolic build); the native search uses the real ones
#include "model.hpp"

#include "helics/core/UnknownHandleManager.cpp"

using namespace helics;
using TI = UnknownHandleManager::TargetInfo;
using Str = std::string;

namespace {
constexpr int PUB = 0, EPT = 1, INP = 2, FILT = 3, LINK = 4, ELINK = 5, SRCF = 6, DSTF = 7, RPUB = 8, REPT = 9, RINP = 10, RFILT = 11;
struct Raw {
    std::uint64_t key;
    std::int32_t fed;
    std::int32_t h;
    std::uint16_t flags;
    std::uint16_t pad[3];
};
struct RawL {
    std::uint64_t key;
    std::uint64_t val;
};
const char* const NAMES[12] = {"pub", "ept", "inp", "filt", "link", "elink", "srcf", "dstf", "rpub", "rept", "rinp", "rfilt"};
bool isLink(int m)
{
    return m >= LINK && m <= DSTF;
}

#ifdef HVC_MODEL_STD
using TMap = std::unordered_multimap<Str, TI>;
using LMap = std::unordered_multimap<Str, Str>;
static_assert(sizeof(TMap::Node) == sizeof(Raw) && sizeof(LMap::Node) == sizeof(RawL));
#endif

/// a manager holding arbitrary entries in each of its tables
struct Fx {
    UnknownHandleManager M;
    Raw* t[12];
    RawL* l[12];
    std::uint64_t n[12];

    HVC_MODEL(
        TMap& tm(int m) {
            switch (m) {
                case PUB: return M.unknown_publications;
                case EPT: return M.unknown_endpoints;
                case INP: return M.unknown_inputs;
                case FILT: return M.unknown_filters;
                case RPUB: return M.reconnectable_publications;
                case REPT: return M.reconnectable_endpoints;
                case RINP: return M.reconnectable_inputs;
                default: return M.reconnectable_filters;
            }
        } LMap& lm(int m) {
            switch (m) {
                case LINK: return M.unknown_links;
                case ELINK: return M.unknown_endpoint_links;
                case SRCF: return M.unknown_src_filters;
                default: return M.unknown_dest_filters;
            }
        })

    void add(int m, const Str& key, TI x)
    {
        switch (m) {
            case PUB: M.addUnknownPublication(key, x.first, x.second); break;
            case EPT: M.addUnknownEndpoint(key, x.first, x.second); break;
            case INP: M.addUnknownInput(key, x.first, x.second); break;
            case FILT: M.addUnknownFilter(key, x.first, x.second); break;
            case RPUB: M.addReconnectablePublication(key, x.first, x.second); break;
            case REPT: M.addReconnectableEndpoint(key, x.first, x.second); break;
            case RINP: M.addReconnectableInput(key, x.first, x.second); break;
            default: M.addReconnectableFilter(key, x.first, x.second); break;
        }
    }
    void addLink(int m, const Str& key, const Str& val)
    {
        switch (m) {
            case LINK: M.addDataLink(key, val); break;
            case ELINK: M.addEndpointLink(key, val); break;
            case SRCF: M.addSourceFilterLink(key, val); break;
            default: M.addDestinationFilterLink(key, val); break;
        }
    }
    std::vector<TI> targets(int m, const Str& key) const
    {
        switch (m) {
            case PUB: return M.checkForPublications(key);
            case EPT: return M.checkForEndpoints(key);
            case INP: return M.checkForInputs(key);
            case FILT: return M.checkForFilters(key);
            case RPUB: return M.checkForReconnectionPublications(key);
            case REPT: return M.checkForReconnectionEndpoints(key);
            case RINP: return M.checkForReconnectionInputs(key);
            default: return M.checkForReconnectionFilters(key);
        }
    }
    std::vector<Str> linked(int m, const Str& key) const
    {
        switch (m) {
            case LINK: return M.checkForLinks(key);
            case ELINK: return M.checkForEndpointLinks(key);
            case SRCF: return M.checkForFilterSourceTargets(key);
            default: return M.checkForFilterDestTargets(key);
        }
    }
    void load(int m)
    {
        n[m] = hvc::size(NAMES[m], 1ULL << 40, 3);
        if (isLink(m)) {
            l[m] = static_cast<RawL*>(hvc_array(NAMES[m], sizeof(RawL), n[m], n[m]));
        } else {
            t[m] = static_cast<Raw*>(hvc_array(NAMES[m], sizeof(Raw), n[m], n[m]));
        }
#ifdef HVC_MODEL_STD
        if (isLink(m)) {
            auto& x = lm(m);
            x.need();
            __builtin_memcpy(static_cast<void*>(x.nodes), l[m], n[m] * sizeof(RawL));
            x.n = x.live = n[m];
        } else {
            auto& x = tm(m);
            x.need();
            __builtin_memcpy(static_cast<void*>(x.nodes), t[m], n[m] * sizeof(Raw));
            x.n = x.live = n[m];
        }
#else
        for (std::uint64_t k = 0; k < n[m]; ++k) {
            if (isLink(m)) {
                l[m][k].key = hvc::narrow<std::uint64_t>(l[m][k].key, 4);
                l[m][k].val = k + 1;
                addLink(m, hvc::str(l[m][k].key), hvc::str(l[m][k].val));
            } else {
                auto& r = t[m][k];
                r.key = hvc::narrow<std::uint64_t>(r.key, 4);
                r.fed = hvc::narrow<std::uint32_t>(r.fed, 3);
                r.h = static_cast<std::int32_t>(k);
                add(m, hvc::str(r.key), TI(GlobalHandle(GlobalFederateId(r.fed), InterfaceHandle(r.h)), r.flags));
            }
        }
#endif
    }
    void loadAll()
    {
        for (int m = 0; m < 12; ++m) {
            load(m);
        }
    }
    bool same(int m, std::uint64_t k, const TI& x) const
    {
        auto& r = t[m][k];
        return x.first.fed_id.baseValue() == r.fed && x.first.handle.baseValue() == r.h && x.second == r.flags;
    }
    /// exactly the entries for which gone(k) is false remain in table m, unchanged
    template<class F>
    void remains(int m, F&& gone, const char* id)
    {
#ifdef HVC_MODEL_STD
        if (isLink(m)) {
            auto& x = lm(m);
            hvc::check(x.n == n[m], id);
            hvc::forall(0, n[m], [&](std::uint64_t k) -> bool {
                return (x.dead[k] != 0) == gone(k) && x.nodes[k].first.tok == l[m][k].key && x.nodes[k].second.tok == l[m][k].val;
            }, id);
        } else {
            auto& x = tm(m);
            hvc::check(x.n == n[m], id);
            hvc::forall(0, n[m], [&](std::uint64_t k) -> bool {
                return (x.dead[k] != 0) == gone(k) && x.nodes[k].first.tok == t[m][k].key && same(m, k, x.nodes[k].second);
            }, id);
        }
#else
        hvc::forall(0, n[m], [&](std::uint64_t k) -> bool {
            const auto key = isLink(m) ? l[m][k].key : t[m][k].key;
            std::uint64_t stay = 0;
            for (std::uint64_t j = 0; j < n[m]; ++j) {
                stay += ((isLink(m) ? l[m][j].key : t[m][j].key) == key && !gone(j)) ? 1 : 0;
            }
            std::uint64_t found = 0;
            if (isLink(m)) {
                auto r = linked(m, hvc::str(key));
                for (auto& x : r) {
                    found += hvc::tok(x) == l[m][k].val ? 1 : 0;
                }
                return r.size() == stay && found == (gone(k) ? 0U : 1U);
            }
            auto r = targets(m, hvc::str(key));
            for (auto& x : r) {
                found += same(m, k, x) ? 1 : 0;
            }
            return r.size() == stay && found == (gone(k) ? 0U : 1U);
        }, id);
#endif
    }
    void unchanged(int m, const char* id)
    {
        remains(m, [](std::uint64_t) -> bool { return false; }, id);
    }
    /// which entry a callback is about
    std::uint64_t which(int m, const Str& name, TI x)
    {
        HVC_MODEL(return reinterpret_cast<const TMap::Node*>(&name) - tm(m).nodes;)
        HVC_NATIVE(return x.first.handle.baseValue();)
    }
    std::uint64_t whichLink(int m, const Str& name, const Str& val)
    {
        HVC_MODEL(return reinterpret_cast<const LMap::Node*>(&name) - lm(m).nodes;)
        HVC_NATIVE(return hvc::tok(val) - 1;)
    }
};
int tableOf(InterfaceType type)
{
    return type == InterfaceType::PUBLICATION ? PUB : type == InterfaceType::ENDPOINT ? EPT : type == InterfaceType::INPUT ? INP : FILT;
}
bool typeOk(InterfaceType type)
{
    return type == InterfaceType::PUBLICATION || type == InterfaceType::ENDPOINT || type == InterfaceType::INPUT || type == InterfaceType::FILTER;
}
constexpr std::uint16_t REQUIRED = 1U << 2U;
constexpr std::uint16_t OPTIONAL = 1U << 8U;

/// adding entry (key,x) to table m keeps every other entry and adds exactly that one
void adding(int m)
{
    Fx f;
    f.load(m);
    auto key = hvc::anyTok("key", 4);
    auto fed = hvc::any<std::int32_t>("fed");
    auto h = hvc::any<std::int32_t>("h");
    auto flags = hvc::any<std::uint16_t>("flags");
    auto val = hvc::anyTok("val", 4);
    HVC_NATIVE(h = static_cast<std::int32_t>(f.n[m]); val = f.n[m] + 1;)
    if (isLink(m)) {
        f.addLink(m, hvc::str(key), hvc::str(val));
    } else {
        f.add(m, hvc::str(key), TI(GlobalHandle(GlobalFederateId(fed), InterfaceHandle(h)), flags));
    }
    const auto n = f.n[m];
#ifdef HVC_MODEL_STD
    auto place = [&](auto& x, auto&& isNew, auto&& old) {
        hvc::check(x.n == n + 1 && x.live == n + 1, "adding an entry adds exactly one entry");
        auto p = x.hi(hvc::str(key), x.lo(hvc::str(key))) - 1;
        hvc::check(p <= n && isNew(x.nodes[p]), "the added entry is stored under its name with its target and flags");
        hvc::forall(0, n, [&](std::uint64_t k) -> bool { return x.dead[k < p ? k : k + 1] == 0 && old(k, x.nodes[k < p ? k : k + 1]); },
                    "adding an entry keeps every other entry");
        hvc::check(x.dead[p] == 0, "the added entry is present");
    };
    if (isLink(m)) {
        place(f.lm(m), [&](auto& e) { return e.first.tok == key && e.second.tok == val; },
              [&](std::uint64_t k, auto& e) { return e.first.tok == f.l[m][k].key && e.second.tok == f.l[m][k].val; });
    } else {
        place(f.tm(m),
              [&](auto& e) {
                  return e.first.tok == key && e.second.first.fed_id.baseValue() == fed && e.second.first.handle.baseValue() == h &&
                      e.second.second == flags;
              },
              [&](std::uint64_t k, auto& e) { return e.first.tok == f.t[m][k].key && f.same(m, k, e.second); });
    }
#else
    // extend the record and compare
    if (isLink(m)) {
        auto* r = static_cast<RawL*>(hvc_ghost((n + 1) * sizeof(RawL)));
        __builtin_memcpy(r, f.l[m], n * sizeof(RawL));
        r[n] = {key, val};
        f.l[m] = r;
    } else {
        auto* r = static_cast<Raw*>(hvc_ghost((n + 1) * sizeof(Raw)));
        __builtin_memcpy(r, f.t[m], n * sizeof(Raw));
        r[n] = {key, fed, h, flags, {}};
        f.t[m] = r;
    }
    ++f.n[m];
    f.unchanged(m, "adding an entry adds exactly that entry and keeps every other one");
#endif
    for (int o = 0; o < 12; ++o) {
        if (o != m) {
            f.n[o] = 0;
            HVC_MODEL(hvc::check(isLink(o) ? f.lm(o).n == 0 : f.tm(o).n == 0, "adding an entry leaves the other tables alone");)
            HVC_NATIVE(hvc::check(isLink(o) ? f.linked(o, hvc::str(key)).empty() : f.targets(o, hvc::str(key)).empty(),
                                  "adding an entry leaves the other tables alone");)
        }
    }
}
/// looking a name up returns exactly the recorded entries of that name
void looking(int m)
{
    Fx f;
    f.load(m);
    const auto n = f.n[m];
    auto key = hvc::anyTok("key", 4);
    if (isLink(m)) {
        auto r = f.linked(m, hvc::str(key));
#ifdef HVC_MODEL_STD
        auto lo = f.lm(m).lo(hvc::str(key));
        const auto c = r.size();
        hvc::check(lo + c <= n, "no more entries than recorded");
        hvc::forall(0, c, [&](std::uint64_t j) -> bool { return f.l[m][lo + j].key == key && r[j].tok == f.l[m][lo + j].val; },
                    "every name returned was recorded for the queried name");
        hvc::forall(0, n, [&](std::uint64_t k) -> bool { return (k >= lo && k < lo + c) || f.l[m][k].key != key; },
                    "every recorded name is returned");
#else
        (void)r;
        f.unchanged(m, "looking a name up returns exactly the entries recorded for it");
#endif
    } else {
        auto r = f.targets(m, hvc::str(key));
#ifdef HVC_MODEL_STD
        auto lo = f.tm(m).lo(hvc::str(key));
        const auto c = r.size();
        hvc::check(lo + c <= n, "no more entries than recorded");
        hvc::forall(0, c, [&](std::uint64_t j) -> bool { return f.t[m][lo + j].key == key && f.same(m, lo + j, r[j]); },
                    "every target returned was recorded for the queried name");
        hvc::forall(0, n, [&](std::uint64_t k) -> bool { return (k >= lo && k < lo + c) || f.t[m][k].key != key; },
                    "every recorded target is returned");
#else
        (void)r;
        f.unchanged(m, "looking a name up returns exactly the entries recorded for it");
#endif
    }
    HVC_MODEL(f.unchanged(m, "a lookup does not change the table");)
}
enum class Walk { ALL, NONOPTIONAL, REQUIRED };
bool selected(Walk w, std::uint16_t flags)
{
    return w == Walk::ALL || (w == Walk::NONOPTIONAL && (flags & OPTIONAL) == 0) || (w == Walk::REQUIRED && (flags & REQUIRED) != 0);
}
void walking(Walk w)
{
    Fx f;
    unsigned char* hits[4];
    f.loadAll();
    for (int m = 0; m < 4; ++m) {
        hits[m] = static_cast<unsigned char*>(hvc_ghost(f.n[m]));
        __builtin_memset(hits[m], 0, f.n[m]);
    }
    auto cb = [&f, &hits](const Str& name, InterfaceType type, TI x) {
        hvc::check(typeOk(type), "the callback is told a valid interface type");
        auto m = tableOf(type);
        auto k = f.which(m, name, x);
        hvc::check(k < f.n[m] && hvc::tok(name) == f.t[m][k].key && f.same(m, k, x),
                   "the callback is given a recorded name with its own type, target and flags");
        HVC_NATIVE(hvc::check(hits[m][k] == 0, "no entry is reported twice");)
        hits[m][k] = static_cast<unsigned char>(hits[m][k] + 1);
    };
    if (w == Walk::ALL) {
        f.M.processUnknowns(cb);
    } else if (w == Walk::NONOPTIONAL) {
        f.M.processNonOptionalUnknowns(cb);
    } else {
        f.M.processRequiredUnknowns(cb);
    }
    for (int m = 0; m < 4; ++m) {
        hvc::forall(0, f.n[m], [&](std::uint64_t k) -> bool { return hits[m][k] == (selected(w, f.t[m][k].flags) ? 1 : 0); },
                    "each unknown of the requested kind is reported exactly once");
    }
}
}  // namespace

#define EACH(name, m)                                                                                                                     \
    HARNESS(add_##name) { adding(m); }                                                                                                    \
    HARNESS(check_##name) { looking(m); }
HARNESS(add_pub) { adding(PUB); }
HARNESS(add_ept) { adding(EPT); }
HARNESS(add_inp) { adding(INP); }
HARNESS(add_filt) { adding(FILT); }
HARNESS(add_link) { adding(LINK); }
HARNESS(add_elink) { adding(ELINK); }
HARNESS(add_srcf) { adding(SRCF); }
HARNESS(add_dstf) { adding(DSTF); }
HARNESS(add_rpub) { adding(RPUB); }
HARNESS(add_rept) { adding(REPT); }
HARNESS(add_rinp) { adding(RINP); }
HARNESS(add_rfilt) { adding(RFILT); }
HARNESS(check_pub) { looking(PUB); }
HARNESS(check_ept) { looking(EPT); }
HARNESS(check_inp) { looking(INP); }
HARNESS(check_filt) { looking(FILT); }
HARNESS(check_link) { looking(LINK); }
HARNESS(check_elink) { looking(ELINK); }
HARNESS(check_srcf) { looking(SRCF); }
HARNESS(check_dstf) { looking(DSTF); }
HARNESS(check_rpub) { looking(RPUB); }
HARNESS(check_rept) { looking(REPT); }
HARNESS(check_rinp) { looking(RINP); }
HARNESS(check_rfilt) { looking(RFILT); }

HARNESS(walk_all) { walking(Walk::ALL); }
HARNESS(walk_nonoptional) { walking(Walk::NONOPTIONAL); }
HARNESS(walk_required) { walking(Walk::REQUIRED); }

HARNESS(walk_links)
{
    Fx f;
    unsigned char* hits[12];
    f.loadAll();
    for (int m = LINK; m <= DSTF; ++m) {
        hits[m] = static_cast<unsigned char*>(hvc_ghost(f.n[m]));
        __builtin_memset(hits[m], 0, f.n[m]);
    }
    auto cb = [&f, &hits](const Str& name, InterfaceType type, const Str& target, InterfaceType ttype) {
        hvc::check((type == InterfaceType::PUBLICATION && ttype == InterfaceType::INPUT) ||
                       (type == InterfaceType::ENDPOINT && ttype == InterfaceType::ENDPOINT) ||
                       (type == InterfaceType::FILTER && ttype == InterfaceType::ENDPOINT),
                   "a link is reported with the types of its two ends");
        int m = type == InterfaceType::PUBLICATION ? LINK : type == InterfaceType::ENDPOINT ? ELINK : DSTF;
        if (m == DSTF) {
            // both filter link tables report FILTER -> ENDPOINT
            HVC_MODEL(m = hvc_same_object(&name, f.lm(DSTF).nodes) != 0 ? DSTF : SRCF;)
            HVC_NATIVE(auto q = hvc::tok(target) - 1;
                       if (!(q < f.n[DSTF] && hits[DSTF][q] == 0 && f.l[DSTF][q].key == hvc::tok(name))) { m = SRCF; })
        }
        auto k = f.whichLink(m, name, target);
        hvc::check(k < f.n[m] && hvc::tok(name) == f.l[m][k].key && hvc::tok(target) == f.l[m][k].val,
                   "a link is reported with its recorded ends");
        hits[m][k] = static_cast<unsigned char>(hits[m][k] + 1);
    };
    f.M.processUnknownLinks(cb);
    for (int m = LINK; m <= DSTF; ++m) {
        hvc::forall(0, f.n[m], [&](std::uint64_t k) -> bool { return hits[m][k] == 1; }, "each unknown link is reported exactly once");
    }
}

HARNESS(has_unknowns)
{
    Fx f;
    f.loadAll();
    bool any = false;
    for (int m = 0; m < 8; ++m) {
        any = any || f.n[m] != 0;
    }
    hvc::check(f.M.hasUnknowns() == any, "hasUnknowns tells whether anything is still unresolved");
}
HARNESS(has_nonoptional)
{
    Fx f;
    f.loadAll();
    bool any = f.n[LINK] != 0 || f.n[ELINK] != 0 || f.n[SRCF] != 0 || f.n[DSTF] != 0;
    auto got = f.M.hasNonOptionalUnknowns();
    for (int m = 0; m < 4; ++m) {
        any |= hvc::first(0, f.n[m], [&](std::uint64_t k) -> bool { return (f.t[m][k].flags & OPTIONAL) == 0; }) != f.n[m];
    }
    hvc::check(got == any, "hasNonOptionalUnknowns is true exactly when some unknown is not optional");
}
HARNESS(has_required)
{
    Fx f;
    f.loadAll();
    bool any = false;
    auto got = f.M.hasRequiredUnknowns();
    for (int m = 0; m < 4; ++m) {
        any |= hvc::first(0, f.n[m], [&](std::uint64_t k) -> bool { return (f.t[m][k].flags & REQUIRED) != 0; }) != f.n[m];
    }
    hvc::check(got == any, "hasRequiredUnknowns is true exactly when some unknown is required");
}

namespace {
void clearing(int which)
{
    Fx f;
    f.loadAll();
    auto key = hvc::anyTok("key", 4);
    unsigned set = 0;
    if (which == 0) {
        f.M.clearPublication(hvc::str(key));
        set = (1U << PUB) | (1U << LINK);
    } else if (which == 1) {
        f.M.clearEndpoint(hvc::str(key));
        set = (1U << EPT) | (1U << ELINK);
    } else if (which == 2) {
        f.M.clearInput(hvc::str(key));
        set = 1U << INP;
    } else {
        f.M.clearFilter(hvc::str(key));
        set = (1U << FILT) | (1U << SRCF) | (1U << DSTF);
    }
    for (int m = 0; m < 12; ++m) {
        if (((set >> m) & 1U) != 0) {
            f.remains(m, [&](std::uint64_t k) -> bool { return (isLink(m) ? f.l[m][k].key : f.t[m][k].key) == key; },
                      "resolving a name removes exactly its own entries");
        } else {
            f.unchanged(m, "resolving a name leaves the other tables alone");
        }
    }
}
}  // namespace
HARNESS(clear_pub) { clearing(0); }
HARNESS(clear_ept) { clearing(1); }
HARNESS(clear_inp) { clearing(2); }
HARNESS(clear_filt) { clearing(3); }

HARNESS(clear_federate)
{
    Fx f;
    f.loadAll();
    auto fed = hvc::any<std::int32_t>("fed");
    HVC_NATIVE(fed = hvc::narrow<std::uint32_t>(fed, 3);)
    f.M.clearFederateUnknowns(GlobalFederateId(fed));
    for (int m = 0; m < 12; ++m) {
        if (m < 4) {
            f.remains(m, [&](std::uint64_t k) -> bool { return f.t[m][k].fed == fed; }, "clearing a federate removes exactly its own unknowns");
        } else {
            f.unchanged(m, "clearing a federate leaves links and reconnectable entries alone");
        }
    }
}
HARNESS(clear_if)
{
    Fx f;
    f.loadAll();
    auto pick = [](int m, std::uint64_t k) -> bool { return (hvc_uf("pick", m, k) & 1U) != 0; };
    f.M.clearUnknownsIf([&](const Str& name, InterfaceType type, TI x) -> bool {
        hvc::check(typeOk(type), "the callback is told a valid interface type");
        auto m = tableOf(type);
        auto k = f.which(m, name, x);
        hvc::check(k < f.n[m] && hvc::tok(name) == f.t[m][k].key && f.same(m, k, x),
                   "the callback is given a recorded name with its own type, target and flags");
        return pick(m, k);
    });
    for (int m = 0; m < 12; ++m) {
        if (m < 4) {
            f.remains(m, [&](std::uint64_t k) -> bool { return pick(m, k); }, "exactly the entries the callback accepts are removed");
        } else {
            f.unchanged(m, "a conditional clear leaves links and reconnectable entries alone");
        }
    }
}
