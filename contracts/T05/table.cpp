// Contracts for the dependency table (property T05).
// hvc: std=model
// hvc: assume-lower_bound=std::lower_bound is its library contract: the first element not below the key, on a table checked to be in order
#include "deps.hpp"

using namespace helics;
using hvc::Deps;

namespace {
const char* ordered = "the table stays in identifier order without duplicates";
void sorted(const Deps& f)
{
    hvc::forall2(0, f.size(), [&](std::uint64_t i, std::uint64_t j) -> bool { return !(i < j) || f.at(i).fedID.baseValue() < f.at(j).fedID.baseValue(); },
                 ordered);
}
/// records below p kept in place, records from p on moved by shift, one record (skip) excepted
void others(const Deps& f, std::uint64_t p, std::int64_t shift, bool present)
{
    hvc::forall(0, p, [&](std::uint64_t k) -> bool { return hvc::same(f.at(k), f.d[k]); }, "records of other federates are unchanged");
    hvc::forall(present ? p + 1 : p, f.n, [&](std::uint64_t k) -> bool { return hvc::same(f.at(k + shift), f.d[k]); },
                "records of other federates are unchanged");
}
bool isNew(const DependencyInfo& x, std::int32_t id)
{
    DependencyInfo r{GlobalFederateId(id)};
    r.dependency = x.dependency;
    r.dependent = x.dependent;
    return hvc::same(x, r) && x.fedID.baseValue() == id;
}
/// present record without the two membership flags
bool sameBut(const DependencyInfo& a, const DependencyInfo& b)
{
    return a.fedID == b.fedID && a.minFed == b.minFed && a.minFedActual == b.minFedActual && a.mTimeState == b.mTimeState &&
        a.connection == b.connection && hvc::sameTimes(a, b) && hvc::sameFlags(a, b) && hvc::sameCounters(a, b);
}
}  // namespace

HARNESS(lookups)
{
    Deps f;
    auto id = hvc::someId("id");
    GlobalFederateId g(id);
    auto p = f.pos(id);
    bool in = f.has(p, id);
    const auto& c = f.T;
    hvc::check(c.isDependency(g) == (in && f.d[p].dependency), "isDependency reports exactly the recorded dependencies");
    hvc::check(c.isDependent(g) == (in && f.d[p].dependent), "isDependent reports exactly the recorded dependents");
    auto* a = c.getDependencyInfo(g);
    auto* b = f.T.getDependencyInfo(g);
    hvc::check((a != nullptr) == in && (b != nullptr) == in, "a record is found exactly when the federate has one");
    if (in) {
        hvc_cover("found");
        hvc::check(a == &f.at(p) && b == &f.at(p), "the record found is the one of that federate");
    }
    hvc::check(c.size() == f.n && c.empty() == (f.n == 0), "size is the number of records");
    others(f, f.n, 0, false);
}
HARNESS(add_dependency)
{
    Deps f;
    auto id = hvc::someId("id");
    auto p = f.pos(id);
    bool in = f.has(p, id);
    bool r = f.T.addDependency(GlobalFederateId(id));
    if (in) {
        auto& o = f.d[p];
        hvc::check(f.size() == f.n, "a federate that has a record gets no second one");
        others(f, p, 0, true);
        auto& x = f.at(p);
        hvc::check(x.dependency && x.dependent == o.dependent, "the federate is recorded as dependency");
        if (o.next > cTerminationTime) {
            hvc_cover("rejoin");
            hvc::check(x.fedID == o.fedID && x.connection == o.connection && hvc::sameFlags(x, o), "adding a finished federate again only restarts its timing");
        } else {
            hvc_cover("present");
            hvc::check(sameBut(x, o), "adding a federate that is present changes nothing else");
            hvc::check(r == !o.dependency, "adding reports whether the dependency is new");
        }
    } else {
        hvc_cover("new");
        hvc::check(r, "adding reports whether the dependency is new");
        hvc::check(f.size() == f.n + 1, "a new federate gets one record");
        others(f, p, 1, false);
        hvc::check(isNew(f.at(p), id) && f.at(p).dependency && !f.at(p).dependent, "a new record starts in its initial state");
    }
    sorted(f);
    hvc::check(f.T.isDependency(GlobalFederateId(id)), "an added dependency is found");
}
HARNESS(add_dependent)
{
    Deps f;
    auto id = hvc::someId("id");
    auto p = f.pos(id);
    bool in = f.has(p, id);
    bool r = f.T.addDependent(GlobalFederateId(id));
    if (in) {
        auto& o = f.d[p];
        hvc_cover("present");
        hvc::check(f.size() == f.n, "a federate that has a record gets no second one");
        others(f, p, 0, true);
        auto& x = f.at(p);
        hvc::check(x.dependent && x.dependency == o.dependency, "the federate is recorded as dependent");
        hvc::check(sameBut(x, o), "adding a federate that is present changes nothing else");
        hvc::check(r == !o.dependent, "adding reports whether the dependent is new");
    } else {
        hvc_cover("new");
        hvc::check(r, "adding reports whether the dependent is new");
        hvc::check(f.size() == f.n + 1, "a new federate gets one record");
        others(f, p, 1, false);
        hvc::check(isNew(f.at(p), id) && f.at(p).dependent && !f.at(p).dependency, "a new record starts in its initial state");
    }
    sorted(f);
    hvc::check(f.T.isDependent(GlobalFederateId(id)), "an added dependent is found");
}
namespace {
/// removal of a role (1 dependency, 2 dependent) or of both (3)
void removal(int what)
{
    Deps f;
    auto id = hvc::someId("id");
    auto p = f.pos(id);
    bool in = f.has(p, id);
    GlobalFederateId g(id);
    bool keepDependency = in && f.d[p].dependency && what == 2;
    bool keepDependent = in && f.d[p].dependent && what == 1;
    if (what == 1) {
        f.T.removeDependency(g);
    } else if (what == 2) {
        f.T.removeDependent(g);
    } else {
        f.T.removeInterdependence(g);
    }
    if (!in) {
        hvc_cover("absent");
        hvc::check(f.size() == f.n, "removing a federate that has no record changes nothing");
        others(f, f.n, 0, false);
    } else if (keepDependency || keepDependent) {
        hvc_cover("kept");
        hvc::check(f.size() == f.n, "a federate that keeps a role keeps its record");
        others(f, p, 0, true);
        hvc::check(sameBut(f.at(p), f.d[p]) && f.at(p).dependency == keepDependency && f.at(p).dependent == keepDependent,
                   "removing one role changes nothing else of the record");
    } else {
        hvc_cover("removed");
        hvc::check(f.size() == f.n - 1, "a federate without a role has no record");
        others(f, p, -1, true);
    }
    sorted(f);
    const auto& c = f.T;
    hvc::check(c.isDependency(g) == keepDependency && c.isDependent(g) == keepDependent, "a removed federate is not found in the removed role");
}
}  // namespace
HARNESS(remove_dependency)
{
    removal(1);
}
HARNESS(remove_dependent)
{
    removal(2);
}
HARNESS(remove_both)
{
    removal(3);
}
HARNESS(reset)
{
    Deps f;
    auto id = hvc::someId("id");
    auto p = f.pos(id);
    bool in = f.has(p, id);
    f.T.resetDependency(GlobalFederateId(id));
    hvc::check(f.size() == f.n, "a reset keeps the number of records");
    if (in) {
        others(f, p, 0, true);
        hvc::check(f.at(p).fedID.baseValue() == id, "a reset keeps the federate of the record");
    } else {
        others(f, f.n, 0, false);
    }
    sorted(f);
}
HARNESS(set_vector)
{
    Deps f;
    TimeDependencies o;
    hvc::check(o.empty() && o.size() == 0, "a table starts empty");
#ifdef HVC_MODEL_STD
    std::vector<DependencyInfo> v;
    v.e = v.b + f.n;
    __builtin_memcpy(static_cast<void*>(v.b), static_cast<const void*>(f.d), f.n * sizeof(DependencyInfo));
#else
    std::vector<DependencyInfo> v(f.d, f.d + f.n);
#endif
    o.setDependencyVector(v);
    const auto& c = o;
    hvc::check(c.size() == f.n && static_cast<std::uint64_t>(c.end() - c.begin()) == f.n, "a given table is taken over");
    hvc::forall(0, f.n, [&](std::uint64_t k) -> bool { return hvc::same(*(c.begin() + k), f.d[k]); }, "a given table is taken over");
}
