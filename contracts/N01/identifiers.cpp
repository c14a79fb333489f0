// Contracts for the identifier classes (property N01); public interface only.
#include "hvc.hpp"

#include "helics/core/GlobalFederateId.hpp"
#include "helics/core/LocalFederateId.hpp"

#include <functional>
using namespace helics;
using Base = IdentifierBaseType;

namespace {
constexpr std::int64_t FED_LOW = 0x20000;
constexpr std::int64_t BROKER_LOW = 0x70000000;
constexpr Base INVALID_LOCAL = -2'000'000'000;
constexpr Base INVALID_HANDLE = -1'700'000'000;
constexpr Base INVALID_GLOBAL = -2'010'000'000;
constexpr Base INVALID_ROUTE = -1'295'148'000;

/// a 32 bit value; the native search draws often from the boundaries of the ranges
Base value(const char* name)
{
    auto v = hvc::any<Base>(name);
    if (!hvc_symbolic()) {
        static const Base edge[] = {0, 1, 2, -1, 0x1FFFF, 0x20000, 0x20001, 0x6FFFFFFF, 0x70000000, 0x70000001,
                                    0x7FFFFFFF, INVALID_LOCAL, INVALID_HANDLE, INVALID_GLOBAL, INVALID_ROUTE,
                                    -2147483647 - 1, -259, -1'745'234, -235262};
        const auto n = static_cast<std::uint32_t>(sizeof(edge) / sizeof(edge[0]));
        const auto u = static_cast<std::uint32_t>(v);
        if ((u & 1U) != 0) {
            v = edge[(u >> 3) % n];
        }
    }
    return v;
}
/// a second value, equal or adjacent to the first often in the native search
Base second(const char* name, Base first)
{
    auto v = value(name);
    if (!hvc_symbolic()) {
        const auto u = static_cast<std::uint32_t>(hvc_any("relation", 8));
        if ((u & 3U) == 0) {
            v = first;
        } else if ((u & 3U) == 1) {
            v = static_cast<Base>(static_cast<std::uint32_t>(first) + ((u & 4U) != 0 ? 1U : 0xFFFFFFFFU));
        } else if ((u & 3U) == 2) {
            v = static_cast<Base>(static_cast<std::uint32_t>(first) ^ (1U << ((u >> 3) & 31U)));
        }
    }
    return v;
}
}  // namespace

HARNESS(local_federate_id)
{
    auto a = value("a");
    auto b = second("b", a);
    LocalFederateId A(a), B(b);
    hvc::check(A.baseValue() == a && B.baseValue() == b, "local federate id keeps its value");
    hvc::check((A == B) == (a == b), "local federate id equality");
    hvc::check((A != B) == (a != b), "local federate id inequality");
    hvc::check((A < B) == (a < b), "local federate id order");
    hvc::check(A.isValid() == (a != INVALID_LOCAL), "local federate id validity");
    hvc::check(!(A == B) || std::hash<LocalFederateId>{}(A) == std::hash<LocalFederateId>{}(B), "equal local federate ids hash equally");
    hvc::check(!LocalFederateId{}.isValid(), "default local federate id is not valid");
    hvc::check(gLocalCoreId.isValid(), "the local core id is valid");
    LocalFederateId C(A);
    hvc::check(C == A && C.baseValue() == a, "copy of a local federate id");
    C = B;
    hvc::check(C.baseValue() == b && A.baseValue() == a, "assignment of a local federate id");
}

HARNESS(interface_handle)
{
    auto a = value("a");
    auto b = second("b", a);
    InterfaceHandle A(a), B(b);
    hvc::check(A.baseValue() == a && B.baseValue() == b, "handle keeps its value");
    hvc::check((A == B) == (a == b), "handle equality");
    hvc::check((A != B) == (a != b), "handle inequality");
    hvc::check((A < B) == (a < b), "handle order");
    hvc::check((A > B) == (a > b), "handle reverse order");
    hvc::check(A.isValid() == (a != INVALID_HANDLE), "handle validity");
    hvc::check(!(A == B) || std::hash<InterfaceHandle>{}(A) == std::hash<InterfaceHandle>{}(B), "equal handles hash equally");
    hvc::check(!InterfaceHandle{}.isValid(), "default handle is not valid");
    hvc::check(gDirectSendHandle.isValid(), "the direct send handle is valid");
    hvc::check(*A.getBaseTypePointer() == a, "base pointer of a handle shows its value");
    *A.getBaseTypePointer() = b;
    hvc::check(A == B && A.baseValue() == b, "base pointer of a handle sets its value");
}

HARNESS(global_broker_id)
{
    auto a = value("a");
    auto b = second("b", a);
    GlobalBrokerId A(a), B(b);
    hvc::check(A.baseValue() == a && B.baseValue() == b, "broker id keeps its value");
    hvc::check((A == B) == (a == b), "broker id equality");
    hvc::check((A != B) == (a != b), "broker id inequality");
    hvc::check((A < B) == (a < b), "broker id order");
    hvc::check(A.isFederate() == (a >= FED_LOW && a < BROKER_LOW), "broker id recognised as federate");
    hvc::check(A.isBroker() == (a >= BROKER_LOW || a == 1), "broker id recognised as broker");
    hvc::check(!(A.isFederate() && A.isBroker()), "broker id has one kind");
    hvc::check(A.isValid() == (a != INVALID_GLOBAL && a != INVALID_HANDLE), "broker id validity");
    hvc::check(!(A == B) || std::hash<GlobalBrokerId>{}(A) == std::hash<GlobalBrokerId>{}(B), "equal broker ids hash equally");
    hvc::check(!GlobalBrokerId{}.isValid(), "default broker id is not valid");
    hvc::check(gRootBrokerID.isBroker() && gRootBrokerID.isValid() && parent_broker_id.isValid(), "root and parent broker ids");
}
HARNESS(broker_local_index)
{
    auto a = value("a");
    GlobalBrokerId A(a);
    if (a >= BROKER_LOW) {
        hvc::check(A.localIndex() == a - BROKER_LOW, "broker offset removes the broker shift");
        hvc::check(GlobalBrokerId(A.localIndex() + gGlobalBrokerIdShift) == A, "broker offset recovers the id");
    } else {
        hvc::check(A.localIndex() == a, "ids outside the broker range keep their value");
    }
}

HARNESS(global_federate_id)
{
    auto a = value("a");
    auto b = second("b", a);
    GlobalFederateId A(a), B(b);
    hvc::check(A.baseValue() == a && B.baseValue() == b, "federate id keeps its value");
    hvc::check((A == B) == (a == b), "federate id equality");
    hvc::check((A != B) == (a != b), "federate id inequality");
    hvc::check((A < B) == (a < b), "federate id order");
    hvc::check((A > B) == (a > b), "federate id reverse order");
    hvc::check(A.isFederate() == (a >= FED_LOW && a < BROKER_LOW), "federate id recognised as federate");
    hvc::check(A.isBroker() == (a >= BROKER_LOW || a == 1), "federate id recognised as broker");
    hvc::check(!(A.isFederate() && A.isBroker()), "federate id has one kind");
    hvc::check(A.isValid() == (a != INVALID_GLOBAL && a != INVALID_HANDLE), "federate id validity");
    hvc::check(!(A == B) || std::hash<GlobalFederateId>{}(A) == std::hash<GlobalFederateId>{}(B), "equal federate ids hash equally");
    hvc::check(!GlobalFederateId{}.isValid(), "default federate id is not valid");
    hvc::check(gDirectCoreId.isValid() && !gDirectCoreId.isFederate() && !gDirectCoreId.isBroker(), "direct core id");
    hvc::check(*A.getBaseTypePointer() == a, "base pointer of a federate id shows its value");
    *A.getBaseTypePointer() = b;
    hvc::check(A == B && A.baseValue() == b, "base pointer of a federate id sets its value");
}
HARNESS(federate_local_index)
{
    auto a = value("a");
    GlobalFederateId A(a);
    if (a >= FED_LOW) {
        hvc::check(A.localIndex() == a - FED_LOW, "federate offset removes the federate shift");
        hvc::check(GlobalFederateId(A.localIndex() + gGlobalFederateIdShift) == A, "federate offset recovers the id");
    } else {
        hvc::check(A.localIndex() == a, "ids below the federate range keep their value");
    }
}
HARNESS(federate_broker_conversion)
{
    auto a = value("a");
    auto b = second("b", a);
    GlobalFederateId A(a);
    GlobalBrokerId B(b);
    hvc::check((A == B) == (a == b), "federate and broker equality");
    hvc::check((A != B) == (a != b), "federate and broker inequality");
    hvc::check((A < B) == (a < b), "federate and broker order");
    hvc::check((A > B) == (a > b), "federate and broker reverse order");
    GlobalFederateId fromBroker(B);
    hvc::check(fromBroker.baseValue() == b, "conversion to a federate id keeps the value");
    GlobalBrokerId fromFed = A;
    hvc::check(fromFed.baseValue() == a, "conversion to a broker id keeps the value");
    hvc::check(A.isFederate() == fromFed.isFederate() && A.isBroker() == fromFed.isBroker() && A.isValid() == fromFed.isValid(),
               "conversion keeps the kind");
    hvc::check(GlobalFederateId(GlobalBrokerId{}) == GlobalFederateId{}, "invalid ids convert to each other");
}

HARNESS(special_federate_ids)
{
    auto b1 = value("broker1");
    auto b2 = second("broker2", b1);
    auto i1 = static_cast<Base>(hvc::pick("index1", 3));
    auto i2 = static_cast<Base>(hvc::pick("index2", 3));
    if (!hvc_symbolic()) {
        if ((static_cast<unsigned>(hvc_any("fold", 8)) & 1U) != 0) {
            b1 = static_cast<Base>(BROKER_LOW + (static_cast<std::uint32_t>(b1) & 0xFFFFU));
            b2 = static_cast<Base>(BROKER_LOW + (static_cast<std::uint32_t>(b2) & 0x1FU));
        }
    }
    hvc::assume(b1 == 1 || b1 >= BROKER_LOW);
    hvc::assume(b2 == 1 || b2 >= BROKER_LOW);
    auto f1 = getSpecialFederateId(GlobalBrokerId(b1), i1);
    auto f2 = getSpecialFederateId(GlobalBrokerId(b2), i2);
    hvc::check(f1.isFederate() && f1.isValid(), "reserved federate id lies in the federate range");
    hvc::check((f1 == f2) == (b1 == b2 && i1 == i2), "reserved federate ids of distinct brokers or indices differ");
    // ordinary federates are numbered upwards from the shift, the reserved ones lie in the upper part of the range
    hvc::check(f1.baseValue() >= 0x3FFFFFFD, "reserved federate ids stay clear of the ordinary ones");
}

HARNESS(global_handle)
{
    auto fa = value("fed1");
    auto ha = value("handle1");
    auto fb = second("fed2", fa);
    auto hb = second("handle2", ha);
    GlobalHandle A{GlobalFederateId{fa}, InterfaceHandle{ha}};
    GlobalHandle B{GlobalFederateId{fb}, InterfaceHandle{hb}};
    const bool same = (fa == fb && ha == hb);
    hvc::check(A.fed_id.baseValue() == fa && A.handle.baseValue() == ha, "pair keeps its parts");
    hvc::check((A == B) == same, "pair equality");
    hvc::check((A != B) == !same, "pair inequality");
    hvc::check((A < B) == (fa < fb || (fa == fb && ha < hb)), "pair order is lexicographic");
    const auto ka = static_cast<std::uint64_t>(A);
    const auto kb = static_cast<std::uint64_t>(B);
    hvc::check((ka == kb) == same, "lookup key is shared only by equal pairs");
    hvc::check(!same || std::hash<GlobalHandle>{}(A) == std::hash<GlobalHandle>{}(B), "equal pairs hash equally");
    hvc::check(A.isValid() == (GlobalFederateId(fa).isValid() && InterfaceHandle(ha).isValid()), "pair validity");
    hvc::check(!GlobalHandle{}.isValid(), "default pair is not valid");
    hvc::check(!GlobalHandle(GlobalFederateId(fa), InterfaceHandle{}).isValid() && !GlobalHandle(GlobalFederateId{}, InterfaceHandle(ha)).isValid(),
               "pair with a default part is not valid");
}

HARNESS(route_id)
{
    auto a = value("a");
    auto b = second("b", a);
    route_id A(a), B(b);
    hvc::check(A.baseValue() == a, "route id keeps its value");
    hvc::check((A == B) == (a == b), "route id equality");
    hvc::check((A != B) == (a != b), "route id inequality");
    hvc::check((A < B) == (a < b), "route id order");
    hvc::check(A.isValid() == (a != INVALID_ROUTE), "route id validity");
    hvc::check(!(A == B) || std::hash<route_id>{}(A) == std::hash<route_id>{}(B), "equal route ids hash equally");
    hvc::check(!route_id{}.isValid(), "default route id is not valid");
    hvc::check(parent_route_id.isValid() && control_route.isValid() && parent_route_id != control_route, "parent and control routes");
}
HARNESS(route_codes)
{
    auto code = hvc::any<std::int32_t>("code");
    auto index = hvc::any<std::int32_t>("index");
    auto code2 = hvc::any<std::int32_t>("code2");
    auto index2 = hvc::any<std::int32_t>("index2");
    if (!hvc_symbolic()) {
        code = static_cast<std::int8_t>(code);
        index &= 0xFFFFFF;
        code2 = ((index2 & 1) != 0) ? code : static_cast<std::int8_t>(code2);
        index2 = ((index2 & 2) != 0) ? index : (index2 & 0xFFFFFF);
    }
    hvc::assume(code >= -128 && code < 128 && index >= 0 && index < (1 << 24));
    hvc::assume(code2 >= -128 && code2 < 128 && index2 >= 0 && index2 < (1 << 24));
    auto r = generateRouteId(code, index);
    hvc::check(getRouteTypeCode(r) == code, "route type code is recovered");
    hvc::check((r.baseValue() & 0xFFFFFF) == index, "route index is recovered");
    hvc::check((r == generateRouteId(code2, index2)) == (code == code2 && index == index2), "distinct code and index give distinct routes");
    hvc::check(getRouteTypeCode(generateRouteId(json_route_code, index)) == json_route_code &&
                   getRouteTypeCode(generateRouteId(normal_route_code, index)) == normal_route_code && json_route_code != normal_route_code,
               "json and normal routes are told apart");
}
