// Contracts for the flag helpers (property F01).
#include "hvc.hpp"

#include "helics/core/flagOperations.hpp"
using namespace helics;
namespace {
struct Carrier {
    std::uint32_t before;
    std::uint16_t flags;
    std::uint16_t after;
};
std::uint16_t bit(unsigned f)
{
    return static_cast<std::uint16_t>(1U << f);
}
Carrier carrier(std::uint16_t w)
{
    return {hvc::any<std::uint32_t>("before"), w, hvc::any<std::uint16_t>("after")};
}
bool rest(const Carrier& a, const Carrier& b)
{
    return a.before == b.before && a.after == b.after;
}
template<class F>
void all(F flag, unsigned number, std::uint16_t w)
{
    const std::uint16_t mask = bit(number);
    auto c = carrier(w);
    const auto o = c;
    hvc::check(checkActionFlag(c, flag) == ((w & mask) != 0), "checking a flag of a container reports whether it is set");
    hvc::check(checkActionFlag(w, flag) == ((w & mask) != 0), "checking a flag of a word reports whether it is set");
    hvc::check(c.flags == w && rest(c, o), "checking a flag changes nothing");
    auto s = c;
    setActionFlag(s, flag);
    hvc::check(s.flags == static_cast<std::uint16_t>(w | mask), "setting a flag sets that flag and no other");
    hvc::check(rest(s, o) && checkActionFlag(s, flag), "a flag that was set reads as set");
    auto k = c;
    clearActionFlag(k, flag);
    hvc::check(k.flags == static_cast<std::uint16_t>(w & ~mask), "clearing a flag clears that flag and no other");
    hvc::check(rest(k, o) && !checkActionFlag(k, flag), "a flag that was cleared reads as clear");
    auto t = c;
    toggleActionFlag(t, flag);
    hvc::check(t.flags == static_cast<std::uint16_t>(w ^ mask), "toggling a flag inverts that flag and no other");
    hvc::check(rest(t, o), "toggling changes only the flags");
    toggleActionFlag(t, flag);
    hvc::check(t.flags == w, "toggling twice restores the flags");
}
}  // namespace

HARNESS(by_int)
{
    auto w = hvc::any<std::uint16_t>("word");
    auto f = static_cast<int>(hvc::pick("flag", 16));
    all(f, static_cast<unsigned>(f), w);
}
HARNESS(by_unsigned)
{
    auto w = hvc::any<std::uint16_t>("word");
    auto f = static_cast<std::uint16_t>(hvc::pick("flag", 16));
    all(f, f, w);
}
HARNESS(by_general_flag)
{
    auto w = hvc::any<std::uint16_t>("word");
    auto f = static_cast<unsigned>(hvc::pick("flag", 16));
    all(static_cast<GeneralFlags>(f), f, w);
}
HARNESS(by_timing_flag)
{
    auto w = hvc::any<std::uint16_t>("word");
    auto f = static_cast<unsigned>(hvc::pick("flag", 16));
    all(static_cast<TimingFlags>(f), f, w);
}
HARNESS(by_endpoint_flag)
{
    auto w = hvc::any<std::uint16_t>("word");
    auto f = static_cast<unsigned>(hvc::pick("flag", 16));
    all(static_cast<EndpointFlags>(f), f, w);
}
HARNESS(by_connection_flag)
{
    auto w = hvc::any<std::uint16_t>("word");
    auto f = static_cast<unsigned>(hvc::pick("flag", 16));
    all(static_cast<ConnectionFlags>(f), f, w);
}
HARNESS(independent)
{
    auto w = hvc::any<std::uint16_t>("word");
    auto f = static_cast<std::uint16_t>(hvc::pick("flag", 16));
    auto g = static_cast<std::uint16_t>(hvc::pick("other", 16));
    hvc::assume(f != g);
    auto c = carrier(w);
    const bool was = checkActionFlag(c, g);
    switch (hvc::pick("operation", 3)) {
        case 0:
            setActionFlag(c, f);
            break;
        case 1:
            clearActionFlag(c, f);
            break;
        default:
            toggleActionFlag(c, f);
            break;
    }
    hvc::check(checkActionFlag(c, g) == was, "changing one flag leaves every other flag as it was");
}
HARNESS(make)
{
    auto a = static_cast<unsigned>(hvc::pick("a", 16));
    auto b = static_cast<unsigned>(hvc::pick("b", 16));
    auto c = static_cast<unsigned>(hvc::pick("c", 16));
    auto f = static_cast<std::uint16_t>(hvc::pick("flag", 16));
    hvc::check(make_flags(a) == bit(a), "one flag made");
    hvc::check(make_flags(a, b) == static_cast<std::uint16_t>(bit(a) | bit(b)), "two flags made");
    hvc::check(make_flags(a, b, c) == static_cast<std::uint16_t>(bit(a) | bit(b) | bit(c)), "three flags made");
    hvc::check(checkActionFlag(make_flags(a, b, c), f) == (f == a || f == b || f == c), "made flags read as set");
}
HARNESS(toggle_word)
{
    auto w = hvc::any<std::uint16_t>("word");
    auto a = static_cast<unsigned>(hvc::pick("a", 16));
    hvc::check(toggle_flag(w, a) == static_cast<std::uint16_t>(w ^ bit(a)), "toggle_flag inverts that flag and no other");
}
HARNESS(flag_numbers)
{
    // flags of one group that may be set on the same object occupy distinct positions
    const unsigned timing[] = {iteration_requested_flag, error_flag, indicator_flag, non_granting_flag, interrupted_flag, delayed_timing_flag,
                               parent_flag, child_flag};
    const unsigned iface[] = {buffer_data_flag,      destination_target, required_flag, single_connection_flag,       only_update_on_change_flag,
                              reconnectable_flag,    optional_flag,      targeted_flag, only_transmit_on_change_flag, source_only_flag,
                              receive_only_flag,     nameless_interface_flag};
    const unsigned conn[] = {core_flag,    error_flag,          global_timing_flag, use_json_serialization_flag, async_timing_flag,
                             observer_flag, dynamic_join_flag, reentrant_flag,     global_disconnect_flag,      disconnected_flag,
                             test_connection_flag, slow_responding_flag, non_counting_flag};
    for (unsigned i = 0; i < sizeof(timing) / sizeof(unsigned); ++i) {
        hvc::check(timing[i] < 16, "timing flag fits the word");
        for (unsigned j = 0; j < i; ++j) {
            hvc::check(timing[i] != timing[j], "timing flags are distinct");
        }
    }
    for (unsigned i = 0; i < sizeof(iface) / sizeof(unsigned); ++i) {
        hvc::check(iface[i] < 16, "interface flag fits the word");
        for (unsigned j = 0; j < i; ++j) {
            hvc::check(iface[i] != iface[j], "interface flags are distinct");
        }
    }
    for (unsigned i = 0; i < sizeof(conn) / sizeof(unsigned); ++i) {
        hvc::check(conn[i] < 16, "connection flag fits the word");
        for (unsigned j = 0; j < i; ++j) {
            hvc::check(conn[i] != conn[j], "connection flags are distinct");
        }
    }
}
