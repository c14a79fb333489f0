// Contracts for the command classification (property F01).
// hvc: assume-std=the classification functions read only the command code and the action time of the message
#include "hvc.hpp"

#include "helics/core/ActionMessage.hpp"

#include <cstring>
using namespace helics;
using Code = std::int32_t;
namespace {
/// a message of which only the command code and the action time are given
struct Holder {
    alignas(ActionMessage) unsigned char mem[sizeof(ActionMessage)];
    Holder() { std::memset(mem, 0, sizeof(mem)); }
    ActionMessage& msg() { return *reinterpret_cast<ActionMessage*>(mem); }
};
template<class M>
void setCode(M& m, Code c)
{
    if constexpr (requires { m.messageAction; }) {
        m.messageAction = static_cast<decltype(m.messageAction)>(c);
    } else {
        std::memcpy(&m, &c, sizeof(c));
    }
}
Code commandCode(const char* name)
{
    auto v = hvc::any<Code>(name);
    if (!hvc_symbolic()) {
        static const Code known[] = {
#define CODE(N, V) (V),
#include "codes_list.inc"
#undef CODE
        };
        const auto u = static_cast<std::uint32_t>(v);
        if ((u & 3U) != 0) {
            v = known[(u >> 2) % (sizeof(known) / sizeof(known[0]))];
            if ((u & 0x80000000U) != 0) {
                v = static_cast<Code>(static_cast<std::uint32_t>(v) + (((u >> 20) & 1U) != 0 ? 1U : 0xFFFFFFFFU));
            }
        }
    }
    return v;
}
bool disconnectCode(Code c)
{
    // user disconnect 2, disconnect 3, by name 4, check 5, federate 6, broadcast 7, core 8, broker 9, the three acknowledgements, stop 30,
    // terminate 31, priority disconnect -3, and removal of a filter (135) or endpoint (137)
    return (c >= 2 && c <= 9) || c == 1006 || c == 1008 || c == 1009 || c == 30 || c == 31 || c == -3 || c == 135 || c == 137;
}
bool errorCode(Code c)
{
    return c == 10000 || c == 10003 || c == 10005;
}
}  // namespace

HARNESS(classification)
{
    auto c = commandCode("code");
    Holder h;
    auto& m = h.msg();
    setCode(m, c);
    const auto t = hvc::any<std::int64_t>("time");
    m.actionTime.setBaseTimeCode(t);
    hvc::check(static_cast<Code>(m.action()) == c, "the command is the one given");
    hvc::check(isPriorityCommand(m) == (c < 0), "priority commands are those with negative codes");
    hvc::check(isProtocolCommand(m) == (c == 60000 || c == -60000 || c == 268495456), "protocol commands");
    const bool timing = (c == 3 || c == 7 || c == 8 || c == 9 || c == 6 || c == 35 || c == 500 || c == 22 || c == 20 || c == -3 || c == 31 ||
                         errorCode(c) || c == 310);
    hvc::check(isTimingCommand(m) == timing, "timing commands");
    hvc::check(isDependencyCommand(m) == (c == 140 || c == 141 || c == 144 || c == 145 || c == 148 || c == 149), "dependency commands");
    const bool disc = disconnectCode(c) || (c == 35 && m.actionTime == Time::maxVal());
    hvc::check(isDisconnectCommand(m) == disc, "disconnect commands");
    hvc::check(isErrorCommand(m) == errorCode(c), "error commands");
    hvc::check(isIgnoreableCommand(m) == (disc || errorCode(c) || c == 55 || c == 9990 || c == 2055 || c == 500 || c == 38), "ignorable commands");
    hvc::check(isValidCommand(m) == (c != 1010101), "valid commands");
    hvc::check(static_cast<Code>(m.action()) == c && m.actionTime.getBaseTimeCode() == t, "classification changes nothing");
}
HARNESS(grant_at_end_of_time)
{
    Holder h;
    auto& m = h.msg();
    setCode(m, 35);
    m.actionTime = Time::maxVal();
    hvc::check(isDisconnectCommand(m) && isIgnoreableCommand(m) && isTimingCommand(m) && !isErrorCommand(m), "a grant of the end of time is a disconnect");
    m.actionTime = Time::zeroVal();
    hvc::check(!isDisconnectCommand(m) && !isIgnoreableCommand(m) && isTimingCommand(m), "an ordinary grant is not a disconnect");
}
HARNESS(codes)
{
#define CODE(N, V) hvc::check(static_cast<Code>(N) == (V), "the code of " #N);
#include "codes_list.inc"
#undef CODE
}
HARNESS(message_order)
{
    Holder a;
    Holder b;
    const auto ta = hvc::any<std::int64_t>("a");
    const auto tb = hvc::any<std::int64_t>("b");
    a.msg().actionTime.setBaseTimeCode(ta);
    b.msg().actionTime.setBaseTimeCode(tb);
    hvc::check((a.msg() < b.msg()) == (ta < tb), "messages order by their time");
}
