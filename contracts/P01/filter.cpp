// Contracts for helics::PublicationInfo::CheckSetValue (property P01): byte-level, real standard library.
// hvc: flags=-DFMT_HEADER_ONLY
#include "hvc.hpp"

#include "helics/core/PublicationInfo.cpp"

using namespace helics;
using uchar = unsigned char;

namespace {
constexpr std::uint64_t LIM = 1ULL << 31;
std::int64_t ticks(const char* name)
{
    auto v = hvc::any<std::int64_t>(name);
    if (!hvc_symbolic() && hvc_replaying() == 0) {
        v = static_cast<std::int64_t>(static_cast<std::uint64_t>(v) % 8) - 1;
    }
    hvc::assume(v >= -(1LL << 61) && v <= (1LL << 61));
    return v;
}
Time timeOf(std::int64_t c)
{
    Time t;
    t.setBaseTimeCode(c);
    return t;
}
/// a publication with arbitrary options, times and retained value
struct Fx {
    PublicationInfo P{GlobalHandle(), std::string_view(), std::string_view(), std::string_view()};
    std::int64_t gap, last, now;
    bool onChange, keep, force;
    std::uint64_t n, m;
    const uchar *old, *val;
    bool same;

    Fx()
    {
        gap = ticks("gap");
        last = ticks("last");
        now = ticks("now");
        onChange = hvc::any<bool>("onChange");
        keep = hvc::any<bool>("keep");
        force = hvc::any<bool>("force");
        P.minTimeGap = timeOf(gap);
        P.lastPublishTime = timeOf(last);
        P.only_update_on_change = onChange;
        P.buffer_data = keep;
        n = hvc::size("#n", LIM, 80);
        auto* p = static_cast<const uchar*>(hvc_lend("old", 1, n, n));
        P.data.assign(p, n);
        old = hvc::snapshot(p, n);
        if (hvc_symbolic() || hvc_any("equal", 1) == 0) {
            m = hvc::size("#m", LIM, 80);
            val = static_cast<const uchar*>(hvc_lend("val", 1, m, m));
        } else {
            m = n;
            auto* v = static_cast<uchar*>(hvc_ghost(n + 1));
            __builtin_memcpy(v, old, n);
            if (n > 0 && hvc_any("differ", 1) != 0) {
                v[hvc_any("at", 64) % n] ^= 1U;
            }
            val = v;
        }
        // the oracle of "equal to the retained value": no position differs
        same = (m == n) && hvc::first(0, n, [&](std::uint64_t k) { return old[k] != val[k]; }) == n;
    }
    bool run() { return P.CheckSetValue(reinterpret_cast<const char*>(val), m, timeOf(now), force); }
    bool tooSoon() const { return gap > 0 && now - last < gap; }
    void holds(const uchar* b, std::uint64_t k, const char* id)
    {
        hvc::check(P.data.size() == k, id);
        auto* d = reinterpret_cast<const uchar*>(P.data.data());
        hvc::forall(0, k, [&](std::uint64_t i) { return d[i] == b[i]; }, id);
    }
};
}  // namespace

HARNESS(transmits_unless_told_not_to)
{
    Fx f;
    const bool sent = f.run();
    const bool unchanged = (f.onChange || f.force) && f.same;
    hvc::check(sent == !(f.tooSoon() || unchanged), "transmitted unless suppressed by the change filter or the time gap");
    if (sent) {
        hvc_cover("value transmitted");
    } else {
        hvc_cover("value suppressed");
    }
}
HARNESS(suppressed_changes_nothing)
{
    Fx f;
    const bool sent = f.run();
    hvc::assume(!sent);
    hvc::check(f.P.lastPublishTime == timeOf(f.last), "a suppressed value leaves the last publish time");
    f.holds(f.old, f.n, "a suppressed value leaves the retained value");
    hvc_cover("value suppressed");
}
HARNESS(transmitted_is_recorded)
{
    Fx f;
    const bool sent = f.run();
    hvc::assume(sent);
    hvc::check(f.P.lastPublishTime == timeOf(f.now), "a transmitted value records its time");
    if (f.onChange || f.force || f.keep) {
        f.holds(f.val, f.m, "a transmitted value is retained");
        hvc_cover("value retained");
    } else {
        f.holds(f.old, f.n, "nothing is retained when neither comparing nor buffering");
    }
}
HARNESS(options_are_kept)
{
    Fx f;
    f.run();
    hvc::check(f.P.minTimeGap == timeOf(f.gap) && f.P.only_update_on_change == f.onChange && f.P.buffer_data == f.keep,
               "publishing leaves the options alone");
    hvc::check(f.P.subscribers.empty(), "publishing leaves the subscribers alone");
}
/// two consecutive values: the second equal to the first is suppressed when only changes are sent
HARNESS(repeat_is_suppressed)
{
    Fx f;
    hvc::assume(f.onChange || f.force);
    const bool first = f.run();
    hvc::assume(first);
    auto again = timeOf(ticks("again"));
    const bool second = f.P.CheckSetValue(reinterpret_cast<const char*>(f.val), f.m, again, f.force);
    hvc::check(!second, "an unchanged value is not sent again");
    hvc::check(f.P.lastPublishTime == timeOf(f.now), "the suppressed repeat leaves the last publish time");
}
