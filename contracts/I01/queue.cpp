// Contracts for the value queues of helics::InputInfo (property I01).
// hvc: std=model
// hvc: flags=-DFMT_HEADER_ONLY
// hvc: merge=loops
// hvc: assume-SmallBuffer=a value is its identity, its size and its content (proved for the real class by B01)
// hvc: assume-shared_ptr=a shared pointer to a constant value is represented by the value it shares; freeing is not tracked
// hvc: assume-upper_bound=std::upper_bound is its library contract; that the range is in order is checked at every call
#include "inputs.hpp"

HARNESS(up_to)
{
    update<1>(0);
}
HARNESS(inclusive)
{
    update<1>(2);
}
HARNESS(up_to2)
{
    update<2>(0);
}
HARNESS(inclusive2)
{
    update<2>(2);
}
HARNESS(add1)
{
    add<1>();
}
HARNESS(add2)
{
    add<2>();
}
HARNESS(add_filtered)
{
    filters<1>();
}
HARNESS(disconnect)
{
    removed<2>(2);
}
HARNESS(connect0)
{
    connect<0>();
}
HARNESS(connect2)
{
    connect<2>();
}
HARNESS(next_time)
{
    Fx<2> f;
    const auto t = tick(f.I.nextValueTime());
    std::int64_t e = tick(Time::maxVal());
    for (unsigned q = 0; q < 2; ++q) {
        if (!f.I.not_interruptible && f.n[q] > 0 && f.r[f.off[q]].time < e) {
            e = f.r[f.off[q]].time;
        }
    }
    hvc::check(t == e, "the next value time is that of the earliest queued value, or the maximum");
    f.sameQueue(0, "asking for the next time changes nothing");
    f.sameQueue(1, "asking for the next time changes nothing");
}
HARNESS(clear)
{
    Fx<2> f;
    f.I.clearFutureData();
    f.sameSizes(2);
    hvc::check(f.now(0) == 0 && f.now(1) == 0 && f.I.queuedDataSize() == 0, "clearing removes every queued value");
    f.sameCurrent(0, "clearing keeps the current values");
    f.sameCurrent(1, "clearing keeps the current values");
}
HARNESS(get)
{
    Fx<2> f;
    const auto i = hvc::narrow<std::uint32_t>(hvc::any<std::int32_t>("i"), 4);
    const auto p = f.placeOf(f.I.getData(static_cast<int>(i)));
    const auto e = static_cast<std::int32_t>(i);
    hvc::check(p == (e == 0 && f.cur[0] ? f.all + 1 : e == 1 && f.cur[1] ? f.all + 2 : 0), "the current value of a source is found by its index, any other index yields none");
    std::uint32_t which = 77;
    const auto b = f.placeOf(f.I.getData(&which));
    if (f.curTime[0] > tick(Time::minVal()) || f.curTime[1] > tick(Time::minVal())) {
        hvc::check(which < 2, "the value handed out names its source");
        if (f.curTime[0] != f.curTime[1]) {
            hvc::check(which == (f.curTime[1] > f.curTime[0] ? 1U : 0U), "the most recent value is handed out");
        } else {
            hvc::check(which == 0, "of equally recent values the one of the earlier source is handed out unless priorities say otherwise");
        }
        hvc::check(b == (f.cur[which & 1U] ? f.all + 1 + which : 0), "the value handed out is the one of the source it names");
    }
}
