// Fixture and contracts of the value queues of helics::InputInfo (property I01).
#pragma once
#include "model.hpp"

#ifdef HVC_MODEL_STD
#include <memory>
#define SmallBuffer WholeSmallBuffer
#include "helics/core/SmallBuffer.hpp"
#undef SmallBuffer
namespace helics {
/// contract of a value: which one it is (0: none), its size (as a difference of the running total) and its content
class SmallBuffer {
  public:
    std::uint64_t place{0};
    bool none() const { return place == 0; }
    static std::uint64_t total(std::uint64_t p) { return hvc_uf("bytes", p, 0); }
    static std::uint64_t content(std::uint64_t p) { return hvc_uf("content", p, 0); }
    std::size_t size() const { return total(place) - total(place - 1); }
    bool empty() const { return size() == 0; }
    bool operator==(const SmallBuffer& o) const { return content(place) == content(o.place); }
    void resize(std::size_t) { hvc_unsupported("change of a shared value"); }
    void swap(SmallBuffer&) { hvc_unsupported("change of a shared value"); }
    std::string_view to_string() const
    {
        hvc_unsupported("bytes of a value");
        return {};
    }
};
}  // namespace helics
template<>
struct std::hvcm::by_value<helics::SmallBuffer>: std::true_type {};
#endif

#include "helics/core/InputInfo.cpp"

HVC_NATIVE(namespace units {
// not used by the queues
precise_unit unit_from_string(const std::string&) { return {}; }
bool is_valid(const precise_unit&) { return true; }
double convert(const precise_unit&, const precise_unit&) { return 1.0; }
double quick_convert(const precise_unit&, const precise_unit&) { return 1.0; }
})

using namespace helics;
using Value = std::shared_ptr<const SmallBuffer>;

namespace {
constexpr std::uint64_t LIM = 1ULL << 30;
std::int64_t tick(Time t)
{
    return t.getBaseTimeCode();
}
Time timeOf(std::int64_t c)
{
    Time t;
    t.setBaseTimeCode(c);
    return t;
}
std::int64_t tame(std::int64_t v)
{
    return hvc_symbolic() || hvc_replaying() != 0 ? v : static_cast<std::int64_t>(static_cast<std::uint64_t>(v) % 5);
}
std::int64_t someTick(const char* name)
{
    auto v = tame(hvc::any<std::int64_t>(name));
    hvc::assume(v >= -(1LL << 61));
    return v;
}
GlobalHandle handleOf(std::int32_t fed, std::int32_t h)
{
    return GlobalHandle(GlobalFederateId(fed), InterfaceHandle(h));
}
std::int32_t small(const char* name)
{
    return hvc::narrow<std::uint32_t>(hvc::any<std::int32_t>(name), 3);
}
struct Raw {
    std::int64_t time;
    std::uint64_t content;
    std::uint32_t iter;
    std::uint32_t pad;
};
/// K sources, each with a queue of any number of values in order; values are told apart by their place (1, 2, ...)
template<unsigned K>
struct Fx {
    InputInfo I{GlobalHandle(), std::string_view(), std::string_view(), std::string_view()};
    std::uint64_t n[K + 1];  // queued values
    std::uint64_t off[K + 1];  // places before the queue
    std::uint64_t all;  // queued in total
    std::uint64_t total;  // values that exist: queued, one current per source, one new
    Raw* r;  // by place - 1
    bool cur[K + 1];
    std::uint64_t curPlace[K + 1];
    std::int64_t curTime[K + 1];
    std::uint32_t curIter[K + 1];
    std::int32_t fed[K + 1], h[K + 1];
    std::int64_t off_time[K + 1];
    std::uint64_t key[K + 1], type[K + 1], units[K + 1];
    HVC_NATIVE(std::vector<Value> objs;)
    HVC_MODEL(void* room[2 * (K + 1)];)

    Fx()
    {
        HVC_MODEL(I.data_queues.b = I.data_queues.e = static_cast<std::vector<InputInfo::dataRecord>*>(static_cast<void*>(room));)
        all = 0;
        for (unsigned q = 0; q < K; ++q) {
            static const char* const qn[] = {"queue0", "queue1"};
            n[q] = hvc::size(qn[q], LIM, 4);
            off[q] = all;
            all += n[q];
        }
        total = all + K + 1;
        r = static_cast<Raw*>(hvc_array("value", sizeof(Raw), total, total));
        I.only_update_on_change = hvc::any<bool>("only_update_on_change");
        I.not_interruptible = hvc::any<bool>("not_interruptible");
        I.minTimeGap = timeOf(someTick("minTimeGap"));
        HVC_NATIVE(for (std::uint64_t k = 0; k < total; ++k) {
            r[k].time = tame(r[k].time);
            r[k].content = hvc::narrow<std::uint64_t>(r[k].content, 3);
            r[k].iter = hvc::narrow<std::uint32_t>(r[k].iter, 3);
            objs.push_back(std::make_shared<SmallBuffer>(std::string(r[k].content % 7, static_cast<char>('a' + r[k].content % 23))));
        })
        HVC_MODEL(hvc::assume_forall(0, total, [&](std::uint64_t k) -> bool { return SmallBuffer::content(k + 1) == r[k].content; });)
        hvc::assume_forall(0, total, [&](std::uint64_t k) -> bool { return r[k].time >= -(1LL << 61); });
        for (unsigned q = 0; q < K; ++q) {
            const auto o = off[q];
            hvc::assume_forall2(0, n[q], [&](std::uint64_t i, std::uint64_t j) -> bool { return !(i < j) || !before(o + j, o + i); });
            static const char* const nm[2][9] = {{"cur0", "ctime0", "citer0", "fed0", "h0", "deact0", "key0", "type0", "units0"},
                                                 {"cur1", "ctime1", "citer1", "fed1", "h1", "deact1", "key1", "type1", "units1"}};
            cur[q] = hvc::any<bool>(nm[q][0]);
            curPlace[q] = -static_cast<std::uint64_t>(cur[q]) & (all + q + 1);
            curTime[q] = someTick(nm[q][1]);
            curIter[q] = hvc::narrow<std::uint32_t>(hvc::any<std::uint32_t>(nm[q][2]), 3);
            fed[q] = small(nm[q][3]);
            h[q] = small(nm[q][4]);
            off_time[q] = someTick(nm[q][5]);
            HVC_NATIVE(if (hvc_replaying() == 0 && off_time[q] > 2) {
                off_time[q] = tick(Time::maxVal());
            })
            key[q] = hvc::anyTok(nm[q][6], 3);
            type[q] = hvc::anyTok(nm[q][7], 3);
            units[q] = hvc::anyTok(nm[q][8], 3);
            if (q != 0) {
                hvc::assume(fed[q] != fed[0] || h[q] != h[0]);
            }
            I.input_sources.push_back(handleOf(fed[q], h[q]));
            I.source_info.emplace_back(hvc::str(key[q]), hvc::str(type[q]), hvc::str(units[q]));
            I.deactivated.push_back(timeOf(off_time[q]));
            I.current_data.push_back(value(curPlace[q]));
            I.current_data_time.emplace_back(timeOf(curTime[q]), curIter[q]);
            I.data_queues.emplace_back();
            auto& v = I.data_queues.back();
#ifdef HVC_MODEL_STD
            v.e = v.b + n[q];
            for (std::uint64_t k = 0; k < n[q]; ++k) {
                v.b[k].time.setBaseTimeCode(r[o + k].time);
                v.b[k].iteration = r[o + k].iter;
                v.b[k].data.value.place = o + k + 1;
            }
#else
            for (std::uint64_t k = 0; k < n[q]; ++k) {
                v.emplace_back(timeOf(r[o + k].time), r[o + k].iter, objs[o + k]);
            }
#endif
        }
        I.has_target = K != 0;
        I.queuedDataSizeBytes = bytes(0, all);
    }
    /// the new value
    std::uint64_t fresh() const { return total; }
    Value value(std::uint64_t place)
    {
        HVC_MODEL(Value v; v.value.place = place; return v;)
        HVC_NATIVE(return place == 0 ? Value() : objs[place - 1];)
    }
    std::uint64_t placeOf(const Value& v) const
    {
        HVC_MODEL(return v.value.place;)
        HVC_NATIVE(for (std::uint64_t k = 0; k < objs.size(); ++k) {
            if (objs[k] == v) {
                return k + 1;
            }
        } return v ? ~0ULL : 0;)
    }
    /// size of the values at places a+1..b
    std::uint64_t bytes(std::uint64_t a, std::uint64_t b) const
    {
        HVC_MODEL(return SmallBuffer::total(b) - SmallBuffer::total(a);)
        HVC_NATIVE(std::uint64_t s = 0; for (; a < b; ++a) { s += objs[a]->size(); } return s;)
    }
    std::uint64_t content(std::uint64_t place) const { return r[place - 1].content; }
    bool same(std::uint64_t p1, std::uint64_t p2) const
    {
        HVC_MODEL(return SmallBuffer::content(p1) == SmallBuffer::content(p2);)
        HVC_NATIVE(return *objs[p1 - 1] == *objs[p2 - 1];)
    }
    bool before(std::uint64_t i, std::uint64_t j) const
    {
        return r[i].time < r[j].time || (r[i].time == r[j].time && r[i].iter < r[j].iter);
    }
    std::uint64_t now(unsigned q) const { return I.data_queues[q].size(); }
    bool is(unsigned q, std::uint64_t i, std::uint64_t place) const
    {
        auto& d = I.data_queues[q][i];
        return tick(d.time) == r[place - 1].time && d.iteration == r[place - 1].iter && placeOf(d.data) == place;
    }
    void sameQueue(unsigned q, const char* id)
    {
        hvc::check(now(q) == n[q], id);
        hvc::forall(0, n[q], [&](std::uint64_t k) -> bool { return is(q, k, off[q] + k + 1); }, id);
    }
    void sameCurrent(unsigned q, const char* id)
    {
        hvc::check(placeOf(I.current_data[q]) == curPlace[q] && tick(I.current_data_time[q].first) == curTime[q] &&
                       I.current_data_time[q].second == curIter[q],
                   id);
    }
    void sameSource(unsigned q, const char* id)
    {
        hvc::check(I.input_sources[q] == handleOf(fed[q], h[q]), id);
        hvc::check(hvc::tok(I.source_info[q].key) == key[q] && hvc::tok(I.source_info[q].type) == type[q] && hvc::tok(I.source_info[q].units) == units[q], id);
        hvc::check(tick(I.deactivated[q]) == off_time[q], id);
    }
    void sameSizes(std::uint64_t k)
    {
        const char* id = "the lists of an input have one entry per source";
        hvc::check(I.input_sources.size() == k && I.source_info.size() == k && I.deactivated.size() == k, id);
        hvc::check(I.current_data.size() == k && I.current_data_time.size() == k && I.data_queues.size() == k, id);
    }
};

template<unsigned K>
void update(int op)
{
    Fx<K> f;
    const auto t = someTick("t");
    const bool changed = op == 0 ? f.I.updateTimeUpTo(timeOf(t)) : op == 1 ? f.I.updateTimeNextIteration(timeOf(t)) : f.I.updateTimeInclusive(timeOf(t));
    bool expect = false;
    std::uint64_t left = 0;
    for (unsigned q = 0; q < K; ++q) {
        const auto n = f.n[q], o = f.off[q];
        const Raw* r = f.r;
        const auto m = f.now(q);
        hvc::check(m <= n, "an update does not add values");
        const auto c = n - m;
        if (op == 1) {
            const auto a = hvc::first(0, n, [&](std::uint64_t k) -> bool { return r[o + k].time >= t; });
            hvc::forall(0, n, [&](std::uint64_t k) -> bool {
                const bool in = r[o + k].time < t || (r[o + k].time == t && r[o + k].iter == r[o + a].iter);
                return in == (k < c);
            }, "an iteration update takes exactly the values before the new time and those of the first iteration at it");
        } else {
            hvc::forall(0, n, [&](std::uint64_t k) -> bool { return (op == 0 ? r[o + k].time < t : r[o + k].time <= t) == (k < c); },
                        "an update takes exactly the values the new time has reached");
        }
        hvc::forall(0, m, [&](std::uint64_t k) -> bool { return f.is(q, k, o + c + k + 1); }, "the values not reached yet stay queued in order");
        left += f.bytes(o + c, o + n);
        const auto last = o + c;  // place of the latest value taken
        if (c > 0 && (!f.I.only_update_on_change || !f.cur[q] || !f.same(f.all + q + 1, last))) {
            hvc_cover("value replaced");
            expect = true;
            hvc::check(f.placeOf(f.I.current_data[q]) == last, "the latest value reached becomes current");
            hvc::check(tick(f.I.current_data_time[q].first) == r[last - 1].time && f.I.current_data_time[q].second == r[last - 1].iter,
                       "the time of the current value is the one it was published for");
        } else {
            hvc::check(f.placeOf(f.I.current_data[q]) == f.curPlace[q], "the current value stays when nothing new is reached");
            hvc::check(tick(f.I.current_data_time[q].first) == f.curTime[q], "the time of the current value stays with it");
        }
        f.sameSource(q, "an update does not change the sources");
    }
    hvc::check(changed == expect, "an update reports whether a current value changed");
    hvc::check(f.I.queuedDataSize() == left, "the accounted bytes are those of the values still queued");
    f.sameSizes(K);
}
/// position of a new value of this time and iteration: behind every value that is not later
template<unsigned K>
void add()
{
    Fx<K> f;
    const auto fedN = small("fed"), hN = small("h");
    const auto x = f.fresh();
    const auto t = f.r[x - 1].time;
    const auto it = f.r[x - 1].iter;
    const bool none = hvc::any<bool>("none");
    const bool ok = f.I.addData(handleOf(fedN, hN), timeOf(t), it, none ? Value() : f.value(x));
    int s = -1;
    for (unsigned q = K; q > 0; --q) {
        if (f.fed[q - 1] == fedN && f.h[q - 1] == hN) {
            s = static_cast<int>(q - 1);
        }
    }
    const bool welcome = !none && s >= 0 && t <= f.off_time[s < 0 ? 0 : s];
    if (!welcome) {
        hvc::check(!ok, "no value, a value from an unknown source or after its deactivation is rejected");
    }
    if (welcome && f.I.minTimeGap <= timeZero && !f.I.only_update_on_change) {
        hvc::check(ok, "a value from a known active source is accepted");
    }
    for (unsigned q = 0; q < K; ++q) {
        f.sameCurrent(q, "a new value does not become current before an update");
        f.sameSource(q, "a new value does not change the sources");
        if (!ok || s != static_cast<int>(q)) {
            f.sameQueue(q, "a value that is not accepted for a source leaves its queue alone");
        } else {
            hvc_cover("value queued");
            const auto n = f.n[q], o = f.off[q];
            const auto p = hvc::first(0, n, [&](std::uint64_t k) -> bool { return f.before(x - 1, o + k); });
            hvc::check(f.now(q) == n + 1, "an accepted value is queued once");
            hvc::check(f.is(q, p, x), "a value is queued in order of time and iteration, behind those it does not precede");
            hvc::forall(0, p, [&](std::uint64_t k) -> bool { return f.is(q, k, o + k + 1); }, "the values before a new one keep their places");
            hvc::forall(p, n, [&](std::uint64_t k) -> bool { return f.is(q, k + 1, o + k + 1); }, "the values after a new one move by one");
        }
    }
    const std::uint64_t sz = f.bytes(x - 1, x);
    hvc::check(f.I.queuedDataSize() == f.bytes(0, f.all) + (ok ? sz : 0), "the accounted bytes grow by the size of an accepted value");
    f.sameSizes(K);
}
/// with the options: refused exactly when too close to, or equal to, the value before it (the current one when nothing is queued)
template<unsigned K>
void filters()
{
    Fx<K> f;
    const auto x = f.fresh();
    const auto t = f.r[x - 1].time;
    const auto n = f.n[0], o = f.off[0];
    hvc::assume(t <= f.off_time[0]);
    hvc::assume(t <= (1LL << 61) && f.curTime[0] <= (1LL << 61));
    hvc::assume_forall(0, n, [&](std::uint64_t k) -> bool { return f.r[o + k].time <= (1LL << 61); });
    const bool ok = f.I.addData(handleOf(f.fed[0], f.h[0]), timeOf(t), f.r[x - 1].iter, f.value(x));
    const auto p = hvc::first(0, n, [&](std::uint64_t k) -> bool { return f.before(x - 1, o + k); });
    std::uint64_t prev = 0;
    std::int64_t pt = 0;
    if (p > 0) {
        prev = o + p;
        pt = f.r[prev - 1].time;
    } else if (n == 0 && f.cur[0]) {
        prev = f.all + 1;
        pt = f.curTime[0];
    }
    bool refuse = false;
    if (prev != 0) {
        refuse = (f.I.minTimeGap > timeZero && t - pt < tick(f.I.minTimeGap)) || (f.I.only_update_on_change && f.same(prev, x));
    }
    hvc::check(ok == !refuse, "a value is filtered exactly when it follows too closely, or repeats, the value before it");
    if (refuse) {
        hvc_cover("value filtered");
    }
}
template<unsigned K>
void removed(int op)
{
    Fx<K> f;
    const auto t = someTick("t");
    const auto fedN = small("fed"), hN = small("h");
    const auto name = hvc::anyTok("name", 3);
    if (op == 0) {
        f.I.removeSource(handleOf(fedN, hN), timeOf(t));
    } else if (op == 1) {
        f.I.removeSource(hvc::str(name), timeOf(t));
    } else {
        f.I.disconnectFederate(GlobalFederateId(fedN), timeOf(t));
    }
    std::uint64_t left = 0;
    for (unsigned q = 0; q < K; ++q) {
        const bool hit = op == 0 ? f.fed[q] == fedN && f.h[q] == hN : op == 1 ? f.key[q] == name : f.fed[q] == fedN;
        const auto n = f.n[q], o = f.off[q];
        if (hit) {
            hvc_cover("source removed");
            hvc::check(tick(f.I.deactivated[q]) == (t < f.off_time[q] ? t : f.off_time[q]), "a removed source is deactivated from the given time on, never later than before");
        } else {
            hvc::check(tick(f.I.deactivated[q]) == f.off_time[q], "removing one source leaves the others active");
        }
        hvc::check(f.I.input_sources[q] == handleOf(f.fed[q], f.h[q]) && hvc::tok(f.I.source_info[q].key) == f.key[q], "removing a source keeps its entry");
        f.sameCurrent(q, "removing a source does not change current values");
        const auto m = f.now(q);
        hvc::check(m <= n, "removing a source does not add values");
        if (!hit) {
            hvc::check(m == n, "removing a source keeps the values of the others");
        } else if (op != 2) {
            hvc::forall(0, n, [&](std::uint64_t k) -> bool { return (f.r[o + k].time <= t) == (k < m); }, "exactly the values after the removal time are dropped");
        } else {
            hvc::forall(0, n, [&](std::uint64_t k) -> bool { return f.r[o + k].time > t || k < m; }, "values up to the disconnection stay");
        }
        hvc::forall(0, m, [&](std::uint64_t k) -> bool { return f.is(q, k, o + k + 1); }, "the values kept stay in order");
        left += f.bytes(o, o + m);
    }
    hvc::check(f.I.queuedDataSize() == left, "the accounted bytes are those of the values still queued");
    f.sameSizes(K);
}
template<unsigned K>
void connect()
{
    Fx<K> f;
    const auto fedN = small("fed"), hN = small("h");
    const auto name = hvc::anyTok("name", 3), type = hvc::anyTok("type", 3), units = hvc::anyTok("units", 3);
    const bool ok = f.I.addSource(handleOf(fedN, hN), hvc::str(name), hvc::str(type), hvc::str(units));
    int s = -1;
    for (unsigned q = 0; q < K; ++q) {
        if (f.fed[q] == fedN && f.h[q] == hN) {
            s = static_cast<int>(q);
        }
    }
    for (unsigned q = 0; q < K; ++q) {
        f.sameQueue(q, "adding a source leaves the queues alone");
        f.sameCurrent(q, "adding a source leaves the current values alone");
        if (s != static_cast<int>(q) || f.off_time[q] == tick(Time::maxVal())) {
            f.sameSource(q, "adding a source leaves the others alone");
        } else {
            hvc_cover("reconnection");
            hvc::check(tick(f.I.deactivated[q]) == tick(Time::maxVal()), "a source that connects again is active again");
            hvc::check(f.I.input_sources[q] == handleOf(fedN, hN), "a source that connects again keeps its entry");
            hvc::check(hvc::tok(f.I.source_info[q].type) == type && hvc::tok(f.I.source_info[q].units) == units, "a source that connects again has the type and units it states");
        }
    }
    hvc::check(ok == (s < 0 || f.off_time[s < 0 ? 0 : s] != tick(Time::maxVal())), "adding a source is refused exactly when it is connected already");
    if (s < 0) {
        f.sameSizes(K + 1);
        hvc::check(f.I.input_sources[K] == handleOf(fedN, hN), "a new source has the identifier it was given");
        hvc::check(hvc::tok(f.I.source_info[K].key) == name && hvc::tok(f.I.source_info[K].type) == type && hvc::tok(f.I.source_info[K].units) == units,
                   "a new source has the name, type and units it was given");
        hvc::check(tick(f.I.deactivated[K]) == tick(Time::maxVal()), "a new source is active");
        hvc::check(!f.I.current_data[K] && f.now(K) == 0, "a new source has no value");
        hvc::check(f.I.has_target, "an input with a source has a target");
    } else {
        f.sameSizes(K);
    }
    hvc::check(f.I.queuedDataSize() == f.bytes(0, f.all), "adding a source does not change the accounted bytes");
}
}  // namespace
