// Contracts for the message queue of helics::EndpointInfo (property E01).
// hvc: std=model
// hvc: flags=-DFMT_HEADER_ONLY
// hvc: assume-stable_sort=std::stable_sort is its library contract: a permutation in order, equal elements in their former order
// hvc: assume-guarded=libguarded hands out the protected object; mutual exclusion is the library's
// hvc: assume-unique_ptr=owning pointers to messages are places in one arena; freeing them is not tracked
#include "model.hpp"
namespace helics {
class Message;
}
HVC_MODEL(template<> struct std::hvcm::in_arena<helics::Message>: std::true_type {};)

#include "helics/core/core-data.hpp"
#include "helics/core/EndpointInfo.cpp"

using namespace helics;

namespace {
constexpr std::uint64_t LIM = 1ULL << 30;
std::int64_t tick(Time t)
{
    return t.getBaseTimeCode();
}
std::int64_t someTick(const char* name)
{
    auto v = hvc::any<std::int64_t>(name);
    if (!hvc_symbolic() && hvc_replaying() == 0) {
        v = static_cast<std::int64_t>(static_cast<std::uint64_t>(v) % 6);
    }
    return v;
}
Time timeOf(std::int64_t c)
{
    Time t;
    t.setBaseTimeCode(c);
    return t;
}
struct Raw {
    std::int64_t time;
    std::uint64_t src;
};
/// messages are told apart by their id; m[k].messageID == k
struct Fx {
    EndpointInfo E{GlobalHandle(), std::string_view(), std::string_view()};
    std::uint64_t n;  // queued
    std::uint64_t total;  // messages that exist
    Raw* r;
    std::int32_t avail;
    HVC_MODEL(std::uint64_t* q; Message* m;)
    HVC_NATIVE(std::unique_ptr<Message> fresh;)

    explicit Fx(bool ordered = true, std::uint64_t extra = 0)
    {
        n = hvc::size("queued", LIM, 5);
        total = n + extra;
        r = static_cast<Raw*>(hvc_array("msg", sizeof(Raw), total, total));
        HVC_NATIVE(for (std::uint64_t k = 0; k < total; ++k) {
            if (hvc_replaying() == 0) {
                r[k].time = static_cast<std::uint64_t>(r[k].time) % 4;
                r[k].src = r[k].src % 3;
            }
        })
        if (ordered) {
            hvc::assume_forall2(0, n, [&](std::uint64_t i, std::uint64_t j) -> bool { return !(i < j) || !before(j, i); });
        }
        avail = static_cast<std::int32_t>(hvc::size("released", LIM, 6));
        E.mAvailableMessages.store(avail);
#ifdef HVC_MODEL_STD
        m = static_cast<Message*>(hvc_array("object", sizeof(Message), total, total));
        hvc::assume_forall(0, total, [&](std::uint64_t k) -> bool {
            return tick(m[k].time) == r[k].time && m[k].original_source.tok == r[k].src && m[k].messageID == static_cast<std::int32_t>(k);
        });
        std::hvcm::arena<Message> = m;
        auto& v = queue();
        q = static_cast<std::uint64_t*>(hvc_array("place", 8, n, n));
        hvc::assume_forall(0, n, [&](std::uint64_t k) -> bool { return q[k] == k + 1; });
        v.e = v.b + n;
        __builtin_memcpy(static_cast<void*>(v.b), q, n * 8);
#else
        for (std::uint64_t k = 0; k < total; ++k) {
            auto p = std::make_unique<Message>();
            p->time = timeOf(r[k].time);
            p->original_source = hvc::str(r[k].src);
            p->messageID = static_cast<std::int32_t>(k);
            if (k < n) {
                queue().push_back(std::move(p));
            } else {
                fresh = std::move(p);
            }
        }
#endif
    }
    std::deque<std::unique_ptr<Message>>& queue() { return *E.message_queue.lock().operator->(); }
    /// the order of delivery
    bool before(std::uint64_t i, std::uint64_t j) const
    {
        if (r[i].time != r[j].time) {
            return r[i].time < r[j].time;
        }
        return hvc::str(r[i].src) < hvc::str(r[j].src);
    }
    /// which message is i-th in the queue
    std::uint64_t who(std::uint64_t i)
    {
        HVC_MODEL(return queue()[i].place - 1;)
        HVC_NATIVE(return queue()[i]->messageID;)
    }
    std::uint64_t which(const std::unique_ptr<Message>& p)
    {
        HVC_MODEL(return p.place - 1;)
        HVC_NATIVE(return p->messageID;)
    }
    std::uint64_t now() { return queue().size(); }
    void sameQueue(const char* id)
    {
        hvc::check(now() == n, id);
        hvc::forall(0, n, [&](std::uint64_t k) -> bool { return who(k) == k; }, id);
    }
    void sameMessages()
    {
        HVC_MODEL(hvc::forall(0, total, [&](std::uint64_t k) -> bool {
            return tick(m[k].time) == r[k].time && m[k].original_source.tok == r[k].src && m[k].messageID == static_cast<std::int32_t>(k);
        }, "messages are not altered in the queue");)
    }
    /// c is the number of queued messages whose time is within the bound
    void counts(std::int64_t c, std::int64_t bound, bool inclusive, const char* id)
    {
        hvc::check(c >= 0 && static_cast<std::uint64_t>(c) <= n, id);
        hvc::forall(0, n, [&](std::uint64_t k) -> bool {
            const auto x = r[who(k)].time;
            const bool in = inclusive ? x <= bound : x < bound;
            return in == (k < static_cast<std::uint64_t>(c));
        }, id);
    }
};

void releases(int op)
{
    Fx f;
    auto t = someTick("t");
    const bool changed = op == 0 ? f.E.updateTimeUpTo(timeOf(t)) : op == 1 ? f.E.updateTimeNextIteration(timeOf(t)) : f.E.updateTimeInclusive(timeOf(t));
    const auto a = f.E.availableMessages();
    f.counts(a, t, op != 0, "a time update releases exactly the messages up to the new time");
    hvc::check(changed == (a != f.avail), "a time update reports whether the released count changed");
    f.sameQueue("a time update does not change the queue");
    if (a > 0) {
        hvc_cover("messages released");
    }
}
}  // namespace

HARNESS(up_to)
{
    releases(0);
}
HARNESS(next_iteration)
{
    releases(1);
}
HARNESS(inclusive)
{
    releases(2);
}
HARNESS(get)
{
    Fx f;
    auto t = someTick("t");
    auto p = f.E.getMessage(timeOf(t));
    const bool due = f.avail > 0 && f.n > 0 && f.r[0].time <= t;
    hvc::check(static_cast<bool>(p) == due, "the first message is handed out when one is released and it is not after the time asked for");
    if (!p) {
        f.sameQueue("nothing is taken out when nothing is handed out");
        hvc::check(f.E.availableMessages() == f.avail, "nothing is counted when nothing is handed out");
    } else {
        hvc_cover("message handed out");
        hvc::check(f.which(p) == 0, "the first message of the queue is handed out");
        hvc::check(tick(p->time) == f.r[0].time && p->original_source == hvc::str(f.r[0].src), "the message handed out is the one that was queued");
        hvc::check(f.now() + 1 == f.n, "exactly one message is taken out");
        hvc::forall(1, f.n, [&](std::uint64_t k) -> bool { return f.who(k - 1) == k; }, "the other messages stay in order");
        hvc::check(f.E.availableMessages() == f.avail - 1, "handing out a message uses up one release");
    }
    f.sameMessages();
}
HARNESS(first_time)
{
    Fx f;
    auto t = f.E.firstMessageTime();
    hvc::check(tick(t) == (f.n == 0 ? tick(Time::maxVal()) : f.r[0].time), "the first message time is that of the earliest message, or the maximum");
    f.sameQueue("asking for the first time does not change the queue");
    hvc::check(f.E.availableMessages() == f.avail, "asking for the first time releases nothing");
}
HARNESS(counts)
{
    Fx f;
    auto t = someTick("t");
    f.counts(f.E.queueSize(timeOf(t)), t, true, "queueSize counts the messages up to and including the bound");
    f.counts(f.E.queueSizeUpTo(timeOf(t)), t, false, "queueSizeUpTo counts the messages before the bound");
    f.sameQueue("counting does not change the queue");
    hvc::check(f.E.availableMessages() == f.avail, "counting releases nothing");
}
HARNESS(clear)
{
    Fx f(false);
    f.E.clearQueue();
    hvc::check(f.now() == 0 && f.E.availableMessages() == 0, "clearing removes every message and release");
}
HARNESS(add)
{
    Fx f(true, 1);
#ifdef HVC_MODEL_STD
    std::unique_ptr<Message> p;
    p.place = f.n + 1;
    f.E.addMessage(std::move(p));
#else
    f.E.addMessage(std::move(f.fresh));
#endif
    hvc_cover("message added");
    // where the k-th earlier message (k == n: the new one) is now
    auto to = [&](std::uint64_t k) -> std::uint64_t {
        HVC_MODEL(return std::hvcm::sort_to(1, k);)
        HVC_NATIVE(return hvc::first(0, f.now(), [&](std::uint64_t i) -> bool { return f.who(i) == k; });)
    };
    HVC_MODEL(if (std::hvcm::sorts != 1) { hvc_unsupported("an addition that is not one sort"); })
    hvc::check(f.now() == f.n + 1, "adding a message queues exactly one more");
    hvc::forall(0, f.n + 1, [&](std::uint64_t k) -> bool { return to(k) <= f.n && f.who(to(k)) == k; }, "every message is queued once");
    hvc::forall2(0, f.n + 1, [&](std::uint64_t i, std::uint64_t j) -> bool { return !(i < j) || !f.before(f.who(j), f.who(i)); },
                 "the queue is in order of time, then of original source");
    hvc::forall2(0, f.n + 1, [&](std::uint64_t i, std::uint64_t j) -> bool { return !(i < j) || f.before(j, i) || to(i) < to(j); },
                 "messages of equal time and source stay in order of arrival");
    hvc::check(f.E.availableMessages() == f.avail, "an arriving message is not released before the next time update");
    f.sameMessages();
}
