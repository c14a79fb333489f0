// Contracts for helics::SmallBuffer (property B01).
#include "hvc.hpp"

#include "helics/core/SmallBuffer.hpp"

#include <memory>
#include <new>
using helics::SmallBuffer;
using uchar = unsigned char;

namespace {
constexpr std::uint64_t LIM = 1ULL << 41;

inline uchar at(const SmallBuffer& b, std::uint64_t k)
{
    return static_cast<uchar>(b.heap[k]);
}

/// put b (default constructed) into an arbitrary well-formed state
void build(SmallBuffer& b, const char* kindName, const char* sizeName, const char* capName, const char* data, bool allowLocked = true)
{
    auto kind = hvc::pick(kindName, 3);
    auto n = hvc::size(sizeName, LIM);
    if (kind == 0) {
        hvc::assume(n <= 64);
        b.bufferSize = n;
        hvc_havoc(b.buffer.data(), 64, data);
        b.nonOwning = hvc::any<bool>("staleNonOwning");
    } else {
        auto cap = hvc::size(capName, LIM);
        hvc::assume(n <= cap);
        void* p = (kind == 1) ? hvc_array(data, 1, cap, cap) : hvc_lend(data, 1, cap, cap);
        b.heap = static_cast<std::byte*>(p);
        b.bufferCapacity = cap;
        b.bufferSize = n;
        b.usingAllocatedBuffer = true;
        b.nonOwning = (kind == 2);
    }
    b.locked = allowLocked ? hvc::any<bool>("locked") : false;
}

/// representation invariant; hvc_heap_live_except counts heap objects nothing refers to
void wellFormed(const SmallBuffer& b, const SmallBuffer* other = nullptr)
{
    if (b.usingAllocatedBuffer) {
        hvc::check(hvc_live(b.heap) != 0, "storage is live");
        hvc::check(hvc_room(b.heap) >= b.bufferCapacity, "capacity does not exceed the storage");
    } else {
        hvc::check(b.heap == b.buffer.data(), "inline buffer points at itself");
        hvc::check(b.bufferCapacity <= 64, "inline capacity");
    }
    hvc::check(b.size() <= b.capacity(), "size within capacity");
    const void* o1 = (b.usingAllocatedBuffer && !b.nonOwning) ? b.heap : nullptr;
    const void* o2 = (other != nullptr && other->usingAllocatedBuffer && !other->nonOwning) ? other->heap : nullptr;
    hvc::check(hvc_heap_live_except(o1, o2) == 0, "no owned storage is left unreachable");
    hvc::check(o1 == nullptr || o1 != o2, "storage has one owner");
}

struct Snap {
    std::uint64_t n, cap;
    const std::byte* heap;
    const uchar* bytes;
    bool locked, owned, lent;
};
Snap snap(const SmallBuffer& b)
{
    return {b.bufferSize, b.bufferCapacity, b.heap, hvc::snapshot(b.heap, b.bufferSize), b.locked,
            b.usingAllocatedBuffer && !b.nonOwning, b.usingAllocatedBuffer && b.nonOwning};
}

void holds(const SmallBuffer& b, const uchar* bytes, std::uint64_t n, const char* id)
{
    hvc::check(b.size() == n, "reported size");
    hvc::check(b.empty() == (n == 0), "empty() agrees with size");
    hvc::check(b.data() == b.heap && b.begin() == b.heap && b.end() == b.heap + n, "data, begin and end agree");
    auto v = b.to_string();
    hvc::check(v.size() == n && v.data() == reinterpret_cast<const char*>(b.heap), "to_string view");
    hvc::check(b.char_data() == reinterpret_cast<const char*>(b.heap), "char_data");
    hvc::forall(0, n, [&](std::uint64_t k) { return at(b, k) == bytes[k]; }, id);
}
/// a failed operation changed nothing
void unchanged(const SmallBuffer& b, const Snap& s)
{
    hvc::check(b.heap == s.heap, "failed operation keeps the storage");
    hvc::check(b.capacity() == s.cap, "failed operation keeps the capacity");
    holds(b, s.bytes, s.n, "failed operation keeps the bytes");
}
/// a locked buffer keeps its storage
void lockKept(const SmallBuffer& b, const Snap& s)
{
    if (s.locked) {
        hvc::check(b.heap == s.heap && b.capacity() == s.cap, "locked buffer keeps its storage and capacity");
        hvc::check(b.isLocked(), "lock is kept");
    }
}
void failOk(const Snap& s, std::uint64_t wanted)
{
    hvc::check(wanted > s.cap, "failure only when the request exceeds the capacity");
    hvc::check(s.locked || wanted > (1ULL << 32), "failure only when locked or unreasonably large");
}
#define STATE \
    SmallBuffer b; \
    build(b, "kind", "#n", "#cap", "old"); \
    auto s = snap(b); \
    bool threw = false

std::uint64_t anySize()
{
    // full range for the proof; small for the search
    auto m = hvc_any("#m", 64);
    if (!hvc_symbolic() && hvc_any("huge", 1) == 0) {
        m %= 200;
    }
    return m;
}
const uchar* anyBytes(std::uint64_t m)
{
    hvc::assume(m <= LIM);
    return static_cast<const uchar*>(hvc_lend("src", 1, m, m));
}
}  // namespace

HARNESS(default_ctor)
{
    SmallBuffer b;
    wellFormed(b);
    hvc::check(b.size() == 0 && b.empty() && !b.isLocked() && b.errorState() == 0, "default buffer is empty");
    hvc_cover("default_ctor");
}
HARNESS(resize)
{
    STATE;
    auto m = anySize();
    try {
        b.resize(m);
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    if (threw) {
        failOk(s, m);
        unchanged(b, s);
        hvc_cover("resize fails");
    } else {
        hvc::check(b.size() == m, "size after resize");
        auto keep = m < s.n ? m : s.n;
        hvc::forall(0, keep, [&](std::uint64_t k) { return at(b, k) == s.bytes[k]; }, "resize keeps the bytes already held");
        hvc_cover("resize succeeds");
    }
    lockKept(b, s);
    wellFormed(b);
}
HARNESS(resize_fill)
{
    STATE;
    auto m = anySize();
    auto v = hvc::any<uchar>("fill");
    try {
        b.resize(m, std::byte{v});
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    if (threw) {
        failOk(s, m);
        unchanged(b, s);
    } else {
        hvc::check(b.size() == m, "size after resize");
        hvc::forall(0, m, [&](std::uint64_t k) { return at(b, k) == (k < s.n ? s.bytes[k] : v); }, "resize with fill");
    }
    lockKept(b, s);
    wellFormed(b);
    hvc_cover("resize_fill");
}
HARNESS(reserve)
{
    STATE;
    auto m = anySize();
    try {
        b.reserve(m);
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    if (threw) {
        failOk(s, m);
        unchanged(b, s);
    } else {
        hvc::check(b.capacity() >= m, "reserved capacity");
        holds(b, s.bytes, s.n, "reserve keeps the bytes");
    }
    lockKept(b, s);
    wellFormed(b);
    hvc_cover("reserve");
}
HARNESS(clear)
{
    STATE;
    b.clear();
    (void)threw;
    hvc::check(b.size() == 0 && b.empty(), "clear empties");
    lockKept(b, s);
    wellFormed(b);
}
HARNESS(pop_back)
{
    STATE;
    (void)threw;
    b.pop_back();
    holds(b, s.bytes, s.n > 0 ? s.n - 1 : 0, "pop_back drops the last byte");
    lockKept(b, s);
    wellFormed(b);
}
HARNESS(push_back)
{
    STATE;
    auto c = hvc::any<char>("c");
    try {
        b.push_back(c);
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    if (threw) {
        failOk(s, s.n + 1);
        unchanged(b, s);
    } else {
        hvc::check(b.size() == s.n + 1, "push_back grows by one");
        hvc::forall(0, s.n + 1, [&](std::uint64_t k) { return at(b, k) == (k < s.n ? s.bytes[k] : static_cast<uchar>(c)); }, "push_back");
    }
    lockKept(b, s);
    wellFormed(b);
}
HARNESS(null_terminate)
{
    STATE;
    try {
        b.null_terminate();
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    if (threw) {
        failOk(s, s.n + 1);
        unchanged(b, s);
    } else {
        holds(b, s.bytes, s.n, "null_terminate keeps the bytes");
        hvc::check(b.capacity() > s.n && at(b, s.n) == 0, "a zero follows the bytes");
    }
    lockKept(b, s);
    wellFormed(b);
}
HARNESS(element_access)
{
    STATE;
    auto i = hvc::any<std::uint64_t>("#i");
    const SmallBuffer& cb = b;
    uchar got = 0;
    try {
        got = static_cast<uchar>(cb.at(i));
    }
    catch (const std::out_of_range&) {
        threw = true;
    }
    hvc::check(threw == (i >= s.n), "at() throws exactly out of range");
    if (!threw) {
        hvc::check(got == s.bytes[i], "at() reads the byte");
        hvc::check(static_cast<uchar>(cb[i]) == s.bytes[i] && static_cast<uchar>(b[i]) == s.bytes[i], "operator[] reads the byte");
        auto v = hvc::any<uchar>("v");
        if (hvc::any<bool>("viaAt")) {
            b.at(i) = std::byte{v};
        } else {
            b[i] = std::byte{v};
        }
        hvc::check(b.size() == s.n, "element write keeps the size");
        hvc::forall(0, s.n, [&](std::uint64_t k) { return at(b, k) == (k == i ? v : s.bytes[k]); }, "element write changes one byte");
        hvc_cover("element");
    } else {
        bool threw2 = false;
        try {
            b.at(i) = std::byte{1};
        }
        catch (const std::out_of_range&) {
            threw2 = true;
        }
        hvc::check(threw2, "mutable at() throws out of range");
        unchanged(b, s);
    }
    wellFormed(b);
}
HARNESS(assign_size)
{
    STATE;
    auto m = anySize();
    const uchar* src = anyBytes(m);
    try {
        b.assign(static_cast<const void*>(src), static_cast<std::size_t>(m));
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    if (threw) {
        failOk(s, m);
        unchanged(b, s);
    } else {
        holds(b, src, m, "assign(start,size)");
    }
    lockKept(b, s);
    wellFormed(b);
}
HARNESS(assign_range)
{
    STATE;
    auto m = anySize();
    const uchar* src = anyBytes(m);
    try {
        b.assign(static_cast<const void*>(src), static_cast<const void*>(src + m));
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    if (threw) {
        failOk(s, m);
        unchanged(b, s);
    } else {
        holds(b, src, m, "assign(start,end)");
    }
    lockKept(b, s);
    wellFormed(b);
}
HARNESS(reversed_range)
{
    STATE;
    auto m = anySize();
    const uchar* src = anyBytes(m);
    auto lo = hvc::size("#lo", LIM);
    auto hi = hvc::size("#hi", LIM);
    hvc::assume(lo < hi && hi <= m);
    bool bad = false;
    try {
        if (hvc::any<bool>("append")) {
            b.append(static_cast<const void*>(src + hi), static_cast<const void*>(src + lo));
        } else {
            b.assign(static_cast<const void*>(src + hi), static_cast<const void*>(src + lo));
        }
    }
    catch (const std::invalid_argument&) {
        bad = true;
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    hvc::check(bad && !threw, "a reversed range is refused");
    unchanged(b, s);
    wellFormed(b);
}
namespace {
template<class F>
void appendCheck(F&& op)
{
    STATE;
    auto m = anySize();
    const uchar* src = anyBytes(m);
    try {
        op(b, src, m);
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    if (threw) {
        failOk(s, s.n + m);
        unchanged(b, s);
        hvc_cover("append fails");
    } else {
        hvc::check(b.size() == s.n + m, "append adds the length");
        hvc::forall(0, s.n + m, [&](std::uint64_t k) { return at(b, k) == (k < s.n ? s.bytes[k] : src[k - s.n]); }, "append keeps old bytes and adds new ones");
        hvc_cover("append succeeds");
    }
    lockKept(b, s);
    wellFormed(b);
}
template<class F>
void assignCheck(F&& op)
{
    STATE;
    auto m = anySize();
    const uchar* src = anyBytes(m);
    try {
        op(b, src, m);
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    if (threw) {
        failOk(s, m);
        unchanged(b, s);
        hvc_cover("assignment fails");
    } else {
        holds(b, src, m, "assignment");
        hvc_cover("assignment succeeds");
    }
    lockKept(b, s);
    wellFormed(b);
}
}  // namespace
HARNESS(append_size)
{
    appendCheck([](SmallBuffer& b, const uchar* p, std::uint64_t m) { b.append(static_cast<const void*>(p), static_cast<std::size_t>(m)); });
}
HARNESS(append_range)
{
    appendCheck([](SmallBuffer& b, const uchar* p, std::uint64_t m) { b.append(static_cast<const void*>(p), static_cast<const void*>(p + m)); });
}
HARNESS(append_view)
{
    appendCheck([](SmallBuffer& b, const uchar* p, std::uint64_t m) { b.append(std::string_view(reinterpret_cast<const char*>(p), m)); });
}
HARNESS(assign_view)
{
    assignCheck([](SmallBuffer& b, const uchar* p, std::uint64_t m) { b = std::string_view(reinterpret_cast<const char*>(p), m); });
}
HARNESS(ctor_bytes)
{
    auto m = anySize();
    const uchar* src = anyBytes(m);
    bool threw = false;
    try {
        SmallBuffer b(static_cast<const void*>(src), static_cast<std::size_t>(m));
        holds(b, src, m, "constructed from bytes");
        wellFormed(b);
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    hvc::check(!threw || m > (1ULL << 32), "construction fails only when unreasonably large");
}
HARNESS(ctor_view)
{
    auto m = anySize();
    const uchar* src = anyBytes(m);
    bool threw = false;
    try {
        SmallBuffer b(std::string_view(reinterpret_cast<const char*>(src), m));
        holds(b, src, m, "constructed from a view");
        wellFormed(b);
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    hvc::check(!threw || m > (1ULL << 32), "construction fails only when unreasonably large");
}
HARNESS(ctor_size)
{
    auto m = anySize();
    auto v = hvc::any<uchar>("fill");
    auto which = hvc::pick("which", 3);
    bool threw = false;
    try {
        if (which == 0) {
            SmallBuffer b(static_cast<std::size_t>(m));
            hvc::check(b.size() == m, "constructed with a size");
            wellFormed(b);
        } else if (which == 1) {
            SmallBuffer b(static_cast<std::size_t>(m), std::byte{v});
            hvc::check(b.size() == m, "constructed with a size");
            hvc::forall(0, m, [&](std::uint64_t k) { return at(b, k) == v; }, "constructed filled");
            wellFormed(b);
        } else {
            SmallBuffer b(static_cast<std::size_t>(m), v);
            hvc::check(b.size() == m, "constructed with a size");
            hvc::forall(0, m, [&](std::uint64_t k) { return at(b, k) == v; }, "constructed filled");
            wellFormed(b);
        }
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    hvc::check(!threw || m > (1ULL << 32), "construction fails only when unreasonably large");
}
HARNESS(copy_ctor)
{
    SmallBuffer b;
    build(b, "kind", "#n", "#cap", "old");
    auto s = snap(b);
    bool threw = false;
    try {
        SmallBuffer c(b);
        holds(c, s.bytes, s.n, "copy holds the same bytes");
        wellFormed(c, &b);
        hvc::check(c.heap != b.heap, "copy has its own storage");
        unchanged(b, s);
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    hvc::check(!threw || s.n > (1ULL << 32), "copy fails only when unreasonably large");
    unchanged(b, s);
    wellFormed(b);
    hvc_cover("copy_ctor");
}
HARNESS(copy_assign)
{
    STATE;
    SmallBuffer c;
    build(c, "kind2", "#n2", "#cap2", "old2");
    auto s2 = snap(c);
    try {
        b = c;
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    if (threw) {
        failOk(s, s2.n);
        unchanged(b, s);
    } else {
        holds(b, s2.bytes, s2.n, "copy assignment");
    }
    unchanged(c, s2);
    lockKept(b, s);
    wellFormed(b, &c);
    hvc_cover("copy_assign");
}
HARNESS(self_assign)
{
    STATE;
    SmallBuffer& alias = b;
    if (hvc::any<bool>("move")) {
        // a locked buffer uses copy assignment, an unlocked one recognises its own storage
        if (b.usingAllocatedBuffer || b.locked) {
            b = static_cast<SmallBuffer&&>(alias);
        }
    } else {
        b = alias;
    }
    (void)threw;
    unchanged(b, s);
    wellFormed(b);
}
HARNESS(move_ctor)
{
    SmallBuffer b;
    build(b, "kind", "#n", "#cap", "old");
    auto s = snap(b);
    {
        SmallBuffer c(static_cast<SmallBuffer&&>(b));
        holds(c, s.bytes, s.n, "moved-to buffer holds the bytes");
        wellFormed(c, &b);
        hvc::check(b.size() == 0, "moved-from buffer is empty");
        wellFormed(b, &c);
        if (s.owned || s.lent) {
            hvc::check(c.heap == s.heap, "moving transfers the storage");
        }
        hvc_cover("move_ctor");
    }
}
HARNESS(move_assign)
{
    STATE;
    SmallBuffer c;
    build(c, "kind2", "#n2", "#cap2", "old2");
    auto s2 = snap(c);
    b = static_cast<SmallBuffer&&>(c);
    (void)threw;
    if (s.locked) {
        if (b.errorState() != 0) {
            failOk(s, s2.n);
            unchanged(b, s);
        } else {
            holds(b, s2.bytes, s2.n, "move into a locked buffer copies");
        }
        unchanged(c, s2);
        lockKept(b, s);
    } else {
        holds(b, s2.bytes, s2.n, "move assignment");
        hvc::check(c.size() == 0, "moved-from buffer is empty");
    }
    wellFormed(b, &c);
    wellFormed(c, &b);
    hvc_cover("move_assign");
}
HARNESS(swap)
{
    STATE;
    (void)threw;
    SmallBuffer c;
    build(c, "kind2", "#n2", "#cap2", "old2");
    auto s2 = snap(c);
    b.swap(c);
    holds(b, s2.bytes, s2.n, "swap gives the other's bytes");
    holds(c, s.bytes, s.n, "swap gives its bytes away");
    wellFormed(b, &c);
    wellFormed(c, &b);
    hvc_cover("swap");
}
HARNESS(release)
{
    STATE;
    (void)threw;
    auto* p = b.release();
    if (s.owned || s.lent) {
        hvc::check(p == s.heap, "release returns the storage");
        hvc::check(hvc_live(p) != 0, "released storage stays valid");
        hvc::forall(0, s.n, [&](std::uint64_t k) { return static_cast<uchar>(p[k]) == s.bytes[k]; }, "released bytes");
        hvc::check(b.size() == 0 && !b.usingAllocatedBuffer && b.heap == b.buffer.data(), "release empties the buffer");
        if (s.owned) {
            delete[] p;
        }
    } else {
        hvc::check(p == nullptr, "nothing to release");
        unchanged(b, s);
    }
    wellFormed(b);
}
HARNESS(move_assign_raw)
{
    STATE;
    (void)threw;
    auto cap = hvc::size("#rcap", LIM);
    auto m = hvc::size("#rsize", LIM);
    hvc::assume(m <= cap);
    auto* p = static_cast<uchar*>(hvc_array("raw", 1, cap, cap));
    const uchar* g = hvc::snapshot(p, m);
    b.moveAssign(p, m, cap);
    holds(b, g, m, "moveAssign adopts the bytes");
    hvc::check(b.capacity() == cap && b.heap == reinterpret_cast<std::byte*>(p), "moveAssign adopts the storage");
    hvc::check(!b.isLocked(), "moveAssign unlocks");
    if (!b.nonOwning) {
        wellFormed(b);
    } else {
        hvc::check(false, "moveAssign takes ownership");
    }
}
HARNESS(move_assign_raw_same)
{
    STATE;
    (void)threw;
    hvc::assume(s.owned);
    auto m = hvc::size("#rsize", LIM);
    auto c = hvc::size("#rcap", LIM);
    hvc::assume(c <= s.cap && m <= c);
    const uchar* g = hvc::snapshot(b.heap, m);
    b.moveAssign(b.heap, m, c);
    holds(b, g, m, "moveAssign of its own storage");
    hvc::check(b.capacity() == c && b.heap == s.heap, "moveAssign of its own storage adopts the capacity given");
    wellFormed(b);
}
HARNESS(span_assign)
{
    STATE;
    (void)threw;
    auto cap = hvc::size("#rcap", LIM);
    auto m = hvc::size("#rsize", LIM);
    hvc::assume(m <= cap);
    auto* p = static_cast<uchar*>(hvc_lend("raw", 1, cap, cap));
    const uchar* g = hvc::snapshot(p, m);
    b.spanAssign(p, m, cap);
    holds(b, g, m, "spanAssign shows the bytes");
    hvc::check(b.capacity() == cap && b.heap == reinterpret_cast<std::byte*>(p), "spanAssign uses the lent storage");
    wellFormed(b);
}
HARNESS(span_assign_same)
{
    STATE;
    (void)threw;
    hvc::assume(s.owned || s.lent);
    auto m = hvc::size("#rsize", LIM);
    auto c = hvc::size("#rcap", LIM);
    hvc::assume(c <= s.cap && m <= c);
    const uchar* g = hvc::snapshot(b.heap, m);
    b.spanAssign(b.heap, m, c);
    holds(b, g, m, "spanAssign of its own storage");
    hvc::check(b.capacity() == c && b.heap == s.heap, "spanAssign of its own storage adopts the capacity given");
    wellFormed(b);
}
HARNESS(lock_query)
{
    STATE;
    (void)threw;
    auto l = hvc::any<bool>("l");
    b.lock(l);
    hvc::check(b.isLocked() == l, "lock state is what was set");
    holds(b, s.bytes, s.n, "lock keeps the bytes");
    hvc::check(b.heap == s.heap && b.capacity() == s.cap, "lock keeps the storage");
    wellFormed(b);
}
HARNESS(locked_then_unlocked_grows)
{
    STATE;
    hvc::assume(s.locked);
    auto m = anySize();
    hvc::assume(m > s.cap && m <= (1ULL << 32));
    try {
        b.reserve(m);
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    hvc::check(threw, "a locked buffer reports failure instead of growing");
    unchanged(b, s);
    b.lock(false);
    b.reserve(m);
    holds(b, s.bytes, s.n, "unlocked buffer grows and keeps its bytes");
    wellFormed(b);
}
HARNESS(destroy)
{
    STATE;
    (void)threw;
    bool lent = s.lent;
    b.~SmallBuffer();
    hvc::check(hvc_heap_live_except(nullptr, nullptr) == 0, "destruction frees owned storage");
    if (lent) {
        hvc::check(hvc_live(s.heap) != 0, "destruction keeps lent storage");
    }
    new (&b) SmallBuffer();
}
// --- arguments that alias the buffer's own storage
HARNESS(append_own)
{
    STATE;
    auto i = hvc::size("#i", LIM);
    auto m = hvc::size("#len", LIM);
    hvc::assume(i <= s.n && m <= s.n - i);
    auto which = hvc::pick("which", 3);
    const std::byte* p = b.heap + i;
    try {
        if (which == 0) {
            b.append(static_cast<const void*>(p), static_cast<std::size_t>(m));
        } else if (which == 1) {
            b.append(static_cast<const void*>(p), static_cast<const void*>(p + m));
        } else {
            b.append(std::string_view(reinterpret_cast<const char*>(p), m));
        }
    }
    catch (const std::bad_alloc&) {
        threw = true;
    }
    if (threw) {
        unchanged(b, s);
    } else {
        hvc::check(b.size() == s.n + m, "append adds the length");
        hvc::forall(0, s.n + m, [&](std::uint64_t k) { return at(b, k) == (k < s.n ? s.bytes[k] : s.bytes[i + (k - s.n)]); }, "append of own bytes");
    }
    lockKept(b, s);
    wellFormed(b);
}
HARNESS(assign_own)
{
    STATE;
    (void)threw;
    auto i = hvc::size("#i", LIM);
    auto m = hvc::size("#len", LIM);
    hvc::assume(i <= s.n && m <= s.n - i);
    auto which = hvc::pick("which", 3);
    const std::byte* p = b.heap + i;
    if (which == 0) {
        b.assign(static_cast<const void*>(p), static_cast<std::size_t>(m));
    } else if (which == 1) {
        b.assign(static_cast<const void*>(p), static_cast<const void*>(p + m));
    } else {
        b = std::string_view(reinterpret_cast<const char*>(p), m);
    }
    hvc::check(b.size() == m, "assigned length");
    hvc::forall(0, m, [&](std::uint64_t k) { return at(b, k) == s.bytes[i + k]; }, "assignment of own bytes");
    wellFormed(b);
}

HARNESS(equality)
{
    SmallBuffer b;
    build(b, "kind", "#n", "#cap", "old");
    auto s = snap(b);
    SmallBuffer c;
    build(c, "kind2", "#n2", "#cap2", "old2");
    auto s2 = snap(c);
    bool eq = (b == c);
    bool ne = (b != c);
    hvc::check(eq != ne, "== and != disagree");
    if (eq) {
        hvc::check(s.n == s2.n, "equal buffers have equal sizes");
        hvc::forall(0, s.n, [&](std::uint64_t k) { return s.bytes[k] == s2.bytes[k]; }, "equal buffers hold equal bytes");
        hvc_cover("equal");
    } else {
        if (s.n == s2.n) {
            auto d = hvc::first(0, s.n, [&](std::uint64_t k) { return s.bytes[k] != s2.bytes[k]; });
            hvc::check(d < s.n, "unequal buffers of one size differ in some byte");
            hvc_cover("unequal");
        }
    }
    unchanged(b, s);
    unchanged(c, s2);
}
