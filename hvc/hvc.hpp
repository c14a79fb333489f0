// Contract language shared by the symbolic executor and the native (replay / search) build.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>

extern "C" {
// --- primitive operations; in the symbolic build these are interpreted by /verif/hvc/engine,
//     in the native build they are implemented by native.cpp
std::uint64_t hvc_any(const char* name, int bits);
void hvc_assume(bool c);
void hvc_assert(bool c, const char* id);
void hvc_cover(const char* id);
void hvc_note(const char* text);
bool hvc_symbolic();
void hvc_forall_impl(std::uint64_t lo, std::uint64_t hi, bool (*fn)(void*, std::uint64_t), void* ctx, const char* id);
void hvc_forall2_impl(std::uint64_t lo, std::uint64_t hi, bool (*fn)(void*, std::uint64_t, std::uint64_t), void* ctx, const char* id);
void hvc_assume_forall_impl(std::uint64_t lo, std::uint64_t hi, bool (*fn)(void*, std::uint64_t), void* ctx);
void hvc_assume_forall2_impl(std::uint64_t lo, std::uint64_t hi, bool (*fn)(void*, std::uint64_t, std::uint64_t), void* ctx);
std::uint64_t hvc_first_impl(std::uint64_t lo, std::uint64_t hi, bool (*fn)(void*, std::uint64_t), void* ctx);
void* hvc_array(const char* name, std::uint64_t stride, std::uint64_t n, std::uint64_t cap);
void* hvc_lend(const char* name, std::uint64_t stride, std::uint64_t n, std::uint64_t cap);
void* hvc_ghost(std::uint64_t n);
void hvc_havoc(void* p, std::uint64_t n, const char* name);
int hvc_live(const void* p);
int hvc_same_object(const void* p, const void* q);
int hvc_heap_live_except(const void* p, const void* q);
std::uint64_t hvc_room(const void* p);
int hvc_concrete(std::uint64_t v);
int hvc_replaying();
std::uint64_t hvc_uf(const char* name, std::uint64_t a, std::uint64_t b);
void hvc_infeasible();
}

namespace hvc {
template<class T>
inline T any(const char* name)
{
    if constexpr (std::is_same_v<T, bool>) {
        return (hvc_any(name, 1) & 1U) != 0;
    } else if constexpr (std::is_enum_v<T>) {
        return static_cast<T>(hvc_any(name, sizeof(T) * 8));
    } else {
        static_assert(std::is_integral_v<T>);
        return static_cast<T>(hvc_any(name, sizeof(T) * 8));
    }
}
/// an arbitrary value in [0,n)
inline std::uint64_t pick(const char* name, std::uint64_t n)
{
    auto v = hvc_any(name, 64);
    if (!hvc_symbolic()) {
        v %= n;
    }
    hvc_assume(v < n);
    return v;
}
/// an arbitrary value in [0,n] that stays small in the native search
inline std::uint64_t size(const char* name, std::uint64_t n, std::uint64_t nativeMax = 200)
{
    auto v = hvc_any(name, 64);
    if (!hvc_symbolic()) {
        v %= (nativeMax < n ? nativeMax : n) + 1;
    }
    hvc_assume(v <= n);
    return v;
}
inline void assume(bool c)
{
    hvc_assume(c);
}
inline void check(bool c, const char* id)
{
    hvc_assert(c, id);
}
/// ghost copy of n bytes
inline const unsigned char* snapshot(const void* p, std::uint64_t n)
{
    auto* g = static_cast<unsigned char*>(hvc_ghost(n));
    __builtin_memcpy(g, p, n);
    return g;
}
template<class F>
inline void forall(std::uint64_t lo, std::uint64_t hi, F&& f, const char* id)
{
    using D = std::remove_reference_t<F>;
    hvc_forall_impl(lo, hi, [](void* c, std::uint64_t k) -> bool { return (*static_cast<D*>(c))(k); }, (void*)&f, id);
}
template<class F>
inline void forall2(std::uint64_t lo, std::uint64_t hi, F&& f, const char* id)
{
    using D = std::remove_reference_t<F>;
    hvc_forall2_impl(
        lo, hi, [](void* c, std::uint64_t k, std::uint64_t j) -> bool { return (*static_cast<D*>(c))(k, j); }, (void*)&f, id);
}
template<class F>
inline void assume_forall(std::uint64_t lo, std::uint64_t hi, F&& f)
{
    using D = std::remove_reference_t<F>;
    hvc_assume_forall_impl(lo, hi, [](void* c, std::uint64_t k) -> bool { return (*static_cast<D*>(c))(k); }, (void*)&f);
}
template<class F>
inline void assume_forall2(std::uint64_t lo, std::uint64_t hi, F&& f)
{
    using D = std::remove_reference_t<F>;
    hvc_assume_forall2_impl(
        lo, hi, [](void* c, std::uint64_t k, std::uint64_t j) -> bool { return (*static_cast<D*>(c))(k, j); }, (void*)&f);
}
template<class F>
inline std::uint64_t first(std::uint64_t lo, std::uint64_t hi, F&& f)
{
    using D = std::remove_reference_t<F>;
    return hvc_first_impl(lo, hi, [](void* c, std::uint64_t k) -> bool { return (*static_cast<D*>(c))(k); }, (void*)&f);
}
}  // namespace hvc
#define HARNESS(name) extern "C" void h_##name()
/// a root that only the native bounded search executes
#ifdef HVC_SYMBOLIC
#define BOUNDED(name) static void __attribute__((unused)) hb_##name()
#else
#define BOUNDED(name) extern "C" void h_##name()
#endif
