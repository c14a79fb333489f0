// Helpers shared by contracts that run over the model standard library (symbolic) and the real one (native).
#pragma once
#include "hvc.hpp"

#include <cstdio>
#include <cstdlib>
#include <string>
#include <string_view>

#ifdef HVC_MODEL_STD
#define HVC_MODEL(...) __VA_ARGS__
#define HVC_NATIVE(...)
#else
#define HVC_MODEL(...)
#define HVC_NATIVE(...) __VA_ARGS__
#endif

namespace hvc {
#ifdef HVC_MODEL_STD
/// the string with value identity tok (0 is the empty string)
inline std::string str(std::uint64_t tok)
{
    std::string s;
    s.tok = tok;
    return s;
}
inline std::uint64_t tok(const std::string& s)
{
    return s.tok;
}
inline std::uint64_t tok(std::string_view s)
{
    return s.tok;
}
/// arbitrary string identity
inline std::uint64_t anyTok(const char* name, std::uint64_t /*nativeRange*/ = 5)
{
    return hvc_any(name, 64);
}
#else
inline std::string str(std::uint64_t tok)
{
    return tok == 0 ? std::string() : "s" + std::to_string(tok);
}
inline std::uint64_t tok(std::string_view s)
{
    return s.empty() ? 0 : s[0] == 's' ? std::strtoull(std::string(s).c_str() + 1, nullptr, 10) : ~0ULL;
}
inline std::uint64_t anyTok(const char* name, std::uint64_t nativeRange = 5)
{
    auto v = hvc_any(name, 64);
    return hvc_replaying() != 0 ? v : v % nativeRange;
}
#endif
/// native search only: keep v small; the identity in the symbolic build and in replays
template<class T>
inline T narrow(T v, T range)
{
    if (hvc_symbolic() || hvc_replaying() != 0) {
        return v;
    }
    return static_cast<T>(v % range);
}
}  // namespace hvc
