// Model of the standard library used by the symbolic build only (std=model units).
// It is a specification of the library, not of HELICS: strings are values with equality and a size, containers are
// unbounded arrays, algorithms are specified by the first element that satisfies a predicate.
// The native build of the same contract uses the real library.
#pragma once
// the library's own forward declarations of strings must not clash with the model
#define _STRINGFWD_H 1
#define _GLIBCXX_BITS_SPECFUN_H 1
namespace std {
template<class C>
struct char_traits;
template<class T>
class allocator;
}
#include "../hvc.hpp"

#include <compare>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <limits>
#include <new>
#include <tuple>
#include <type_traits>
#include <utility>
#include <exception>
#include <typeinfo>
#include <cassert>
#include <bits/move.h>
#include <bits/stl_iterator_base_types.h>
#include <bits/ranges_util.h>

extern "C" {
std::uint64_t hvc_uf(const char* name, std::uint64_t a, std::uint64_t b);
std::uint64_t hvc_strtok(const char* p);
void* hvc_unbounded(std::uint64_t stride);
void* hvc_zeros(std::uint64_t stride);
void hvc_limit(const void* p, const void* cell);
void hvc_release(const void* p);
void hvc_unsupported(const char* why);
std::uint64_t hvc_newid();
}

#define HVC_MODEL_STD 1

namespace std {
// ------------------------------------------------------------------------------------------ exceptions
class logic_error: public exception {
  public:
    logic_error() = default;
    template<class S>
    explicit logic_error(const S& /*s*/)
    {
    }
    const char* what() const noexcept override { return ""; }
};
class runtime_error: public exception {
  public:
    runtime_error() = default;
    template<class S>
    explicit runtime_error(const S& /*s*/)
    {
    }
    const char* what() const noexcept override { return ""; }
};
#define HVC_EXC(n, b)                                                                                                                     \
    class n: public b {                                                                                                                   \
      public:                                                                                                                             \
        using b::b;                                                                                                                       \
    }
HVC_EXC(invalid_argument, logic_error);
HVC_EXC(out_of_range, logic_error);
HVC_EXC(length_error, logic_error);
HVC_EXC(domain_error, logic_error);
HVC_EXC(range_error, runtime_error);
HVC_EXC(overflow_error, runtime_error);
class bad_function_call: public exception {};

// ---------------------------------------------------------------------------------------------- strings
/// value identity of a string constant
constexpr std::uint64_t hvc_tokc(const char* p)
{
    if (!std::is_constant_evaluated()) {
        return hvc_strtok(p);
    }
    if (*p == 0) {
        return 0;
    }
    std::uint64_t h = 0xcbf29ce484222325ULL;
    for (; *p != 0; ++p) {
        h = (h ^ static_cast<unsigned char>(*p)) * 0x100000001b3ULL;
    }
    return h;
}
/// optional ghost tag of a string (HVC_STRING_SRC): which recorded line its characters are, and whether a line end follows them
struct StrTag {
#ifdef HVC_STRING_SRC
    std::uint64_t src{0};
    bool ended{false};
    void tagOf(const StrTag& o) { *this = o; }
    void endIf(bool e)
    {
        if (e && src != 0 && !ended) {
            ended = true;
        } else {
            src = 0;
        }
    }
#else
    void tagOf(const StrTag&) {}
    void endIf(bool) {}
#endif
};
template<class C, class T = void>
class basic_string_view;
class string;

template<>
class basic_string_view<char, void>: public StrTag {
  public:
    std::uint64_t tok{0};
    using value_type = char;
    using size_type = size_t;
    static constexpr size_t npos = static_cast<size_t>(-1);
    constexpr basic_string_view() = default;
    constexpr basic_string_view(const char* p): tok(hvc_tokc(p)) {}
    basic_string_view(const char* p, size_t n): tok(hvc_uf("str_of_range", reinterpret_cast<std::uint64_t>(p), n)) {}
    basic_string_view(const string& s);
    bool empty() const { return tok == 0; }
    size_t size() const;
    size_t length() const { return size(); }
    const char* data() const
    {
        hvc_unsupported("characters of a model string");
        return nullptr;
    }
    char front() const { return static_cast<char>(hvc_uf("str_at", tok, 0)); }
    char back() const { return static_cast<char>(hvc_uf("str_at", tok, size() - 1)); }
    char operator[](size_t i) const { return static_cast<char>(hvc_uf("str_at", tok, i)); }
    basic_string_view substr(size_t a, size_t n = npos) const
    {
        basic_string_view r;
        r.tok = hvc_uf("str_sub", hvc_uf("str_subfrom", tok, a), n);
        return r;
    }
    size_t find(char c, size_t p = 0) const { return hvc_uf("str_findc", hvc_uf("str_from", tok, p), static_cast<unsigned char>(c)); }
    size_t find_first_of(char c, size_t p = 0) const { return find(c, p); }
    size_t find_last_of(char c) const { return hvc_uf("str_rfindc", tok, static_cast<unsigned char>(c)); }
    int compare(basic_string_view o) const { return tok == o.tok ? 0 : (hvc_uf("str_lt", tok, o.tok) & 1U) != 0U ? -1 : 1; }
};
using string_view = basic_string_view<char, void>;

class string: public StrTag {
  public:
    std::uint64_t tok{0};
    using value_type = char;
    using size_type = size_t;
    using iterator = char*;
    using const_iterator = const char*;
    static constexpr size_t npos = static_cast<size_t>(-1);
    string() = default;
    string(const char* p): tok(hvc_strtok(p)) {}
    string(const char* p, size_t n): tok(hvc_uf("str_of_range", reinterpret_cast<std::uint64_t>(p), n)) {}
    string(size_t n, char c): tok(hvc_uf("str_rep", n, static_cast<unsigned char>(c))) {}
    explicit string(string_view v): StrTag(v), tok(v.tok) {}
    string(const string& o) = default;
    string(string&& o) noexcept: StrTag(o), tok(o.tok) { o.tok = 0; }
    string& operator=(const string& o) = default;
    string& operator=(string&& o) noexcept
    {
        auto t = o.tok;
        o.tok = 0;
        tok = t;
        tagOf(o);
        return *this;
    }
    string& operator=(string_view v)
    {
        tagOf(v);
        tok = v.tok;
        return *this;
    }
    string& operator=(const char* p)
    {
        tok = hvc_strtok(p);
        return *this;
    }
    ~string() {}
    string& assign(string_view v)
    {
        tagOf(v);
        tok = v.tok;
        return *this;
    }
    bool empty() const { return tok == 0; }
    size_t size() const { return string_view(*this).size(); }
    size_t length() const { return size(); }
    void clear() { tok = 0; }
    void reserve(size_t) {}
    void resize(size_t n) { tok = hvc_uf("str_resize", tok, n); }
    const char* c_str() const
    {
        hvc_unsupported("characters of a model string");
        return nullptr;
    }
    const char* data() const { return c_str(); }
    char* data() { return const_cast<char*>(c_str()); }
    char* begin() { return data(); }
    char* end() { return data(); }
    const char* begin() const { return c_str(); }
    const char* end() const { return c_str(); }
    string& assign(const char* p, size_t n)
    {
        tok = n == 0 ? 0 : hvc_uf("str_of_range", reinterpret_cast<std::uint64_t>(p), n);
        return *this;
    }
    template<class It>
    void insert(It, size_t, char)
    {
        hvc_unsupported("characters of a model string");
    }
    char& operator[](size_t)
    {
        hvc_unsupported("characters of a model string");
        return *reinterpret_cast<char*>(this);
    }
    char operator[](size_t i) const { return string_view(*this)[i]; }
    char front() const { return string_view(*this).front(); }
    char back() const { return string_view(*this).back(); }
    struct LastChar {
        string& s;
        operator char() const { return string_view(s).back(); }
        void operator=(char c) const
        {
            s.tok = hvc_uf("str_setlast", s.tok, static_cast<unsigned char>(c));
            hvc_assume(s.tok != 0);
        }
    };
    LastChar back() { return LastChar{*this}; }
    string& operator+=(string_view v)
    {
        if (v.tok == 0) {
            return *this;
        }
        if (tok == 0) {
            tagOf(v);
            tok = v.tok;
            return *this;
        }
        endIf(v.tok == hvc_strtok("\n"));
        tok = hvc_uf("str_cat", tok, v.tok);
        hvc_assume(tok != 0);
        return *this;
    }
    string& operator+=(char c)
    {
        endIf(c == '\n');
        tok = hvc_uf("str_catc", tok, static_cast<unsigned char>(c));
        hvc_assume(tok != 0);
        return *this;
    }
    string& append(string_view v) { return *this += v; }
    void push_back(char c) { *this += c; }
    void pop_back() { tok = hvc_uf("str_pop", tok, 0); }
    string substr(size_t a, size_t n = npos) const { return string(string_view(*this).substr(a, n)); }
    size_t find(char c, size_t p = 0) const { return string_view(*this).find(c, p); }
    size_t find_first_of(char c, size_t p = 0) const { return find(c, p); }
    size_t find_last_of(char c) const { return string_view(*this).find_last_of(c); }
    size_t find(string_view v) const { return hvc_uf("str_find", tok, v.tok); }
    int compare(string_view o) const { return string_view(*this).compare(o); }
    void swap(string& o) noexcept
    {
        string t(*this);
        *this = o;
        o = t;
    }
};
inline basic_string_view<char, void>::basic_string_view(const string& s): StrTag(s), tok(s.tok) {}
inline size_t basic_string_view<char, void>::size() const
{
    if (tok == 0) {
        return 0;
    }
    auto n = hvc_uf("str_size", tok, 0);
    hvc_assume(n > 0 && n < (1ULL << 40));
    return n;
}
template<class C>
using basic_string = string;
inline bool operator==(string_view a, string_view b)
{
    return a.tok == b.tok;
}
inline bool operator==(const string& a, const string& b)
{
    return a.tok == b.tok;
}
inline bool operator==(const string& a, string_view b)
{
    return a.tok == b.tok;
}
inline bool operator==(const string& a, const char* b)
{
    return a.tok == hvc_strtok(b);
}
inline bool operator==(string_view a, const char* b)
{
    return a.tok == hvc_strtok(b);
}
inline bool hvc_str_lt(std::uint64_t a, std::uint64_t b)
{
    if (a == b) {
        return false;
    }
    bool l = (hvc_uf("str_lt", a, b) & 1U) != 0U;
    bool g = (hvc_uf("str_lt", b, a) & 1U) != 0U;
    hvc_assume(l != g);
    return l;
}
inline bool operator<(const string& a, const string& b)
{
    return hvc_str_lt(a.tok, b.tok);
}
inline bool operator<(string_view a, string_view b)
{
    return hvc_str_lt(a.tok, b.tok);
}
inline bool operator>(const string& a, const string& b)
{
    return hvc_str_lt(b.tok, a.tok);
}
inline string operator+(const string& a, string_view b)
{
    string r(a);
    r += b;
    return r;
}
inline string operator+(const string& a, const char* b)
{
    string r(a);
    r += string_view(b);
    return r;
}
inline string operator+(const char* a, const string& b)
{
    string r(a);
    r += string_view(b);
    return r;
}
inline string operator+(const string& a, const string& b)
{
    string r(a);
    r += string_view(b);
    return r;
}
inline string operator+(const string& a, char b)
{
    string r(a);
    r += b;
    return r;
}
template<class N>
inline enable_if_t<is_arithmetic_v<N>, string> to_string(N n)
{
    string r;
    if constexpr (is_floating_point_v<N>) {
        std::uint64_t u = 0;
        double d = n;
        __builtin_memcpy(&u, &d, 8);
        r.tok = hvc_uf("str_of_double", u, 0);
    } else {
        r.tok = hvc_uf("str_of_int", static_cast<std::uint64_t>(n), 0);
    }
    hvc_assume(r.tok != 0);
    return r;
}
inline namespace literals {
    inline namespace string_literals {
        inline string operator""s(const char* p, size_t)
        {
            return string(p);
        }
    }
    inline namespace string_view_literals {
        constexpr string_view operator""sv(const char* p, size_t)
        {
            return string_view(p);
        }
    }
}
template<class T>
struct hash {
    size_t operator()(const T& t) const { return hvc_uf("hash", reinterpret_cast<std::uint64_t>(&t), 0); }
};
template<>
struct hash<string> {
    size_t operator()(const string& t) const { return hvc_uf("hash_str", t.tok, 0); }
};
template<>
struct hash<int> {
    size_t operator()(int t) const { return hvc_uf("hash_int", t, 0); }
};
template<>
struct hash<long> {
    size_t operator()(long t) const { return hvc_uf("hash_int", t, 0); }
};
template<>
struct hash<unsigned long> {
    size_t operator()(unsigned long t) const { return hvc_uf("hash_int", t, 0); }
};

// ----------------------------------------------------------------------------------------- array ranges
namespace hvcm {
    /// number of remove_if calls so far, and the places of the elements each of them kept
    inline std::uint64_t removals{0};
    inline std::uint64_t kept_from(std::uint64_t call, std::uint64_t j) { return hvc_uf("kept_from", call, j); }
    inline std::uint64_t kept_to(std::uint64_t call, std::uint64_t k) { return hvc_uf("kept_to", call, k); }
    /// the same for the sorts: all elements are kept
    inline std::uint64_t sorts{0};
    inline std::uint64_t sort_from(std::uint64_t call, std::uint64_t j) { return hvc_uf("sort_from", call, j); }
    inline std::uint64_t sort_to(std::uint64_t call, std::uint64_t k) { return hvc_uf("sort_to", call, k); }
    /// sequence with unbounded storage; [b,e) are the elements
    template<class T>
    struct Seq {
        using value_type = T;
        using reference = T&;
        using const_reference = const T&;
        using iterator = T*;
        using const_iterator = const T*;
        using size_type = size_t;
        using difference_type = ptrdiff_t;
        T* b{nullptr};
        T* e{nullptr};

        void need()
        {
            if (b == nullptr) {
                b = e = static_cast<T*>(hvc_unbounded(sizeof(T)));
                hvc_limit(b, &e);
            }
        }
        /// take over elements by relocation
        void steal(Seq& o)
        {
            b = o.b;
            e = o.e;
            o.b = o.e = nullptr;
            if (b != nullptr) {
                hvc_limit(b, &e);
            }
            o.need();
        }
        void kill(T* f, T* l)
        {
            if constexpr (!is_trivially_destructible_v<T>) {
                for (; f != l; ++f) {
                    f->~T();
                }
            }
        }
        template<class It>
        void fill_from(It f, It l)
        {
            for (; f != l; ++f) {
                T* p = e;
                e = p + 1;
                new (static_cast<void*>(p)) T(*f);
            }
        }
        void copy_from(const Seq& o)
        {
            if (o.b == o.e) {
                return;
            }
            need();
            if constexpr (is_trivially_copy_constructible_v<T> || is_same_v<T, std::string>) {
                size_t n = o.e - o.b;
                e = b + n;
                __builtin_memcpy(static_cast<void*>(b), static_cast<const void*>(o.b), n * sizeof(T));
            } else {
                fill_from(o.b, o.e);
            }
        }
        Seq() { need(); }
        Seq(const Seq& o)
        {
            need();
            copy_from(o);
        }
        Seq(Seq&& o) noexcept { steal(o); }
        Seq& operator=(const Seq& o)
        {
            if (this != &o) {
                clear();
                copy_from(o);
            }
            return *this;
        }
        Seq& operator=(Seq&& o) noexcept
        {
            if (this != &o) {
                kill(b, e);
                hvc_release(b);
                steal(o);
            }
            return *this;
        }
        ~Seq()
        {
            kill(b, e);
            hvc_release(b);
        }

        T* begin() { return b; }
        T* end() { return e; }
        const T* begin() const { return b; }
        const T* end() const { return e; }
        const T* cbegin() const { return b; }
        const T* cend() const { return e; }
        reverse_iterator<T*> rbegin() { return reverse_iterator<T*>(e); }
        reverse_iterator<T*> rend() { return reverse_iterator<T*>(b); }
        reverse_iterator<const T*> rbegin() const { return reverse_iterator<const T*>(e); }
        reverse_iterator<const T*> rend() const { return reverse_iterator<const T*>(b); }
        bool empty() const { return b == e; }
        size_t size() const { return static_cast<size_t>(e - b); }
        size_t max_size() const { return size_t(1) << 60; }
        T& front()
        {
            hvc_assert(b != e, "front() of an empty container");
            return *b;
        }
        T& back()
        {
            hvc_assert(b != e, "back() of an empty container");
            return *(e - 1);
        }
        const T& front() const { return const_cast<Seq*>(this)->front(); }
        const T& back() const { return const_cast<Seq*>(this)->back(); }
        T& operator[](size_t i)
        {
            hvc_assert(i < size(), "container index in range");
            return b[i];
        }
        const T& operator[](size_t i) const
        {
            hvc_assert(i < size(), "container index in range");
            return b[i];
        }
        T& at(size_t i)
        {
            if (!(i < size())) {
                throw std::out_of_range("");
            }
            return b[i];
        }
        const T& at(size_t i) const { return const_cast<Seq*>(this)->at(i); }
        T* data() { return b; }
        const T* data() const { return b; }
        void reserve(size_t) {}
        void shrink_to_fit() {}
        size_t capacity() const { return size(); }
        template<class... A>
        T& emplace_back(A&&... a)
        {
            need();
            T* p = e;
            e = p + 1;
            new (static_cast<void*>(p)) T(std::forward<A>(a)...);
            return *p;
        }
        void push_back(const T& x) { emplace_back(x); }
        void push_back(T&& x) { emplace_back(std::move(x)); }
        void pop_back()
        {
            hvc_assert(b != e, "pop_back() of an empty container");
            kill(e - 1, e);
            --e;
        }
        void pop_front()
        {
            hvc_assert(b != e, "pop_front() of an empty container");
            kill(b, b + 1);
            ++b;
        }
        /// open a gap of one element at p
        T* gap(const T* cp)
        {
            need();
            T* p = b + (cp == nullptr ? 0 : cp - b);
            hvc_assert(p >= b && p <= e, "insert position in range");
            size_t n = e - p;
            ++e;
            __builtin_memmove(static_cast<void*>(p + 1), static_cast<const void*>(p), n * sizeof(T));
            return p;
        }
        template<class... A>
        T* emplace(const T* p, A&&... a)
        {
            if (p == e) {
                return &emplace_back(std::forward<A>(a)...);
            }
            alignas(T) unsigned char tmp[sizeof(T)];
            new (static_cast<void*>(tmp)) T(std::forward<A>(a)...);
            T* q = gap(p);
            __builtin_memcpy(static_cast<void*>(q), tmp, sizeof(T));
            return q;
        }
        template<class... A>
        T& emplace_front(A&&... a)
        {
            return *emplace(b, std::forward<A>(a)...);
        }
        void push_front(const T& x) { emplace(b, x); }
        void push_front(T&& x) { emplace(b, std::move(x)); }
        T* insert(const T* p, const T& x) { return emplace(p, x); }
        T* insert(const T* p, T&& x) { return emplace(p, std::move(x)); }
        T* erase(const T* cp)
        {
            T* p = const_cast<T*>(cp);
            hvc_assert(p >= b && p < e, "erase position in range");
            kill(p, p + 1);
            size_t n = e - (p + 1);
            __builtin_memmove(static_cast<void*>(p), static_cast<const void*>(p + 1), n * sizeof(T));
            --e;
            return p;
        }
        T* erase(const T* cf, const T* cl)
        {
            T* f = const_cast<T*>(cf);
            T* l = const_cast<T*>(cl);
            hvc_assert(f >= b && f <= l && l <= e, "erase range");
            kill(f, l);
            size_t n = e - l;
            __builtin_memmove(static_cast<void*>(f), static_cast<const void*>(l), n * sizeof(T));
            e = f + n;
            return f;
        }
        void clear()
        {
            kill(b, e);
            e = b;
        }
        void resize(size_t n)
        {
            if (n < size()) {
                erase(b + n, e);
            } else {
                while (size() < n) {
                    emplace_back();
                }
            }
        }
        void resize(size_t n, const T& x)
        {
            if (n < size()) {
                erase(b + n, e);
            } else {
                while (size() < n) {
                    emplace_back(x);
                }
            }
        }
        template<class It>
        void assign(It f, It l)
        {
            clear();
            if (f != l) {
                need();
                fill_from(f, l);
            }
        }
        void swap(Seq& o) noexcept
        {
            std::swap(b, o.b);
            std::swap(e, o.e);
            if (b != nullptr) {
                hvc_limit(b, &e);
            }
            if (o.b != nullptr) {
                hvc_limit(o.b, &o.e);
            }
        }
    };
}  // namespace hvcm

template<class T, class A = void>
class vector: public hvcm::Seq<T> {
  public:
    using S = hvcm::Seq<T>;
    vector() = default;
    explicit vector(size_t n) { S::resize(n); }
    vector(size_t n, const T& x)
    {
        for (size_t i = 0; i < n; ++i) {
            S::emplace_back(x);
        }
    }
    vector(initializer_list<T> l)
    {
        if (l.size() != 0) {
            S::need();
            S::fill_from(l.begin(), l.end());
        }
    }
    template<class It, class = decltype(*declval<It>())>
    vector(It f, It l)
    {
        if (f != l) {
            S::need();
            S::fill_from(f, l);
        }
    }
};
/// declared only: insertion is outside the verified subset
template<class T, class C = void, class A = void>
class set {
  public:
    template<class... X>
    void emplace(X&&...)
    {
        hvc_unsupported("std::set");
    }
    void insert(const T&) { hvc_unsupported("std::set"); }
    size_t size() const
    {
        hvc_unsupported("std::set");
        return 0;
    }
    bool empty() const { return size() == 0; }
};
template<class T, class A = void>
class deque: public hvcm::Seq<T> {};
template<class T, class A = void>
class list: public hvcm::Seq<T> {};

// -------------------------------------------------------------------------------------------- algorithms
template<class It, class P>
inline It find_if(It f, It l, P p)
{
    if constexpr (is_pointer_v<It>) {
        size_t n = l - f;
        return f + hvc::first(0, n, [&](std::uint64_t k) -> bool { return p(f[k]); });
    } else {
        while (f != l) {
            if (p(*f)) {
                return f;
            }
            ++f;
        }
        return l;
    }
}
template<class It, class T>
inline It find(It f, It l, const T& x)
{
    return find_if(f, l, [&](const auto& y) { return y == x; });
}
template<class It, class P>
inline bool any_of(It f, It l, P p)
{
    return find_if(f, l, p) != l;
}
template<class It, class P>
inline bool all_of(It f, It l, P p)
{
    return find_if(f, l, [&](const auto& y) { return !p(y); }) == l;
}
template<class It, class P>
inline bool none_of(It f, It l, P p)
{
    return find_if(f, l, p) == l;
}
template<class It, class F>
inline F for_each(It f, It l, F fn)
{
    for (; f != l; ++f) {
        fn(*f);
    }
    return fn;
}
template<class It, class P>
inline ptrdiff_t count_if(It f, It l, P p)
{
    ptrdiff_t n = 0;
    for (; f != l; ++f) {
        if (p(*f)) {
            ++n;
        }
    }
    return n;
}
/// contract of the binary searches: the range is partitioned by the predicate; the answer is the partition point
template<class It, class P>
inline It hvc_partition_point(It f, It l, P p)
{
    auto r = find_if(f, l, [&](const auto& y) { return !p(y); });
    size_t n = l - f;
    hvc::forall(r - f, n, [&](std::uint64_t k) -> bool { return !p(f[k]); }, "a searched range is in order");
    return r;
}
template<class It, class T, class C>
inline It lower_bound(It f, It l, const T& x, C c)
{
    return hvc_partition_point(f, l, [&](const auto& y) { return static_cast<bool>(c(y, x)); });
}
template<class It, class T>
inline It lower_bound(It f, It l, const T& x)
{
    return hvc_partition_point(f, l, [&](const auto& y) { return y < x; });
}
template<class It, class T, class C>
inline It upper_bound(It f, It l, const T& x, C c)
{
    return hvc_partition_point(f, l, [&](const auto& y) { return !c(x, y); });
}
template<class It, class T>
inline It upper_bound(It f, It l, const T& x)
{
    return hvc_partition_point(f, l, [&](const auto& y) { return !(x < y); });
}
template<class It, class P>
inline It remove_if(It f, It l, P p)
{
    if constexpr (is_pointer_v<It>) {
        // library contract: the kept elements in their order, then unspecified ones.
        // kept_from(j) is the former place of the j-th kept element, kept_to(k) the new place of the k-th one
        using T = remove_reference_t<decltype(*f)>;
        const size_t n = l - f;
        const auto call = ++hvcm::removals;
        const size_t m = hvc_uf("kept_count", call, n);
        hvc_assume(m <= n);
        hvc::assume_forall(0, n, [&](std::uint64_t k) -> bool {
            return p(static_cast<T&>(f[k])) || (hvcm::kept_to(call, k) < m && hvcm::kept_from(call, hvcm::kept_to(call, k)) == k);
        });
        hvc::assume_forall(0, m, [&](std::uint64_t j) -> bool {
            auto k = hvcm::kept_from(call, j);
            return k < n && hvcm::kept_to(call, k) == j && !p(static_cast<T&>(f[k]));
        });
        hvc::assume_forall2(0, m, [&](std::uint64_t i, std::uint64_t j) -> bool {
            return !(i < j) || hvcm::kept_from(call, i) < hvcm::kept_from(call, j);
        });
        hvcm::Seq<T> kept;
        for (size_t j = 0; j < m; ++j) {
            T* q = kept.e;
            kept.e = q + 1;
            auto k = hvcm::kept_from(call, j);
            hvc_assume(k < n);
            __builtin_memcpy(static_cast<void*>(q), static_cast<const void*>(f + k), sizeof(T));
        }
        __builtin_memcpy(static_cast<void*>(f), static_cast<const void*>(kept.b), m * sizeof(T));
        kept.e = kept.b;
        return f + m;
    }
    It o = f;
    for (; f != l; ++f) {
        if (!p(*f)) {
            if (o != f) {
                *o = std::move(*f);
            }
            ++o;
        }
    }
    return o;
}
template<class It, class T>
inline It remove(It f, It l, const T& x)
{
    return remove_if(f, l, [&](const auto& y) { return y == x; });
}
template<class It, class O>
inline O copy(It f, It l, O o)
{
    for (; f != l; ++f, ++o) {
        *o = *f;
    }
    return o;
}
template<class It, class O, class F>
inline O transform(It f, It l, O o, F fn)
{
    for (; f != l; ++f, ++o) {
        *o = fn(*f);
    }
    return o;
}
template<class It, class T>
inline void fill(It f, It l, const T& x)
{
    for (; f != l; ++f) {
        *f = x;
    }
}
namespace hvcm {
    /// library contract of the sorts: a permutation, in order, equal elements in their former order when stable
    template<class It, class C>
    inline void sorted(It f, It l, C c, bool stable)
    {
        using T = remove_reference_t<decltype(*f)>;
        const size_t n = l - f;
        const auto call = ++sorts;
        hvc::assume_forall(0, n, [&](std::uint64_t k) -> bool { return sort_to(call, k) < n && sort_from(call, sort_to(call, k)) == k; });
        hvc::assume_forall(0, n, [&](std::uint64_t j) -> bool { return sort_from(call, j) < n && sort_to(call, sort_from(call, j)) == j; });
        Seq<T> t;
        for (size_t j = 0; j < n; ++j) {
            T* q = t.e;
            t.e = q + 1;
            auto k = sort_from(call, j);
            hvc_assume(k < n);
            __builtin_memcpy(static_cast<void*>(q), static_cast<const void*>(f + k), sizeof(T));
        }
        __builtin_memcpy(static_cast<void*>(f), static_cast<const void*>(t.b), n * sizeof(T));
        t.e = t.b;
        hvc::assume_forall2(0, n, [&](std::uint64_t i, std::uint64_t j) -> bool { return !(i < j) || !c(f[j], f[i]); });
        if (stable) {
            hvc::assume_forall2(0, n, [&](std::uint64_t i, std::uint64_t j) -> bool {
                return !(i < j) || sort_from(call, i) < sort_from(call, j) || c(f[i], f[j]);
            });
        }
    }
}  // namespace hvcm
template<class It, class C>
inline void sort(It f, It l, C c)
{
    hvcm::sorted(f, l, c, false);
}
template<class It>
inline void sort(It f, It l)
{
    hvcm::sorted(f, l, [](const auto& x, const auto& y) { return x < y; }, false);
}
template<class It, class C>
inline void stable_sort(It f, It l, C c)
{
    hvcm::sorted(f, l, c, true);
}
template<class T>
inline constexpr const T& min(const T& a, const T& b)
{
    return b < a ? b : a;
}
template<class T>
inline constexpr const T& max(const T& a, const T& b)
{
    return a < b ? b : a;
}
template<class T>
inline constexpr T min(initializer_list<T> l)
{
    T r = *l.begin();
    for (auto& x : l) {
        if (x < r) {
            r = x;
        }
    }
    return r;
}
template<class T>
inline constexpr T max(initializer_list<T> l)
{
    T r = *l.begin();
    for (auto& x : l) {
        if (r < x) {
            r = x;
        }
    }
    return r;
}
template<class It, class C>
inline It min_element(It f, It l, C c)
{
    It r = f;
    for (; f != l; ++f) {
        if (c(*f, *r)) {
            r = f;
        }
    }
    return r;
}
template<class It>
inline ptrdiff_t distance(It f, It l)
{
    return l - f;
}
template<class It>
inline It next(It f, ptrdiff_t n = 1)
{
    return f + n;
}
template<class It>
inline It prev(It f, ptrdiff_t n = 1)
{
    return f - n;
}
template<class C>
inline auto begin(C& c) -> decltype(c.begin())
{
    return c.begin();
}
template<class C>
inline auto end(C& c) -> decltype(c.end())
{
    return c.end();
}
template<class C>
inline auto cbegin(const C& c) -> decltype(c.begin())
{
    return c.begin();
}
template<class C>
inline auto cend(const C& c) -> decltype(c.end())
{
    return c.end();
}

// ------------------------------------------------------------------------------------------ associative
namespace hvcm {
    /// associative container: array of nodes with an erased flag each; equal keys are contiguous
    template<class K, class V, bool Multi>
    struct Assoc {
        using key_type = K;
        using mapped_type = V;
        using value_type = pair<const K, V>;
        using Node = value_type;
        using size_type = size_t;
        Node* nodes{nullptr};
        unsigned char* dead{nullptr};
        size_t n{0};   // node slots used
        size_t live{0};

        struct iterator {
            using value_type = Node;
            using reference = Node&;
            using pointer = Node*;
            using difference_type = ptrdiff_t;
            using iterator_category = forward_iterator_tag;
            const Assoc* m{nullptr};
            size_t i{0};
            Node& operator*() const
            {
                hvc_assert(i < m->n, "map iterator in range");
                return m->nodes[i];
            }
            Node* operator->() const
            {
                hvc_assert(i < m->n, "map iterator in range");
                return m->nodes + i;
            }
            iterator& operator++()
            {
                hvc_assert(i < m->n, "map iterator in range");
                i = m->next(i + 1);
                return *this;
            }
            iterator operator++(int)
            {
                auto c = *this;
                hvc_assert(i < m->n, "map iterator in range");
                i = m->next(i + 1);
                return c;
            }
            bool operator==(const iterator& o) const { return i == o.i; }
        };
        using const_iterator = iterator;
        Assoc() = default;
        Assoc(const Assoc& o)
        {
            hvc_unsupported("map copy");
        }
        Assoc(Assoc&& o) noexcept: nodes(o.nodes), dead(o.dead), n(o.n), live(o.live)
        {
            o.nodes = nullptr;
            o.dead = nullptr;
            o.n = o.live = 0;
        }
        Assoc& operator=(const Assoc& o) = delete;
        ~Assoc() {}
        size_t next(size_t from) const
        {
            return hvc::first(from, n, [&](std::uint64_t k) -> bool { return dead[k] == 0; });
        }
        void need()
        {
            if (nodes == nullptr) {
                nodes = static_cast<Node*>(hvc_unbounded(sizeof(Node)));
                dead = static_cast<unsigned char*>(hvc_zeros(1));
            }
        }
        iterator at_(size_t i) const
        {
            iterator r;
            r.m = this;
            r.i = i;
            return r;
        }
        iterator begin() const { return at_(next(0)); }
        iterator end() const { return at_(n); }
        iterator cbegin() const { return begin(); }
        iterator cend() const { return end(); }
        bool empty() const { return live == 0; }
        size_t size() const { return live; }
        template<class Q>
        size_t lo(const Q& key) const
        {
            return hvc::first(0, n, [&](std::uint64_t k) -> bool { return dead[k] == 0 && nodes[k].first == key; });
        }
        template<class Q>
        size_t hi(const Q& key, size_t l) const
        {
            if (l == n) {
                return n;
            }
            auto h = hvc::first(l + 1, n, [&](std::uint64_t k) -> bool { return !(dead[k] == 0 && nodes[k].first == key); });
            // guaranteed by the library: equivalent keys are adjacent
            hvc::assume_forall(h, n, [&](std::uint64_t k) -> bool { return !(dead[k] == 0 && nodes[k].first == key); });
            return h;
        }
        template<class Q>
        iterator find(const Q& key) const
        {
            return at_(lo(key));
        }
        template<class Q>
        size_t count(const Q& key) const
        {
            auto l = lo(key);
            if constexpr (Multi) {
                return hi(key, l) - l;
            }
            return l == n ? 0 : 1;
        }
        template<class Q>
        bool contains(const Q& key) const
        {
            return lo(key) != n;
        }
        template<class Q>
        pair<iterator, iterator> equal_range(const Q& key) const
        {
            auto l = lo(key);
            auto h = l;
            if constexpr (Multi) {
                h = hi(key, l);
            } else if (l != n) {
                h = next(l + 1);
            }
            return {at_(l), at_(h)};
        }
        size_t place(const K& key)
        {
            need();
            size_t p = n;
            if constexpr (Multi) {
                auto l = lo(key);
                p = hi(key, l);
            }
            size_t t = n - p;
            if (t != 0) {
                __builtin_memmove(static_cast<void*>(nodes + p + 1), static_cast<const void*>(nodes + p), t * sizeof(Node));
                __builtin_memmove(dead + p + 1, dead + p, t);
            }
            dead[p] = 0;
            ++n;
            ++live;
            return p;
        }
        template<class A, class B>
        auto emplace(A&& a, B&& b)
        {
            K key(std::forward<A>(a));
            if constexpr (!Multi) {
                auto l = lo(key);
                if (l != n) {
                    return pair<iterator, bool>(at_(l), false);
                }
            }
            V val(std::forward<B>(b));
            auto p = place(key);
            new (static_cast<void*>(nodes + p)) Node(std::move(key), std::move(val));
            if constexpr (Multi) {
                return at_(p);
            } else {
                return pair<iterator, bool>(at_(p), true);
            }
        }
        auto insert(Node&& x) { return emplace(x.first, std::move(x.second)); }
        auto insert(const Node& x) { return emplace(x.first, x.second); }
        V& operator[](const K& key)
        {
            auto l = lo(key);
            if (l != n) {
                return nodes[l].second;
            }
            auto p = place(key);
            new (static_cast<void*>(nodes + p)) Node(key, V());
            return nodes[p].second;
        }
        V& at(const K& key) const
        {
            auto l = lo(key);
            if (l == n) {
                throw std::out_of_range("");
            }
            return nodes[l].second;
        }
        iterator erase(iterator it)
        {
            hvc_assert(it.i < n, "erase of a valid iterator");
            hvc_assert(dead[it.i] == 0, "erase of a live element");
            dead[it.i] = 1;
            --live;
            return at_(next(it.i + 1));
        }
        iterator erase(iterator f, iterator l)
        {
            __builtin_memset(dead + f.i, 1, l.i - f.i);
            live -= l.i - f.i;   // exact when nothing in between was erased before
            return l;
        }
        template<class Q, class = enable_if_t<!is_same_v<remove_cvref_t<Q>, iterator>>>
        size_t erase(const Q& key)
        {
            auto l = lo(key);
            if (l == n) {
                return 0;
            }
            size_t h = l + 1;
            if constexpr (Multi) {
                h = hi(key, l);
            }
            __builtin_memset(dead + l, 1, h - l);
            live -= h - l;
            return h - l;
        }
        void clear()
        {
            n = live = 0;
            nodes = nullptr;
            dead = nullptr;
        }
    };
}  // namespace hvcm
template<class K, class V, class H = void, class E = void, class A = void>
class unordered_map: public hvcm::Assoc<K, V, false> {};
template<class K, class V, class H = void, class E = void, class A = void>
class unordered_multimap: public hvcm::Assoc<K, V, true> {};
template<class K, class V, class C = void, class A = void>
class map: public hvcm::Assoc<K, V, false> {};
template<class K, class V, class C = void, class A = void>
class multimap: public hvcm::Assoc<K, V, true> {};

// --------------------------------------------------------------------------------------------- functional
template<class F>
class function;
template<class R, class... A>
class function<R(A...)> {
    void* obj{nullptr};
    R (*call)(void*, A...){nullptr};

  public:
    using result_type = R;
    function() = default;
    function(nullptr_t) {}
    function(const function&) = default;
    function(function&&) = default;
    function& operator=(const function&) = default;
    function& operator=(function&&) = default;
    template<class F, class = enable_if_t<!is_same_v<decay_t<F>, function> && is_invocable_v<F&, A...>>>
    function(F f)
    {
        obj = ::operator new(sizeof(F));
        new (obj) F(std::move(f));
        call = [](void* o, A... a) -> R { return (*static_cast<F*>(o))(std::forward<A>(a)...); };
    }
    explicit operator bool() const { return call != nullptr; }
    R operator()(A... a) const
    {
        if (call == nullptr) {
            throw std::bad_function_call();
        }
        return call(obj, std::forward<A>(a)...);
    }
};
template<class F>
inline bool operator==(const function<F>& f, nullptr_t)
{
    return !f;
}
template<class T = void>
struct less {
    bool operator()(const T& a, const T& b) const { return a < b; }
};
template<class T = void>
struct greater {
    bool operator()(const T& a, const T& b) const { return a > b; }
};

// ------------------------------------------------------------------------------------------------ memory
namespace hvcm {
    /// types whose owned objects live in one arena: an owning pointer is then a place in it (0: none), so that
    /// containers of owning pointers are arrays of numbers. Freeing is not tracked for them.
    template<class T>
    struct in_arena: false_type {};
    template<class T>
    inline T* arena{nullptr};
}  // namespace hvcm
template<class T>
class unique_ptr {
    T* p{nullptr};

  public:
    using pointer = T*;
    using element_type = T;
    unique_ptr() = default;
    unique_ptr(nullptr_t) {}
    explicit unique_ptr(T* q): p(q) {}
    unique_ptr(unique_ptr&& o) noexcept: p(o.p) { o.p = nullptr; }
    template<class U>
    unique_ptr(unique_ptr<U>&& o) noexcept: p(o.release())
    {
    }
    unique_ptr& operator=(unique_ptr&& o) noexcept
    {
        reset(o.release());
        return *this;
    }
    unique_ptr& operator=(nullptr_t)
    {
        reset();
        return *this;
    }
    unique_ptr(const unique_ptr&) = delete;
    ~unique_ptr() { reset(); }
    void reset(T* q = nullptr)
    {
        T* o = p;
        p = q;
        if (o != nullptr) {
            delete o;
        }
    }
    T* release()
    {
        T* o = p;
        p = nullptr;
        return o;
    }
    T* get() const { return p; }
    T& operator*() const { return *p; }
    T* operator->() const { return p; }
    explicit operator bool() const { return p != nullptr; }
    bool operator==(nullptr_t) const { return p == nullptr; }
    bool operator==(const unique_ptr& o) const { return p == o.p; }
    void swap(unique_ptr& o) noexcept { std::swap(p, o.p); }
};
template<class T>
    requires hvcm::in_arena<T>::value
class unique_ptr<T> {
  public:
    std::uint64_t place{0};
    using pointer = T*;
    using element_type = T;
    unique_ptr() = default;
    unique_ptr(nullptr_t) {}
    unique_ptr(unique_ptr&& o) noexcept: place(o.place) { o.place = 0; }
    unique_ptr& operator=(unique_ptr&& o) noexcept
    {
        auto t = o.place;
        o.place = 0;
        place = t;
        return *this;
    }
    unique_ptr& operator=(nullptr_t)
    {
        place = 0;
        return *this;
    }
    unique_ptr(const unique_ptr&) = delete;
    void reset() { place = 0; }
    T* get() const { return place == 0 ? nullptr : hvcm::arena<T> + (place - 1); }
    T& operator*() const { return *operator->(); }
    T* operator->() const
    {
        hvc_assert(place != 0, "dereference of an owning pointer");
        return hvcm::arena<T> + (place - 1);
    }
    explicit operator bool() const { return place != 0; }
    bool operator==(nullptr_t) const { return place == 0; }
    bool operator==(const unique_ptr& o) const { return place == o.place; }
    void swap(unique_ptr& o) noexcept { std::swap(place, o.place); }
};
namespace hvcm {
    /// shared objects that never change: the pointer is represented by the object's value (a value knows when it is no object)
    template<class T>
    struct by_value: false_type {};
}  // namespace hvcm
template<class T>
class shared_ptr;
template<class T>
    requires hvcm::by_value<T>::value
class shared_ptr<const T> {
  public:
    T value{};
    using element_type = const T;
    shared_ptr() = default;
    shared_ptr(nullptr_t) {}
    shared_ptr(const shared_ptr& o) = default;
    shared_ptr(shared_ptr&& o) noexcept: value(o.value) { o.value = T{}; }
    shared_ptr& operator=(const shared_ptr& o) = default;
    shared_ptr& operator=(shared_ptr&& o) noexcept
    {
        T t = o.value;
        o.value = T{};
        value = t;
        return *this;
    }
    shared_ptr& operator=(nullptr_t)
    {
        value = T{};
        return *this;
    }
    void reset() { value = T{}; }
    const T* get() const { return value.none() ? nullptr : &value; }
    const T& operator*() const { return *operator->(); }
    const T* operator->() const
    {
        hvc_assert(!value.none(), "dereference of a shared pointer");
        return &value;
    }
    explicit operator bool() const { return !value.none(); }
    bool operator==(nullptr_t) const { return value.none(); }
    void swap(shared_ptr& o) noexcept
    {
        T t = o.value;
        o.value = value;
        value = t;
    }
};
template<class T, class... A>
inline unique_ptr<T> make_unique(A&&... a)
{
    return unique_ptr<T>(new T(std::forward<A>(a)...));
}
}  // namespace std
