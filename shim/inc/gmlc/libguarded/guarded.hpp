/* Stand-in for GMLC-TDC/concurrency libguarded. ASSUMED DEPENDENCY: lock()/lock_shared() hand out a
   pointer-like handle to the protected object; mutual exclusion itself is the library's. */
#pragma once
#include <mutex>
#include <shared_mutex>
#include <utility>
namespace gmlc { namespace libguarded {
template<class T> class lock_handle {
    T* p;
  public:
    explicit lock_handle(T* q): p(q) {}
    T* operator->() const { return p; }
    T& operator*() const { return *p; }
    explicit operator bool() const { return p != nullptr; }
    void unlock() { p = nullptr; }
    auto begin() const { return p->begin(); }
    auto end() const { return p->end(); }
};
template<class T, class M = std::mutex> class guarded {
    mutable T obj;
  public:
    using handle = lock_handle<T>;
    using shared_handle = lock_handle<const T>;
    guarded() = default;
    template<class... A> explicit guarded(A&&... a): obj(std::forward<A>(a)...) {}
    handle lock() const { return handle(&obj); }
    handle lock() { return handle(&obj); }
    shared_handle lock_shared() const { return shared_handle(&obj); }
    handle try_lock() { return handle(&obj); }
    T load() const { return obj; }
    template<class U> void store(U&& u) { obj = std::forward<U>(u); }
    template<class U> guarded& operator=(U&& u) { obj = std::forward<U>(u); return *this; }
    operator T() const { return obj; }
    template<class F> void modify(F f) { f(obj); }
    template<class F> auto read(F f) const { return f(static_cast<const T&>(obj)); }
    bool activateMultiThreading(bool = true) { return true; }
};
template<class T, class M = std::mutex> class guarded_opt: public guarded<T, M> {
  public:
    explicit guarded_opt(bool = true) {}
    template<class... A> guarded_opt(bool, A&&... a): guarded<T, M>(std::forward<A>(a)...) {}
};
template<class T, class M = std::mutex> using atomic_guarded = guarded<T, M>;
template<class T, class M = std::shared_mutex> using shared_guarded = guarded<T, M>;
template<class T, class M = std::shared_mutex> using shared_guarded_opt = guarded_opt<T, M>;
template<class T, class M = std::shared_mutex> using ordered_guarded = guarded<T, M>;
template<class T, class M = std::mutex> using cow_guarded = guarded<T, M>;
template<class T, class M = std::mutex> using staged_guarded = guarded<T, M>;
}}
