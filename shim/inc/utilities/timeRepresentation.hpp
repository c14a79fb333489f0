/* Stand-in for GMLC-TDC/utilities timeRepresentation.hpp (git submodule, empty in this checkout).
   ASSUMED DEPENDENCY: int64 nanosecond count with plain integer ordering/addition and saturating
   conversion from double. Listed in the trusted base of every check that uses it. */
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <iosfwd>
#include <limits>
#include <ratio>
#include <string>
enum class time_units : int { ps = 0, ns = 1, us = 2, ms = 3, s = 4, sec = 4, minutes = 5, hr = 6, day = 7, week = 8 };
constexpr double timeCountForward[9] = {1e12, 1e9, 1e6, 1e3, 1.0, 1.0 / 60.0, 1.0 / 3600.0, 1.0 / 86400.0, 1.0 / 604800.0};
constexpr double toSecondMultiplier[9] = {1e-12, 1e-9, 1e-6, 1e-3, 1.0, 60.0, 3600.0, 86400.0, 604800.0};
constexpr std::int64_t helics_shim_pow10(int n) { return n == 0 ? 1 : 10 * helics_shim_pow10(n - 1); }
template<int N, typename base = std::int64_t>
class count_time {
  public:
    using baseType = base;
    static constexpr baseType iFactor = helics_shim_pow10(N);
    static constexpr double dFactor = static_cast<double>(helics_shim_pow10(N));
    static constexpr double ddivFactor = 1.0 / static_cast<double>(helics_shim_pow10(N));
    static constexpr baseType maxVal() noexcept { return (std::numeric_limits<baseType>::max)(); }
    static constexpr baseType minVal() noexcept { return (std::numeric_limits<baseType>::min)() + 1; }
    static constexpr baseType zeroVal() noexcept { return 0; }
    static constexpr baseType epsilon() noexcept { return 1; }
    static constexpr baseType convert(double t) noexcept
    {
        return (t >= static_cast<double>(maxVal()) / dFactor) ? maxVal() :
            ((t <= static_cast<double>(minVal()) / dFactor) ? minVal() :
             static_cast<baseType>((t >= 0.0) ? (t * dFactor + 0.5) : (t * dFactor - 0.5)));
    }
    static constexpr double toDouble(baseType val) noexcept
    {
        return static_cast<double>(val / iFactor) + static_cast<double>(val % iFactor) * ddivFactor;
    }
    static constexpr baseType toCount(baseType v, time_units u) noexcept
    {
        switch (u) {
            case time_units::ns: return v / (iFactor / 1000000000);
            case time_units::us: return v / (iFactor / 1000000);
            case time_units::ms: return v / (iFactor / 1000);
            case time_units::s: return v / iFactor;
            default: return static_cast<baseType>(toDouble(v) * timeCountForward[static_cast<int>(u)]);
        }
    }
    static constexpr baseType fromCount(baseType v, time_units u) noexcept
    {
        switch (u) {
            case time_units::ns: return v * (iFactor / 1000000000);
            case time_units::us: return v * (iFactor / 1000000);
            case time_units::ms: return v * (iFactor / 1000);
            case time_units::s: return v * iFactor;
            default: return convert(static_cast<double>(v) * toSecondMultiplier[static_cast<int>(u)]);
        }
    }
};
template<class Tconv>
class TimeRepresentation {
  public:
    using baseType = typename Tconv::baseType;
  private:
    baseType timecode_{Tconv::zeroVal()};
    struct code_tag {};
    constexpr TimeRepresentation(code_tag, baseType b) noexcept: timecode_(b) {}
  public:
    constexpr TimeRepresentation() = default;
    constexpr TimeRepresentation(double t) noexcept: timecode_(Tconv::convert(t)) {}
    constexpr TimeRepresentation(baseType c, time_units u) noexcept: timecode_(Tconv::fromCount(c, u)) {}
    template<class R, class P>
    constexpr TimeRepresentation(const std::chrono::duration<R, P>& d) noexcept:
        timecode_(std::chrono::duration_cast<std::chrono::duration<baseType, std::ratio<1, Tconv::iFactor>>>(d).count()) {}
    static constexpr TimeRepresentation fromCode(baseType b) noexcept { return TimeRepresentation(code_tag{}, b); }
    static constexpr TimeRepresentation maxVal() noexcept { return fromCode(Tconv::maxVal()); }
    static constexpr TimeRepresentation minVal() noexcept { return fromCode(Tconv::minVal()); }
    static constexpr TimeRepresentation zeroVal() noexcept { return fromCode(Tconv::zeroVal()); }
    static constexpr TimeRepresentation epsilon() noexcept { return fromCode(Tconv::epsilon()); }
    constexpr baseType getBaseTimeCode() const noexcept { return timecode_; }
    constexpr void setBaseTimeCode(baseType b) noexcept { timecode_ = b; }
    constexpr baseType toCount(time_units u) const noexcept { return Tconv::toCount(timecode_, u); }
    constexpr std::int64_t seconds() const noexcept { return timecode_ / Tconv::iFactor; }
    std::chrono::milliseconds to_ms() const { return std::chrono::milliseconds(Tconv::toCount(timecode_, time_units::ms)); }
    std::chrono::nanoseconds to_ns() const { return std::chrono::nanoseconds(Tconv::toCount(timecode_, time_units::ns)); }
    explicit constexpr operator double() const noexcept { return Tconv::toDouble(timecode_); }
    constexpr TimeRepresentation& operator+=(const TimeRepresentation& r) noexcept { timecode_ += r.timecode_; return *this; }
    constexpr TimeRepresentation& operator-=(const TimeRepresentation& r) noexcept { timecode_ -= r.timecode_; return *this; }
    constexpr TimeRepresentation operator+(const TimeRepresentation& r) const noexcept { return fromCode(timecode_ + r.timecode_); }
    constexpr TimeRepresentation operator-(const TimeRepresentation& r) const noexcept { return fromCode(timecode_ - r.timecode_); }
    constexpr TimeRepresentation operator-() const noexcept { return fromCode(-timecode_); }
    constexpr TimeRepresentation operator*(double m) const noexcept { return TimeRepresentation(Tconv::toDouble(timecode_) * m); }
    constexpr TimeRepresentation operator*(int m) const noexcept { return fromCode(timecode_ * m); }
    friend constexpr TimeRepresentation operator*(double m, const TimeRepresentation& t) noexcept { return t * m; }
    friend constexpr TimeRepresentation operator*(int m, const TimeRepresentation& t) noexcept { return t * m; }
    constexpr TimeRepresentation operator/(double d) const noexcept { return TimeRepresentation(Tconv::toDouble(timecode_) / d); }
    constexpr TimeRepresentation operator/(int d) const noexcept { return fromCode(timecode_ / d); }
    constexpr double operator/(const TimeRepresentation& o) const noexcept { return Tconv::toDouble(timecode_) / Tconv::toDouble(o.timecode_); }
    constexpr bool operator==(const TimeRepresentation& r) const noexcept { return timecode_ == r.timecode_; }
    constexpr bool operator!=(const TimeRepresentation& r) const noexcept { return timecode_ != r.timecode_; }
    constexpr bool operator<(const TimeRepresentation& r) const noexcept { return timecode_ < r.timecode_; }
    constexpr bool operator>(const TimeRepresentation& r) const noexcept { return timecode_ > r.timecode_; }
    constexpr bool operator<=(const TimeRepresentation& r) const noexcept { return timecode_ <= r.timecode_; }
    constexpr bool operator>=(const TimeRepresentation& r) const noexcept { return timecode_ >= r.timecode_; }
};
