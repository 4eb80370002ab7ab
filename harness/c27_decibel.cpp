#include "common.hpp"
#include <neo/math.hpp>
#include <neo/unit.hpp>

namespace {
using neo::precision;
template<typename T>
T gen_gain(Src& s)
{
    switch (s.below(6)) {
        case 0: {  // any positive bit pattern below infinity
            if constexpr (sizeof(T) == 4) {
                auto const b = static_cast<std::uint32_t>(s.range(0, 0x7F7FFFFF));
                T v;
                std::memcpy(&v, &b, 4);
                return v;
            } else {
                auto const b = s.below(0x7FEFFFFFFFFFFFFFULL + 1);
                T v;
                std::memcpy(&v, &b, 8);
                return v;
            }
        }
        case 1: return std::ldexp(T(1) + static_cast<T>(s.range(0, 4095)) / T(4096), static_cast<int>(s.range(-40, 10)));
        case 2: return static_cast<T>(s.range(0, 2000)) / T(1000);
        case 3: return T(1) + static_cast<T>(s.range(-50, 50)) * std::numeric_limits<T>::epsilon();
        case 4: return s.pick({T(0), T(1), T(10), T(0.1), T(0.001), T(1e-7), T(6.3095734e-8), T(1e-8), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::max()});
        default: return std::pow(T(10), static_cast<T>(s.range(-2000, 400)) / T(200));
    }
}
template<typename T>
void decibel(Src& s)
{
    T gain = gen_gain<T>(s);
    if (s.chance(1, 8)) { gain = -gain; }
    bool const dflt = s.flag();
    T const floor   = dflt ? T(-144) : s.pick({T(-144), T(-100), T(-60), T(-96), T(0), T(6), T(-1000), static_cast<T>(s.range(-2000, 200)) / T(8), -std::numeric_limits<T>::infinity()});
    s.note(fmt("%s gain %.17g floor %s%g", type_name<T>(), double(gain), dflt ? "default " : "", double(floor)));
    s.label(gain <= 0 ? "zero or negative" : gain < std::numeric_limits<T>::min() ? "subnormal" : "normal");
    s.nontrivial(gain > 0 && gain != 1);
    T const acc = dflt ? neo::amplitude_to_db(gain) : neo::amplitude_to_db(gain, floor);
    T const ac2 = dflt ? neo::amplitude_to_db<precision::accurate>(gain) : neo::amplitude_to_db<precision::accurate>(gain, floor);
    T const est = dflt ? neo::amplitude_to_db<precision::estimate>(gain) : neo::amplitude_to_db<precision::estimate>(gain, floor);
    PBT_REQUIRE(acc >= floor && ac2 >= floor && est >= floor, "%.17g dB, %.17g dB, %.17g dB: below the floor", double(acc), double(ac2), double(est));
    if (gain <= 0) {
        PBT_REQUIRE(acc == floor && ac2 == floor && est == floor, "gain %g gives %g dB, %g dB, %g dB instead of the floor %g", double(gain), double(acc), double(ac2), double(est), double(floor));
        return;
    }
    long double const db   = 20 * std::log10(static_cast<long double>(gain));
    long double const want = std::max<long double>(floor, db);
    long double const tol  = 16 * eps<T>() * (std::fabs(db) + 0.0001L);
    require_close(acc, want, tol, "accurate");
    require_close(ac2, want, tol, "accurate (explicit)");
    auto const f = static_cast<float>(gain);
    if (std::isnormal(f)) { require_close(est, want, 0.01L, "estimate"); }
    // a larger gain
    T const more = s.flag() ? std::nextafter(gain, std::numeric_limits<T>::infinity()) : gain * (T(1) + static_cast<T>(s.range(0, 1000)) / T(100));
    if (std::isfinite(more)) {
        T const acc2 = neo::amplitude_to_db(more, floor);
        PBT_REQUIRE(acc2 >= acc - 2 * tol, "gain %.17g gives %.17g dB but the larger gain %.17g only %.17g dB", double(gain), double(acc), double(more), double(acc2));
        if (std::isnormal(f) && std::isnormal(static_cast<float>(more))) {
            PBT_REQUIRE(neo::amplitude_to_db<precision::estimate>(more, floor) >= est - T(0.02), "estimate decreases from gain %.17g to %.17g", double(gain), double(more));
        }
    }
}

void check_fast(std::uint32_t bits)
{
    float x;
    std::memcpy(&x, &bits, 4);
    double const l2 = std::log2(static_cast<double>(x));
    float const g2  = neo::fast_log2(x);
    float const g10 = neo::fast_log10(x);
    if (!(std::fabs(g2 - l2) <= 0.001)) { PBT_FAIL("fast_log2(%.9g) is %.9g instead of %.9g", double(x), double(g2), l2); }
    double const l10 = l2 * 0.30102999566398119521;
    if (!(std::fabs(g10 - l10) <= 0.001)) { PBT_FAIL("fast_log10(%.9g) is %.9g instead of %.9g", double(x), double(g10), l10); }
}
// 2048 (quick) or 65536 (thorough) neighbouring floats; there are 254 * 2^23 positive normal ones
void fast(Src& s)
{
    auto const e     = static_cast<std::uint32_t>(s.range(1, 254));
    auto const n     = s.thorough ? 65536U : 2048U;
    auto const block = static_cast<std::uint32_t>(s.below((1U << 23) / n));
    s.note(fmt("%u floats from exponent %u, mantissa %u", n, e, block * n));
    s.nontrivial();
    for (std::uint32_t i = 0; i < n; ++i) { check_fast((e << 23) | (block * n + i)); }
}
// a coarse sweep over all exponents
void fast_sweep(Src& s)
{
    auto const m = static_cast<std::uint32_t>(s.below(1U << 23));
    s.note(fmt("mantissa %u with all exponents", m));
    s.nontrivial();
    for (std::uint32_t e = 1; e < 255; ++e) { check_fast((e << 23) | m); }
}
}  // namespace
PBT_CHECK_T(d1, "decibel_float", 40000, 800000, decibel<float>)
PBT_CHECK_T(d2, "decibel_double", 40000, 800000, decibel<double>)
PBT_CHECK_T(f1, "fast_log_blocks", 3000, 60000, fast)
PBT_CHECK_T(f2, "fast_log_sweep", 4000, 100000, fast_sweep)
