#include "common.hpp"
#include <neo/fixed_point.hpp>
#include <array>

namespace {
template<typename I>
long clampi(long v)
{
    return std::clamp<long>(v, std::numeric_limits<I>::min(), std::numeric_limits<I>::max());
}
long floor_shift(long v, int f)  // floor(v / 2^f)
{
    long const d = 1L << f;
    return v >= 0 ? v / d : -((-v + d - 1) / d);
}

template<typename I, int F>
void pair_ok(long a, long b)
{
    using Q = neo::fixed_point<I, F>;
    Q const x{neo::underlying_value, static_cast<I>(a)};
    Q const y{neo::underlying_value, static_cast<I>(b)};
    auto bad = [&](char const* op, long got, long want) { PBT_FAIL("%d-bit, %d fraction bits: %ld %s %ld gave %ld instead of %ld", int(sizeof(I) * 8), F, a, op, b, got, want); };
    if (long g = (x + y).value(); g != clampi<I>(a + b)) { bad("+", g, clampi<I>(a + b)); }
    if (long g = (x - y).value(); g != clampi<I>(a - b)) { bad("-", g, clampi<I>(a - b)); }
    if (long g = (x * y).value(); g != clampi<I>(floor_shift(a * b, F))) { bad("*", g, clampi<I>(floor_shift(a * b, F))); }
    if ((x == y) != (a == b)) { bad("==", x == y, a == b); }
    if ((x != y) != (a != b)) { bad("!=", x != y, a != b); }
    if ((x < y) != (a < b)) { bad("<", x < y, a < b); }
    if ((x <= y) != (a <= b)) { bad("<=", x <= y, a <= b); }
    if ((x > y) != (a > b)) { bad(">", x > y, a > b); }
    if ((x >= y) != (a >= b)) { bad(">=", x >= y, a >= b); }
}

template<typename I, int F>
void single_ok(long a)
{
    using Q = neo::fixed_point<I, F>;
    Q const x{neo::underlying_value, static_cast<I>(a)};
    PBT_REQUIRE(x.value() == a, "value %ld reads as %ld", a, long(x.value()));
    PBT_REQUIRE((+x).value() == a, "+%ld", a);
    PBT_REQUIRE((-x).value() == clampi<I>(-a), "negation of %ld (%d bits, %d fraction bits) gave %ld", a, int(sizeof(I) * 8), F, long((-x).value()));
    double const want = std::ldexp(static_cast<double>(a), -F);
    PBT_REQUIRE(neo::to_float(x) == want && static_cast<float>(x) == want, "%ld with %d fraction bits to float: %.9g / %.9g", a, F, double(neo::to_float(x)), double(static_cast<float>(x)));
    PBT_REQUIRE(neo::to_double(x) == want && static_cast<double>(x) == want, "%ld with %d fraction bits to double: %.17g", a, F, neo::to_double(x));
    PBT_REQUIRE(Q{neo::to_float(x)} == x, "round trip through float of %ld with %d fraction bits gives %ld", a, F, long(Q{neo::to_float(x)}.value()));
    PBT_REQUIRE(Q{neo::to_double(x)} == x, "round trip through double of %ld with %d fraction bits gives %ld", a, F, long(Q{neo::to_double(x)}.value()));
}

template<typename I>
long trunc_q(long double v, int f)
{
    auto const lo = static_cast<long double>(std::numeric_limits<I>::min());
    auto const hi = static_cast<long double>(std::numeric_limits<I>::max());
    return static_cast<long>(std::trunc(std::clamp(std::ldexp(v, f), lo, hi)));
}
template<typename I, int F>
void from_ok(float v)
{
    using Q        = neo::fixed_point<I, F>;
    long const want = trunc_q<I>(v, F);
    PBT_REQUIRE(Q{v}.value() == want, "%d-bit, %d fraction bits from %.9g (float): %ld instead of %ld", int(sizeof(I) * 8), F, double(v), long(Q{v}.value()), want);
    PBT_REQUIRE(Q{static_cast<double>(v)}.value() == want, "%d-bit, %d fraction bits from %.9g (double): %ld instead of %ld", int(sizeof(I) * 8), F, double(v), long(Q{static_cast<double>(v)}.value()), want);
}
template<typename I, int F>
void from_double_ok(double v)  // may be rounded to float first
{
    using Q        = neo::fixed_point<I, F>;
    long const a   = trunc_q<I>(v, F);
    long const b   = trunc_q<I>(static_cast<float>(v), F);
    long const got = Q{v}.value();
    PBT_REQUIRE(got == a || got == b, "%d-bit, %d fraction bits from %.17g (double): %ld instead of %ld", int(sizeof(I) * 8), F, v, got, a);
}

template<typename I, std::size_t... F, typename Fn>
void dispatch(int f, std::index_sequence<F...>, Fn fn)
{
    (void) ((int(F) == f ? (fn.template operator()<I, int(F)>(), true) : false) || ...);
}
template<typename I, typename Fn>
void with_bits(int f, Fn fn)
{
    dispatch<I>(f, std::make_index_sequence<std::numeric_limits<I>::digits + 1>{}, fn);
}

template<typename I>
long edge(Src& s)
{
    long const mx = std::numeric_limits<I>::max();
    long const mn = std::numeric_limits<I>::min();
    switch (s.below(4)) {
        case 0: return s.range(mn, mx);
        case 1: return s.pick<long>({0, 1, -1, mx, mn, mx - 1, mn + 1, 2, -2});
        case 2: return std::clamp<long>((1L << s.below(std::numeric_limits<I>::digits + 1)) * (s.flag() ? -1 : 1) + s.range(-2, 2), mn, mx);
        default: return s.flag() ? mx - s.range(0, 40) : mn + s.range(0, 40);
    }
}

void arith8(Src& s)  // one operand against all 256 others
{
    auto const f = static_cast<int>(s.below(8));
    auto const a = s.range(-128, 127);
    s.note(fmt("8-bit, %d fraction bits, %ld against all values", f, long(a)));
    s.nontrivial();
    with_bits<std::int8_t>(f, [&]<typename I, int F>() {
        single_ok<I, F>(a);
        for (long b = -128; b < 128; ++b) { pair_ok<I, F>(a, b); }
    });
}
void arith16(Src& s)
{
    auto const f = static_cast<int>(s.below(16));
    auto const a = edge<std::int16_t>(s);
    auto const k = s.size(1, 24);
    s.note(fmt("16-bit, %d fraction bits, %ld against %zu others", f, a, k));
    s.nontrivial(a != 0);
    with_bits<std::int16_t>(f, [&]<typename I, int F>() {
        single_ok<I, F>(a);
        for (std::size_t i = 0; i < k; ++i) {
            auto const b = edge<I>(s);
            pair_ok<I, F>(a, b);
            pair_ok<I, F>(b, a);
        }
        // the neighbours of the saturation boundary of + and -
        for (long d = -1; d <= 1; ++d) {
            for (long lim : {32767L, -32768L}) {
                pair_ok<I, F>(a, clampi<I>(lim - a + d));
                pair_ok<I, F>(a, clampi<I>(a - lim + d));
            }
        }
    });
}
void sweep16(Src& s)  // every value of a stripe, against one operand
{
    auto const f  = static_cast<int>(s.below(16));
    auto const b  = edge<std::int16_t>(s);
    auto const st = s.range(0, 63);
    s.note(fmt("16-bit, %d fraction bits, all values = %ld mod 64 against %ld", f, long(st), b));
    s.nontrivial();
    with_bits<std::int16_t>(f, [&]<typename I, int F>() {
        for (long a = -32768 + st; a < 32768; a += 64) {
            single_ok<I, F>(a);
            pair_ok<I, F>(a, b);
        }
    });
}
template<typename I>
void from_float(Src& s)
{
    auto const f    = static_cast<int>(s.below(std::numeric_limits<I>::digits + 1));
    auto const kind = s.below(6);
    float v         = 0;
    if (kind == 0) {  // any finite bit pattern
        do {
            auto const bits = static_cast<std::uint32_t>(s.below(1ULL << 32));
            std::memcpy(&v, &bits, 4);
            if (!std::isfinite(v)) { v = std::ldexp(1.0F, static_cast<int>(s.below(127))) * (s.flag() ? -1.0F : 1.0F); }
        } while (!std::isfinite(v));
    } else if (kind == 1) {  // on the grid or one float away from it
        v            = static_cast<float>(std::ldexp(static_cast<double>(edge<I>(s)), -f));
        auto const d = s.below(3);
        if (d == 1) { v = std::nextafter(v, 1e30F); }
        if (d == 2) { v = std::nextafter(v, -1e30F); }
    } else if (kind == 2) {  // between grid points
        v = static_cast<float>(std::ldexp(static_cast<double>(edge<I>(s)) + static_cast<double>(s.range(0, 255)) / 256.0, -f));
    } else if (kind == 3) {  // around the ends of the range
        double const end = s.flag() ? std::ldexp(double(std::numeric_limits<I>::max()), -f) : std::ldexp(double(std::numeric_limits<I>::min()), -f);
        v                = static_cast<float>(end + std::ldexp(static_cast<double>(s.range(-300, 300)) / 100.0, -f));
    } else if (kind == 4) {
        v = static_cast<float>(static_cast<double>(s.range(-4000, 4000)) / 1000.0);
    } else {
        v = s.pick({0.0F, -0.0F, 1.0F, -1.0F, std::numeric_limits<float>::max(), -std::numeric_limits<float>::max(), std::numeric_limits<float>::min(), std::numeric_limits<float>::denorm_min(), -std::numeric_limits<float>::denorm_min(), 0.999999F, -0.999999F, 1e10F, -1e10F, 2147483648.0F, -2147483648.0F});
    }
    s.note(fmt("%d-bit, %d fraction bits from %.9g", int(sizeof(I) * 8), f, double(v)));
    s.label(kind == 0 ? "any float" : kind <= 2 ? "near the grid" : "other");
    s.nontrivial(v != 0);
    double const w = static_cast<double>(v) + std::ldexp(static_cast<double>(s.range(-1000, 1000)), -40);
    with_bits<I>(f, [&]<typename J, int F>() {
        from_ok<J, F>(v);
        from_ok<J, F>(-v);
        from_double_ok<J, F>(w);
    });
}
}  // namespace
PBT_CHECK_T(a1, "arith_8bit", 6000, 60000, arith8)
PBT_CHECK_T(a2, "arith_16bit", 20000, 400000, arith16)
PBT_CHECK_T(a3, "sweep_16bit", 3000, 40000, sweep16)
PBT_CHECK_T(f1, "from_float_8bit", 30000, 600000, from_float<std::int8_t>)
PBT_CHECK_T(f2, "from_float_16bit", 30000, 600000, from_float<std::int16_t>)
