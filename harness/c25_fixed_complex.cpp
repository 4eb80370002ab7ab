#include "common.hpp"
#include <neo/fixed_point.hpp>

namespace {
template<typename I>
long clampi(long v)
{
    return std::clamp<long>(v, std::numeric_limits<I>::min(), std::numeric_limits<I>::max());
}
template<typename I>
long edge(Src& s)
{
    long const mx = std::numeric_limits<I>::max();
    long const mn = std::numeric_limits<I>::min();
    switch (s.below(4)) {
        case 0: return s.range(mn, mx);
        case 1: return s.pick<long>({0, 1, -1, mx, mn, mx - 1, mn + 1});
        case 2: return std::clamp<long>((1L << s.below(std::numeric_limits<I>::digits + 1)) * (s.flag() ? -1 : 1) + s.range(-2, 2), mn, mx);
        default: return s.flag() ? mx - s.range(0, 40) : mn + s.range(0, 40);
    }
}
long shr(long v, int f)
{
    long const d = 1L << f;
    return v >= 0 ? v / d : -((-v + d - 1) / d);
}
template<typename I, int F>
void arithmetic(Src& s)
{
    using Q = neo::fixed_point<I, F>;
    using Z = neo::fixed_point_complex<Q>;
    auto q  = [](long v) { return Q{neo::underlying_value, static_cast<I>(v)}; };
    long const ar = edge<I>(s), ai = edge<I>(s), br = edge<I>(s), bi = edge<I>(s);
    Z const a{q(ar), q(ai)};
    Z const b{q(br), q(bi)};
    s.note(fmt("%d-bit, %d fraction bits: (%ld,%ld) (%ld,%ld)", int(sizeof(I) * 8), F, ar, ai, br, bi));
    s.nontrivial((ar != 0 || ai != 0) && (br != 0 || bi != 0));
    auto eq = [](Z z, long re, long im, char const* what) { PBT_REQUIRE(z.real().value() == re && z.imag().value() == im, "%s: (%ld,%ld) instead of (%ld,%ld)", what, long(z.real().value()), long(z.imag().value()), re, im); };
    eq(a, ar, ai, "construction");
    eq(Z{}, 0, 0, "default construction");
    eq(Z{q(ar)}, ar, 0, "construction from a real number");
    Z t = a;
    t.real(q(br));
    eq(t, br, ai, "after setting the real part");
    t = a;
    t.imag(q(bi));
    eq(t, ar, bi, "after setting the imaginary part");
    eq(a + b, clampi<I>(ar + br), clampi<I>(ai + bi), "a+b");
    eq(a - b, clampi<I>(ar - br), clampi<I>(ai - bi), "a-b");
    eq(b - a, clampi<I>(br - ar), clampi<I>(bi - ai), "b-a");
    if constexpr (sizeof(I) == 2) {
        auto product = [&](long lr, long li, long rr, long ri, Z got, char const* what) {
            long const re = shr(lr * rr, 17) - shr(li * ri, 17);
            long const im = shr(lr * ri, 17) + shr(li * rr, 17);
            if (got.real().value() == re && got.imag().value() == im) { return; }
            // the imaginary part of the right operand is taken from the left one (see known_findings.txt)
            long const fre = shr(lr * rr, 17) - shr(li * li, 17);
            long const fim = shr(lr * li, 17) + shr(li * rr, 17);
            if (known_finding("product-uses-left-imag") && got.real().value() == fre && got.imag().value() == fim) {
                s.label("KNOWN:product-uses-left-imag");
                return;
            }
            eq(got, re, im, what);
        };
        product(ar, ai, br, bi, a * b, "a*b");
        product(br, bi, ar, ai, b * a, "b*a");
        product(ar, ai, ar, ai, a * a, "a*a");
        // right operand with the same imaginary part: also exact with the known finding
        Z const c{q(br), q(ai)};
        eq(a * c, shr(ar * br, 17) - shr(ai * ai, 17), shr(ar * ai, 17) + shr(ai * br, 17), "a*(b.re,a.im)");
    }
    static_assert(neo::complex<Z>);
}
}  // namespace
PBT_CHECK_T(a1, "complex_q7", 40000, 800000, arithmetic<std::int8_t, 7>)
PBT_CHECK_T(a2, "complex_q15", 60000, 1200000, arithmetic<std::int16_t, 15>)
PBT_CHECK_T(a3, "complex_q12", 30000, 600000, arithmetic<std::int16_t, 12>)
PBT_CHECK_T(a4, "complex_8bit_q4", 20000, 400000, arithmetic<std::int8_t, 4>)
