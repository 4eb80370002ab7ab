#include "common.hpp"
#include <neo/complex.hpp>
#include <neo/math.hpp>
#include <tuple>

// types of a user: the operations as members only, as free functions only, and both
namespace user {
template<typename B>
struct members
{
    B r, i;
    auto real() const noexcept { return r; }
    auto imag() const noexcept { return i; }
    auto conj() const noexcept { return members{r, -i}; }
    auto abs() const noexcept { return std::hypot(r, i); }
};
template<typename B>
struct frees
{
    B r, i;
    friend constexpr auto real(frees z) noexcept { return z.r; }
    friend constexpr auto imag(frees z) noexcept { return z.i; }
    friend constexpr auto conj(frees z) noexcept { return frees{z.r, -z.i}; }
    friend auto abs(frees z) noexcept { return std::hypot(z.r, z.i); }
};
template<typename B>
struct mixed
{
    B r, i;
    auto real() const noexcept { return r; }
    friend constexpr auto imag(mixed z) noexcept { return z.i; }
    auto conj() const noexcept { return mixed{r, -i}; }
    friend auto abs(mixed z) noexcept { return std::hypot(z.r, z.i); }
};
template<typename B>
struct angle
{
    B v;
    friend auto polar(angle r, angle t) noexcept { return frees<B>{r.v * std::cos(t.v), r.v * std::sin(t.v)}; }
    friend auto log2(angle x) noexcept { return angle{std::log2(x.v)}; }
};
}  // namespace user

namespace {
using oracle::cplx;
template<typename B>
constexpr long double ep()
{
    if constexpr (sizeof(B) == 2) {
        return 1.0L / 1024;
    } else {
        return std::numeric_limits<B>::epsilon();
    }
}
template<typename B>
constexpr char const* bname()
{
    return sizeof(B) == 2 ? "half" : sizeof(B) == 4 ? "float" : "double";
}
template<typename B>
B gen_part(Src& s)
{
    switch (s.below(5)) {
        case 0: return static_cast<B>(0.0F);
        case 1: return static_cast<B>(static_cast<float>(s.range(-8, 8)));
        case 2: return static_cast<B>(s.pick({1.0F, -1.0F, 0.5F, -0.5F, 0.25F}));
        case 3: return static_cast<B>(static_cast<float>(s.range(-2048, 2048)) / 512.0F);
        default: {
            auto const m = static_cast<float>(s.range(-(1 << 10), 1 << 10)) / 1024.0F;
            auto const w = sizeof(B) == 8 ? 200 : 28;
            auto const e = sizeof(B) == 2 ? s.range(-3, 4) : s.chance(1, 3) ? s.range(-w, w) : s.range(-12, 12);
            return static_cast<B>(std::ldexp(static_cast<double>(m), static_cast<int>(e)));
        }
    }
}
template<typename B>
void eq(neo::scalar_complex<B> got, B re, B im, char const* what)
{
    if (!(got.real() == re && got.imag() == im)) { PBT_FAIL("%s: (%g,%g) instead of (%g,%g)", what, double(got.real()), double(got.imag()), double(re), double(im)); }
}
template<typename Z>
void near(Z got, cplx want, long double tol, char const* what)
{
    auto const re = static_cast<long double>(got.real());
    auto const im = static_cast<long double>(got.imag());
    if (!(std::fabs(re - want.re) <= tol && std::fabs(im - want.im) <= tol)) { PBT_FAIL("%s: (%.12Lg,%.12Lg) instead of (%.12Lg,%.12Lg), tolerance %.3Lg", what, re, im, want.re, want.im, tol); }
}

template<typename B>
void arithmetic(Src& s)
{
    using Z     = neo::scalar_complex<B>;
    B const ar  = gen_part<B>(s);
    B const ai  = gen_part<B>(s);
    B const br  = gen_part<B>(s);
    B const bi  = gen_part<B>(s);
    B const k   = gen_part<B>(s);
    Z const a{ar, ai};
    Z const b{br, bi};
    s.note(fmt("%s (%g,%g) (%g,%g) scalar %g", bname<B>(), double(ar), double(ai), double(br), double(bi), double(k)));
    s.nontrivial((ar != B(0) || ai != B(0)) && (br != B(0) || bi != B(0)));
    cplx const A{static_cast<long double>(ar), static_cast<long double>(ai)};
    cplx const C{static_cast<long double>(br), static_cast<long double>(bi)};
    auto const K  = static_cast<long double>(k);
    auto const ma = std::hypot(A.re, A.im);
    auto const mb = std::hypot(C.re, C.im);
    auto const e  = ep<B>();
    long double const tiny = sizeof(B) == 2 ? 1e-6L : sizeof(B) == 4 ? 1e-42L : 1e-300L;

    cplx const sum{A.re + C.re, A.im + C.im};
    cplx const dif{A.re - C.re, A.im - C.im};
    cplx const prd{A.re * C.re - A.im * C.im, A.re * C.im + A.im * C.re};
    auto const ts = 2 * e * (ma + mb) + tiny;
    auto const tp = 4 * e * ma * mb + tiny;

    eq<B>(+a, ar, ai, "+a");
    eq<B>(-a, static_cast<B>(-ar), static_cast<B>(-ai), "-a");
    near(a + b, sum, ts, "a+b");
    near(a - b, dif, ts, "a-b");
    near(a * b, prd, tp, "a*b");
    Z t = a;
    PBT_REQUIRE(&(t += b) == &t, "+= does not return its operand");
    near(t, sum, ts, "a+=b");
    t = a;
    PBT_REQUIRE(&(t -= b) == &t, "-= does not return its operand");
    near(t, dif, ts, "a-=b");
    t = a;
    PBT_REQUIRE(&(t *= b) == &t, "*= does not return its operand");
    near(t, prd, tp, "a*=b");
    if (mb > 0) {
        auto const n2 = mb * mb;
        cplx const quo{(A.re * C.re + A.im * C.im) / n2, (A.im * C.re - A.re * C.im) / n2};
        // a subnormal |b|^2 loses precision, in half precision also the products do
        if (sizeof(B) != 2 || (n2 >= 0.001L && n2 < 4000 && ma * mb >= 0.001L && ma * mb < 4000 && ma / mb < 4000)) {
            auto const tq = 10 * e * ma / mb + tiny;
            near(a / b, quo, tq, "a/b");
            t = a;
            PBT_REQUIRE(&(t /= b) == &t, "/= does not return its operand");
            near(t, quo, tq, "a/=b");
            t = b;
            t /= t;
            near(t, {1, 0}, 10 * e, "b/=b");
        }
    }
    // both sides the same object
    t = a;
    t += t;
    near(t, {2 * A.re, 2 * A.im}, 4 * e * ma + tiny, "a+=a");
    t = a;
    t -= t;
    eq<B>(t, B(0), B(0), "a-=a");
    t = a;
    t *= t;
    near(t, {A.re * A.re - A.im * A.im, 2 * A.re * A.im}, 4 * e * ma * ma + tiny, "a*=a");
    // real factors
    t = a;
    PBT_REQUIRE(&(t *= k) == &t, "*= real does not return its operand");
    near(t, {A.re * K, A.im * K}, 2 * e * ma * std::fabs(K) + tiny, "a*=k");
    near(a * k, {A.re * K, A.im * K}, 4 * e * ma * std::fabs(K) + tiny, "a*k");
    near(k * a, {A.re * K, A.im * K}, 4 * e * ma * std::fabs(K) + tiny, "k*a");
    near(a + k, {A.re + K, A.im}, 2 * e * (ma + std::fabs(K)) + tiny, "a+k");
    near(k - a, {K - A.re, -A.im}, 2 * e * (ma + std::fabs(K)) + tiny, "k-a");
    if (k != B(0) && (sizeof(B) != 2 || std::fabs(K) > 0.01L)) {
        t = a;
        PBT_REQUIRE(&(t /= k) == &t, "/= real does not return its operand");
        near(t, {A.re / K, A.im / K}, 2 * e * ma / std::fabs(K) + tiny, "a/=k");
    }
    if constexpr (sizeof(B) != 2) {
        t = a;
        t *= 3;
        near(t, {A.re * 3, A.im * 3}, 6 * e * ma + tiny, "a*=3");
        t = a;
        t /= 4;
        near(t, {A.re / 4, A.im / 4}, e * ma + tiny, "a/=4");
    }
    // conjugate and magnitude
    eq<B>(neo::conj(a), ar, static_cast<B>(-ai), "conj(a)");
    eq<B>(neo::math::conj(a), ar, static_cast<B>(-ai), "math::conj(a)");
    if (sizeof(B) != 2 || ma < 200) {
        auto const tm = 4 * e * ma + (sizeof(B) == 2 ? 0.002L : tiny);
        require_close(static_cast<long double>(neo::abs(a)), ma, tm, "abs(a)");
        require_close(static_cast<long double>(neo::math::abs(a)), ma, tm, "math::abs(a)");
    }
    PBT_REQUIRE(neo::math::real(a) == ar && neo::math::imag(a) == ai, "math::real/imag");
    // parts
    PBT_REQUIRE(a.real() == ar && a.imag() == ai, "accessors");
    t = a;
    t.real(br);
    eq<B>(t, br, ai, "after setting the real part");
    t = a;
    t.imag(bi);
    eq<B>(t, ar, bi, "after setting the imaginary part");
    auto const [re, im] = a;
    PBT_REQUIRE(re == ar && im == ai, "structured binding gives (%g,%g)", double(re), double(im));
    PBT_REQUIRE(neo::get<0>(a) == ar && neo::get<1>(a) == ai, "get");
    static_assert(std::tuple_size_v<Z> == 2 && std::is_same_v<std::tuple_element_t<1, Z>, B>);
    eq<B>(Z{ar}, ar, B(0), "construction from a real number");
    eq<B>(Z(ar), ar, B(0), "conversion from a real number");
    // exact equality
    PBT_REQUIRE(neo::float_equality::exact(a, b) == (ar == br && ai == bi), "float_equality::exact(a, b)");
    PBT_REQUIRE(neo::float_equality::exact(a, Z(ar, ai)), "float_equality::exact(a, a)");
    PBT_REQUIRE(neo::float_equality::exact(a, Z(ar, bi)) == (ai == bi), "float_equality::exact with different imaginary part");
    PBT_REQUIRE(neo::float_equality::exact(a, Z(br, ai)) == (ar == br), "float_equality::exact with different real part");
    PBT_REQUIRE(neo::float_equality::exact(ar, br) == (ar == br), "float_equality::exact of reals");
}

// generic helpers on standard complex and plain numbers
template<typename B>
void helpers(Src& s)
{
    B const re = gen_part<B>(s);
    B const im = gen_part<B>(s);
    std::complex<B> const z{re, im};
    s.note(fmt("%s (%g,%g)", bname<B>(), double(re), double(im)));
    s.nontrivial(re != 0 && im != 0);
    auto const e = ep<B>();
    PBT_REQUIRE(neo::math::real(z) == re && neo::math::imag(z) == im, "math::real/imag of std::complex");
    PBT_REQUIRE(neo::math::real(re) == re, "math::real of a real number");
    if (neo::math::imag(re) != 0) {
        // math::imag of a real number is the number itself (see known_findings.txt)
        if (known_finding("imag-of-real") && neo::math::imag(re) == re) {
            s.label("KNOWN:imag-of-real");
        } else {
            PBT_FAIL("math::imag(%g) is %g", double(re), double(neo::math::imag(re)));
        }
    }
    auto const c = neo::math::conj(z);
    PBT_REQUIRE(c.real() == re && c.imag() == -im, "math::conj of std::complex");
    auto const mag = std::hypot(static_cast<long double>(re), static_cast<long double>(im));
    require_close(neo::math::abs(z), mag, 4 * e * mag + std::numeric_limits<B>::denorm_min(), "math::abs of std::complex");
    PBT_REQUIRE(neo::math::abs(re) == (re < 0 ? -re : re) && !std::signbit(neo::math::abs(re)), "math::abs(%g)", double(re));
    B const r  = re < 0 ? -re : re;
    B const th = static_cast<B>(im);
    auto const p = neo::math::polar(r, th);
    require_close(p.real(), static_cast<long double>(r) * std::cos(static_cast<long double>(th)), 4 * e * r + std::numeric_limits<B>::denorm_min(), "math::polar, real part");
    require_close(p.imag(), static_cast<long double>(r) * std::sin(static_cast<long double>(th)), 4 * e * r + std::numeric_limits<B>::denorm_min(), "math::polar, imaginary part");
    if (r > 0) {
        auto const l = std::log2(static_cast<long double>(r));
        require_close(neo::math::log2(r), l, 4 * e * std::fabs(l), "math::log2");
    }
    PBT_REQUIRE(neo::float_equality::exact(z, std::complex<B>(re, im)), "float_equality::exact");
    auto const up = [](B x) { return std::nextafter(x, std::numeric_limits<B>::max()); };
    PBT_REQUIRE(neo::float_equality::exact(z, std::complex<B>(re, up(im))) == false && neo::float_equality::exact(z, std::complex<B>(up(re), im)) == false, "float_equality::exact of different numbers");
    static_assert(neo::complex<std::complex<B>> && neo::complex<neo::scalar_complex<B>> && !neo::complex<B> && !neo::complex<int>);
}

template<typename Z, typename B>
void foreign(B re, B im, char const* name)
{
    Z const z{re, im};
    PBT_REQUIRE(neo::math::real(z) == re && neo::math::imag(z) == im, "math::real/imag of a type with %s", name);
    auto const c = neo::math::conj(z);
    PBT_REQUIRE(c.r == re && c.i == -im, "math::conj of a type with %s", name);
    PBT_REQUIRE(neo::math::abs(z) == std::hypot(re, im), "math::abs of a type with %s", name);
}
template<typename B>
void foreign_types(Src& s)
{
    B const re = gen_part<B>(s);
    B const im = gen_part<B>(s);
    s.note(fmt("%s (%g,%g)", bname<B>(), double(re), double(im)));
    s.nontrivial(re != 0 && im != 0);
    foreign<user::members<B>>(re, im, "members");
    foreign<user::frees<B>>(re, im, "free functions");
    foreign<user::mixed<B>>(re, im, "members and free functions");
    auto const p = neo::math::polar(user::angle<B>{re}, user::angle<B>{im});
    PBT_REQUIRE(p.r == re * std::cos(im) && p.i == re * std::sin(im), "math::polar of a type with a free function");
    if (re > 0) { PBT_REQUIRE(neo::math::log2(user::angle<B>{re}).v == std::log2(re), "math::log2 of a type with a free function"); }
}

template<typename I>
void integers(Src& s)
{
    auto const lo = std::is_signed_v<I> ? static_cast<std::int64_t>(std::numeric_limits<I>::min()) + 1 : 0;
    auto const bits = s.range(1, std::min(62, std::numeric_limits<I>::digits));
    auto const mag  = static_cast<std::int64_t>(s.below(1ULL << bits));
    auto const v    = std::is_signed_v<I> && s.flag() ? std::max(lo, -mag) : mag;
    s.note(fmt("%d-bit %s %ld", int(sizeof(I) * 8), std::is_signed_v<I> ? "signed" : "unsigned", long(v)));
    s.nontrivial(v != 0);
    PBT_REQUIRE(static_cast<std::int64_t>(neo::math::abs(static_cast<I>(v))) == (v < 0 ? -v : v), "math::abs(%ld) is %ld", long(v), long(neo::math::abs(static_cast<I>(v))));
    if (v > 0) {
        auto const l = std::log2(static_cast<long double>(v));
        require_close(neo::math::log2(static_cast<I>(v)), l, 4 * std::numeric_limits<double>::epsilon() * std::fabs(l), "math::log2");
    }
}
}  // namespace
PBT_CHECK_T(f1, "foreign_float", 2000, 40000, foreign_types<float>)
PBT_CHECK_T(f2, "foreign_double", 2000, 40000, foreign_types<double>)
PBT_CHECK_T(a1, "complex64", 30000, 600000, arithmetic<float>)
PBT_CHECK_T(a2, "complex128", 30000, 600000, arithmetic<double>)
#if defined(NEO_HAS_BUILTIN_FLOAT16)
PBT_CHECK_T(a3, "complex32", 15000, 300000, arithmetic<_Float16>)
#endif
PBT_CHECK_T(h1, "helpers_float", 15000, 300000, helpers<float>)
PBT_CHECK_T(h2, "helpers_double", 15000, 300000, helpers<double>)
PBT_CHECK_T(i1, "int8", 1500, 20000, integers<std::int8_t>)
PBT_CHECK_T(i2, "uint16", 1500, 20000, integers<std::uint16_t>)
PBT_CHECK_T(i3, "int32", 2000, 40000, integers<std::int32_t>)
PBT_CHECK_T(i4, "uint32", 2000, 40000, integers<std::uint32_t>)
PBT_CHECK_T(i5, "int64", 2000, 40000, integers<std::int64_t>)
