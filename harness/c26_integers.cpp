#include "common.hpp"
#include <neo/bit.hpp>
#include <neo/fft/order.hpp>
#include <neo/math.hpp>

namespace {
using u128 = unsigned __int128;
using i128 = __int128;

template<typename I>
constexpr int width = std::numeric_limits<std::make_unsigned_t<I>>::digits;

// values of all magnitudes: around powers of two, small, uniform
template<typename U>
U gen_u(Src& s)
{
    using W = std::make_unsigned_t<U>;
    switch (s.below(3)) {
        case 0: {
            auto const k = s.below(static_cast<std::uint64_t>(std::numeric_limits<U>::digits));
            return static_cast<U>(static_cast<W>((W(1) << k) + static_cast<W>(s.range(-3, 3))) & static_cast<W>(std::numeric_limits<U>::max()));
        }
        case 1: return static_cast<U>(s.range(0, 127));
        default: return static_cast<U>(static_cast<W>(s.below(0) >> s.below(64)) & static_cast<W>(std::numeric_limits<U>::max()));
    }
}
template<typename I>
std::string str(I v)
{
    return std::is_signed_v<I> ? std::to_string(static_cast<long long>(v)) : std::to_string(static_cast<unsigned long long>(v));
}

template<typename U>
void check_log2(U x)
{
    if (x == 0) { return; }
    int want = 0;
    while ((u128(1) << (want + 1)) <= x) { ++want; }
    PBT_REQUIRE(neo::bit_log2(x) == static_cast<U>(want), "bit_log2(%s) of %d bits is %s instead of %d", str(x).c_str(), width<U>, str(neo::bit_log2(x)).c_str(), want);
}
template<typename U>
void check_ceil(U x)
{
    if (x > static_cast<U>(U(1) << (width<U> - 1))) { return; }
    u128 want = 1;
    while (want < x) { want <<= 1; }
    PBT_REQUIRE(neo::bit_ceil(x) == want, "bit_ceil(%s) of %d bits is %s", str(x).c_str(), width<U>, str(neo::bit_ceil(x)).c_str());
    PBT_REQUIRE(neo::detail::bit_ceil_fallback(x) == want, "bit_ceil_fallback(%s) of %d bits is %s", str(x).c_str(), width<U>, str(neo::detail::bit_ceil_fallback(x)).c_str());
}
template<typename I>
void check_order(I x)
{
    if (x < 1 || static_cast<u128>(x) > (u128(1) << (width<I> - 1))) { return; }
    int want = 0;
    while ((u128(1) << want) < static_cast<u128>(x)) { ++want; }
    PBT_REQUIRE(neo::fft::next_order(x) == static_cast<I>(want), "next_order(%s) of %d bits is %s instead of %d", str(x).c_str(), width<I>, str(neo::fft::next_order(x)).c_str(), want);
    if (want < std::numeric_limits<I>::digits) { PBT_REQUIRE(static_cast<u128>(neo::fft::size(static_cast<I>(want))) == (u128(1) << want), "fft::size(%d) is %s", want, str(neo::fft::size(static_cast<I>(want))).c_str()); }
}
template<typename I>
void check_parity(I x)
{
    bool const odd = x % 2 != 0;
    PBT_REQUIRE(neo::is_odd(x) == odd && neo::is_even(x) == !odd, "parity of %s", str(x).c_str());
}
template<typename I>
void check_idiv(I x, I y)
{
    if (x < 0 || y <= 0) { return; }
    i128 const X = x, Y = y;
    if (X + Y > static_cast<i128>(std::numeric_limits<I>::max())) { return; }
    i128 const want = X / Y + (X % Y != 0 ? 1 : 0);
    PBT_REQUIRE(static_cast<i128>(neo::idiv(x, y)) == want, "idiv(%s, %s) of %d bits is %s", str(x).c_str(), str(y).c_str(), width<I>, str(neo::idiv(x, y)).c_str());
}

template<typename U>
void unsigned_(Src& s)
{
    U const x = gen_u<U>(s);
    U const y = gen_u<U>(s);
    s.note(fmt("%d-bit unsigned %s, %s", width<U>, str(x).c_str(), str(y).c_str()));
    s.nontrivial(x > 1);
    check_log2(x);
    check_ceil(x);
    check_order(x);
    check_parity(x);
    check_idiv(x, y);
    check_idiv(x, U(1));
    check_idiv(x, static_cast<U>(x == 0 ? 1 : x));
    check_idiv(static_cast<U>(std::numeric_limits<U>::max() - x), x);  // dividend + divisor is just representable
    check_idiv(static_cast<U>(std::numeric_limits<U>::max() - x), static_cast<U>(x / 2));
}
template<typename I>
void signed_(Src& s)
{
    auto draw = [&] { I v = gen_u<I>(s); return s.flag() ? static_cast<I>(-v) : v; };
    I const x = draw();
    I const y = draw();
    s.note(fmt("%d-bit signed %s, %s", width<I>, str(x).c_str(), str(y).c_str()));
    s.nontrivial(x != 0);
    check_order(x);
    check_parity(x);
    check_idiv(x, y);
    check_idiv(y, x);
    if (x > 0) { check_idiv(static_cast<I>(std::numeric_limits<I>::max() - x), x); }
    check_idiv(static_cast<I>(std::numeric_limits<I>::max() - 1), I(1));
}
// whole 16-bit (and 8-bit) range in blocks of 256
void small(Src& s)
{
    auto const block = static_cast<unsigned>(s.below(256));
    s.note(fmt("all 16-bit numbers from %u", block * 256));
    s.nontrivial();
    for (unsigned i = 0; i < 256; ++i) {
        auto const x = static_cast<std::uint16_t>(block * 256 + i);
        check_log2(x);
        check_ceil(x);
        check_order(x);
        check_order(static_cast<std::int16_t>(x));
        check_parity(static_cast<std::int16_t>(x));
        auto const b = static_cast<std::uint8_t>(i);
        check_log2(b);
        check_ceil(b);
        check_order(b);
        check_order(static_cast<std::int8_t>(b));
        check_idiv(b, static_cast<std::uint8_t>(block));
        check_idiv(static_cast<std::int8_t>(b), static_cast<std::int8_t>(block));
    }
}

template<typename I>
bool power(I base, unsigned e, i128& out)  // false: not representable
{
    i128 r = 1;
    for (unsigned i = 0; i < e; ++i) {
        if (__builtin_mul_overflow(r, static_cast<i128>(base), &r)) { return false; }
        if (r > static_cast<i128>(std::numeric_limits<I>::max()) || r < static_cast<i128>(std::numeric_limits<I>::min())) { return false; }
    }
    out = r;
    return true;
}
template<typename I, I Base>
void check_base(unsigned e)
{
    i128 want = 0;
    if (!power<I>(Base, e, want)) { return; }
    PBT_REQUIRE(static_cast<i128>(neo::ipow<Base>(static_cast<I>(e))) == want, "ipow<%s>(%u) of %d bits is %s", str(Base).c_str(), e, width<I>, str(neo::ipow<Base>(static_cast<I>(e))).c_str());
}
template<typename I>
void powers(Src& s)
{
    // base of any size; the exponent up to the largest representable power
    I base = s.flag() ? static_cast<I>(s.range(0, 20)) : gen_u<I>(s);
    if (std::is_signed_v<I> && s.flag()) { base = static_cast<I>(-base); }
    unsigned const e = static_cast<unsigned>(s.below(std::min(width<I> + 1, 65)));
    s.note(fmt("%d-bit %s^%u and the compile-time bases", width<I>, str(base).c_str(), e));
    s.nontrivial(e > 1);
    i128 want = 0;
    for (unsigned k = 0; k <= e; ++k) {
        if (k > static_cast<u128>(std::numeric_limits<I>::max()) || !power<I>(base, k, want)) { break; }
        PBT_REQUIRE(static_cast<i128>(neo::ipow(base, static_cast<I>(k))) == want, "ipow(%s, %u) of %d bits is %s", str(base).c_str(), k, width<I>, str(neo::ipow(base, static_cast<I>(k))).c_str());
    }
    check_base<I, 0>(e);
    check_base<I, 1>(e);
    check_base<I, 2>(e);
    check_base<I, 3>(e);
    check_base<I, 4>(e);
    check_base<I, 5>(e);
    check_base<I, 6>(e);
    check_base<I, 7>(e);
    check_base<I, 8>(e);
    check_base<I, 9>(e);
    check_base<I, 10>(e);
    check_base<I, 15>(e);
    check_base<I, 16>(e);
    check_base<I, 17>(e);
    check_base<I, 32>(e);
    check_base<I, 64>(e);
    check_base<I, 100>(e);
    if constexpr (std::is_signed_v<I>) {
        check_base<I, -1>(e);
        check_base<I, -2>(e);
        check_base<I, -3>(e);
    }
}

void casts(Src& s)
{
    auto const v = s.below(0);
    s.note(fmt("bit pattern %016lx", (unsigned long) v));
    s.nontrivial(v != 0);
    auto const d = neo::bit_cast<double>(v);
    std::uint64_t back = 0;
    std::memcpy(&back, &d, 8);
    PBT_REQUIRE(back == v, "bit_cast<double>");
    PBT_REQUIRE(neo::bit_cast<std::uint64_t>(d) == v, "bit_cast<uint64_t>");
    auto const w = static_cast<std::uint32_t>(v);
    auto const f = neo::bit_cast<float>(w);
    PBT_REQUIRE(std::memcmp(&f, &w, 4) == 0 && neo::bit_cast<std::uint32_t>(f) == w && neo::bit_cast<std::int32_t>(f) == static_cast<std::int32_t>(w), "bit_cast of 32 bits");
    auto const a = neo::bit_cast<std::array<std::uint16_t, 4>>(v);
    PBT_REQUIRE(std::memcmp(a.data(), &v, 8) == 0 && neo::bit_cast<std::uint64_t>(a) == v, "bit_cast of an array");
}
}  // namespace
PBT_CHECK_T(u1, "uint8", 5000, 50000, unsigned_<std::uint8_t>)
PBT_CHECK_T(u2, "uint16", 10000, 200000, unsigned_<std::uint16_t>)
PBT_CHECK_T(u3, "uint32", 30000, 600000, unsigned_<std::uint32_t>)
PBT_CHECK_T(u4, "uint64", 30000, 600000, unsigned_<std::uint64_t>)
PBT_CHECK_T(i1, "int8", 5000, 50000, signed_<std::int8_t>)
PBT_CHECK_T(i2, "int16", 10000, 200000, signed_<std::int16_t>)
PBT_CHECK_T(i3, "int32", 30000, 600000, signed_<std::int32_t>)
PBT_CHECK_T(i4, "int64", 30000, 600000, signed_<std::int64_t>)
PBT_CHECK_T(w1, "whole_16bit", 3000, 20000, small)
PBT_CHECK_T(p1, "ipow_int8", 3000, 40000, powers<std::int8_t>)
PBT_CHECK_T(p2, "ipow_uint8", 3000, 40000, powers<std::uint8_t>)
PBT_CHECK_T(p3, "ipow_int16", 3000, 40000, powers<std::int16_t>)
PBT_CHECK_T(p4, "ipow_int32", 5000, 100000, powers<std::int32_t>)
PBT_CHECK_T(p5, "ipow_uint32", 5000, 100000, powers<std::uint32_t>)
PBT_CHECK_T(p6, "ipow_int64", 5000, 100000, powers<std::int64_t>)
PBT_CHECK_T(p7, "ipow_uint64", 5000, 100000, powers<std::uint64_t>)
PBT_CHECK_T(c1, "bit_cast", 5000, 100000, casts)
