#include "common.hpp"
#include <neo/fixed_point.hpp>
#include <span>

namespace {
template<typename I>
long clampi(long v)
{
    return std::clamp<long>(v, std::numeric_limits<I>::min(), std::numeric_limits<I>::max());
}
long floor_shift(long v, int f)
{
    long const d = 1L << f;
    return v >= 0 ? v / d : -((-v + d - 1) / d);
}
template<typename I>
void require_result(long a, long b, long got, char op, int f, std::size_t i)
{
    if (op == '*') {
        long const want = clampi<I>(floor_shift(a * b, f));
        if (!(std::labs(got - want) <= 1) || (a * b >= 0 && got < 0) || (a * b <= 0 && got > 0)) { PBT_FAIL("[%zu] %ld * %ld (%d fraction bits) gave %ld instead of %ld", i, a, b, f, got, want); }
    } else {
        long const want = clampi<I>(op == '+' ? a + b : a - b);
        if (got != want) { PBT_FAIL("[%zu] %ld %c %ld gave %ld instead of %ld", i, a, op, b, got, want); }
    }
}
template<typename I>
std::vector<I> gen_ints(Src& s, std::size_t n, long step = 0)
{
    std::vector<I> v(n);
    long const mn = std::numeric_limits<I>::min();
    long const mx = std::numeric_limits<I>::max();
    auto one      = [&](auto draw) -> long {
        switch (draw(6)) {
            case 0: return mn;
            case 1: return mx;
            case 2: return std::clamp<long>((draw(2) != 0 ? -1 : 1) * (1L << draw(std::numeric_limits<I>::digits + 1)) + static_cast<long>(draw(3)) - 1, mn, mx);
            case 3: return static_cast<long>(draw(5)) - 2;
            default: return mn + static_cast<long>(draw(static_cast<std::uint64_t>(mx - mn) + 1));
        }
    };
    (void) step;
    if (n <= 20) {
        for (auto& x : v) { x = static_cast<I>(one([&](std::uint64_t k) { return s.below(k); })); }
    } else {
        pbt::Rng r{s.below(0)};
        for (auto& x : v) { x = static_cast<I>(one([&](std::uint64_t k) { return r.next() % k; })); }
    }
    return v;
}
// guarded buffer of fixed-point numbers at an offset
template<typename Q>
struct FBuf
{
    pbt::Mem<Q> mem;
    std::size_t n;
    std::size_t off;
    static constexpr int guard = 0x55;
    template<typename I>
    FBuf(std::vector<I> const& v, std::size_t o) : mem(v.size() + o + 70, Q{neo::underlying_value, static_cast<typename Q::storage_type>(guard)}), n(v.size()), off(o)
    {
        for (std::size_t i = 0; i < n; ++i) { mem[off + i] = Q{neo::underlying_value, v[i]}; }
    }
    Q* data() { return mem.data() + off; }
    long at(std::size_t i) const { return mem[off + i].value(); }
    void check(char const* what) const
    {
        for (std::size_t i = 0; i < mem.size(); ++i) {
            if ((i < off || i >= off + n) && mem[i].value() != guard) { PBT_FAIL("%s: memory outside of the buffer changed at %zd of %zu", what, std::ptrdiff_t(i) - std::ptrdiff_t(off), n); }
        }
    }
};

template<typename I, int F>
void buffers(Src& s)
{
    using Q         = neo::fixed_point<I, F>;
    auto const op   = s.pick({'+', '-', '*'});
    auto const n    = s.chance(1, 5) ? gen_length(s, 0, 600) : s.size(0, 80);
    auto const al   = static_cast<int>(s.below(5));  // 0 separate 1 out=lhs 2 out=rhs 3 lhs=rhs 4 all
    static char const* const an[] = {"separate", "out=lhs", "out=rhs", "lhs=rhs", "all the same"};
    auto const v0   = gen_ints<I>(s, n);
    auto const v1   = gen_ints<I>(s, n);
    FBuf<Q> b0(v0, s.size(0, 17));
    FBuf<Q> b1(v1, s.size(0, 17));
    FBuf<Q> b2(std::vector<I>(n, I(3)), s.size(0, 17));
    auto& l = b0;
    auto& r = al == 3 || al == 4 ? b0 : b1;
    auto& o = al == 1 || al == 4 ? b0 : al == 2 ? b1 : b2;
    s.note(fmt("%d-bit, %d fraction bits, %c, n=%zu, offsets %zu,%zu,%zu, %s", int(sizeof(I) * 8), F, op, n, l.off, r.off, o.off, an[al]));
    s.label(fmt("%d-bit %c %s", int(sizeof(I) * 8), op, an[al]));
    s.nontrivial(n >= 2);
    std::span<Q const> const ls(l.data(), n);
    std::span<Q const> const rs(r.data(), n);
    std::span<Q> const os(o.data(), n);
    if (op == '+') { neo::add(ls, rs, os); }
    if (op == '-') { neo::subtract(ls, rs, os); }
    if (op == '*') { neo::multiply(ls, rs, os); }
    auto const& rv = al == 3 || al == 4 ? v0 : v1;
    for (std::size_t i = 0; i < n; ++i) { require_result<I>(v0[i], rv[i], o.at(i), op, F, i); }
    b0.check("first");
    b1.check("second");
    b2.check("third");
    for (std::size_t i = 0; i < n; ++i) {
        if (&o != &b0 && b0.at(i) != v0[i]) { PBT_FAIL("first input changed at %zu", i); }
        if (&o != &b1 && b1.at(i) != v1[i]) { PBT_FAIL("second input changed at %zu", i); }
    }
}
// compile-time extents
template<typename I, int F, std::size_t N>
void fixed_extent(Src& s)
{
    using Q       = neo::fixed_point<I, F>;
    auto const op = s.pick({'+', '-', '*'});
    auto const v0 = gen_ints<I>(s, N);
    auto const v1 = gen_ints<I>(s, N);
    FBuf<Q> l(v0, s.size(0, 5)), r(v1, s.size(0, 5)), o(v1, s.size(0, 5));
    s.note(fmt("%d-bit, %d fraction bits, %c, fixed extent %zu", int(sizeof(I) * 8), F, op, N));
    s.nontrivial();
    std::span<Q const, N> const ls(l.data(), N);
    std::span<Q const, N> const rs(r.data(), N);
    std::span<Q, N> const os(o.data(), N);
    if (op == '+') { neo::add(ls, rs, os); }
    if (op == '-') { neo::subtract(ls, rs, os); }
    if (op == '*') { neo::multiply(ls, rs, os); }
    for (std::size_t i = 0; i < N; ++i) { require_result<I>(v0[i], v1[i], o.at(i), op, F, i); }
    o.check("out");
}

// one operand against every value of the other, through the buffer functions
template<typename I, int F>
void against_all(Src& s)
{
    using Q         = neo::fixed_point<I, F>;
    auto const op   = s.pick({'+', '-', '*'});
    auto const a    = gen_ints<I>(s, 1)[0];
    auto const from = sizeof(I) == 1 ? -128L : s.range(-32768, 32767 - 4095);
    auto const n    = sizeof(I) == 1 ? std::size_t(256) : std::size_t(4096);
    std::vector<I> v(n);
    for (std::size_t i = 0; i < n; ++i) { v[i] = static_cast<I>(from + static_cast<long>(i)); }
    FBuf<Q> l(std::vector<I>(n, a), s.size(0, 3)), r(v, s.size(0, 3)), o(v, s.size(0, 3));
    auto const swap = s.flag();
    s.note(fmt("%d-bit, %d fraction bits, %ld %c %ld..%ld%s", int(sizeof(I) * 8), F, long(a), op, from, from + long(n) - 1, swap ? " (exchanged)" : ""));
    s.nontrivial();
    std::span<Q const> const ls(swap ? r.data() : l.data(), n);
    std::span<Q const> const rs(swap ? l.data() : r.data(), n);
    std::span<Q> const os(o.data(), n);
    if (op == '+') { neo::add(ls, rs, os); }
    if (op == '-') { neo::subtract(ls, rs, os); }
    if (op == '*') { neo::multiply(ls, rs, os); }
    for (std::size_t i = 0; i < n; ++i) { require_result<I>(swap ? v[i] : a, swap ? a : v[i], o.at(i), op, F, i); }
}


template<typename I, std::size_t... F>
auto const& fn_table(std::index_sequence<F...>)
{
    static constexpr void (*t[])(Src&) = {&buffers<I, int(F)>...};
    return t;
}
template<typename I, std::size_t... F>
auto const& all_table(std::index_sequence<F...>)
{
    static constexpr void (*t[])(Src&) = {&against_all<I, int(F)>...};
    return t;
}
// fraction widths: the named types Q7/Q15 half of the time
template<typename I>
void any_bits(Src& s)
{
    constexpr int D = std::numeric_limits<I>::digits;
    auto const f    = s.flag() ? std::size_t(D) : s.below(D + 1);
    fn_table<I>(std::make_index_sequence<D + 1>{})[f](s);
}
template<typename I>
void any_bits_all(Src& s)
{
    constexpr int D = std::numeric_limits<I>::digits;
    auto const f    = s.flag() ? std::size_t(D) : s.below(D + 1);
    all_table<I>(std::make_index_sequence<D + 1>{})[f](s);
}

template<typename B>
constexpr bool can_mul = requires(B b) { b * b; };

template<typename B>
void batch(Src& s)
{
    using Q         = typename B::value_type;
    using I         = typename Q::storage_type;
    constexpr auto N = static_cast<std::size_t>(B::size);
    static_assert(sizeof(B) == N * sizeof(Q));
    static_assert(static_cast<std::size_t>(B::alignment) == alignof(typename B::register_type));
    auto const v0 = gen_ints<I>(s, N);
    auto const v1 = gen_ints<I>(s, N);
    FBuf<Q> a(v0, s.size(0, 9)), b(v1, s.size(0, 9)), o(v1, s.size(0, 9));
    auto const op = s.below(can_mul<B> ? 5 : 4);
    static char const* const names[] = {"load/store", "broadcast", "+", "-", "*"};
    s.note(fmt("batch of %zu %d-bit numbers, %s, offsets %zu,%zu,%zu", N, int(sizeof(I) * 8), names[op], a.off, b.off, o.off));
    s.label(fmt("batch %zux%d %s", N, int(sizeof(I) * 8), names[op]));
    s.nontrivial();
    B const x = B::load_unaligned(a.data());
    B const y = B::load_unaligned(b.data());
    switch (op) {
        case 0: x.store_unaligned(o.data()); break;
        case 1: B::broadcast(Q{neo::underlying_value, v0[0]}).store_unaligned(o.data()); break;
        case 2: (x + y).store_unaligned(o.data()); break;
        case 3: (x - y).store_unaligned(o.data()); break;
        default:
            if constexpr (can_mul<B>) { (x * y).store_unaligned(o.data()); }
            break;
    }
    for (std::size_t i = 0; i < N; ++i) {
        if (op == 0) { PBT_REQUIRE(o.at(i) == v0[i], "lane %zu: stored %ld instead of %ld", i, o.at(i), long(v0[i])); }
        if (op == 1) { PBT_REQUIRE(o.at(i) == v0[0], "lane %zu: broadcast %ld instead of %ld", i, o.at(i), long(v0[0])); }
        if (op >= 2) { require_result<I>(v0[i], v1[i], o.at(i), op == 2 ? '+' : op == 3 ? '-' : '*', Q::fractional_bits, i); }
    }
    a.check("left");
    b.check("right");
    o.check("out");
    // construction from the register and back
    B const again{static_cast<typename B::register_type>(x)};
    again.store_unaligned(o.data());
    for (std::size_t i = 0; i < N; ++i) { PBT_REQUIRE(o.at(i) == v0[i], "lane %zu after a round trip through the register", i); }
}
}  // namespace
PBT_CHECK_T(b1, "buffers_8bit", 12000, 200000, any_bits<std::int8_t>)
PBT_CHECK_T(b2, "buffers_16bit", 16000, 300000, any_bits<std::int16_t>)
PBT_CHECK_T(b3, "all_8bit", 3000, 40000, any_bits_all<std::int8_t>)
PBT_CHECK_T(b4, "all_16bit", 2000, 30000, any_bits_all<std::int16_t>)
PBT_CHECK_T(x1, "fixed_extent_q7_37", 500, 10000, fixed_extent<std::int8_t, 7, 37>)
PBT_CHECK_T(x2, "fixed_extent_q15_16", 500, 10000, fixed_extent<std::int16_t, 15, 16>)
PBT_CHECK_T(x3, "fixed_extent_q12_13", 500, 10000, fixed_extent<std::int16_t, 12, 13>)
#if defined(NEO_HAS_ISA_SSE2)
PBT_CHECK_T(q1, "q7x16", 4000, 60000, batch<neo::q7x16>)
PBT_CHECK_T(q2, "q15x8", 4000, 60000, batch<neo::q15x8>)
#endif
#if defined(NEO_HAS_ISA_AVX2)
PBT_CHECK_T(q3, "q7x32", 4000, 60000, batch<neo::q7x32>)
PBT_CHECK_T(q4, "q15x16", 4000, 60000, batch<neo::q15x16>)
#endif
#if defined(NEO_HAS_ISA_AVX512BW)
PBT_CHECK_T(q5, "q7x64", 4000, 60000, batch<neo::q7x64>)
PBT_CHECK_T(q6, "q15x32", 4000, 60000, batch<neo::q15x32>)
#endif
