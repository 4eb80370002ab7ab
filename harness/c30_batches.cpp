#include "common.hpp"
#include <neo/simd.hpp>

namespace {
template<typename T>
using bits_t = std::conditional_t<sizeof(T) == 2, std::uint16_t, std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>>;
template<typename T>
T from_bits(bits_t<T> b)
{
    T v;
    std::memcpy(&v, &b, sizeof v);
    return v;
}
template<typename T>
bits_t<T> to_bits(T v)
{
    bits_t<T> b;
    std::memcpy(&b, &v, sizeof v);
    return b;
}
template<typename T>
constexpr int mant = sizeof(T) == 2 ? 10 : sizeof(T) == 4 ? 23 : 52;
template<typename T>
bool is_nan(T v)
{
    auto const b = static_cast<bits_t<T>>(to_bits(v) << 1);
    auto const inf = static_cast<bits_t<T>>(static_cast<bits_t<T>>(~bits_t<T>(0)) << (mant<T> + 1));
    return b > inf;
}
template<typename T>
T gen_val(Src& s)
{
    auto const sign = static_cast<bits_t<T>>(bits_t<T>(s.below(2)) << (sizeof(T) * 8 - 1));
    auto const ones = static_cast<bits_t<T>>(static_cast<bits_t<T>>(~bits_t<T>(0)) >> 1);
    auto const inf  = static_cast<bits_t<T>>(ones & static_cast<bits_t<T>>(~bits_t<T>(0) << mant<T>));
    auto const one  = to_bits(static_cast<T>(1.0F));
    switch (s.below(8)) {
        case 0: return from_bits<T>(static_cast<bits_t<T>>(s.below(0)));  // anything, NaN included
        case 1: return from_bits<T>(sign);                                // zero
        case 2: return from_bits<T>(static_cast<bits_t<T>>(sign | inf));  // infinity
        case 3: return from_bits<T>(static_cast<bits_t<T>>(sign | (static_cast<bits_t<T>>(s.below(0)) & static_cast<bits_t<T>>((bits_t<T>(1) << mant<T>) -1))));  // subnormal
        case 4: return from_bits<T>(static_cast<bits_t<T>>(sign | static_cast<bits_t<T>>(one + s.below(16) - 8)));  // next to one
        case 5: return from_bits<T>(static_cast<bits_t<T>>(sign | static_cast<bits_t<T>>(inf - 1 - s.below(4))));    // largest
        case 6: return from_bits<T>(static_cast<bits_t<T>>(sign | (static_cast<bits_t<T>>(1) << mant<T>)));         // smallest normal
        default: return static_cast<T>(static_cast<float>(s.range(-1000, 1000)) / 64.0F);
    }
}
template<typename T>
T scalar(T a, T b, int op)
{
    // half precision: the single precision result rounded once more is the correctly rounded one
    using W = std::conditional_t<sizeof(T) == 2, float, T>;
    volatile W x = static_cast<W>(a);
    volatile W y = static_cast<W>(b);
    volatile W r = op == 2 ? x + y : op == 3 ? x - y : x * y;
    return static_cast<T>(r);
}

template<typename B>
void batch(Src& s)
{
    using T          = typename B::value_type;
    constexpr auto N = static_cast<std::size_t>(B::size);
    static_assert(sizeof(B) == N * sizeof(T));
    static_assert(static_cast<std::size_t>(B::alignment) == alignof(typename B::register_type));
    std::vector<T> a(N), b(N);
    for (auto& v : a) { v = gen_val<T>(s); }
    for (auto& v : b) { v = gen_val<T>(s); }
    auto const op = static_cast<int>(s.below(6));
    auto const oa = s.size(0, 7), ob = s.size(0, 7), oo = s.size(0, 7);
    static char const* const names[] = {"load/store", "broadcast", "+", "-", "*", "register round trip"};
    s.note(fmt("%zu lanes of %zu bytes %s, a[0]=%g b[0]=%g offsets %zu,%zu,%zu", N, sizeof(T), names[op], double(a[0]), double(b[0]), oa, ob, oo));
    s.label(fmt("%zux%zu %s", N, sizeof(T) * 8, names[op]));
    s.nontrivial();
    auto const guard = from_bits<T>(static_cast<bits_t<T>>(0x5A5A5A5A5A5A5A5AULL));
    // inputs end exactly at the end of their allocation, so that reading more is caught
    std::vector<T> ma(oa + N, guard), mb(ob + N, guard), mo(oo + N, guard), mg(oo + N + 16, guard);
    std::copy(a.begin(), a.end(), ma.begin() + static_cast<std::ptrdiff_t>(oa));
    std::copy(b.begin(), b.end(), mb.begin() + static_cast<std::ptrdiff_t>(ob));
    B const x = B::load_unaligned(ma.data() + oa);
    B const y = B::load_unaligned(mb.data() + ob);
    auto put  = [&](B v) {
        v.store_unaligned(mo.data() + oo);
        v.store_unaligned(mg.data() + oo);
    };
    switch (op) {
        case 0: put(x); break;
        case 1: put(B::broadcast(a[0])); break;
        case 2: put(x + y); break;
        case 3: put(x - y); break;
        case 4: put(x * y); break;
        default: put(B{static_cast<typename B::register_type>(x)}); break;
    }
    for (std::size_t i = 0; i < N; ++i) {
        T const want = op == 0 || op == 5 ? a[i] : op == 1 ? a[0] : scalar(a[i], b[i], op);
        T const got  = mo[oo + i];
        bool const exact = op <= 1 || op == 5;
        bool const ok    = to_bits(got) == to_bits(want) || (!exact && is_nan(want) && is_nan(got));
        if (!ok) { PBT_FAIL("%s lane %zu of %zu: %.17g and %.17g gave %.17g (%llx) instead of %.17g (%llx)", names[op], i, N, double(a[i]), double(b[i]), double(got), (unsigned long long) to_bits(got), double(want), (unsigned long long) to_bits(want)); }
        PBT_REQUIRE(to_bits(mg[oo + i]) == to_bits(got), "storing twice gives different lanes");
    }
    for (std::size_t i = 0; i < mg.size(); ++i) {
        if ((i < oo || i >= oo + N) && to_bits(mg[i]) != to_bits(guard)) { PBT_FAIL("store changed memory at %zd of %zu lanes", std::ptrdiff_t(i) - std::ptrdiff_t(oo), N); }
    }
    for (std::size_t i = 0; i < N; ++i) { PBT_REQUIRE(to_bits(ma[oa + i]) == to_bits(a[i]) && to_bits(mb[ob + i]) == to_bits(b[i]), "an operation changed its input in memory"); }
}
}  // namespace
#if defined(NEO_HAS_ISA_SSE2)
PBT_CHECK_T(a1, "float32x4", 8000, 150000, batch<neo::float32x4>)
PBT_CHECK_T(a2, "float64x2", 8000, 150000, batch<neo::float64x2>)
PBT_CHECK_T(z1, "float32x", 3000, 50000, batch<neo::float32x>)
PBT_CHECK_T(z2, "float64x", 3000, 50000, batch<neo::float64x>)
#endif
#if defined(NEO_HAS_ISA_AVX)
PBT_CHECK_T(b1, "float32x8", 8000, 150000, batch<neo::float32x8>)
PBT_CHECK_T(b2, "float64x4", 8000, 150000, batch<neo::float64x4>)
#if defined(NEO_HAS_BUILTIN_FLOAT16) and defined(NEO_HAS_ISA_F16C)
PBT_CHECK_T(h1, "float16x8", 8000, 150000, batch<neo::float16x8>)
PBT_CHECK_T(h2, "float16x16", 8000, 150000, batch<neo::float16x16>)
#endif
#endif
#if defined(NEO_HAS_ISA_AVX512F)
PBT_CHECK_T(c1, "float32x16", 8000, 150000, batch<neo::float32x16>)
PBT_CHECK_T(c2, "float64x8", 8000, 150000, batch<neo::float64x8>)
#endif
