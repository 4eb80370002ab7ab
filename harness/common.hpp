#pragma once
#include "oracle.hpp"
#include "pbt.hpp"

#include <neo/config.hpp>
#include <neo/container/mdspan.hpp>

#include <complex>
#include <concepts>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>

using pbt::Src;
using real_t = long double;

template<typename T>
struct base_of
{
    using type = T;
};
template<typename T>
    requires requires { typename T::value_type; }
struct base_of<T>
{
    using type = typename T::value_type;
};
template<typename T>
using base_t = typename base_of<T>::type;

template<typename T>
constexpr bool is_cx = !std::is_arithmetic_v<T> && requires(T t) { t.real(); };

template<typename T>
constexpr char const* type_name()
{
    if constexpr (std::is_same_v<T, float>) { return "float"; }
    if constexpr (std::is_same_v<T, double>) { return "double"; }
    return is_cx<T> ? (sizeof(T) == 8 ? "complex<float>" : "complex<double>") : "?";
}

template<typename T>
constexpr long double eps() { return std::numeric_limits<base_t<T>>::epsilon(); }

inline oracle::cplx to_cx(auto v)
{
    if constexpr (is_cx<decltype(v)>) {
        return {static_cast<long double>(v.real()), static_cast<long double>(v.imag())};
    } else {
        return {static_cast<long double>(v), 0.0L};
    }
}

// ---------------------------------------------------------------------------------------------
// Input vectors.  Values are exactly representable in float, so all precisions see the same data.
// Up to 40 elements every element is its own choice (shrinks well); longer ones expand a drawn seed.
inline std::vector<double> gen_reals(Src& s, std::size_t n, char const** kind_out = nullptr, int levels = 0)
{
    // now and then all of it very quiet or very loud
    if (levels != 0 && s.chance(1, 10)) {
        auto v       = gen_reals(s, n, kind_out);
        auto const e = levels == 2 ? s.pick({-40, -30, -20, 15, 30, 40, -60, -85, 60}) : levels == 3 ? s.pick({-40, -30, -20, 15, 30, 40, -60}) : s.pick({-40, -30, -20, 15, 30, 40});
        for (auto& x : v) { x = std::ldexp(x, e); }
        return v;
    }
    static char const* const kinds[] = {"uniform", "impulse", "small-int", "constant", "sparse", "ramp", "alternating", "wide", "zeros"};
    // weights: uniform 6, impulse 3, small-int 2, the others 1
    static int const pick[] = {0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8};
    auto const kind         = pick[s.below(std::size(pick))];
    if (kind_out != nullptr) { *kind_out = kinds[kind]; }
    std::vector<double> v(n, 0.0);
    if (n == 0) { return v; }
    auto elem = [&]() -> double { return double(s.range(0, 1 << 12) - (1 << 11)) / double(1 << 10); };
    switch (kind) {
        case 0:
            if (n <= 40) {
                for (auto& x : v) { x = elem(); }
            } else {
                pbt::Rng r{s.below(0)};
                for (auto& x : v) { x = r.sym(); }
            }
            break;
        case 1: {
            auto const pos = s.size(0, n - 1);
            v[pos]         = s.pick({1.0, -1.0, 0.5, 2.0});
            break;
        }
        case 2:
            if (n <= 40) {
                for (auto& x : v) { x = double(s.range(0, 8)) - 4.0; }
            } else {
                pbt::Rng r{s.below(0)};
                for (auto& x : v) { x = double(r.next() % 9) - 4.0; }
            }
            break;
        case 3: {
            auto const c = elem();
            for (auto& x : v) { x = c; }
            break;
        }
        case 4: {
            auto const k = s.size(1, 4);
            for (std::size_t i = 0; i < k; ++i) { v[s.size(0, n - 1)] = elem(); }
            break;
        }
        case 5:
            for (std::size_t i = 0; i < n; ++i) { v[i] = double(i + 1) / double(1 << 8); }
            break;
        case 6:
            for (std::size_t i = 0; i < n; ++i) { v[i] = (i & 1) != 0 ? -1.0 : 1.0; }
            break;
        case 7: {
            pbt::Rng r{s.below(1 << 16)};
            for (auto& x : v) { x = std::ldexp(r.sym(), int(r.next() % 21) - 10); }
            break;
        }
        default: break;
    }
    return v;
}

inline bool all_zero(std::vector<double> const& v)
{
    return std::all_of(v.begin(), v.end(), [](double x) { return x == 0.0; });
}

template<typename T>
std::vector<T> gen_vec(Src& s, std::size_t n, char const** kind = nullptr, int levels = 1)
{
    int const lv  = std::is_floating_point_v<base_t<T>> && sizeof(base_t<T>) >= 4 ? levels : 0;
    auto const re = gen_reals(s, n, kind, lv);
    std::vector<T> out(n);
    if constexpr (is_cx<T>) {
        using B = base_t<T>;
        auto const im = gen_reals(s, n, nullptr, lv);
        for (std::size_t i = 0; i < n; ++i) { out[i] = T(static_cast<B>(re[i]), static_cast<B>(im[i])); }
    } else {
        for (std::size_t i = 0; i < n; ++i) { out[i] = static_cast<T>(re[i]); }
    }
    return out;
}

// for linear maps of one vector (levels beyond the range of products), and for one factor of a product
template<typename T>
std::vector<T> gen_any_level(Src& s, std::size_t n, char const** kind = nullptr) { return gen_vec<T>(s, n, kind, 2); }
template<typename T>
std::vector<T> gen_stream(Src& s, std::size_t n) { return gen_vec<T>(s, n, nullptr, 3); }

template<typename T>
std::vector<oracle::cplx> cx_of(std::vector<T> const& v)
{
    std::vector<oracle::cplx> o(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) { o[i] = to_cx(v[i]); }
    return o;
}
template<typename T>
std::vector<long double> ld_of(std::vector<T> const& v)
{
    return std::vector<long double>(v.begin(), v.end());
}

template<typename T>
std::string show(std::vector<T> const& v, std::size_t max = 12)
{
    std::string r = "[";
    for (std::size_t i = 0; i < v.size() && i < max; ++i) {
        auto const c = to_cx(v[i]);
        r += (i != 0 ? "," : "");
        r += is_cx<T> ? pbt::format("(%.9g,%.9g)", double(c.re), double(c.im)) : pbt::format("%.9g", double(c.re));
    }
    if (v.size() > max) { r += pbt::format(",...%zu", v.size()); }
    return r + "]";
}

// ---------------------------------------------------------------------------------------------
// A vector in a guarded buffer, contiguous or strided.  Everything that is not an element of the
// vector holds a sentinel and has to keep it.
template<typename T>
struct Buf
{
    pbt::Mem<T> mem;
    std::size_t n;
    std::size_t stride;
    std::size_t pad;

    static T sentinel()
    {
        if constexpr (is_cx<T>) {
            return T(base_t<T>(-7777), base_t<T>(5555));
        } else {
            return static_cast<T>(-77);
        }
    }
    Buf(std::vector<T> const& v, std::size_t stride_ = 1, std::size_t pad_ = 0)
        : mem(v.size() * stride_ + 2 * pad_, sentinel())
        , n(v.size())
        , stride(stride_)
        , pad(pad_)
    {
        for (std::size_t i = 0; i < n; ++i) { mem[pad + i * stride] = v[i]; }
    }
    T* data() { return mem.data() + pad; }
    auto view() { return stdex::mdspan<T, stdex::dextents<std::size_t, 1>>{data(), n}; }
    auto cview() { return stdex::mdspan<T const, stdex::dextents<std::size_t, 1>>{data(), n}; }
    auto sview()
    {
        using E = stdex::dextents<std::size_t, 1>;
        return stdex::mdspan<T, E, stdex::layout_stride>{
            data(), stdex::layout_stride::mapping<E>{E{n}, std::array<std::size_t, 1>{stride}}
        };
    }
    std::vector<T> get() const
    {
        std::vector<T> v(n);
        for (std::size_t i = 0; i < n; ++i) { v[i] = mem[pad + i * stride]; }
        return v;
    }
    void check(char const* what) const
    {
        for (std::size_t i = 0; i < mem.size(); ++i) {
            bool const elem = i >= pad && i < pad + n * stride && (i - pad) % stride == 0;
            if (!elem && std::memcmp(&mem[i], &guard(), sizeof(T)) != 0) {
                PBT_FAIL("%s: memory outside of the vector was changed (offset %zd of %zu elements, stride %zu)", what, std::ptrdiff_t(i) - std::ptrdiff_t(pad), n, stride);
            }
        }
    }

private:
    static T const& guard()
    {
        static T const g = sentinel();
        return g;
    }
};

template<typename T>
bool same(std::vector<T> const& a, std::vector<T> const& b)
{
    return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0);
}
template<typename T>
void require_same(std::vector<T> const& a, std::vector<T> const& b, char const* what)
{
    if (!same(a, b)) { PBT_FAIL("%s: %s became %s", what, show(a).c_str(), show(b).c_str()); }
}

// || got - want ||_2 <= tol * scale, NaN fails
template<typename T>
void require_close_l2(std::vector<T> const& got, std::vector<oracle::cplx> const& want, long double abs_tol, char const* what)
{
    PBT_REQUIRE(got.size() == want.size(), "%s: %zu elements instead of %zu", what, got.size(), want.size());
    long double err   = 0;
    long double worst = -1;
    std::size_t at    = 0;
    for (std::size_t i = 0; i < got.size(); ++i) {
        auto const g = to_cx(got[i]);
        auto const d = (g.re - want[i].re) * (g.re - want[i].re) + (g.im - want[i].im) * (g.im - want[i].im);
        err += d;
        if (!(d <= worst)) {
            worst = d;
            at    = i;
        }
    }
    err = std::sqrt(err);
    if (!(err <= abs_tol)) {
        auto const g = to_cx(got[at]);
        PBT_FAIL(
            "%s: error %.4Lg exceeds %.4Lg; worst at [%zu]: got (%.9Lg,%.9Lg) want (%.9Lg,%.9Lg)", what, err, abs_tol, at, g.re, g.im,
            want[at].re, want[at].im
        );
    }
}

inline void require_close(long double got, long double want, long double abs_tol, char const* what)
{
    if (!(std::fabs(got - want) <= abs_tol)) { PBT_FAIL("%s: got %.12Lg want %.12Lg (tolerance %.3Lg)", what, got, want, abs_tol); }
}
template<typename T>
void require_close_each(std::vector<T> const& got, std::vector<long double> const& want, std::vector<long double> const& tol, char const* what, long double factor = 1)
{
    PBT_REQUIRE(got.size() == want.size(), "%s: %zu elements instead of %zu", what, got.size(), want.size());
    for (std::size_t i = 0; i < got.size(); ++i) {
        auto const g = static_cast<long double>(got[i]);
        if (!(std::fabs(g - want[i]) <= factor * tol[i])) {
            PBT_FAIL("%s: [%zu] got %.12Lg want %.12Lg (tolerance %.3Lg)", what, i, g, want[i], factor * tol[i]);
        }
    }
}
template<typename T>
void require_close_each(std::vector<T> const& got, std::vector<long double> const& want, long double abs_tol, char const* what)
{
    require_close_each(got, want, std::vector<long double>(std::max(got.size(), want.size()), abs_tol), what);
}

inline bool known_finding(char const* key)
{
    char const* k = std::getenv("PBT_KNOWN");
    if (k == nullptr) { return false; }
    std::string const all = std::string(",") + k + ",";
    return all.find(std::string(",") + key + ",") != std::string::npos;
}

inline std::string fmt(char const* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(char const* f, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, f);
    std::vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}
// A length up to hi, and now and then one up to big, beyond any block size, unrolling or threshold one would pick.
inline std::size_t gen_length(Src& s, std::size_t lo, std::size_t hi, std::size_t big = 9000)
{
    if (!s.chance(1, 120)) { return s.len(lo, hi); }
    return big >= 9000 && s.chance(1, 6) ? s.len(65530, 70000) : s.len(hi, big);
}
// A number of calls of one object beyond any small counter: some hundreds, or more than fit 16 bits.
inline std::size_t gen_many(Src& s) { return s.flag() ? s.size(65537, 65900) : s.size(257, 800); }
// Rows and columns up to hi; now and then one of them long.
inline std::pair<std::size_t, std::size_t> gen_dims(Src& s, std::size_t hi = 20, std::size_t big = 2500)
{
    auto r = s.len(0, hi);
    auto c = s.len(0, hi);
    if (s.chance(1, 120)) {
        (s.flag() ? r : c) = s.len(hi, big);
        if (s.chance(1, 4)) { r = std::min<std::size_t>(r, 150), c = s.len(hi, 150); }
        if (s.chance(1, 5)) {
            r = s.len(65530, 66000), c = s.size(1, 2);
            if (s.flag()) { std::swap(r, c); }
        }
    }
    return {r, c};
}
