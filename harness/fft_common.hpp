#pragma once
#include "common.hpp"

#include <neo/complex.hpp>
#include <neo/fft.hpp>

namespace fft = neo::fft;

inline long double fft_tol(std::size_t n, long double e, long double norm)
{
    return (16.0L * e * (std::log2(static_cast<long double>(n)) + 1.0L)) * norm + 1e-30L;
}
inline std::size_t upow(std::size_t b, std::size_t e)
{
    std::size_t r = 1;
    for (std::size_t i = 0; i < e; ++i) { r *= b; }
    return r;
}
// Largest order with radix^order <= limit
inline std::size_t order_for(std::size_t radix, std::size_t limit)
{
    std::size_t k = 0;
    while (upow(radix, k + 1) <= limit) { ++k; }
    return k;
}
// mostly sizes up to 2^11, now and then up to 2^15, rarely the largest
inline std::size_t gen_order(Src& s, std::size_t radix, std::size_t lo, std::size_t max_order, std::size_t large = 17)
{
    auto const top = [&](std::size_t bits) { return std::max(lo, std::min(max_order, order_for(radix, std::size_t(1) << bits))); };
    auto const d   = s.below(48);
    if (d < 40) { return s.size(lo, top(11)); }
    if (d < 47) { return s.size(lo, top(15)); }
    return s.size(top(15), top(s.thorough ? large + 2 : large));
}

template<typename C>
constexpr char const* cname()
{
    if constexpr (std::is_same_v<C, std::complex<float>>) { return "std::complex<float>"; }
    if constexpr (std::is_same_v<C, std::complex<double>>) { return "std::complex<double>"; }
    if constexpr (std::is_same_v<C, neo::complex64>) { return "neo::complex64"; }
    return "neo::complex128";
}
inline char const* dname(fft::direction d) { return d == fft::direction::forward ? "forward" : "backward"; }
inline int sign_of(fft::direction d) { return d == fft::direction::forward ? -1 : 1; }
inline fft::direction gen_dir(Src& s) { return s.flag() ? fft::direction::backward : fft::direction::forward; }

// One transform through one of the public calls; returns the result and checks that nothing else changed.
template<typename C, typename Plan>
std::vector<C> transform(Src& s, Plan& plan, std::vector<C> const& x, fft::direction dir, std::string* how = nullptr)
{
    auto const mode   = s.below(6);
    auto const stride = mode >= 3 ? s.size(2, 3) : std::size_t(1);
    auto const pad    = x.size() <= 4096 ? std::size_t(4) : std::size_t(1);
    static char const* const names[] = {"plan(x,dir)", "fft(plan,x)", "fft(plan,in,out)", "plan(x,dir) strided", "fft(plan,x) strided", "fft(plan,in,out) strided"};
    if (how != nullptr) { *how = names[mode]; }
    Buf<C> io{x, stride, pad};
    if (mode == 2 || mode == 5) {
        std::vector<C> junk(x.size(), C(base_t<C>(3), base_t<C>(-9)));
        Buf<C> out{junk, s.flag() ? std::size_t(1) : stride, pad};
        auto go = [&](auto in, auto o) {
            if (dir == fft::direction::forward) {
                fft::fft(plan, in, o);
            } else {
                fft::ifft(plan, in, o);
            }
        };
        if (mode == 2) {
            go(io.cview(), out.sview());
        } else {
            go(io.sview(), out.sview());
        }
        out.check("output of an out-of-place transform");
        io.check("input of an out-of-place transform");
        if (!same(io.get(), x)) { PBT_FAIL("out-of-place transform changed its input: %s became %s", show(x).c_str(), show(io.get()).c_str()); }
        return out.get();
    }
    auto go = [&](auto v) {
        if (mode == 0 || mode == 3) {
            plan(v, dir);
        } else if (dir == fft::direction::forward) {
            fft::fft(plan, v);
        } else {
            fft::ifft(plan, v);
        }
    };
    if (stride == 1) {
        go(io.view());
    } else {
        go(io.sview());
    }
    io.check("in-place transform");
    return io.get();
}

template<typename Plan, std::size_t Radix, std::size_t MinOrder, std::size_t MaxOrder, bool Recurrence = false>
void check_plan(Src& s)
{
    using C          = typename Plan::value_type;
    auto const order = gen_order(s, Radix, MinOrder, MaxOrder);
    auto const n     = upow(Radix, order);
    auto const dir   = gen_dir(s);
    char const* kind = "";
    auto const x     = gen_any_level<C>(s, n, &kind);
    auto plan        = Plan{fft::from_order, order};
    std::string how;
    s.note(fmt("%s order=%zu n=%zu %s input=%s %s", cname<C>(), order, n, dname(dir), kind, show(x, 6).c_str()));
    auto const got  = transform(s, plan, x, dir, &how);
    auto const want = oracle::dft(cx_of(x), sign_of(dir));
    auto const norm = oracle::norm(want);
    s.note(how);
    s.nontrivial(n >= 4 && norm > 0);
    s.label(how);
    s.label(fmt("size 2^%d..", int(std::log2(double(n)) / 4) * 4));
    auto tol = fft_tol(n, eps<C>(), norm);
    // twiddles by repeated multiplication lose accuracy in proportion to the number of steps
    if (Recurrence) { tol += 4.0L * eps<C>() * static_cast<long double>(n / Radix) * norm; }
    require_close_l2(got, want, tol, "transform");
}

// The spectrum of a few impulses is a sum of as many rotating vectors: a reference for transforms too large for the general one.
struct Impulses
{
    std::vector<std::size_t> at;
    std::vector<oracle::cplx> value;
    long double norm() const
    {
        long double q = 0;
        for (auto const& v : value) { q += v.re * v.re + v.im * v.im; }
        return std::sqrt(q);
    }
    // element k of the transform of n samples, in order of k
    std::vector<oracle::cplx> spectrum(std::size_t n, int sign, std::size_t bins) const
    {
        constexpr long double two_pi = 6.28318530717958647692528676655900577L;
        std::vector<oracle::cplx> out(bins);
        for (std::size_t j = 0; j < at.size(); ++j) {
            auto const step = two_pi * static_cast<long double>(at[j]) / static_cast<long double>(n);
            auto const cr   = std::cos(step);
            auto const ci   = sign * std::sin(step);
            long double re = 0, im = 0;
            for (std::size_t k = 0; k < bins; ++k) {
                if (k % 256 == 0) {
                    auto const a = two_pi * static_cast<long double>((static_cast<unsigned __int128>(k) * at[j]) % n) / static_cast<long double>(n);
                    auto const c = std::cos(a);
                    auto const d = sign * std::sin(a);
                    re           = value[j].re * c - value[j].im * d;
                    im           = value[j].re * d + value[j].im * c;
                }
                out[k].re += re;
                out[k].im += im;
                auto const r = re * cr - im * ci;
                im           = re * ci + im * cr;
                re           = r;
            }
        }
        return out;
    }
};
// impulses with positions anywhere; values of the given type (real ones for real types)
template<typename T>
Impulses gen_impulses(Src& s, std::size_t n, std::vector<T>& x)
{
    x.assign(n, T{});
    Impulses imp;
    auto const count = s.size(1, 4);
    pbt::Rng r{s.below(1 << 20)};
    for (std::size_t j = 0; j < count; ++j) {
        auto const pos = s.chance(1, 3) ? s.size(0, 3) : s.flag() ? n - 1 - s.size(0, 3) : s.size(0, n - 1);
        if (std::find(imp.at.begin(), imp.at.end(), pos) != imp.at.end()) { continue; }
        auto const a = static_cast<base_t<T>>(r.sym() + (j == 0 ? 2 : 0));
        auto const b = static_cast<base_t<T>>(r.sym());
        if constexpr (is_cx<T>) {
            x[pos] = T(a, b);
        } else {
            x[pos] = a;
        }
        imp.at.push_back(pos);
        imp.value.push_back(to_cx(x[pos]));
    }
    return imp;
}
inline std::size_t gen_huge_order(Src& s, std::size_t radix, std::size_t max_order, std::size_t large = 21)
{
    auto const hi = std::min(max_order, order_for(radix, std::size_t(1) << (s.thorough ? large + 1 : large)));
    return s.size(std::min(hi, order_for(radix, std::size_t(1) << 17) + 1), hi);
}
template<typename V>
void require_each(std::vector<V> const& got, std::vector<oracle::cplx> const& want, long double tol, char const* what)
{
    for (std::size_t k = 0; k < want.size(); ++k) {
        auto const g = to_cx(got[k]);
        if (!(std::hypot(g.re - want[k].re, g.im - want[k].im) <= tol)) { PBT_FAIL("%s: [%zu] got (%.9Lg,%.9Lg) want (%.9Lg,%.9Lg) (tolerance %.3Lg)", what, k, g.re, g.im, want[k].re, want[k].im, tol); }
    }
}
template<typename T>
long double huge_tol(std::size_t n, Impulses const& imp)
{
    return 32.0L * eps<T>() * (std::log2(static_cast<long double>(n)) + 1.0L) * imp.norm();
}
// the same for sizes where even that takes too long: the first, the last and 20000 other elements
template<typename V>
void require_sampled(Src& s, V const& got, Impulses const& imp, std::size_t n, int sign, std::size_t bins, long double tol, char const* what)
{
    constexpr long double two_pi = 6.28318530717958647692528676655900577L;
    pbt::Rng r{s.below(1 << 20)};
    for (std::size_t t = 0; t < 22000; ++t) {
        auto const k = t < 1000 ? t : t < 2000 ? bins - 1 - (t - 1000) : static_cast<std::size_t>(r.next() % bins);
        long double re = 0, im = 0;
        for (std::size_t j = 0; j < imp.at.size(); ++j) {
            auto const a = two_pi * static_cast<long double>((static_cast<unsigned __int128>(k) * imp.at[j]) % n) / static_cast<long double>(n);
            auto const c = std::cos(a), d = sign * std::sin(a);
            re += imp.value[j].re * c - imp.value[j].im * d;
            im += imp.value[j].re * d + imp.value[j].im * c;
        }
        auto const g = to_cx(got[k]);
        if (!(std::hypot(g.re - re, g.im - im) <= tol)) { PBT_FAIL("%s: [%zu] of %zu points got (%.9Lg,%.9Lg) want (%.9Lg,%.9Lg) (tolerance %.3Lg)", what, k, n, g.re, g.im, re, im, tol); }
    }
}
template<typename Plan>
void check_giant(Src& s)
{
    using C          = typename Plan::value_type;
    auto const order = s.size(22, 23);
    auto const n     = std::size_t(1) << order;
    auto const dir   = gen_dir(s);
    std::vector<C> x;
    auto const imp = gen_impulses<C>(s, n, x);
    auto plan      = Plan{fft::from_order, order};
    s.note(fmt("%s order=%zu %s %zu impulses, first at %zu", cname<C>(), order, dname(dir), imp.at.size(), imp.at[0]));
    s.nontrivial(true);
    s.label("a few impulses in a giant transform");
    plan(stdex::mdspan<C, stdex::dextents<std::size_t, 1>>{x.data(), n}, dir);
    require_sampled(s, x, imp, n, sign_of(dir), n, huge_tol<C>(n, imp), "transform");
}
template<typename Plan, std::size_t Radix, std::size_t MinOrder, std::size_t MaxOrder, bool Recurrence = false>
void check_huge(Src& s)
{
    using C          = typename Plan::value_type;
    auto const order = gen_huge_order(s, Radix, MaxOrder);
    auto const n     = upow(Radix, order);
    auto const dir   = gen_dir(s);
    std::vector<C> x;
    auto const imp = gen_impulses<C>(s, n, x);
    auto plan      = Plan{fft::from_order, order};
    std::string how;
    s.note(fmt("%s order=%zu n=%zu %s %zu impulses, first at %zu", cname<C>(), order, n, dname(dir), imp.at.size(), imp.at[0]));
    auto const got  = transform(s, plan, x, dir, &how);
    auto const want = imp.spectrum(n, sign_of(dir), n);
    s.note(how);
    s.nontrivial(true);
    s.label("a few impulses in a huge transform");
    // every element has about the same magnitude, so each is compared by itself
    auto tol = huge_tol<C>(n, imp);
    if (Recurrence) { tol += 4.0L * eps<C>() * static_cast<long double>(n / Radix) * imp.norm(); }
    require_each(got, want, tol, "transform");
}
