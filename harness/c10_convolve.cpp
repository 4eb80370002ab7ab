#include "common.hpp"
#include <neo/convolution.hpp>
namespace cv = neo::convolution;
template<typename T, typename M>
std::vector<T> vec_of(M const& m)
{
    std::vector<T> v(m.extent(0));
    for (std::size_t i = 0; i < v.size(); ++i) { v[i] = m(i); }
    return v;
}
// rounding of a sum of k products: at most about k eps times the sum of their magnitudes
template<typename T>
long double direct_tol(std::vector<T> const& a, std::vector<T> const& b)
{
    auto l1 = [](auto const& v) {
        long double n = 0;
        for (auto x : v) { n += std::hypot(to_cx(x).re, to_cx(x).im); }
        return n;
    };
    return 2.0L * eps<T>() * (std::min(a.size(), b.size()) + 2) * std::min(l1(a) * oracle::norm(cx_of(b)), l1(b) * oracle::norm(cx_of(a))) + 1e-30L;
}
template<typename F>
std::vector<oracle::cplx> reference(std::vector<F> const& a, std::vector<F> const& b)
{
    std::vector<oracle::cplx> o;
    for (auto v : oracle::convolve(ld_of(a), ld_of(b))) { o.push_back({v, 0}); }
    return o;
}
template<typename T>
void direct(Src& s)
{
    auto const n = gen_length(s, 1, 200, 3000);
    auto const m = gen_length(s, 1, 200, 3000);
    auto const a = gen_stream<T>(s, n);
    auto const b = gen_vec<T>(s, m);
    s.note(fmt("direct n=%zu m=%zu a=%s b=%s", n, m, show(a, 6).c_str(), show(b, 6).c_str()));
    auto const want = oracle::convolve(cx_of(a), cx_of(b));
    auto const tol  = direct_tol(a, b);
    s.nontrivial(n >= 2 && m >= 2 && oracle::norm(want) > 0);
    Buf<T> x{a, s.size(1, 3), 3};
    Buf<T> y{b, s.size(1, 3), 3};
    std::vector<T> got;
    if (s.flag()) {
        got = vec_of<T>(cv::direct_convolve(x.sview(), y.sview()));
    } else {
        Buf<T> o{std::vector<T>(n + m - 1, T(7)), s.size(1, 3), 3};
        cv::direct_convolve(x.sview(), y.sview(), o.sview());
        o.check("output");
        got = o.get();
    }
    x.check("signal");
    y.check("patch");
    if (!same(x.get(), a) || !same(y.get(), b)) { PBT_FAIL("an input changed"); }
    require_close_l2(got, want, tol, "direct_convolve(signal, patch)");
    if (n <= 200 && m <= 200) {
        // every element by itself: relative to the magnitudes it sums
        for (std::size_t k = 0; k < want.size(); ++k) {
            long double mag = 0;
            for (std::size_t i = k >= m ? k - m + 1 : 0; i < n && i <= k; ++i) { mag += std::hypot(to_cx(a[i]).re, to_cx(a[i]).im) * std::hypot(to_cx(b[k - i]).re, to_cx(b[k - i]).im); }
            auto const g = to_cx(got[k]);
            auto const t = 4.0L * eps<T>() * static_cast<long double>(std::min(n, m) + 2) * mag + 100 * std::numeric_limits<base_t<T>>::denorm_min() * static_cast<long double>(std::min(n, m));
            if (!(std::hypot(g.re - want[k].re, g.im - want[k].im) <= t)) { PBT_FAIL("direct_convolve: [%zu] got (%.9Lg,%.9Lg) want (%.9Lg,%.9Lg)", k, g.re, g.im, want[k].re, want[k].im); }
        }
    }
    if (s.flag()) { require_close_l2(vec_of<T>(cv::direct_convolve(y.sview(), x.sview())), want, tol, "arguments swapped"); }
}
template<typename F>
void by_fft(Src& s)
{
    auto const empty = s.chance(1, 30);
    auto const n     = empty ? (s.flag() ? 0 : s.size(1, 9)) : gen_length(s, 2, 400);
    auto const m     = empty && n != 0 ? 0 : empty ? s.size(0, 9) : n > 20000 ? s.len(2, 400) : gen_length(s, 2, 400);
    auto const a     = gen_stream<F>(s, n);
    auto const b     = gen_vec<F>(s, m);
    s.note(fmt("fft n=%zu m=%zu a=%s b=%s", n, m, show(a, 6).c_str(), show(b, 6).c_str()));
    Buf<F> x{a, s.size(1, 3), 3};
    Buf<F> y{b, s.size(1, 3), 3};
    auto const got = vec_of<F>(cv::fft_convolve(x.sview(), y.sview()));
    x.check("signal");
    y.check("patch");
    if (!same(x.get(), a) || !same(y.get(), b)) { PBT_FAIL("an input changed"); }
    if (empty) {
        PBT_REQUIRE(got.empty(), "%zu elements for an empty argument", got.size());
        return;
    }
    auto const want = reference(a, b);
    auto const tol  = 40.0L * eps<F>() * (std::log2(static_cast<long double>(n + m)) + 1) * oracle::norm(cx_of(a)) * oracle::norm(cx_of(b)) + 1e-30L;
    s.nontrivial(oracle::norm(want) > 0);
    require_close_l2(got, want, tol, "fft_convolve(signal, patch)");
    auto const swapped = vec_of<F>(cv::fft_convolve(y.sview(), x.sview()));
    require_close_l2(swapped, want, tol, "fft_convolve, arguments swapped");
    auto const plain = vec_of<F>(cv::direct_convolve(x.sview(), y.sview()));
    require_close_l2(plain, want, direct_tol(a, b), "direct_convolve of the same");
}
template<typename F>
void object(Src& s)
{
    auto const n = s.chance(1, 60) ? s.size(2, 5000) : s.len(2, 150);
    auto const m = s.len(2, 150);
    cv::fft_convolver<F> conv{n, m};
    PBT_REQUIRE(conv.signal_size() == n && conv.patch_size() == m && conv.output_size() == n + m - 1, "sizes %zu %zu %zu", conv.signal_size(), conv.patch_size(), conv.output_size());
    auto const runs = s.size(1, 4);
    s.note(fmt("fft_convolver n=%zu m=%zu runs=%zu", n, m, runs));
    for (std::size_t r = 0; r < runs; ++r) {
        auto const a = gen_stream<F>(s, n);
        auto const b = gen_vec<F>(s, m);
        s.note(fmt("a=%s b=%s", show(a, 4).c_str(), show(b, 4).c_str()));
        Buf<F> x{a, s.size(1, 2), 3};
        Buf<F> y{b, s.size(1, 2), 3};
        Buf<F> o{std::vector<F>(n + m - 1, F(7)), s.size(1, 2), 3};
        conv(x.sview(), y.sview(), o.sview());
        x.check("signal");
        y.check("patch");
        o.check("output");
        if (!same(x.get(), a) || !same(y.get(), b)) { PBT_FAIL("an input changed"); }
        auto const want = reference(a, b);
        auto const tol  = 40.0L * eps<F>() * (std::log2(static_cast<long double>(n + m)) + 1) * oracle::norm(cx_of(a)) * oracle::norm(cx_of(b)) + 1e-30L;
        s.nontrivial(oracle::norm(want) > 0);
        require_close_l2(o.get(), want, tol, fmt("run %zu", r).c_str());
        if (s.chance(1, 4)) {
            auto other = conv;
            conv       = std::move(other);
        }
    }
}
// very many calls of one convolver
template<typename F>
void many(Src& s)
{
    auto const n     = s.size(2, 6);
    auto const m     = s.size(2, 6);
    auto const steps = gen_many(s);
    cv::fft_convolver<F> conv{n, m};
    std::vector<std::vector<F>> a(3);
    std::vector<std::vector<F>> b(3);
    std::vector<oracle::cplx> want[9];
    for (std::size_t i = 0; i < 3; ++i) {
        a[i] = gen_stream<F>(s, n);
        b[i] = gen_vec<F>(s, m);
    }
    for (std::size_t i = 0; i < 9; ++i) { want[i] = reference(a[i / 3], b[i % 3]); }
    pbt::Rng r{s.below(1 << 20)};
    s.note(fmt("%s n=%zu m=%zu steps=%zu", type_name<F>(), n, m, steps));
    s.nontrivial(oracle::norm(want[0]) > 0);
    Buf<F> o{std::vector<F>(n + m - 1, F(7)), 1, 2};
    for (std::size_t t = 0; t < steps; ++t) {
        auto const i = r.next() % 3;
        auto const j = r.next() % 3;
        Buf<F> x{a[i], 1, 1};
        Buf<F> y{b[j], 1, 1};
        conv(x.view(), y.view(), o.view());
        auto const tol = 40.0L * eps<F>() * (std::log2(static_cast<long double>(n + m)) + 1) * oracle::norm(cx_of(a[i])) * oracle::norm(cx_of(b[j])) + 1e-30L;
        require_close_l2(o.get(), want[i * 3 + j], tol, fmt("call %zu of a convolver", t + 1).c_str());
    }
}
// a long signal with a short patch
template<typename T>
void lopsided(Src& s)
{
    auto const n = s.size(65000, 70000);
    auto const m = s.size(2, 5);
    auto a       = gen_stream<T>(s, n);
    auto b       = gen_vec<T>(s, m);
    s.note(fmt("direct n=%zu m=%zu", n, m));
    auto const want = oracle::convolve(cx_of(a), cx_of(b));
    s.nontrivial(oracle::norm(want) > 0);
    Buf<T> x{a, 1, 1};
    Buf<T> y{b, 1, 1};
    auto const sw  = s.flag();
    auto const got = sw ? vec_of<T>(cv::direct_convolve(y.view(), x.view())) : vec_of<T>(cv::direct_convolve(x.view(), y.view()));
    require_close_l2(got, want, 1e-3L * oracle::norm(want), "direct_convolve");
    // each element depends on m products only
    long double mx = 0;
    for (auto const& v : a) { mx = std::max(mx, std::hypot(to_cx(v).re, to_cx(v).im)); }
    auto const tol = 8.0L * eps<T>() * mx * oracle::norm(cx_of(b)) * (m + 2) + 1e-30L;
    for (std::size_t i = 0; i < got.size(); ++i) {
        auto const g = to_cx(got[i]);
        PBT_REQUIRE(std::fabs(g.re - want[i].re) <= tol && std::fabs(g.im - want[i].im) <= tol, "direct_convolve: element %zu of %zu is (%Lg,%Lg) instead of (%Lg,%Lg)", i, got.size(), g.re, g.im, want[i].re, want[i].im);
    }
}
// signal and patch of different precision; float results of a wider type
template<typename A, typename B>
void mixed(Src& s)
{
    auto const n = gen_length(s, 2, 100);
    auto const m = gen_length(s, 2, 100, 300);
    auto const a = gen_vec<A>(s, n, nullptr, false);
    auto const b = gen_vec<B>(s, m, nullptr, false);
    s.note(fmt("%s/%s n=%zu m=%zu a=%s b=%s", type_name<A>(), type_name<B>(), n, m, show(a, 6).c_str(), show(b, 6).c_str()));
    std::vector<oracle::cplx> want;
    for (auto v : oracle::convolve(ld_of(a), ld_of(b))) { want.push_back({v, 0}); }
    s.nontrivial(oracle::norm(want) > 0);
    Buf<A> x{a, s.size(1, 2), 3};
    Buf<B> y{b, s.size(1, 2), 3};
    auto const tol = 40.0L * (std::log2(static_cast<long double>(n + m)) + 1) * oracle::norm(cx_of(a)) * oracle::norm(cx_of(b));
    auto const out = cv::fft_convolve(x.sview(), y.sview());
    using R        = typename std::remove_cvref_t<decltype(out)>::value_type;
    require_close_l2(vec_of<R>(out), want, std::max<long double>(eps<A>(), eps<R>()) * tol + 1e-30L, "fft_convolve of different precisions");
    cv::fft_convolver<double> wide{n, m};
    Buf<double> o{std::vector<double>(n + m - 1, 7.0), s.size(1, 2), 3};
    wide(x.sview(), y.sview(), o.sview());
    o.check("output");
    require_close_l2(o.get(), want, eps<double>() * tol + 1e-30L, "fft_convolver<double>");
    x.check("signal");
    y.check("patch");
    if (!same(x.get(), a) || !same(y.get(), b)) { PBT_FAIL("an input changed"); }
}
PBT_CHECK_T(m1, "many_f", 10, 80, many<float>)
PBT_CHECK_T(m2, "many_d", 10, 80, many<double>)
PBT_CHECK_T(l1, "lopsided_f", 8, 80, lopsided<float>)
PBT_CHECK_T(l2, "lopsided_cd", 8, 80, lopsided<std::complex<double>>)
PBT_CHECK_T(d1, "direct_f", 2000, 25000, direct<float>)
PBT_CHECK_T(d2, "direct_d", 2000, 25000, direct<double>)
PBT_CHECK_T(d3, "direct_cf", 2000, 25000, direct<std::complex<float>>)
PBT_CHECK_T(d4, "direct_cd", 2000, 25000, direct<std::complex<double>>)
PBT_CHECK_T(f1, "fft_f", 2000, 25000, by_fft<float>)
PBT_CHECK_T(f2, "fft_d", 2000, 25000, by_fft<double>)
PBT_CHECK_T(o1, "object_f", 1500, 15000, object<float>)
PBT_CHECK_T(o2, "object_d", 1500, 15000, object<double>)
PBT_CHECK_T(x1, "mixed_df", 200, 2000, (mixed<double, float>))
PBT_CHECK_T(x2, "mixed_fd", 200, 2000, (mixed<float, double>))
