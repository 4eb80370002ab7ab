#include "common.hpp"
#include <neo/fft.hpp>
#include <neo/math.hpp>
#include <neo/math/a_weighting.hpp>
#include <neo/math/windowing.hpp>

namespace {
constexpr long double pi2 = 6.283185307179586476925286766559L;
long double want_win(int kind, std::size_t i, std::size_t n)
{
    auto const c = std::cos(pi2 * static_cast<long double>(i) / static_cast<long double>(n - 1));
    return kind == 0 ? 1.0L : kind == 1 ? 0.5L - 0.5L * c : 0.54L - 0.46L * c;
}
char const* const wn[] = {"rectangular", "hann", "hamming"};

template<typename T, typename W, int Kind>
void window(Src& s)
{
    auto const n      = Kind == 0 ? gen_length(s, 0, 1000, 20000) : s.len(2, s.chance(1, 20) ? 20000 : 1000);
    auto const stride = s.size(1, 3);
    auto const how    = s.below(3);
    s.note(fmt("%s %s n=%zu %s", type_name<T>(), wn[Kind], n, how == 0 ? "generate_window" : how == 1 ? "fill_window" : "operator()"));
    s.label(wn[Kind]);
    s.nontrivial(n >= 3);
    std::vector<T> v;
    if (how == 0) {
        auto const w = neo::generate_window<T, W>(n);
        PBT_REQUIRE(static_cast<std::size_t>(w.extent(0)) == n, "length %zu", static_cast<std::size_t>(w.extent(0)));
        for (std::size_t i = 0; i < n; ++i) { v.push_back(w(i)); }
        if constexpr (Kind == 1) {
            auto const d = neo::generate_window<T>(n);
            for (std::size_t i = 0; i < n; ++i) { PBT_REQUIRE(d(i) == v[i], "the default window is not Hann at %zu", i); }
        }
    } else if (how == 1) {
        Buf<T> b(std::vector<T>(n, T(9)), stride, s.size(0, 3));
        if (stride == 1 && s.flag()) {
            neo::fill_window(b.view(), W{});
        } else {
            neo::fill_window(b.sview(), W{});
        }
        b.check("window");
        v = b.get();
    } else {
        W const w{};
        for (std::size_t i = 0; i < n; ++i) {
            auto const a = w(i, n);
            auto const b = w(static_cast<int>(i), static_cast<int>(n));
            auto const c = w(static_cast<std::uint32_t>(i), static_cast<std::int64_t>(n));
            PBT_REQUIRE(std::fabs(a - b) <= 4 * eps<T>() && std::fabs(a - c) <= 4 * eps<T>(), "sample %zu depends on the index type", i);
            v.push_back(a);
        }
    }
    auto const tol = 40 * eps<T>();
    for (std::size_t i = 0; i < n; ++i) {
        auto const want = want_win(Kind, i, n);
        if (!(std::fabs(static_cast<long double>(v[i]) - want) <= tol)) { PBT_FAIL("%s window of %zu: sample %zu is %.9g instead of %.9Lg", wn[Kind], n, i, double(v[i]), want); }
        PBT_REQUIRE(v[i] >= -tol && v[i] <= 1 + tol, "sample %zu is %.9g", i, double(v[i]));
        PBT_REQUIRE(std::fabs(static_cast<long double>(v[i]) - static_cast<long double>(v[n - 1 - i])) <= 2 * tol, "not symmetric at %zu", i);
    }
}
// fill_window hands every index and the whole length to any callable
template<typename T>
void custom(Src& s)
{
    auto const n      = gen_length(s, 0, 300);
    auto const stride = s.size(1, 3);
    Buf<T> b(std::vector<T>(n, T(9)), stride, s.size(0, 3));
    s.note(fmt("%s custom window n=%zu stride %zu", type_name<T>(), n, stride));
    s.nontrivial(n >= 2);
    neo::fill_window(b.sview(), [](auto i, auto size) { return static_cast<T>(i) + static_cast<T>(size) * T(1024); });
    b.check("window");
    auto const v = b.get();
    for (std::size_t i = 0; i < n; ++i) { PBT_REQUIRE(v[i] == static_cast<T>(i + 1024 * n), "sample %zu of %zu is %g", i, n, double(v[i])); }
}
template<typename T>
void freqs(Src& s)
{
    auto const n  = s.len(1, 5000);
    auto const i  = s.size(0, n);
    double const fs = s.pick({44100.0, 48000.0, 96000.0, 192000.0, 8000.0, 1.0, 22050.0, 2.0, 1000.0}) * (s.chance(1, 4) ? static_cast<double>(s.range(1, 999)) / 500.0 : 1.0);
    double const inv = 1.0 / fs;
    s.note(fmt("%s bin %zu of %zu at %g Hz", type_name<T>(), i, n, fs));
    s.nontrivial(i > 0 && n > 1);
    auto const want = static_cast<long double>(i) / (static_cast<long double>(inv) * static_cast<long double>(n));
    require_close(neo::rfftfreq<T>(n, i, inv), want, 8 * eps<T>() * want, "rfftfreq of one bin");
    require_close(neo::rfftfreq<T>(static_cast<int>(n), static_cast<int>(i), inv), want, 8 * eps<T>() * want, "rfftfreq of one bin (int)");
    auto const m      = gen_length(s, 0, 200);
    auto const stride = s.size(1, 3);
    Buf<T> b(std::vector<T>(m, T(9)), stride, s.size(0, 3));
    if (stride == 1) {
        neo::rfftfreq(b.view(), inv);
    } else {
        neo::rfftfreq(b.sview(), inv);
    }
    b.check("frequencies");
    auto const v = b.get();
    for (std::size_t k = 0; k < m; ++k) {
        auto const w = static_cast<long double>(k) / (static_cast<long double>(inv) * static_cast<long double>(m));
        if (!(std::fabs(static_cast<long double>(v[k]) - w) <= 8 * eps<T>() * w)) { PBT_FAIL("bin %zu of %zu is %.9g Hz instead of %.9Lg", k, m, double(v[k]), w); }
    }
}
template<typename T>
void a_weight(Src& s)
{
    T f = T(1000);
    switch (s.below(4)) {
        case 0: f = static_cast<T>(s.range(1, 24000)); break;
        case 1: f = std::pow(T(10), static_cast<T>(s.range(-200, 600)) / T(100)); break;
        case 2: f = s.pick({T(10), T(12.5), T(20), T(31.5), T(63), T(125), T(250), T(500), T(1000), T(2000), T(4000), T(8000), T(16000), T(20000), T(96000)}); break;
        default: f = static_cast<T>(s.range(1, 1 << 22)) / T(128); break;
    }
    s.note(fmt("%s A-weighting at %.9g Hz", type_name<T>(), double(f)));
    s.nontrivial();
    long double const x = f, q = x * x;
    auto sq = [](long double v) { return v * v; };
    long double const ra = sq(12194.217L) * q * q / ((q + sq(20.598997L)) * std::sqrt((q + sq(107.65265L)) * (q + sq(737.86223L))) * (q + sq(12194.217L)));
    long double const want = 2.0L + 20.0L * std::log10(ra);
    T const got = neo::a_weighting(f);
    PBT_REQUIRE(std::isfinite(got), "A-weighting of %g Hz is %g", double(f), double(got));
    require_close(got, want, sizeof(T) == 4 ? 1e-3L : 1e-6L, "A-weighting");
    if (f == T(1000)) { PBT_REQUIRE(std::fabs(got) < T(0.01), "%g dB at 1 kHz", double(got)); }
}
}  // namespace
PBT_CHECK_T(w1, "rect_float", 1500, 30000, window<float, neo::rectangular_window<float>, 0>)
PBT_CHECK_T(w2, "hann_float", 4000, 80000, window<float, neo::hann_window<float>, 1>)
PBT_CHECK_T(w3, "hann_double", 4000, 80000, window<double, neo::hann_window<double>, 1>)
PBT_CHECK_T(w4, "hamming_float", 4000, 80000, window<float, neo::hamming_window<float>, 2>)
PBT_CHECK_T(w5, "hamming_double", 4000, 80000, window<double, neo::hamming_window<double>, 2>)
PBT_CHECK_T(w6, "rect_double", 1000, 20000, window<double, neo::rectangular_window<double>, 0>)
PBT_CHECK_T(u1, "custom_float", 1500, 30000, custom<float>)
PBT_CHECK_T(u2, "custom_double", 1500, 30000, custom<double>)
PBT_CHECK_T(f1, "rfftfreq_float", 5000, 100000, freqs<float>)
PBT_CHECK_T(f2, "rfftfreq_double", 5000, 100000, freqs<double>)
PBT_CHECK_T(a1, "a_weighting_float", 20000, 400000, a_weight<float>)
PBT_CHECK_T(a2, "a_weighting_double", 20000, 400000, a_weight<double>)
