#include "common.hpp"
#include <neo/unit.hpp>

namespace {
long double mel(long double f) { return 2595.0L * std::log10(1.0L + f / 700.0L); }
long double hz(long double m) { return 700.0L * (std::pow(10.0L, m / 2595.0L) - 1.0L); }
// error of mel in absolute terms, and what it means in Hertz
template<typename T>
long double mel_tol(long double f)
{
    return eps<T>() * (4 * 2595.0L * 0.4343L + 8 * mel(f));
}
template<typename T>
long double hz_tol(long double f, long double mtol)
{
    auto const m = mel(f);
    return (700.0L + f) * (2.302585L / 2595.0L * mtol + eps<T>() * (6 + 4 * 2.302585L * m / 2595.0L));
}
template<typename T>
T gen_freq(Src& s)
{
    switch (s.below(6)) {
        case 0: return s.pick({T(0), T(20), T(700), T(1000), T(440), T(8000), T(22050), T(24000), T(192000)});
        case 1: return static_cast<T>(s.range(0, 20000));
        case 2: return static_cast<T>(s.range(0, 1 << 20)) / T(1 << 16);
        case 3: return std::ldexp(T(1) + static_cast<T>(s.range(0, 1023)) / T(1024), static_cast<int>(s.range(-60, 20)));
        default: return static_cast<T>(s.range(0, 1 << 22)) / T(128);
    }
}
template<typename T>
void convert(Src& s)
{
    T const f = gen_freq<T>(s);
    T const g = gen_freq<T>(s);
    s.note(fmt("%s %.9g Hz, %.9g Hz", type_name<T>(), double(f), double(g)));
    s.nontrivial(f > 0);
    T const m = neo::hertz_to_mel(f);
    require_close(m, mel(f), mel_tol<T>(f), "hertz_to_mel");
    if (f == 0) { PBT_REQUIRE(m == 0, "hertz_to_mel(0) is %g", double(m)); }
    T const back = neo::mel_to_hertz(m);
    require_close(back, f, hz_tol<T>(f, mel_tol<T>(f)), "mel_to_hertz(hertz_to_mel(f))");
    PBT_REQUIRE(neo::mel_to_hertz(T(0)) == 0, "mel_to_hertz(0) is %g", double(neo::mel_to_hertz(T(0))));
    // mel to Hertz on its own
    T const mm = static_cast<T>(s.range(0, 600000)) / T(128);
    auto const hh = hz(mm);
    require_close(neo::mel_to_hertz(mm), hh, hz_tol<T>(hh, eps<T>() * 4 * mm), "mel_to_hertz");
    require_close(neo::hertz_to_mel(neo::mel_to_hertz(mm)), mm, mel_tol<T>(hh) + hz_tol<T>(hh, eps<T>() * 4 * mm) * 2595.0L / 2.302585L / (700.0L + hh), "hertz_to_mel(mel_to_hertz(m))");
    // order
    auto const lo = std::min(f, g);
    auto const hi = std::max(f, g);
    if (mel(hi) - mel(lo) > 4 * mel_tol<T>(hi)) {
        PBT_REQUIRE(neo::hertz_to_mel(lo) < neo::hertz_to_mel(hi), "hertz_to_mel is not increasing from %g to %g", double(lo), double(hi));
        s.label("order compared");
    }
}
template<typename T>
void table(Src& s)
{
    auto const n = gen_length(s, 0, 300);
    T lo         = gen_freq<T>(s);
    T hi         = gen_freq<T>(s);
    if (hi < lo) { std::swap(lo, hi); }
    auto const stride = s.size(1, 3);
    Buf<T> out(std::vector<T>(n, T(-5)), stride, s.size(0, 2));
    s.note(fmt("%s %zu bands %.9g..%.9g Hz stride %zu", type_name<T>(), n, double(lo), double(hi), stride));
    s.label(n == 0 ? "empty" : n == 1 ? "one band" : "bands");
    s.nontrivial(n >= 3 && lo < hi);
    if (stride == 1 && s.flag()) {
        neo::mel_frequencies(out.view(), lo, hi);
    } else {
        neo::mel_frequencies(out.sview(), lo, hi);
    }
    out.check("table");
    auto const v = out.get();
    if (n == 1) {
        PBT_REQUIRE(v[0] == lo, "table of one holds %g instead of %g", double(v[0]), double(lo));
        return;
    }
    auto const mlo = mel(lo);
    auto const mhi = mel(hi);
    for (std::size_t i = 0; i < n; ++i) {
        auto const m    = mlo + (mhi - mlo) * static_cast<long double>(i) / static_cast<long double>(n - 1);
        auto const want = hz(m);
        auto const tol  = hz_tol<T>(want, 2 * mel_tol<T>(hi) + 4 * eps<T>() * mhi);
        if (!(std::fabs(static_cast<long double>(v[i]) - want) <= tol)) { PBT_FAIL("band %zu is %.9g Hz instead of %.9Lg (tolerance %.3Lg)", i, double(v[i]), want, tol); }
        if (i > 0 && (mhi - mlo) / static_cast<long double>(n - 1) > 8 * mel_tol<T>(hi)) { PBT_REQUIRE(v[i] > v[i - 1], "band %zu is %.9g Hz, not above band %zu of %.9g Hz", i, double(v[i]), i - 1, double(v[i - 1])); }
    }
}
}  // namespace
PBT_CHECK_T(c1, "convert_float", 30000, 600000, convert<float>)
PBT_CHECK_T(c2, "convert_double", 30000, 600000, convert<double>)
PBT_CHECK_T(t1, "table_float", 5000, 100000, table<float>)
PBT_CHECK_T(t2, "table_double", 5000, 100000, table<double>)
