#include "obj.hpp"
#include <neo/algorithm.hpp>
#include <neo/convolution.hpp>

namespace {
template<typename T>
std::vector<T> gen_lvl(Src& s, std::size_t n, bool channels = false)
{
    auto v        = gen_vec<T>(s, n, nullptr, false);
    auto const ex = s.pick({0, 0, 0, -3, 3, -10, 10, -30, 30, -40, channels ? 20 : 40, channels ? -20 : sizeof(T) == 8 ? -400 : -50, sizeof(T) == 8 ? 400 : 35});
    for (auto& x : v) { x = std::ldexp(x, ex); }
    return v;
}
template<typename T>
long double energy(std::vector<T> const& v, std::size_t from, std::size_t n)
{
    long double e = 0;
    for (std::size_t i = from; i < from + n; ++i) { e += static_cast<long double>(v[i]) * v[i]; }
    return e;
}
// out is in multiplied by one factor (which must be `factor` within tol)
template<typename T>
void require_scaled(std::vector<T> const& in, std::vector<T> const& out, long double factor, long double rel, char const* what)
{
    for (std::size_t i = 0; i < in.size(); ++i) {
        auto const want = static_cast<long double>(in[i]) * factor;
        if (!(std::fabs(static_cast<long double>(out[i]) - want) <= rel * std::fabs(want) + 1e-44L)) {
            PBT_FAIL("%s: [%zu] %.9Lg became %.9Lg instead of %.9Lg", what, i, static_cast<long double>(in[i]), static_cast<long double>(out[i]), want);
        }
    }
}

template<typename T, bool Peak>
void norm(Src& s)
{
    auto const sh = gen_shape(s);
    auto const n  = sh.n();
    auto const v  = gen_lvl<T>(s, n);
    auto o        = make(s, sh, v);
    auto const zero = std::all_of(v.begin(), v.end(), [](T x) { return x == 0; });
    s.note(fmt("%s %s %s", type_name<T>(), o.str().c_str(), show(v).c_str()));
    s.label(n == 0 ? "empty" : zero ? "silent" : "signal");
    s.nontrivial(n >= 2 && !zero);
    long double level = 0;
    if (Peak) {
        for (auto x : v) { level = std::max<long double>(level, std::fabs(static_cast<long double>(x))); }
    } else {
        level = std::sqrt(energy(v, 0, n));
    }
    auto const rel    = Peak ? 4 * eps<T>() : (static_cast<long double>(n) / 2 + 8) * eps<T>();
    auto const want   = zero ? 1.0L : 1.0L / level;
    long double const f = o.with([](auto x) {
        if constexpr (Peak) {
            return neo::normalize_peak_factor(x);
        } else {
            return neo::normalize_energy_factor(x);
        }
    });
    o.unchanged("argument of the factor function");
    require_close(f, want, rel * want, "factor");
    if (zero) { PBT_REQUIRE(f == 1, "factor of silence is %Lg", f); }
    o.with([](auto x) {
        if constexpr (Peak) {
            neo::normalize_peak(x);
        } else {
            neo::normalize_energy(x);
        }
    });
    o.check("object");
    auto const got = o.get();
    require_scaled(v, got, f, 2 * eps<T>(), "normalised");
    if (zero) {
        require_same(v, got, "silence");
    } else if (Peak) {
        long double p = 0;
        for (auto x : got) { p = std::max<long double>(p, std::fabs(static_cast<long double>(x))); }
        require_close(p, 1, 4 * eps<T>(), "peak");
    } else {
        require_close(energy(got, 0, n), 1, 3 * rel, "energy");
    }
}

// one element louder than all others: the peak is found wherever it is, and so is the loudest channel
template<typename T>
void probe(Src& s)
{
    auto const sh = gen_probe_shape(s);
    auto const n  = sh.n();
    pbt::Rng r{s.below(1 << 20)};
    std::vector<T> v(n);
    for (auto& x : v) { x = static_cast<T>(r.sym() * 0.001); }
    auto o = make(s, sh, v);
    s.note(fmt("%s %s", type_name<T>(), o.str().c_str()));
    s.nontrivial(n >= 2);
    for (auto const i : probe_elements(s, sh)) {
        T const loud = static_cast<T>((1 + double(r.next() % 5)) * (r.next() % 2 == 0 ? 1 : -1));
        o.at(i)      = loud;
        long double const f = o.with([](auto x) { return neo::normalize_peak_factor(x); });
        auto const want     = 1 / std::fabs(static_cast<long double>(loud));
        require_close(f, want, 4 * eps<T>() * want, fmt("peak factor with the loudest element at %zu of %zu", i, n).c_str());
        o.at(i) = v[i];
    }
    o.unchanged("argument of the factor function");
    // the same for channels
    if (sh.rank2) {
        for (auto const i : probe_elements(s, {false, sh.r, 1})) {
            auto w           = v;
            w[i * sh.c + r.next() % sh.c] = T(3);
            auto const e     = energy(w, i * sh.c, sh.c);
            if (n > 1500 && i != sh.r - 1 && i != 256 && i != 65536) { continue; }
            Obj<T> q(true, sh.r, sh.c, o.layout, w);
            q.with([](auto x) { neo::convolution::normalize_impulse(x); });
            require_scaled(w, q.get(), 1 / std::sqrt(e), (static_cast<long double>(sh.c) / 2 + 10) * eps<T>(), fmt("impulse response with the loudest channel at %zu of %zu", i, sh.r).c_str());
        }
    }
}

template<typename T>
void impulse(Src& s)
{
    auto const sh = gen_shape(s, 300, 24);
    auto v        = gen_lvl<T>(s, sh.n(), true);
    if (sh.rank2) {  // channels of different level, some silent
        for (std::size_t r = 0; r < sh.r; ++r) {
            auto const f = s.pick({1.0, 1.0, 0.5, 0.125, 4.0, 0.0, 0.001});
            for (std::size_t c = 0; c < sh.c; ++c) { v[r * sh.c + c] = static_cast<T>(v[r * sh.c + c] * static_cast<T>(f)); }
        }
    }
    auto o          = make(s, sh, v);
    auto const zero = std::all_of(v.begin(), v.end(), [](T x) { return x == 0; });
    s.note(fmt("%s %s %s", type_name<T>(), o.str().c_str(), show(v).c_str()));
    s.nontrivial(sh.n() >= 2 && !zero);
    auto const ch  = sh.rank2 ? sh.r : 1;
    auto const len = sh.rank2 ? sh.c : sh.r;
    long double loud = 0;
    std::size_t silent = 0;
    for (std::size_t c = 0; c < ch; ++c) {
        auto const e = energy(v, c * len, len);
        loud         = std::max(loud, e);
        silent += e == 0 ? 1 : 0;
    }
    s.label(zero ? "silent" : silent != 0 ? "some channels silent" : sh.rank2 ? "multichannel" : "single channel");
    o.with([](auto x) { neo::convolution::normalize_impulse(x); });
    o.check("impulse response");
    auto const got = o.get();
    auto const rel = (static_cast<long double>(len) / 2 + 10) * eps<T>();
    if (zero) {
        require_same(v, got, "silence");
        return;
    }
    require_scaled(v, got, 1 / std::sqrt(loud), rel, "normalised impulse response");
    long double e = 0;
    for (std::size_t c = 0; c < ch; ++c) { e = std::max(e, energy(got, c * len, len)); }
    require_close(e, 1, 3 * rel, "energy of the loudest channel");
}
}  // namespace
PBT_CHECK_T(p1, "peak_float", 4000, 80000, norm<float, true>)
PBT_CHECK_T(p2, "peak_double", 3000, 60000, norm<double, true>)
PBT_CHECK_T(e1, "energy_float", 4000, 80000, norm<float, false>)
PBT_CHECK_T(e2, "energy_double", 3000, 60000, norm<double, false>)
PBT_CHECK_T(i1, "impulse_float", 5000, 100000, impulse<float>)
PBT_CHECK_T(i2, "impulse_double", 4000, 80000, impulse<double>)
PBT_CHECK_T(b1, "probe_float", 150, 1500, probe<float>)
PBT_CHECK_T(b2, "probe_double", 100, 1000, probe<double>)
