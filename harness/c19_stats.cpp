#include "obj.hpp"
#include <neo/algorithm.hpp>
#include <neo/complex.hpp>

namespace {
// values with an offset, so that naive one-pass formulas cancel
template<typename T>
std::vector<T> gen_off(Src& s, std::size_t n)
{
    auto v = gen_vec<T>(s, n);
    if (s.chance(1, 3)) {
        auto const off = static_cast<base_t<T>>(s.pick({1, -3, 64, 1000}));
        for (auto& x : v) { x += T(off); }
    }
    return v;
}

template<typename T>
void moments(Src& s)
{
    auto const sh = gen_shape(s);
    auto const n  = sh.n();
    auto const v  = gen_off<T>(s, n);
    auto o        = make(s, sh, v);
    s.note(fmt("%s %s %s", type_name<T>(), o.str().c_str(), show(v).c_str()));
    s.label(n == 0 ? "empty" : n == 1 ? "one element" : sh.rank2 ? "matrix" : "vector");
    s.nontrivial(n >= 2);
    long double re = 0, im = 0, mag = 0;
    for (auto x : v) {
        re += to_cx(x).re;
        im += to_cx(x).im;
        mag += std::fabs(to_cx(x).re) + std::fabs(to_cx(x).im);
    }
    auto const mean = o.with([](auto x) { return neo::mean(x); });
    PBT_REQUIRE(mean.has_value() == (n != 0), "mean of %zu elements %s", n, mean.has_value() ? "exists" : "does not exist");
    long double const dn = static_cast<long double>(n);
    auto const mean_tol  = 2 * eps<T>() * mag + 1e-44L;  // n*eps*sum|x|/n
    if (n != 0) {
        require_close(to_cx(*mean).re, re / dn, mean_tol, "mean");
        require_close(to_cx(*mean).im, im / dn, mean_tol, "mean (imaginary part)");
        auto const un = o.with([](auto x) { return neo::mean_unchecked(x); });
        require_close(to_cx(un).re, re / dn, mean_tol, "mean_unchecked");
    }
    if constexpr (!is_cx<T>) {
        auto const var = o.with([](auto x) { return neo::variance(x); });
        auto const dev = o.with([](auto x) { return neo::standard_deviation(x); });
        PBT_REQUIRE(var.has_value() == (n >= 2), "variance of %zu elements %s", n, var.has_value() ? "exists" : "does not exist");
        PBT_REQUIRE(dev.has_value() == (n >= 2), "deviation of %zu elements %s", n, dev.has_value() ? "exists" : "does not exist");
        if (n >= 2) {
            long double q = 0, d1 = 0;
            for (auto x : v) {
                auto const d = static_cast<long double>(x) - re / dn;
                q += d * d;
                d1 += std::fabs(d);
            }
            auto const want = q / dn;
            auto const tol  = (dn + 8) * eps<T>() * want + 4 * mean_tol * d1 / dn + 2 * mean_tol * mean_tol + 1e-44L;
            require_close(*var, want, tol, "variance");
            PBT_REQUIRE(*var >= 0, "variance is negative");
            // |sqrt(a)-sqrt(b)| <= |a-b|/sqrt(max) and <= sqrt(|a-b|)
            auto const dt = std::min(std::sqrt(tol), want > 0 ? tol / std::sqrt(want) : std::sqrt(tol)) + 4 * eps<T>() * std::sqrt(want);
            require_close(*dev, std::sqrt(want), dt, "standard deviation");
        }
    }
    o.unchanged("argument");
}

template<typename L, typename R>
void errors(Src& s)
{
    auto sh = gen_shape(s);
    if (sh.n() == 0) { sh = {sh.rank2, 1, 1}; }
    auto const n  = sh.n();
    auto const lv = gen_vec<L>(s, n);
    std::vector<R> rv;
    auto const eq = s.chance(1, 6);
    if (eq) {
        for (auto x : lv) {
            if constexpr (is_cx<L>) {
                rv.push_back(R(static_cast<base_t<R>>(x.real()), static_cast<base_t<R>>(x.imag())));
            } else {
                rv.push_back(static_cast<R>(x));
            }
        }
    } else if (s.chance(1, 3)) {  // differs in one place
        for (auto x : lv) {
            if constexpr (is_cx<L>) {
                rv.push_back(R(static_cast<base_t<R>>(x.real()), static_cast<base_t<R>>(x.imag())));
            } else {
                rv.push_back(static_cast<R>(x));
            }
        }
        rv[s.size(0, n - 1)] += R(2);
    } else {
        rv = gen_vec<R>(s, n);
    }
    auto l = make(s, sh, lv);
    auto r = make(s, sh, rv);
    s.note(fmt("%s/%s l %s %s r %s %s", type_name<L>(), type_name<R>(), l.str().c_str(), show(lv).c_str(), r.str().c_str(), show(rv).c_str()));
    s.label(eq ? "equal arguments" : "different arguments");
    s.nontrivial(n >= 2 && !eq);
    using W       = std::conditional_t<(sizeof(base_t<L>) < sizeof(base_t<R>)), base_t<R>, base_t<L>>;
    auto const e  = std::max<long double>(eps<L>(), eps<R>());
    long double q = 0, lin = 0, m2 = 0;
    for (std::size_t i = 0; i < n; ++i) {
        auto const a = to_cx(lv[i]);
        auto const b = to_cx(rv[i]);
        auto const d = is_cx<L> ? std::hypot(a.re, a.im) - std::hypot(b.re, b.im) : a.re - b.re;
        auto const u = 3 * e * (std::hypot(a.re, a.im) + std::hypot(b.re, b.im));
        q += d * d;
        lin += std::fabs(d) * u;
        m2 += u * u;
    }
    auto const dn   = static_cast<long double>(n);
    auto const want = q / dn;
    auto const tol  = (dn + 8) * e * want + (2 * lin + m2) / dn + 1e-40L;
    auto const mse  = with2(l, r, [](auto x, auto y) { return neo::mean_squared_error(x, y); });
    auto const rev  = with2(r, l, [](auto x, auto y) { return neo::mean_squared_error(x, y); });
    auto const rms  = with2(l, r, [](auto x, auto y) { return neo::root_mean_squared_error(x, y); });
    static_assert(std::is_same_v<std::remove_const_t<decltype(mse)>, W>);
    require_close(mse, want, tol, "mean squared error");
    require_close(rev, mse, tol, "mean squared error with exchanged arguments");
    auto const dt = std::min(std::sqrt(tol), want > 0 ? tol / std::sqrt(want) : std::sqrt(tol)) + 4 * e * std::sqrt(want);
    require_close(rms, std::sqrt(want), dt, "root mean squared error");
    if (eq) {
        // equal values have equal magnitudes; a different precision may round them differently
        if constexpr (std::is_same_v<L, R>) { PBT_REQUIRE(mse == 0 && rms == 0, "error of equal arguments is %g", double(mse)); }
    }
    l.unchanged("left argument");
    r.unchanged("right argument");
}
}  // namespace
using cf = std::complex<float>;
using cd = std::complex<double>;
PBT_CHECK_T(m1, "moments_float", 4000, 80000, moments<float>)
PBT_CHECK_T(m2, "moments_double", 4000, 80000, moments<double>)
PBT_CHECK_T(m3, "mean_cfloat", 1000, 20000, moments<cf>)
PBT_CHECK_T(m4, "mean_cdouble", 1000, 20000, moments<cd>)
PBT_CHECK_T(e1, "error_float", 3000, 60000, errors<float, float>)
PBT_CHECK_T(e2, "error_double", 2000, 40000, errors<double, double>)
PBT_CHECK_T(e3, "error_mixed", 2000, 40000, errors<float, double>)
PBT_CHECK_T(e4, "error_cfloat", 3000, 60000, errors<cf, cf>)
PBT_CHECK_T(e5, "error_cdouble", 2000, 40000, errors<cd, cd>)
PBT_CHECK_T(e6, "error_complex64", 1000, 20000, errors<neo::complex64, neo::complex64>)
