#include "obj.hpp"
#include <neo/algorithm.hpp>
#include <neo/complex.hpp>

namespace {
// binary: the objects hold the element's index, the predicate looks at a generated truth table
template<typename T>
void pairs(Src& s)
{
    auto const sh = gen_shape(s);
    auto const n  = sh.n();
    std::vector<T> lv(n), rv(n);
    std::vector<char> truth(n, 1);
    for (std::size_t i = 0; i < n; ++i) {
        lv[i] = static_cast<T>(i);
        rv[i] = static_cast<T>(i) + T(1000);
    }
    auto const rule = s.below(4);
    if (n != 0 && rule == 1) { truth[s.size(0, n - 1)] = 0; }
    if (n != 0 && rule == 2) { truth[n - 1] = 0; }
    if (n != 0 && rule == 3) {
        pbt::Rng r{s.below(1 << 16)};
        for (auto& t : truth) { t = r.next() % 8 != 0 ? 1 : 0; }
    }
    auto l = make(s, sh, lv);
    auto r = make(s, sh, rv);
    bool const want = std::all_of(truth.begin(), truth.end(), [](char t) { return t != 0; });
    s.note(fmt("%s/%s expected %s, %zu false", l.str().c_str(), r.str().c_str(), want ? "true" : "false", std::size_t(std::count(truth.begin(), truth.end(), 0))));
    s.label(n == 0 ? "empty" : want ? "all true" : "some false");
    s.nontrivial(n >= 2);
    std::string problem;
    std::vector<unsigned> seen(n, 0);
    auto index = [&](T v) { return static_cast<std::size_t>(to_cx(v).re); };
    auto pred  = [&](T a, T b) -> bool {
        auto const i = index(a);
        if (!(to_cx(a).re >= 0 && i < n)) { problem = fmt("consulted %g, which is not an element", double(to_cx(a).re)); return true; }
        if (index(b) != i + 1000) { problem = fmt("consulted element %zu of the left with %zu of the right object", i, index(b) - 1000); return true; }
        ++seen[i];
        return truth[i] != 0;
    };
    auto const got = with2(l, r, [&](auto x, auto y) { return neo::allmatch(x, y, pred); });
    PBT_REQUIRE(problem.empty(), "%s", problem.c_str());
    PBT_REQUIRE(got == want, "allmatch of two objects is %s", got ? "true" : "false");
    if (want) { PBT_REQUIRE(std::all_of(seen.begin(), seen.end(), [](unsigned k) { return k != 0; }), "true although an element was not consulted"); }
    // unary
    std::fill(seen.begin(), seen.end(), 0U);
    auto const got1 = l.with([&](auto x) {
        return neo::allmatch(x, [&](T a) -> bool {
            auto const i = index(a);
            if (!(to_cx(a).re >= 0 && i < n)) { problem = fmt("consulted %g, which is not an element", double(to_cx(a).re)); return true; }
            ++seen[i];
            return truth[i] != 0;
        });
    });
    PBT_REQUIRE(problem.empty(), "%s", problem.c_str());
    PBT_REQUIRE(got1 == want, "allmatch of one object is %s", got1 ? "true" : "false");
    if (want) { PBT_REQUIRE(std::all_of(seen.begin(), seen.end(), [](unsigned k) { return k != 0; }), "true although an element was not consulted"); }
    l.unchanged("left argument");
    r.unchanged("right argument");
}

// allclose around the tolerance: the perturbation is a generated multiple of it
template<typename L, typename R>
void close(Src& s)
{
    using B = std::conditional_t<(sizeof(base_t<L>) < sizeof(base_t<R>)), base_t<R>, base_t<L>>;
    auto sh = gen_shape(s, 120, 10);
    auto const n   = sh.n();
    auto const def = s.flag();
    B const dflt   = std::is_same_v<B, float> ? B(1e-5F) : B(1e-9);
    B const tol    = def ? dflt : static_cast<B>(s.pick({0.0, 1.0, 0.5, 1e-3, 1e-6, 3e-5, 2.0, 1e3, 1e-12, 1e7}));
    std::vector<L> lv(n);
    std::vector<R> rv(n);
    pbt::Rng rng{s.below(0)};
    // (the difference of close values is exact at every level)
    auto const lvl = static_cast<double>(s.pick({0.25, 0.25, 0.25, 3e3, 5e6, 4e11, 1e-8}));
    if (lvl > 1) { s.label("large values"); }
    for (std::size_t i = 0; i < n; ++i) {
        auto const base = s.flag() ? 0.0 : rng.sym() * lvl;
        if constexpr (is_cx<L>) {
            lv[i] = L(static_cast<base_t<L>>(base), static_cast<base_t<L>>(-base));
            rv[i] = R(static_cast<base_t<R>>(base), static_cast<base_t<R>>(-base));
        } else {
            lv[i] = static_cast<L>(base);
            rv[i] = static_cast<R>(base);
        }
    }
    auto const edits = n == 0 ? 0 : s.size(0, 4);
    bool has_nan     = false;
    for (std::size_t k = 0; k < edits; ++k) {
        auto const i      = s.size(0, n - 1);
        auto const factor = s.pick({0.5, 0.9, 0.99, 1.01, 1.1, 2.0, 100.0, -0.9, -0.99, -1.01, -3.0, 0.0});
        auto const d      = factor * static_cast<double>(tol);
        if (s.chance(1, 12)) {
            auto const nan = std::numeric_limits<base_t<L>>::quiet_NaN();
            if constexpr (is_cx<L>) {
                lv[i] = s.flag() ? L(nan, 0) : L(0, nan);
            } else {
                lv[i] = nan;
            }
            has_nan = true;
            s.label("NaN");
            continue;
        }
        if (s.chance(1, 20)) {
            auto const inf = s.flag() ? std::numeric_limits<base_t<L>>::infinity() : -std::numeric_limits<base_t<L>>::infinity();
            if constexpr (is_cx<L>) {
                lv[i] = s.flag() ? L(inf, 0) : L(0, inf);
            } else {
                lv[i] = inf;
            }
            s.label("infinity");
            continue;
        }
        if constexpr (is_cx<L>) {
            auto const th = static_cast<double>(s.pick({0.0, 0.7853981633974483, 1.5707963267948966, 2.5, 4.0}));
            rv[i] += R(static_cast<base_t<R>>(d * std::cos(th)), static_cast<base_t<R>>(d * std::sin(th)));
        } else {
            rv[i] += static_cast<R>(d);
        }
    }
    (void) has_nan;
    // classification in extended precision; skip cases that rounding could decide
    bool sure_false = false;
    bool unsure     = false;
    for (std::size_t i = 0; i < n; ++i) {
        auto const a  = to_cx(lv[i]);
        auto const b  = to_cx(rv[i]);
        auto const d  = std::hypot(a.re - b.re, a.im - b.im);
        auto const sl = 8 * std::numeric_limits<B>::epsilon() * (static_cast<long double>(tol) + d) ;
        if (std::isnan(a.re) || std::isnan(a.im) || std::isnan(b.re) || std::isnan(b.im)) {
            sure_false = true;
        } else if (std::isinf(d) || d > tol + sl) {
            sure_false = true;
        } else if (d > tol - sl && !(tol == 0 && d == 0)) {
            unsure = true;
        }
    }
    if (!sure_false && unsure) {
        s.label("undecided by rounding");
        return;
    }
    auto l = make(s, sh, lv);
    auto r = make(s, sh, rv);
    s.note(fmt("%s/%s %s tol %s%g l %s r %s", type_name<L>(), type_name<R>(), l.str().c_str(), def ? "default " : "", double(tol), show(lv, 6).c_str(), show(rv, 6).c_str()));
    s.label(fmt("%s %s", def ? "default tolerance" : "given tolerance", sure_false ? "not close" : "close"));
    s.nontrivial(n >= 1 && edits > 0);
    auto const got = with2(l, r, [&](auto x, auto y) { return def ? neo::allclose(x, y) : neo::allclose(x, y, tol); });
    PBT_REQUIRE(got == !sure_false, "allclose is %s", got ? "true" : "false");
    auto const rev = with2(r, l, [&](auto x, auto y) { return def ? neo::allclose(x, y) : neo::allclose(x, y, tol); });
    PBT_REQUIRE(rev == !sure_false, "allclose with exchanged arguments is %s", rev ? "true" : "false");
    l.unchanged("left argument");
    r.unchanged("right argument");
}
// a difference of exactly the tolerance is close, the next larger one is not
template<typename T>
void boundary(Src& s)
{
    using B       = base_t<T>;
    auto const sh = gen_shape(s, 40, 6);
    auto const n  = sh.n();
    B const dflt  = std::is_same_v<B, float> ? B(1e-5F) : B(1e-9);
    bool const def = s.chance(1, 3);
    B const tol    = def ? dflt : static_cast<B>(s.pick({1.0, 0.5, 1e-3, 1e-6, 0.1, 2.0, 1e3, 1e-12, 1e-30, 1e30}));
    std::vector<T> lv(n), rv(n);
    bool over = false;
    for (std::size_t i = 0; i < n; ++i) {
        bool const more = s.chance(1, 16);
        over            = over || more;
        B const d       = (more ? std::nextafter(tol, std::numeric_limits<B>::infinity()) : tol) * (s.flag() ? B(1) : B(-1));
        T v{};
        if constexpr (is_cx<T>) {
            v = s.flag() ? T(d, 0) : T(0, d);
        } else {
            v = d;
        }
        (s.flag() ? lv : rv)[i] = v;
    }
    auto l = make(s, sh, lv);
    auto r = make(s, sh, rv);
    s.note(fmt("%s %s/%s tolerance %s%g, %s", type_name<T>(), l.str().c_str(), r.str().c_str(), def ? "default " : "", double(tol), over ? "one over" : "none over"));
    s.label(over ? "just over" : "equal to the tolerance");
    s.nontrivial(n >= 1);
    auto const got = with2(l, r, [&](auto x, auto y) { return def ? neo::allclose(x, y) : neo::allclose(x, y, tol); });
    PBT_REQUIRE(got == !over, "allclose is %s", got ? "true" : "false");
}
// one differing element, wherever it is
template<typename T>
void probe(Src& s)
{
    auto const sh = gen_probe_shape(s);
    auto const n  = sh.n();
    auto const v  = gen_vec<T>(s, n, nullptr, false);
    auto l        = make(s, sh, v);
    auto r        = make(s, sh, v);
    s.note(fmt("%s %s/%s", type_name<T>(), l.str().c_str(), r.str().c_str()));
    s.nontrivial(n >= 2);
    auto ask = [&] { return with2(l, r, [&](auto x, auto y) { return neo::allclose(x, y, base_t<T>(0.25)); }); };
    PBT_REQUIRE(ask(), "an object is not close to itself");
    for (auto const i : probe_elements(s, sh)) {
        auto& x = (i % 2 == 0 ? l : r).at(i);
        if constexpr (is_cx<T>) {
            x = x + (i % 3 == 0 ? T(0, -100) : T(100, 0));
        } else {
            x = x + (i % 3 == 0 ? T(-100) : T(100));
        }
        PBT_REQUIRE(!ask(), "allclose although element %zu of %zu differs by 100", i, n);
        x = v[i];
    }
    l.unchanged("left argument");
    r.unchanged("right argument");
}
}  // namespace
using cf = std::complex<float>;
using cd = std::complex<double>;
PBT_CHECK_T(p1, "allmatch_float", 4000, 80000, pairs<float>)
PBT_CHECK_T(p2, "allmatch_double", 2000, 40000, pairs<double>)
PBT_CHECK_T(p3, "allmatch_cfloat", 2000, 40000, pairs<cf>)
PBT_CHECK_T(p4, "allmatch_int", 1000, 20000, pairs<int>)
PBT_CHECK_T(c1, "allclose_float", 6000, 120000, close<float, float>)
PBT_CHECK_T(c2, "allclose_double", 6000, 120000, close<double, double>)
PBT_CHECK_T(c3, "allclose_mixed", 3000, 60000, close<float, double>)
PBT_CHECK_T(c4, "allclose_cfloat", 4000, 80000, close<cf, cf>)
PBT_CHECK_T(c5, "allclose_cdouble", 4000, 80000, close<cd, cd>)
PBT_CHECK_T(c6, "allclose_complex64", 1500, 30000, close<neo::complex64, neo::complex64>)
PBT_CHECK_T(d1, "boundary_float", 500, 10000, boundary<float>)
PBT_CHECK_T(d2, "boundary_double", 500, 10000, boundary<double>)
PBT_CHECK_T(d3, "boundary_cfloat", 500, 10000, boundary<cf>)
PBT_CHECK_T(d4, "boundary_cdouble", 500, 10000, boundary<cd>)
PBT_CHECK_T(b1, "probe_float", 100, 1000, probe<float>)
PBT_CHECK_T(b2, "probe_double", 100, 1000, probe<double>)
PBT_CHECK_T(b3, "probe_cfloat", 60, 600, probe<cf>)
