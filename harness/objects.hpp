#pragma once
// The kinds of objects of the library (and its stateless functions) behind one interface.
#include "fft_common.hpp"
#include "mat.hpp"
#include <memory>
#include <neo/algorithm.hpp>
#include <neo/container.hpp>
#include <neo/convolution.hpp>
#include <neo/fft/experimental/rfft.hpp>
#include <neo/fixed_point.hpp>
#include <neo/math.hpp>
#include <neo/unit.hpp>
#include <thread>


// runs one call of the library; redefined to watch it
#ifndef NEO_LIB_CALL
template<typename Fn>
void lib(Fn fn)
{
    fn();
}
#endif
namespace cv = neo::convolution;
namespace {
using Rng = pbt::Rng;
using Out = std::vector<double>;

std::size_t pick(Rng& r, std::size_t lo, std::size_t hi) { return lo + r.next() % (hi - lo + 1); }
template<typename T>
std::vector<T> noise(Rng& r, std::size_t n)
{
    std::vector<T> v(n);
    for (auto& x : v) {
        if constexpr (std::is_arithmetic_v<T>) {
            x = static_cast<T>(r.sym());
        } else {
            auto const re = r.sym();
            x             = T(static_cast<base_t<T>>(re), static_cast<base_t<T>>(r.sym()));
        }
    }
    return v;
}
template<typename T>
auto span1(std::vector<T>& v) { return stdex::mdspan<T, stdex::dextents<std::size_t, 1>>{v.data(), v.size()}; }
template<typename T>
auto span2(std::vector<T>& v, std::size_t r, std::size_t c) { return stdex::mdspan<T, stdex::dextents<std::size_t, 2>>{v.data(), r, c}; }
template<typename T>
void put(Out& o, std::vector<T> const& v)
{
    for (auto x : v) {
        auto const c = to_cx(x);
        o.push_back(double(c.re));
        if constexpr (!std::is_arithmetic_v<T>) { o.push_back(double(c.im)); }
    }
}
template<typename V>
void put1(Out& o, V const& v)
{
    for (std::size_t i = 0; i < std::size_t(v.extent(0)); ++i) {
        auto const c = to_cx(v(i));
        o.push_back(double(c.re));
        o.push_back(double(c.im));
    }
}
// fn(view) of x, now and then through a strided view
template<typename T, typename Fn>
void through(Rng& r, std::vector<T>& x, Fn fn)
{
    if (r.next() % 4 != 0) { return fn(span1(x)); }
    std::vector<T> wide(2 * x.size());
    for (std::size_t i = 0; i < x.size(); ++i) { wide[2 * i] = x[i]; }
    using E = stdex::dextents<std::size_t, 1>;
    fn(stdex::mdspan<T, E, stdex::layout_stride>{wide.data(), stdex::layout_stride::mapping<E>{E{x.size()}, std::array<std::size_t, 1>{2}}});
    for (std::size_t i = 0; i < x.size(); ++i) { x[i] = wide[2 * i]; }
}
// the same for the two halves of a split vector, which have one type
template<typename T, typename Fn>
void through2(Rng& r, std::vector<T>& a, std::vector<T>& b, Fn fn)
{
    auto const strided = r.next() % 4 == 0;
    if (!strided) { return fn(neo::split_complex{span1(a), span1(b)}); }
    std::vector<T> u(2 * a.size()), w(2 * b.size());
    for (std::size_t i = 0; i < a.size(); ++i) { u[2 * i] = a[i], w[2 * i] = b[i]; }
    using E = stdex::dextents<std::size_t, 1>;
    using V = stdex::mdspan<T, E, stdex::layout_stride>;
    auto const map = stdex::layout_stride::mapping<E>{E{a.size()}, std::array<std::size_t, 1>{2}};
    fn(neo::split_complex{V{u.data(), map}, V{w.data(), map}});
    for (std::size_t i = 0; i < a.size(); ++i) { a[i] = u[2 * i], b[i] = w[2 * i]; }
}
// usually small, now and then large
std::size_t order_of(Rng& r, std::size_t lo, std::size_t hi, std::size_t large) { return r.next() % 120 == 0 ? large : pick(r, lo, hi); }
fft::direction dir_of(Rng& r) { return r.next() % 2 == 0 ? fft::direction::forward : fft::direction::backward; }

// ---- kinds of objects: made from random numbers, then driven by random numbers
template<typename Plan, std::size_t Radix, std::size_t Max, std::size_t Large = Radix == 2 ? 12 : Radix == 3 ? 7 : Radix == 4 ? 6 : Radix == 5 ? 5 : 4>
struct ComplexPlan
{
    using C = typename Plan::value_type;
    std::size_t order;
    Plan plan;
    explicit ComplexPlan(Rng& r) : order(order_of(r, 1, Max, Large)), plan(fft::from_order, order) {}
    Out operator()(Rng& r)
    {
        auto x       = noise<C>(r, upow(Radix, order));
        auto const d = dir_of(r);
        auto const how = r.next() % 4;
        if (how == 0) {  // out of place
            auto y = noise<C>(r, x.size());
            through(r, y, [&](auto v) {
                through(r, x, [&](auto u) { lib([&] { d == fft::direction::forward ? fft::fft(plan, u, v) : fft::ifft(plan, u, v); }); });
            });
            x = y;
        } else {
            through(r, x, [&](auto v) { lib([&] { plan(v, d); }); });
        }
        Out o{double(plan.size()), double(plan.order())};
        put(o, x);
        return o;
    }
};
template<typename F>
struct RealPlan
{
    using C = std::complex<F>;
    std::size_t order;
    fft::rfft_plan<F, C> plan;
    explicit RealPlan(Rng& r) : order(order_of(r, 1, 7, 12)), plan(fft::from_order, order) {}
    Out operator()(Rng& r)
    {
        auto const n = std::size_t(1) << order;
        auto x       = noise<F>(r, n);
        auto y       = noise<C>(r, n / 2 + 1);
        Out o;
        if (dir_of(r) == fft::direction::forward) {
            through(r, x, [&](auto v) { through(r, y, [&](auto w) { lib([&] { fft::rfft(plan, v, w); }); }); });
            put(o, y);
        } else {
            through(r, y, [&](auto v) { through(r, x, [&](auto w) { lib([&] { fft::irfft(plan, v, w); }); }); });
            put(o, x);
        }
        return o;
    }
};
template<typename F>
struct SplitPlan
{
    std::size_t order;
    fft::split_fft_plan<F> plan;
    explicit SplitPlan(Rng& r) : order(order_of(r, 1, 7, 12)), plan(fft::from_order, order) {}
    Out operator()(Rng& r)
    {
        auto const n = std::size_t(1) << order;
        auto a = noise<F>(r, n), b = noise<F>(r, n), c = noise<F>(r, n), d = noise<F>(r, n);
        auto const dir = dir_of(r);
        Out o;
        if (r.next() % 2 == 0) {
            through2(r, a, b, [&](auto v) { lib([&] { plan(v, dir); }); });
        } else {
            through2(r, a, b, [&](auto v) { through2(r, c, d, [&](auto w) { lib([&] { plan(v, w, dir); }); }); });
        }
        put(o, a), put(o, b), put(o, c), put(o, d);
        return o;
    }
};
template<typename C>
struct AnyLength
{
    std::size_t n;
    fft::dft_plan<C> plan;
    explicit AnyLength(Rng& r) : n(r.next() % 120 == 0 ? pick(r, 1500, 2100) : pick(r, 1, 60)), plan(n) {}
    Out operator()(Rng& r)
    {
        auto x = noise<C>(r, n);
        auto const dir = dir_of(r);
        if (r.next() % 4 == 0) {
            auto y = noise<C>(r, n);
            through(r, x, [&](auto v) { through(r, y, [&](auto w) { lib([&] { dir == fft::direction::forward ? fft::dft(plan, v, w) : fft::idft(plan, v, w); }); }); });
            x = y;
        } else {
            through(r, x, [&](auto v) { lib([&] { plan(v, dir); }); });
        }
        Out o;
        put(o, x);
        return o;
    }
};
template<typename F>
struct Dct
{
    std::size_t order;
    fft::fallback_dct2_plan<F> plan;
    explicit Dct(Rng& r) : order(order_of(r, 1, 7, 12)), plan(fft::from_order, order) {}
    Out operator()(Rng& r)
    {
        auto x = noise<F>(r, std::size_t(1) << order);
        through(r, x, [&](auto v) { lib([&] { plan(v); }); });
        Out o;
        put(o, x);
        return o;
    }
};
template<typename F>
struct Packed
{
    std::size_t order;
    fft::experimental::rfft_plan<F> plan;
    explicit Packed(Rng& r) : order(order_of(r, 2, 7, 12)), plan(fft::from_order, order) {}
    Out operator()(Rng& r)
    {
        auto x = noise<F>(r, std::size_t(1) << order);
        auto const dir = dir_of(r);
        through(r, x, [&](auto v) { lib([&] { plan(v, dir); }); });
        Out o;
        put(o, x);
        return o;
    }
};
template<typename F>
struct PackedComplex
{
    std::size_t order;
    fft::experimental::c2c_dit2_plan<F> plan;
    explicit PackedComplex(Rng& r) : order(order_of(r, 1, 7, 11)), plan(fft::from_order, order) {}
    Out operator()(Rng& r)
    {
        auto x         = noise<F>(r, std::size_t(2) << order);
        auto const dir = dir_of(r);
        through(r, x, [&](auto v) { lib([&] { plan(v, dir); }); });
        Out o;
        put(o, x);
        return o;
    }
};
template<typename F>
struct Stft
{
    std::size_t frame;
    fft::stft_plan<F> plan;
    explicit Stft(Rng& r) : frame(pick(r, 2, 40)), plan(fft::stft_options<F>{.frame_size = frame, .transform_size = frame + r.next() % 9, .overlap_size = r.next() % frame}) {}
    Out operator()(Rng& r)
    {
        auto const ch = pick(r, 1, 2);
        auto const n  = pick(r, 1, 3 * frame);
        auto x        = noise<F>(r, ch * n);
        auto y        = plan(span2(x, ch, n));
        Out o{double(y.extent(0)), double(y.extent(1)), double(y.extent(2))};
        for (std::size_t c = 0; c < y.extent(0); ++c) {
            for (std::size_t f = 0; f < y.extent(1); ++f) {
                for (std::size_t k = 0; k < y.extent(2); ++k) { o.push_back(double(y(c, f, k).real())), o.push_back(double(y(c, f, k).imag())); }
            }
        }
        return o;
    }
};
template<typename F>
struct FftConvolver
{
    std::size_t n, m;
    cv::fft_convolver<F> conv;
    explicit FftConvolver(Rng& r) : n(r.next() % 120 == 0 ? pick(r, 2000, 5000) : pick(r, 2, 50)), m(pick(r, 2, 50)), conv(n, m) {}
    Out operator()(Rng& r)
    {
        auto a = noise<F>(r, n), b = noise<F>(r, m);
        std::vector<F> y(n + m - 1);
        through(r, a, [&](auto v) { through(r, b, [&](auto u) { through(r, y, [&](auto w) { lib([&] { conv(v, u, w); }); }); }); });
        Out o;
        put(o, y);
        return o;
    }
};
template<typename Engine>
struct Overlap
{
    using C = typename Engine::complex_type;
    using F = base_t<C>;
    std::size_t block, filter;
    Engine eng;
    explicit Overlap(Rng& r) : block(r.next() % 120 == 0 ? pick(r, 1000, 4200) : pick(r, 1, 24)), filter(pick(r, 2, 24)), eng(block, filter) {}
    Out operator()(Rng& r)
    {
        auto x       = noise<F>(r, block);
        auto const g = noise<C>(r, 2 * (block + filter));
        through(r, x, [&](auto w) {
            lib([&] {
                eng(w, [&](auto v) {
                    for (std::size_t i = 0; i < std::size_t(v.extent(0)); ++i) { v[i] = v[i] * g[i % g.size()]; }
                });
            });
        });
        Out o;
        put(o, x);
        return o;
    }
};
enum Kind { dense, keep };
template<typename Conv, typename F, Kind K, bool AnySize = false>
struct Partitioned
{
    using C = std::complex<F>;
    std::size_t block;
    Conv conv;
    void set(Rng& r)
    {
        block            = std::size_t(1) << order_of(r, 1, 4, 11);
        auto const parts = r.next() % 60 == 0 ? pick(r, 5, 40) : pick(r, 1, 4);
        auto h           = noise<C>(r, parts * (block + 1));
        if constexpr (K == dense) {
            conv.filter(span2(h, parts, block + 1));
        } else {
            auto const mod = pick(r, 1, 3);
            conv.filter(span2(h, parts, block + 1), [=](auto row, auto col, auto) { return (std::size_t(row) + std::size_t(col)) % mod == 0; });
        }
    }
    explicit Partitioned(Rng& r) { set(r); }
    Out operator()(Rng& r)
    {
        if (r.next() % 12 == 0) { set(r); }
        auto x = noise<F>(r, AnySize ? block + r.next() % (2 * block) : block);
        through(r, x, [&](auto v) { lib([&] { conv(v); }); });
        Out o;
        put(o, x);
        return o;
    }
};
template<typename Fdl, typename C, bool Split>
struct DelayLine
{
    std::size_t rows, cols;
    Fdl fdl;
    explicit DelayLine(Rng& r) : rows(pick(r, 1, 5)), cols(r.next() % 120 == 0 ? pick(r, 1000, 5000) : pick(r, 1, 9)), fdl(stdex::dextents<std::size_t, 2>{rows, cols}) {}
    Out operator()(Rng& r)
    {
        auto x = noise<C>(r, cols);
        auto const slot = r.next() % rows;
        through(r, x, [&](auto v) { lib([&] { fdl.insert(v, slot); }); });
        Out o;
        for (std::size_t i = 0; i < rows; ++i) {
            auto const row = fdl[i];
            for (std::size_t k = 0; k < cols; ++k) {
                if constexpr (Split) {
                    o.push_back(double(row.real[k])), o.push_back(double(row.imag[k]));
                } else {
                    C const v = row[k];
                    o.push_back(double(v.real())), o.push_back(double(v.imag()));
                }
            }
        }
        return o;
    }
};
struct Schedule
{
    std::size_t n;
    cv::fdl_index<std::size_t> idx;
    explicit Schedule(Rng& r) : n(r.next() % 60 == 0 ? pick(r, 100, 700) : pick(r, 1, 7)), idx(n) {}
    Out operator()(Rng& r)
    {
        if (r.next() % 9 == 0) { idx.reset(); }
        Out o;
        o.reserve(n + 1);
        lib([&] { idx([&](std::size_t i) { o.push_back(double(i)); }, [&](std::size_t a, std::size_t b) { o.push_back(double(a * 1000 + b)); }); });
        return o;
    }
};
struct Sparse
{
    using M = neo::csr_matrix<double, std::size_t>;
    std::size_t rows, cols;
    M m;
    explicit Sparse(Rng& r) : rows(pick(r, 1, 6)), cols(r.next() % 120 == 0 ? pick(r, 100, 400) : pick(r, 1, 6)), m(rows, cols) {}
    Out operator()(Rng& r)
    {
        auto const i = r.next() % rows, k = r.next() % cols;
        auto const v = 0.5 + r.sym() * 0.4;
        if (m(i, k) == 0.0) { m.insert(i, k, v); }
        Out o;
        for (std::size_t a = 0; a < rows; ++a) {
            for (std::size_t b = 0; b < cols; ++b) { o.push_back(m(a, b)); }
        }
        std::vector<double> x = noise<double>(r, cols), z(cols, 1.0);
        through(r, z, [&](auto v) { lib([&] { neo::multiply_add(span1(x), m, i, v, v); }); });
        put(o, z);
        return o;
    }
};
template<std::size_t Radix>
struct Reorder
{
    std::size_t order;
    fft::digitrevorder_plan<Radix> plan;
    explicit Reorder(Rng& r) : order(order_of(r, 1, 4, 6)), plan(upow(Radix, order)) {}
    Out operator()(Rng& r)
    {
        auto x = noise<std::complex<double>>(r, upow(Radix, order));
        through(r, x, [&](auto v) { lib([&] { plan(v); }); });
        Out o;
        put(o, x);
        return o;
    }
};
struct BitReverse
{
    std::size_t order;
    fft::bitrevorder_plan plan;
    explicit BitReverse(Rng& r) : order(order_of(r, 1, 7, 12)), plan(order) {}
    Out operator()(Rng& r)
    {
        auto x = noise<std::complex<float>>(r, std::size_t(1) << order);
        Out o;
        switch (r.next() % 4) {
            case 0: through(r, x, [&](auto v) { lib([&] { fft::bitrevorder(v); }); }); break;
            case 1: {
                auto p = noise<float>(r, x.size() * 2);
                through(r, p, [&](auto v) { lib([&] { plan(v); }); });
                put(o, p);
                break;
            }
            case 2: {
                auto re = noise<double>(r, x.size()), im = noise<double>(r, x.size());
                through2(r, re, im, [&](auto v) { lib([&] { plan(v); }); });
                put(o, re), put(o, im);
                break;
            }
            default: through(r, x, [&](auto v) { lib([&] { plan(v); }); }); break;
        }
        put(o, x);
        return o;
    }
};
// functions without an object: they must not remember earlier calls
template<typename F>
struct Functions
{
    explicit Functions(Rng&) {}
    Out operator()(Rng& r)
    {
        using C      = std::complex<F>;
        auto const n = r.next() % 120 == 0 ? pick(r, 1000, 5000) : pick(r, 2, 40);
        auto a = noise<F>(r, n), b = noise<F>(r, pick(r, 2, 40)), c = noise<F>(r, n);
        auto x = noise<C>(r, n), y = noise<C>(r, n), z = noise<C>(r, n);
        Out o;
        switch (r.next() % 22) {
            case 15: {  // through strided views
                auto const which = r.next() % 6;
                through(r, x, [&](auto v) {
                    through(r, z, [&](auto w) {
                        lib([&] {
                            switch (which) {
                                case 0: neo::add(v, w, w); break;
                                case 1: neo::multiply(v, w, v); break;
                                case 2: neo::multiply_add(v, v, w, w); break;
                                case 3: neo::copy(v, w); break;
                                case 4: neo::scale(F(3), w), neo::fill(v, C(F(1), F(2))); break;
                                default: neo::multiply_add(v, w, v, v); break;
                            }
                        });
                    });
                });
                put(o, x), put(o, z);
                break;
            }
            case 16: {  // matrices
                auto const rows = pick(r, 1, n / 2);
                auto const cols = n / rows;
                auto const ma   = span2(a, rows, cols);
                auto const mc   = span2(c, rows, cols);
                auto const which = r.next() % 7;
                lib([&] {
                    switch (which) {
                        case 0: neo::add(ma, mc, mc); break;
                        case 1: neo::multiply(ma, mc, ma); break;
                        case 2: neo::normalize_peak(ma); break;
                        case 3: neo::normalize_energy(ma); break;
                        case 4: neo::copy(ma, mc), neo::scale(F(3), ma); break;
                        case 5: neo::fill(ma, F(2)); break;
                        default: cv::normalize_impulse(ma); break;
                    }
                });
                put(o, a), put(o, c);
                break;
            }
            case 17: {  // split complex
                auto p = noise<F>(r, n), q = noise<F>(r, n), u = noise<F>(r, n), w = noise<F>(r, n);
                using S = neo::split_complex<decltype(span1(a))>;
                lib([&] { neo::multiply_add(S{span1(a), span1(w)}, S{span1(p), span1(q)}, S{span1(u), span1(c)}, S{span1(u), span1(c)}); });
                lib([&] { neo::copy(span1(x), S{span1(a), span1(p)}), neo::copy(S{span1(u), span1(q)}, span1(y)); });
                put(o, u), put(o, c), put(o, a), put(o, p), put(o, y);
                break;
            }
            case 18: {  // measures
                double m[8]{};
                lib([&] {
                    m[0] = double(neo::mean(span1(a)).value_or(0));
                    m[1] = double(neo::variance(span1(a)).value_or(0));
                    m[2] = double(neo::standard_deviation(span1(a)).value_or(0));
                    m[3] = double(neo::mean_squared_error(span1(x), span1(y)));
                    m[4] = double(neo::root_mean_squared_error(span1(a), span1(c)));
                    m[5] = neo::allclose(span1(x), span1(y), F(0.5)) ? 1 : 0;
                    m[6] = neo::allmatch(span1(a), [](auto v) { return v < F(0.9); }) ? 1 : 0;
                    m[7] = double(neo::normalize_peak_factor(span1(a))) + double(neo::normalize_energy_factor(span1(c)));
                });
                o.assign(std::begin(m), std::end(m));
                break;
            }
            case 19: {  // two real spectra out of one complex one
                auto const h = n / 2 + 1;
                auto p = noise<C>(r, h), q = noise<C>(r, h);
                lib([&] { fft::rfft_deinterleave(span1(x), span1(p), span1(q)); });
                put(o, p), put(o, q);
                break;
            }
            case 20: {  // numbers of fixed point
                using Q = std::conditional_t<sizeof(F) == 4, neo::q7, neo::q15>;
                std::vector<Q> p, q, u(n);
                for (std::size_t i = 0; i < n; ++i) { p.emplace_back(float(a[i])), q.emplace_back(float(c[i])); }
                auto const which = r.next() % 3;
                std::span<Q const> const sp{p}, sq{q};
                std::span<Q> const su{u};
                lib([&] {
                    switch (which) {
                        case 0: neo::add(sp, sq, su); break;
                        case 1: neo::subtract(sp, sq, su); break;
                        default: neo::multiply(sp, sq, su); break;
                    }
                });
                for (auto v : u) { o.push_back(double(v.value())); }
                break;
            }
            case 21: {
                if (r.next() % 2 == 0) {
                    put1(o, neo::generate_window<F>(n));
                } else {
                    put1(o, neo::generate_window<F, neo::hamming_window<F>>(n));
                }
                break;
            }
            case 0: put1(o, cv::direct_convolve(span1(a), span1(b))); break;
            case 1: put1(o, cv::fft_convolve(span1(a), span1(b))); break;
            case 2: {
                auto const p = cv::uniform_partition(span2(a, 1, n), std::size_t(1) << pick(r, 1, 4));
                o            = {double(p.extent(1)), double(p.extent(2))};
                for (std::size_t i = 0; i < p.extent(1); ++i) {
                    for (std::size_t k = 0; k < p.extent(2); ++k) { o.push_back(double(p(0, i, k).real())), o.push_back(double(p(0, i, k).imag())); }
                }
                break;
            }
            case 3: put1(o, fft::make_twiddle_lut_radix2<C>(std::size_t(1) << pick(r, 1, 7), dir_of(r))); break;
            case 4: {
                auto const dir = dir_of(r);
                lib([&] { fft::dft(span1(x), span1(y), dir); });
                put(o, y);
                break;
            }
            case 5:
                if (r.next() % 2 == 0) {
                    lib([&] { neo::fill_window(span1(a), neo::hann_window<F>{}); });
                } else {
                    lib([&] { neo::fill_window(span1(a), neo::hamming_window<F>{}); });
                }
                put(o, a);
                break;
            case 6: lib([&] { neo::mel_frequencies(span1(a), F(double(pick(r, 0, 100))), F(double(pick(r, 1000, 20000)))); }), put(o, a); break;
            case 7: lib([&] { neo::multiply_add(span1(x), span1(y), span1(z), span1(z)); }), put(o, z); break;
            case 8: lib([&] { neo::multiply(span1(x), span1(y), span1(z)); }), put(o, z); break;
            case 9: lib([&] { neo::normalize_peak(span1(a)); }), put(o, a); break;
            case 10: lib([&] { neo::normalize_energy(span1(a)); }), put(o, a); break;
            case 11: lib([&] { cv::normalize_impulse(span2(a, 1, n)); }), put(o, a); break;
            case 12: lib([&] { neo::add(span1(x), span1(y), span1(z)), neo::copy(span1(z), span1(x)), neo::scale(F(2), span1(y)), neo::fill(span1(a), F(1)); }), put(o, z), put(o, x), put(o, y), put(o, a); break;
            case 13: o = {double(neo::mean(span1(a)).value_or(0)), double(neo::variance(span1(a)).value_or(0)), double(neo::standard_deviation(span1(a)).value_or(0)), double(neo::mean_squared_error(span1(a), span1(c)))}; break;
            default: o = {neo::allclose(span1(a), span1(c)) ? 1.0 : 0.0, double(neo::a_weighting(F(double(pick(r, 10, 20000))))), double(neo::amplitude_to_db(a[0])), double(neo::hertz_to_mel(std::abs(a[0])))}; break;
        }
        return o;
    }
};

struct Machine
{
    virtual ~Machine()                                = default;
    virtual Out step(std::uint64_t seed)              = 0;
    virtual std::unique_ptr<Machine> clone() const    = 0;
    virtual void assign(Machine const& other)         = 0;  // of the same kind
    virtual void relocate()                           = 0;  // through moves
};
template<typename S>
struct Box final : Machine
{
    S s;
    explicit Box(S v) : s(std::move(v)) {}
    Out step(std::uint64_t seed) override
    {
        Rng r{seed};
        return s(r);
    }
    std::unique_ptr<Machine> clone() const override { return std::make_unique<Box>(s); }
    void assign(Machine const& other) override { s = static_cast<Box const&>(other).s; }
    void relocate() override
    {
        S t(std::move(s));
        s = std::move(t);
    }
};
using Maker = std::unique_ptr<Machine> (*)(std::uint64_t);
template<typename S>
std::unique_ptr<Machine> make(std::uint64_t seed)
{
    Rng r{seed};
    return std::make_unique<Box<S>>(S(r));
}
using cf = std::complex<float>;
using cd = std::complex<double>;
struct KindInfo
{
    char const* name;
    Maker make;
};
KindInfo const kinds[] = {
    {"fft_plan", make<ComplexPlan<fft::fft_plan<cf>, 2, 7>>},
    {"fft_plan<double>", make<ComplexPlan<fft::fft_plan<cd>, 2, 7>>},
    {"fft_plan<complex64>", make<ComplexPlan<fft::fft_plan<neo::complex64>, 2, 7>>},
    {"dif2r", make<ComplexPlan<fft::c2c_stockham_dif2r_plan<cf>, 2, 7>>},
    {"dif2i", make<ComplexPlan<fft::c2c_stockham_dif2i_plan<cd>, 2, 7>>},
    {"dit4", make<ComplexPlan<fft::c2c_dit4_plan<cf>, 4, 3>>},
    {"dif4", make<ComplexPlan<fft::c2c_dif4_plan<cd>, 4, 3>>},
    {"dif3", make<ComplexPlan<fft::c2c_dif3_plan<cf>, 3, 4>>},
    {"dif5", make<ComplexPlan<fft::c2c_dif5_plan<cd>, 5, 3>>},
    {"stockham_dif3", make<ComplexPlan<fft::c2c_stockham_dif3_plan<cd>, 3, 4>>},
    {"stockham_dif4", make<ComplexPlan<fft::c2c_stockham_dif4_plan<cf>, 4, 3>>},
    {"stockham_dif5", make<ComplexPlan<fft::c2c_stockham_dif5_plan<cf>, 5, 3>>},
    {"stockham_dif8", make<ComplexPlan<fft::c2c_stockham_dif8_plan<cd>, 8, 2>>},
    {"stockham_dit4", make<ComplexPlan<fft::c2c_stockham_dit4_plan<cf>, 4, 3>>},
    {"rfft_plan", make<RealPlan<float>>},
    {"rfft_plan<double>", make<RealPlan<double>>},
    {"split_fft_plan", make<SplitPlan<float>>},
    {"split_fft_plan<double>", make<SplitPlan<double>>},
    {"dft_plan", make<AnyLength<cf>>},
    {"dft_plan<double>", make<AnyLength<cd>>},
    {"dct2_plan", make<Dct<float>>},
    {"packed rfft", make<Packed<float>>},
    {"packed fft", make<PackedComplex<float>>},
    {"packed fft<double>", make<PackedComplex<double>>},
    {"dct2_plan<double>", make<Dct<double>>},
    {"fft_convolver<double>", make<FftConvolver<double>>},
    {"overlap_add<double>", make<Overlap<cv::overlap_add<cd>>>},
    {"overlap_save<float>", make<Overlap<cv::overlap_save<cf>>>},
    {"stft_plan", make<Stft<float>>},
    {"stft_plan<double>", make<Stft<double>>},
    {"fft_convolver", make<FftConvolver<float>>},
    {"overlap_add", make<Overlap<cv::overlap_add<cf>>>},
    {"overlap_save", make<Overlap<cv::overlap_save<cd>>>},
    {"upols", make<Partitioned<cv::upols_convolver<cf>, float, dense>>},
    {"upola", make<Partitioned<cv::upola_convolver<cd>, double, dense>>},
    {"upola_v2", make<Partitioned<cv::upola_convolver_v2<cf>, float, dense, true>>},
    {"split_upols", make<Partitioned<cv::split_upols_convolver<cf>, float, dense>>},
    {"split_upola", make<Partitioned<cv::split_upola_convolver<cf>, float, dense>>},
    {"sparse_upols", make<Partitioned<cv::sparse_upols_convolver<cf>, float, keep>>},
    {"sparse_upola", make<Partitioned<cv::sparse_upola_convolver<cd>, double, keep>>},
    {"dense_fdl", make<DelayLine<cv::dense_fdl<cf>, cf, false>>},
    {"dense_split_fdl", make<DelayLine<cv::dense_split_fdl<float>, cf, true>>},
    {"compressed_fdl", make<DelayLine<cv::compressed_fdl<cf, neo::scalar_complex<std::int16_t>>, cf, false>>},
    {"fdl_index", make<Schedule>},
    {"csr_matrix", make<Sparse>},
    {"digitrevorder_plan", make<Reorder<4>>},
    {"bitrevorder_plan", make<BitReverse>},
    {"functions", make<Functions<float>>},
    {"functions<double>", make<Functions<double>>},
};

}  // namespace
