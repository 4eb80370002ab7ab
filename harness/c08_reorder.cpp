#include "fft_common.hpp"
constexpr long double PI = 3.14159265358979323846264338327950288L;
inline std::size_t reverse_digits(std::size_t i, std::size_t radix, std::size_t digits)
{
    std::size_t r = 0;
    for (std::size_t d = 0; d < digits; ++d) {
        r = r * radix + i % radix;
        i /= radix;
    }
    return r;
}
inline std::size_t ord(Src& s, std::size_t lo, std::size_t hi) { return s.chance(1, 60) ? s.size(lo, hi) : s.size(lo, std::min<std::size_t>(hi, 10)); }

template<typename C>
void bitrev_complex(Src& s)
{
    auto const order = ord(s, 1, 18);
    auto const n     = std::size_t(1) << order;
    auto const how   = s.below(2);
    auto x           = gen_any_level<C>(s, n);
    if (s.flag()) {  // all different
        for (std::size_t i = 0; i < n; ++i) { x[i] = C(base_t<C>(i), -base_t<C>(i)); }
    }
    Buf<C> b{x, s.size(1, 3), 3};
    s.note(fmt("%s order=%zu %s stride=%zu x=%s", cname<C>(), order, how == 0 ? "bitrevorder_plan" : "bitrevorder", b.stride, show(x, 4).c_str()));
    s.nontrivial(n >= 4);
    auto plan = fft::bitrevorder_plan{order};
    auto run  = [&] {
        if (how == 0) {
            b.stride == 1 ? plan(b.view()) : plan(b.sview());
        } else {
            b.stride == 1 ? fft::bitrevorder(b.view()) : fft::bitrevorder(b.sview());
        }
    };
    run();
    b.check("bit reversal");
    std::vector<C> want(n);
    for (std::size_t i = 0; i < n; ++i) { want[reverse_digits(i, 2, order)] = x[i]; }
    require_same(want, b.get(), "bit reversal");
    run();
    require_same(x, b.get(), "twice");
}
template<typename F>
void bitrev_pairs(Src& s)
{
    auto const order = ord(s, 1, 18);
    auto const n     = std::size_t(1) << order;
    auto const how   = s.below(2);
    auto x           = gen_any_level<F>(s, 2 * n);
    if (s.flag()) {
        for (std::size_t i = 0; i < 2 * n; ++i) { x[i] = F(i); }
    }
    Buf<F> b{x, s.size(1, 3), 3};
    s.note(fmt("%s pairs order=%zu %s stride=%zu", type_name<F>(), order, how == 0 ? "bitrevorder_plan" : "bitrevorder", b.stride));
    s.nontrivial(n >= 4);
    auto plan = fft::bitrevorder_plan{order};
    auto run  = [&] {
        if (how == 0) {
            b.stride == 1 ? plan(b.view()) : plan(b.sview());
        } else {
            b.stride == 1 ? fft::bitrevorder(b.view()) : fft::bitrevorder(b.sview());
        }
    };
    run();
    b.check("bit reversal");
    std::vector<F> want(2 * n);
    for (std::size_t i = 0; i < n; ++i) {
        auto const j    = reverse_digits(i, 2, order);
        want[2 * j]     = x[2 * i];
        want[2 * j + 1] = x[2 * i + 1];
    }
    require_same(want, b.get(), "bit reversal of pairs");
    run();
    require_same(x, b.get(), "twice");
}
template<typename F>
void bitrev_split(Src& s)
{
    auto const order = ord(s, 1, 18);
    auto const n     = std::size_t(1) << order;
    auto const re    = gen_any_level<F>(s, n);
    std::vector<F> im(n);
    for (std::size_t i = 0; i < n; ++i) { im[i] = F(i); }
    Buf<F> r{re, s.size(1, 2), 3};
    Buf<F> m{im, r.stride, 3};
    s.note(fmt("%s split order=%zu", type_name<F>(), order));
    s.nontrivial(n >= 4);
    auto plan = fft::bitrevorder_plan{order};
    plan(neo::split_complex{r.sview(), m.sview()});
    r.check("real");
    m.check("imag");
    std::vector<F> wr(n);
    std::vector<F> wi(n);
    for (std::size_t i = 0; i < n; ++i) {
        auto const j = reverse_digits(i, 2, order);
        wr[j]        = re[i];
        wi[j]        = im[i];
    }
    require_same(wr, r.get(), "real part");
    require_same(wi, m.get(), "imaginary part");
    plan(neo::split_complex{r.sview(), m.sview()});
    require_same(re, r.get(), "real part twice");
    require_same(im, m.get(), "imaginary part twice");
}
template<std::size_t Radix>
void digitrev(Src& s)
{
    using C          = std::complex<double>;
    auto const order = s.chance(1, 30) ? s.size(1, order_for(Radix, 1 << 18)) : s.size(1, order_for(Radix, 2048));
    auto const n     = upow(Radix, order);
    std::vector<C> x(n);
    auto const off = double(s.range(0, 100));
    for (std::size_t i = 0; i < n; ++i) { x[i] = C(double(i) + off, -double(i)); }
    Buf<C> b{x, s.size(1, 3), 3};
    s.note(fmt("radix=%zu order=%zu stride=%zu", Radix, order, b.stride));
    s.nontrivial(order >= 2);
    auto plan = fft::digitrevorder_plan<Radix>{n};
    b.stride == 1 ? plan(b.view()) : plan(b.sview());
    b.check("digit reversal");
    std::vector<C> want(n);
    for (std::size_t i = 0; i < n; ++i) { want[reverse_digits(i, Radix, order)] = x[i]; }
    require_same(want, b.get(), "digit reversal");
    plan(b.sview());
    require_same(x, b.get(), "twice");
}
template<typename C>
void check_w(C w, std::size_t n, std::size_t k, fft::direction dir, char const* what)
{
    long double const a = (sign_of(dir)) * 2 * PI * static_cast<long double>(k) / static_cast<long double>(n);
    long double const t = 4 * eps<C>() * (1 + std::fabs(a));
    if (!(std::fabs(w.real() - std::cos(a)) <= t && std::fabs(w.imag() - std::sin(a)) <= t)) {
        PBT_FAIL("%s: twiddle %zu of %zu %s is (%.9g,%.9g) instead of (%.9Lg,%.9Lg)", what, k, n, dname(dir), double(w.real()), double(w.imag()), std::cos(a), std::sin(a));
    }
}
template<typename C>
void twiddles(Src& s)
{
    auto const dir = gen_dir(s);
    if (s.below(4) != 0) {
        auto const n = s.flag() ? std::size_t(1) << s.size(0, 30) : s.len(1, 1 << 20);
        auto const k = s.flag() ? s.size(0, n - 1) : s.size(0, 4 * n);
        s.note(fmt("%s twiddle n=%zu k=%zu %s", cname<C>(), n, k, dname(dir)));
        s.nontrivial(k > 0);
        if (s.flag()) {
            check_w(fft::twiddle<C>(n, k, dir), n, k, dir, "twiddle(size_t)");
        } else if (n < (1u << 29)) {
            check_w(fft::twiddle<C>(static_cast<int>(n), static_cast<int>(k), dir), n, k, dir, "twiddle(int)");
        }
        return;
    }
    auto const order = ord(s, 1, 17);
    auto const n     = s.chance(1, 4) ? 2 * s.size(1, 1000) : std::size_t(1) << order;
    s.note(fmt("%s table n=%zu %s", cname<C>(), n, dname(dir)));
    s.nontrivial(n >= 4);
    if (s.flag()) {
        auto const lut = fft::make_twiddle_lut_radix2<C>(n, dir);
        PBT_REQUIRE(lut.extent(0) == n / 2, "%zu entries for size %zu", std::size_t(lut.extent(0)), n);
        for (std::size_t k = 0; k < n / 2; ++k) { check_w(lut(k), n, k, dir, "make_twiddle_lut_radix2"); }
    } else {
        Buf<C> b{std::vector<C>(n / 2), s.size(1, 2), 2};
        fft::fill_twiddle_lut_radix2(b.sview(), dir);
        b.check("table");
        auto const lut = b.get();
        for (std::size_t k = 0; k < n / 2; ++k) { check_w(lut[k], n, k, dir, "fill_twiddle_lut_radix2"); }
    }
}
// very many uses of one plan
inline void many(Src& s)
{
    auto const order = s.size(1, 4);
    auto const n     = std::size_t(1) << order;
    auto const steps = gen_many(s);
    auto const kind  = s.below(4);
    auto rev         = fft::bitrevorder_plan{order};
    auto dig         = fft::digitrevorder_plan<2>{n};
    s.note(fmt("order=%zu steps=%zu kind=%d", order, steps, int(kind)));
    s.nontrivial(n >= 4);
    for (std::size_t t = 0; t < steps; ++t) {
        std::vector<float> x(2 * n);
        for (std::size_t i = 0; i < x.size(); ++i) { x[i] = float(i + t % 7); }
        std::vector<float> y = x;
        if (kind == 0) { rev(stdex::mdspan<float, stdex::dextents<std::size_t, 1>>{y.data(), 2 * n}); }
        if (kind == 1) { rev(stdex::mdspan<std::complex<float>, stdex::dextents<std::size_t, 1>>{reinterpret_cast<std::complex<float>*>(y.data()), n}); }
        if (kind == 2) { dig(stdex::mdspan<std::complex<float>, stdex::dextents<std::size_t, 1>>{reinterpret_cast<std::complex<float>*>(y.data()), n}); }
        if (kind == 3) {
            using S = stdex::layout_stride;
            using E = stdex::dextents<std::size_t, 1>;
            auto half = [&](std::size_t o) { return stdex::mdspan<float, E, S>{y.data() + o, S::mapping<E>{E{n}, std::array<std::size_t, 1>{2}}}; };
            rev(neo::split_complex{half(0), half(1)});
        }
        for (std::size_t i = 0; i < n; ++i) {
            auto const j = reverse_digits(i, 2, order);
            PBT_REQUIRE(y[2 * j] == x[2 * i] && y[2 * j + 1] == x[2 * i + 1], "use %zu of a plan: element %zu", t + 1, i);
        }
    }
}
PBT_CHECK_T(m1, "many", 12, 120, many)
PBT_CHECK_T(a1, "bitrev_cf", 1500, 20000, bitrev_complex<std::complex<float>>)
PBT_CHECK_T(a2, "bitrev_c128", 1500, 20000, bitrev_complex<neo::complex128>)
PBT_CHECK_T(b1, "bitrev_pairs_f", 1500, 20000, bitrev_pairs<float>)
PBT_CHECK_T(b2, "bitrev_pairs_d", 1500, 20000, bitrev_pairs<double>)
PBT_CHECK_T(c1, "bitrev_split_f", 1500, 20000, bitrev_split<float>)
PBT_CHECK_T(c2, "bitrev_split_d", 1500, 20000, bitrev_split<double>)
PBT_CHECK_T(d2, "digitrev_2", 500, 5000, digitrev<2>)
PBT_CHECK_T(d3, "digitrev_3", 500, 5000, digitrev<3>)
PBT_CHECK_T(d4, "digitrev_4", 500, 5000, digitrev<4>)
PBT_CHECK_T(d5, "digitrev_5", 500, 5000, digitrev<5>)
PBT_CHECK_T(d8, "digitrev_8", 500, 5000, digitrev<8>)
PBT_CHECK_T(t1, "twiddle_cf", 4000, 60000, twiddles<std::complex<float>>)
PBT_CHECK_T(t2, "twiddle_cd", 4000, 60000, twiddles<std::complex<double>>)
PBT_CHECK_T(t3, "twiddle_c64", 4000, 60000, twiddles<neo::complex64>)
PBT_CHECK_T(t4, "twiddle_c128", 4000, 60000, twiddles<neo::complex128>)
