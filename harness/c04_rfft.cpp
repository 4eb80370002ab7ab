#include "fft_common.hpp"
template<typename F, typename C, typename Plan>
void history(Src& s)
{
    auto const order = gen_order(s, 2, 0, 27, 17);
    auto const n     = std::size_t(1) << order;
    auto const bins  = n / 2 + 1;
    auto plan        = Plan{fft::from_order, order};
    PBT_REQUIRE(plan.order() == order && plan.size() == n, "order/size reported as %zu/%zu", std::size_t(plan.order()), std::size_t(plan.size()));
    auto const steps = n > 8192 ? s.size(1, 2) : s.size(1, 5);
    s.note(fmt("%s order=%zu", type_name<F>(), order));
    for (std::size_t i = 0; i < steps; ++i) {
        auto const x    = gen_any_level<F>(s, n);
        auto const full = oracle::dft(cx_of(x), -1);
        auto const norm = oracle::norm(full);
        s.nontrivial(n >= 4 && norm > 0);
        if (s.flag()) {
            s.note("rfft " + show(x, 5));
            auto const extra = s.flag() ? 0 : s.pick({std::size_t(1), bins, n - std::min(bins, n)});
            Buf<F> in{x, s.size(1, 3), 2};
            Buf<C> out{std::vector<C>(bins + extra, C(-5, 6)), s.size(1, 2), 3};
            if (in.stride == 1 && out.stride == 1 && s.flag()) {
                fft::rfft(plan, in.cview(), out.view());
            } else {
                fft::rfft(plan, in.sview(), out.sview());
            }
            in.check("rfft input");
            out.check("rfft output");
            if (!same(in.get(), x)) { PBT_FAIL("rfft changed its input"); }
            auto got = out.get();
            for (std::size_t k = bins; k < got.size(); ++k) {
                PBT_REQUIRE(got[k].real() == -5 && got[k].imag() == 6, "rfft wrote to element %zu of the output, behind the %zu coefficients", k, bins);
            }
            got.resize(bins);
            auto want = full;
            want.resize(bins);
            require_close_l2(got, want, fft_tol(n, eps<F>(), norm), fmt("rfft, step %zu", i).c_str());
        } else {
            s.note("irfft " + show(x, 5));
            auto const total = s.flag() ? bins : s.size(bins, s.chance(1, 4) ? 2 * n + 8 : std::max(bins, n));
            std::vector<C> half(total);
            // what lies behind the n/2+1 coefficients does not count: the mirrored rest of the spectrum, zeros or anything else
            auto const tail = s.below(3);
            for (std::size_t k = 0; k < total; ++k) {
                half[k] = k < n && (k < bins || tail == 0) ? C(static_cast<F>(full[k].re), static_cast<F>(full[k].im)) : tail == 1 ? C(0, 0) : C(F(3) * F(k % 7) - F(8), F(k % 5) + F(1));
            }
            half[0] = C(half[0].real(), F(0));
            if (n > 1) { half[n / 2] = C(half[n / 2].real(), F(0)); }
            if (n == 1) { half.resize(1); }
            Buf<C> in{half, s.size(1, 2), 2};
            Buf<F> out{std::vector<F>(n, F(9)), s.size(1, 3), 2};
            if (in.stride == 1 && out.stride == 1 && s.flag()) {
                fft::irfft(plan, in.cview(), out.view());
            } else {
                fft::irfft(plan, in.sview(), out.sview());
            }
            in.check("irfft input");
            out.check("irfft output");
            if (!same(in.get(), half)) { PBT_FAIL("irfft changed its input"); }
            auto want = cx_of(x);
            for (auto& w : want) { w.re *= static_cast<long double>(n); }
            require_close_l2(out.get(), want, 2 * fft_tol(n, eps<F>(), oracle::norm(want)), fmt("irfft, step %zu (%zu of %zu coefficients passed)", i, half.size(), bins).c_str());
        }
    }
}
template<typename C>
void deinterleave(Src& s)
{
    using F          = base_t<C>;
    auto const n     = std::size_t(s.chance(1, 3) ? 2 * s.size(1, 100) : std::size_t(1) << s.size(1, 9));
    auto const a     = gen_any_level<F>(s, n);
    auto const b     = gen_any_level<F>(s, n);
    auto const bins  = n / 2 + 1;
    s.note(fmt("%s n=%zu a=%s b=%s", type_name<F>(), n, show(a, 5).c_str(), show(b, 5).c_str()));
    std::vector<oracle::cplx> packed(n);
    for (std::size_t i = 0; i < n; ++i) { packed[i] = {static_cast<long double>(a[i]), static_cast<long double>(b[i])}; }
    auto const z = oracle::dft(packed, -1);
    std::vector<C> zc(n);
    for (std::size_t i = 0; i < n; ++i) { zc[i] = C(static_cast<F>(z[i].re), static_cast<F>(z[i].im)); }
    auto const extra = s.flag() ? std::size_t(0) : s.size(1, 4);
    Buf<C> in{zc, s.size(1, 2), 2};
    Buf<C> x{std::vector<C>(bins + extra, C(-5, 6)), s.size(1, 2), 2};
    Buf<C> y{std::vector<C>(bins + extra, C(-5, 6)), s.size(1, 2), 2};
    fft::rfft_deinterleave(in.sview(), x.sview(), y.sview());
    in.check("dft");
    x.check("x");
    y.check("y");
    if (!same(in.get(), zc)) { PBT_FAIL("input changed"); }
    auto chk = [&](auto got, std::vector<F> const& sig, char const* what) {
        auto want = oracle::dft(cx_of(sig), -1);
        want.resize(bins);
        for (std::size_t k = bins; k < got.size(); ++k) { PBT_REQUIRE(got[k].real() == -5 && got[k].imag() == 6, "element %zu written", k); }
        got.resize(bins);
        require_close_l2(got, want, fft_tol(n, eps<F>(), oracle::norm(z)), what);
    };
    chk(x.get(), a, "first signal");
    chk(y.get(), b, "second signal");
    s.nontrivial(n >= 4 && !all_zero(std::vector<double>(a.begin(), a.end())) && !all_zero(std::vector<double>(b.begin(), b.end())));
}
template<typename F, typename C, typename Plan>
void many(Src& s)
{
    auto const order = s.size(1, 4);
    auto const n     = std::size_t(1) << order;
    auto const bins  = n / 2 + 1;
    auto const steps = gen_many(s);
    auto plan        = Plan{fft::from_order, order};
    std::vector<std::vector<F>> in(3);
    std::vector<std::vector<oracle::cplx>> half(3);
    for (std::size_t i = 0; i < 3; ++i) {
        in[i]   = gen_any_level<F>(s, n);
        half[i] = oracle::dft(cx_of(in[i]), -1);
        half[i].resize(bins);
        s.nontrivial(oracle::norm(half[i]) > 0);
    }
    pbt::Rng r{s.below(1 << 20)};
    s.note(fmt("%s order=%zu steps=%zu", type_name<F>(), order, steps));
    Buf<F> re{in[0], 1, 2};
    Buf<C> cx{std::vector<C>(bins), 1, 2};
    bool const both = s.chance(2, 3);
    long double most = 0;
    for (auto const& v : in) { most = std::max(most, static_cast<long double>(n) * oracle::norm(cx_of(v))); }
    for (std::size_t t = 0; t < steps; ++t) {
        auto w    = r.next() % 3;
        auto want = cx_of(in[w]);
        for (auto& v : want) { v.re *= static_cast<long double>(n); }
        auto const tol = 2 * fft_tol(n, eps<F>(), most);
        {
            for (std::size_t i = 0; i < n; ++i) { re.data()[i] = in[w][i]; }
            fft::rfft(plan, re.view(), cx.view());
            require_close_l2(cx.get(), half[w], tol, fmt("rfft, call %zu of a plan", t + 1).c_str());
        }
        if (t % 8 == r.next() % 8 || both) {
            w    = r.next() % 3;
            want = cx_of(in[w]);
            for (auto& v : want) { v.re *= static_cast<long double>(n); }
            for (std::size_t i = 0; i < bins; ++i) { cx.data()[i] = C(static_cast<F>(half[w][i].re), static_cast<F>(half[w][i].im)); }
            fft::irfft(plan, cx.view(), re.view());
            require_close_l2(re.get(), want, tol, fmt("irfft, call %zu of a plan", t + 1).c_str());
        }
    }
}
template<typename F, typename C, typename Plan>
void huge(Src& s)
{
    auto const order = gen_huge_order(s, 2, 27);
    auto const n     = std::size_t(1) << order;
    auto const bins  = n / 2 + 1;
    std::vector<F> x;
    auto const imp  = gen_impulses<F>(s, n, x);
    auto const want = imp.spectrum(n, -1, bins);
    auto plan       = Plan{fft::from_order, order};
    s.note(fmt("%s order=%zu %zu impulses, first at %zu", type_name<F>(), order, imp.at.size(), imp.at[0]));
    s.nontrivial(true);
    Buf<F> in{x, 1, 2};
    Buf<C> out{std::vector<C>(bins), 1, 2};
    fft::rfft(plan, in.view(), out.view());
    out.check("rfft output");
    require_each(out.get(), want, huge_tol<F>(n, imp), "rfft");
    std::vector<C> half(bins);
    for (std::size_t k = 0; k < bins; ++k) { half[k] = C(static_cast<F>(want[k].re), static_cast<F>(want[k].im)); }
    half[0]     = C(half[0].real(), F(0));
    half[n / 2] = C(half[n / 2].real(), F(0));
    Buf<C> back{half, 1, 2};
    fft::irfft(plan, back.view(), in.view());
    in.check("irfft output");
    std::vector<oracle::cplx> expect(n);
    for (std::size_t j = 0; j < imp.at.size(); ++j) { expect[imp.at[j]].re = imp.value[j].re * static_cast<long double>(n); }
    // the values are as large as n in the impulses, the rounding is as large there
    require_each(in.get(), expect, huge_tol<F>(n, imp) * static_cast<long double>(n), "irfft");
    require_close_l2(in.get(), expect, 2 * fft_tol(n, eps<F>(), oracle::norm(expect)), "irfft");
}
template<typename F>
using neo_c = std::conditional_t<std::is_same_v<F, float>, neo::complex64, neo::complex128>;
template<typename F, typename C = std::complex<F>>
using P = fft::rfft_plan<F, C>;
PBT_CHECK_T(h1, "history_f", 2500, 25000, history<float, std::complex<float>, P<float>>)
PBT_CHECK_T(h2, "history_d", 2500, 25000, history<double, std::complex<double>, P<double>>)
PBT_CHECK_T(h3, "history_c64", 1000, 10000, history<float, neo::complex64, P<float, neo::complex64>>)
PBT_CHECK_T(h4, "history_c128", 1000, 10000, history<double, neo::complex128, P<double, neo::complex128>>)
PBT_CHECK_T(m1, "many_f", 10, 80, many<float, std::complex<float>, P<float>>)
PBT_CHECK_T(m2, "many_d", 10, 80, many<double, std::complex<double>, P<double>>)
PBT_CHECK_T(d1, "deinterleave_f", 1500, 15000, deinterleave<std::complex<float>>)
PBT_CHECK_T(d2, "deinterleave_d", 1500, 15000, deinterleave<std::complex<double>>)
PBT_CHECK_T(hg1, "huge_f", 12, 120, huge<float, std::complex<float>, P<float>>)
PBT_CHECK_T(hg2, "huge_d", 8, 80, huge<double, std::complex<double>, P<double>>)
