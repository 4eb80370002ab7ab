#include "fft_common.hpp"
template<typename F>
void history(Src& s)
{
    using C          = std::complex<F>;
    auto const order = gen_order(s, 2, 0, 27, 17);
    auto const n     = std::size_t(1) << order;
    auto plan        = fft::split_fft_plan<F>{fft::from_order, order};
    PBT_REQUIRE(plan.order() == order && plan.size() == n, "order/size reported as %zu/%zu", std::size_t(plan.order()), std::size_t(plan.size()));
    auto const steps = n > 8192 ? std::size_t(1) : s.size(1, 4);
    s.note(fmt("%s order=%zu", type_name<F>(), order));
    for (std::size_t i = 0; i < steps; ++i) {
        auto const re  = gen_any_level<F>(s, n);
        auto const im  = gen_any_level<F>(s, n);
        auto const dir = gen_dir(s);
        std::vector<C> x(n);
        for (std::size_t k = 0; k < n; ++k) { x[k] = C(re[k], im[k]); }
        auto const want   = oracle::dft(cx_of(x), sign_of(dir));
        auto const norm   = oracle::norm(want);
        auto const mode   = s.below(4);
        auto const stride = s.flag() ? std::size_t(1) : s.size(2, 3);
        s.note(fmt("%s mode=%d stride=%zu re=%s im=%s", dname(dir), int(mode), stride, show(re, 4).c_str(), show(im, 4).c_str()));
        s.nontrivial(n >= 4 && norm > 0);
        Buf<F> r{re, stride, 3};
        Buf<F> m{im, stride, 3};
        std::vector<F> gr;
        std::vector<F> gi;
        if (mode == 0) {
            if (stride == 1) {
                plan(neo::split_complex{r.view(), m.view()}, dir);
            } else {
                plan(neo::split_complex{r.sview(), m.sview()}, dir);
            }
            gr = r.get();
            gi = m.get();
        } else if (mode == 1) {
            neo::split_complex v{r.sview(), m.sview()};
            dir == fft::direction::forward ? fft::fft(plan, v) : fft::ifft(plan, v);
            gr = r.get();
            gi = m.get();
        } else {
            auto const os = s.flag() ? std::size_t(1) : stride;
            Buf<F> outr{std::vector<F>(n, F(8)), os, 3};
            Buf<F> outi{std::vector<F>(n, F(8)), os, 3};
            neo::split_complex in{r.sview(), m.sview()};
            neo::split_complex out{outr.sview(), outi.sview()};
            if (mode == 2) {
                plan(in, out, dir);
            } else {
                dir == fft::direction::forward ? fft::fft(plan, in, out) : fft::ifft(plan, in, out);
            }
            outr.check("real output");
            outi.check("imaginary output");
            if (!same(r.get(), re) || !same(m.get(), im)) { PBT_FAIL("out-of-place transform changed its input"); }
            gr = outr.get();
            gi = outi.get();
        }
        r.check("real part");
        m.check("imaginary part");
        std::vector<C> got(n);
        for (std::size_t k = 0; k < n; ++k) { got[k] = C(gr[k], gi[k]); }
        require_close_l2(got, want, fft_tol(n, eps<F>(), norm), fmt("step %zu", i).c_str());
        if (s.chance(1, 3)) {
            Buf<F> br{gr, 1, 1};
            Buf<F> bi{gi, 1, 1};
            neo::split_complex v{br.view(), bi.view()};
            dir == fft::direction::forward ? fft::ifft(plan, v) : fft::fft(plan, v);
            auto expect = cx_of(x);
            for (auto& e : expect) {
                e.re *= static_cast<long double>(n);
                e.im *= static_cast<long double>(n);
            }
            auto const a = br.get();
            auto const b = bi.get();
            for (std::size_t k = 0; k < n; ++k) { got[k] = C(a[k], b[k]); }
            require_close_l2(got, expect, 2 * fft_tol(n, eps<F>(), oracle::norm(expect)), "inverse");
        }
    }
}
template<typename F>
void many(Src& s)
{
    using C          = std::complex<F>;
    auto const order = s.size(1, 4);
    auto const n     = std::size_t(1) << order;
    auto const steps = gen_many(s);
    auto plan        = fft::split_fft_plan<F>{fft::from_order, order};
    std::vector<std::vector<C>> in(3);
    std::vector<std::vector<oracle::cplx>> want[2] = {std::vector<std::vector<oracle::cplx>>(3), std::vector<std::vector<oracle::cplx>>(3)};
    for (std::size_t i = 0; i < 3; ++i) {
        in[i]      = gen_any_level<C>(s, n);
        want[0][i] = oracle::dft(cx_of(in[i]), -1);
        want[1][i] = oracle::dft(cx_of(in[i]), 1);
        s.nontrivial(oracle::norm(want[0][i]) > 0);
    }
    auto const style = s.below(4);
    pbt::Rng r{s.below(1 << 20)};
    s.note(fmt("%s order=%zu steps=%zu", type_name<F>(), order, steps));
    Buf<F> re{std::vector<F>(n), 1, 2};
    Buf<F> im{std::vector<F>(n), 1, 2};
    std::vector<C> got(n);
    for (std::size_t t = 0; t < steps; ++t) {
        auto const which = r.next() % 3;
        auto const dir   = style < 2 && r.next() % 300 != 0 ? style : r.next() % 2;
        for (std::size_t i = 0; i < n; ++i) {
            re.data()[i] = in[which][i].real();
            im.data()[i] = in[which][i].imag();
        }
        plan(neo::split_complex{re.view(), im.view()}, dir == 0 ? fft::direction::forward : fft::direction::backward);
        for (std::size_t i = 0; i < n; ++i) { got[i] = C(re.data()[i], im.data()[i]); }
        auto const& w = want[dir][which];
        require_close_l2(got, w, fft_tol(n, eps<F>(), oracle::norm(w)), fmt("transform number %zu of a plan", t + 1).c_str());
    }
}
template<typename F>
void huge(Src& s)
{
    using C          = std::complex<F>;
    auto const order = gen_huge_order(s, 2, 27);
    auto const n     = std::size_t(1) << order;
    auto const dir   = gen_dir(s);
    std::vector<C> x;
    auto const imp = gen_impulses<C>(s, n, x);
    auto plan      = fft::split_fft_plan<F>{fft::from_order, order};
    s.note(fmt("%s order=%zu %s %zu impulses, first at %zu", type_name<F>(), order, dname(dir), imp.at.size(), imp.at[0]));
    s.nontrivial(true);
    std::vector<F> re(n), im(n);
    for (std::size_t i = 0; i < n; ++i) {
        re[i] = x[i].real();
        im[i] = x[i].imag();
    }
    Buf<F> r{re, 1, 2};
    Buf<F> m{im, 1, 2};
    plan(neo::split_complex{r.view(), m.view()}, dir);
    r.check("real part");
    m.check("imaginary part");
    for (std::size_t i = 0; i < n; ++i) { x[i] = C(r.data()[i], m.data()[i]); }
    require_each(x, imp.spectrum(n, sign_of(dir), n), huge_tol<F>(n, imp), "split transform");
}
PBT_CHECK_T(m1, "many_f", 10, 80, many<float>)
PBT_CHECK_T(m2, "many_d", 10, 80, many<double>)
PBT_CHECK_T(h1, "history_f", 3500, 40000, history<float>)
PBT_CHECK_T(h2, "history_d", 3500, 40000, history<double>)
PBT_CHECK_T(hg1, "huge_f", 12, 120, huge<float>)
PBT_CHECK_T(hg2, "huge_d", 8, 80, huge<double>)
