#include "fft_common.hpp"
#include <neo/fft/experimental/rfft.hpp>
namespace ex = neo::fft::experimental;
template<typename F>
void complex_pairs(Src& s)
{
    using C          = std::complex<F>;
    auto const order = gen_order(s, 2, 0, 27, 17);
    auto const n     = std::size_t(1) << order;
    auto plan        = ex::c2c_dit2_plan<F>{fft::from_order, order};
    PBT_REQUIRE(plan.order() == order && plan.size() == n, "order/size reported as %zu/%zu", std::size_t(plan.order()), std::size_t(plan.size()));
    s.note(fmt("%s pairs order=%zu", type_name<F>(), order));
    auto const steps = n > 4096 ? std::size_t(1) : s.size(1, 3);
    for (std::size_t i = 0; i < steps; ++i) {
        auto const x    = gen_any_level<F>(s, 2 * n);
        auto const dir  = gen_dir(s);
        std::vector<oracle::cplx> in(n);
        for (std::size_t k = 0; k < n; ++k) { in[k] = {static_cast<long double>(x[2 * k]), static_cast<long double>(x[2 * k + 1])}; }
        auto const want = oracle::dft(in, sign_of(dir));
        auto const norm = oracle::norm(want);
        s.note(fmt("%s %s", dname(dir), show(x, 6).c_str()));
        s.nontrivial(n >= 4 && norm > 0);
        Buf<F> b{x, s.flag() ? std::size_t(1) : s.size(2, 3), 3};
        b.stride == 1 ? plan(b.view(), dir) : plan(b.sview(), dir);
        b.check("packed transform");
        auto const y = b.get();
        std::vector<C> got(n);
        for (std::size_t k = 0; k < n; ++k) { got[k] = C(y[2 * k], y[2 * k + 1]); }
        require_close_l2(got, want, fft_tol(n, eps<F>(), norm), fmt("step %zu", i).c_str());
    }
}
template<typename F>
void real_packed(Src& s)
{
    auto const order = gen_order(s, 2, 1, 27, 16);
    auto const n     = std::size_t(1) << order;
    auto plan        = ex::rfft_plan<F>{fft::from_order, order};
    PBT_REQUIRE(plan.order() == order && plan.size() == n, "order/size reported as %zu/%zu", std::size_t(plan.order()), std::size_t(plan.size()));
    s.note(fmt("%s real order=%zu", type_name<F>(), order));
    auto const steps = n > 4096 ? std::size_t(1) : s.size(1, 3);
    for (std::size_t i = 0; i < steps; ++i) {
        auto const x    = gen_any_level<F>(s, n);
        auto const full = oracle::dft(cx_of(x), -1);
        auto const norm = oracle::norm(full);
        s.note(show(x, 6));
        s.nontrivial(n >= 8 && norm > 0);
        // the recombination runs through its twiddles by recurrence
        auto const tol = fft_tol(n, eps<F>(), norm) + 2.0L * eps<F>() * static_cast<long double>(n / 4) * norm;
        std::vector<oracle::cplx> want(n);
        want[0].re = full[0].re;
        want[1].re = full[n / 2].re;
        for (std::size_t k = 1; k < n / 2; ++k) {
            want[2 * k].re     = full[k].re;
            want[2 * k + 1].re = full[k].im;
        }
        Buf<F> b{x, s.flag() ? std::size_t(1) : s.size(2, 3), 3};
        if (s.below(3) == 0) {  // backward of a reference spectrum
            std::vector<F> w(n);
            for (std::size_t k = 0; k < n; ++k) { w[k] = static_cast<F>(want[k].re); }
            Buf<F> c{w, b.stride, 3};
            plan(c.sview(), fft::direction::backward);
            c.check("backward");
            auto expect = cx_of(x);
            for (auto& e : expect) { e.re *= static_cast<long double>(n) / 2; }
            require_close_l2(c.get(), expect, tol * std::sqrt(static_cast<long double>(n)) + 1e-30L, "backward");
            continue;
        }
        b.stride == 1 ? plan(b.view(), fft::direction::forward) : plan(b.sview(), fft::direction::forward);
        b.check("forward");
        require_close_l2(b.get(), want, tol, fmt("forward, step %zu", i).c_str());
        plan(b.sview(), fft::direction::backward);
        b.check("backward");
        auto expect = cx_of(x);
        for (auto& e : expect) { e.re *= static_cast<long double>(n) / 2; }
        require_close_l2(b.get(), expect, 2 * tol * std::sqrt(static_cast<long double>(n)) + 1e-30L, "backward of forward");
    }
}
template<typename F>
void many(Src& s)
{
    auto const order = s.size(1, 4);
    auto const n     = std::size_t(1) << order;
    auto const steps = gen_many(s);
    auto cplan       = ex::c2c_dit2_plan<F>{fft::from_order, order};
    auto rplan       = ex::rfft_plan<F>{fft::from_order, order + 1};
    auto const x     = gen_any_level<F>(s, 2 * n);
    std::vector<oracle::cplx> in(n);
    for (std::size_t k = 0; k < n; ++k) { in[k] = {static_cast<long double>(x[2 * k]), static_cast<long double>(x[2 * k + 1])}; }
    std::vector<oracle::cplx> want[3];
    for (int d = 0; d < 2; ++d) {
        want[d].resize(2 * n);
        auto const y = oracle::dft(in, d == 0 ? -1 : 1);
        for (std::size_t k = 0; k < n; ++k) {
            want[d][2 * k].re     = y[k].re;
            want[d][2 * k + 1].re = y[k].im;
        }
    }
    auto const full = oracle::dft(cx_of(x), -1);
    want[2].resize(2 * n);
    want[2][0].re = full[0].re;
    want[2][1].re = full[n].re;
    for (std::size_t k = 1; k < n; ++k) {
        want[2][2 * k].re     = full[k].re;
        want[2][2 * k + 1].re = full[k].im;
    }
    pbt::Rng r{s.below(1 << 20)};
    s.note(fmt("%s order=%zu steps=%zu %s", type_name<F>(), order, steps, show(x, 6).c_str()));
    s.nontrivial(oracle::norm(full) > 0);
    Buf<F> io{x, 1, 2};
    auto const focus = s.below(6);
    auto const tol = 4 * fft_tol(2 * n, eps<F>(), oracle::norm(full) + oracle::norm(want[0])) + 2.0L * eps<F>() * static_cast<long double>(n) * oracle::norm(full);
    for (std::size_t t = 0; t < steps; ++t) {
        auto const w = focus < 4 && r.next() % 100 != 0 ? focus : r.next() % 4;
        for (std::size_t i = 0; i < 2 * n; ++i) { io.data()[i] = w == 3 ? static_cast<F>(want[2][i].re) : x[i]; }
        if (w < 2) { cplan(io.view(), w == 0 ? fft::direction::forward : fft::direction::backward); }
        if (w == 2) { rplan(io.view(), fft::direction::forward); }
        if (w == 3) {
            rplan(io.view(), fft::direction::backward);
            auto expect = cx_of(x);
            for (auto& e : expect) { e.re *= static_cast<long double>(n); }
            require_close_l2(io.get(), expect, tol * std::sqrt(2.0L * n), fmt("backward, call %zu", t + 1).c_str());
            continue;
        }
        require_close_l2(io.get(), want[w], tol, fmt("call %zu of a plan", t + 1).c_str());
    }
}
template<typename F>
void huge(Src& s)
{
    using C          = std::complex<F>;
    auto const order = gen_huge_order(s, 2, 27, 20);
    auto const n     = std::size_t(1) << order;
    auto const dir   = gen_dir(s);
    s.nontrivial(true);
    if (s.flag()) {
        std::vector<C> x;
        auto const imp = gen_impulses<C>(s, n, x);
        auto plan      = ex::c2c_dit2_plan<F>{fft::from_order, order};
        s.note(fmt("%s pairs order=%zu %s %zu impulses, first at %zu", type_name<F>(), order, dname(dir), imp.at.size(), imp.at[0]));
        std::vector<F> v(2 * n);
        for (std::size_t i = 0; i < n; ++i) {
            v[2 * i]     = x[i].real();
            v[2 * i + 1] = x[i].imag();
        }
        Buf<F> b{v, 1, 2};
        plan(b.view(), dir);
        b.check("packed transform");
        for (std::size_t i = 0; i < n; ++i) { x[i] = C(b.data()[2 * i], b.data()[2 * i + 1]); }
        require_each(x, imp.spectrum(n, sign_of(dir), n), huge_tol<F>(n, imp), "packed transform");
    } else {
        std::vector<F> x;
        auto const imp  = gen_impulses<F>(s, n, x);
        auto const want = imp.spectrum(n, -1, n / 2 + 1);
        auto plan       = ex::rfft_plan<F>{fft::from_order, order};
        s.note(fmt("%s real order=%zu %zu impulses, first at %zu", type_name<F>(), order, imp.at.size(), imp.at[0]));
        Buf<F> b{x, 1, 2};
        plan(b.view(), fft::direction::forward);
        b.check("forward");
        std::vector<C> got(n / 2 + 1);
        for (std::size_t k = 0; k < n / 2; ++k) { got[k] = C(b.data()[2 * k], b.data()[2 * k + 1]); }
        got[n / 2] = C(got[0].imag(), F(0));
        got[0]     = C(got[0].real(), F(0));
        // the recombination runs through its twiddles by recurrence
        require_each(got, want, huge_tol<F>(n, imp) + 2.0L * eps<F>() * static_cast<long double>(n / 4) * imp.norm(), "forward");
    }
}
#define REG(F, Q)                                                                                                      \
    PBT_CHECK_T(F##1, #F "_f", Q, Q * 12, F<float>)                                                                    \
    PBT_CHECK_T(F##2, #F "_d", Q, Q * 12, F<double>)
REG(complex_pairs, 2500)
REG(real_packed, 3500)
REG(many, 12)
PBT_CHECK_T(hg1, "huge_f", 12, 120, huge<float>)
PBT_CHECK_T(hg2, "huge_d", 10, 100, huge<double>)
