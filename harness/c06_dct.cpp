#include "fft_common.hpp"
template<typename F>
void history(Src& s)
{
    auto const order = gen_order(s, 2, 1, 27, 17);
    auto const n     = std::size_t(1) << order;
    auto plan        = fft::fallback_dct2_plan<F>{fft::from_order, order};
    PBT_REQUIRE(plan.order() == order && plan.size() == n, "order/size reported as %zu/%zu", std::size_t(plan.order()), std::size_t(plan.size()));
    auto const steps = n > 8192 ? std::size_t(1) : s.size(1, 4);
    s.note(fmt("%s order=%zu", type_name<F>(), order));
    for (std::size_t i = 0; i < steps; ++i) {
        auto const x = gen_any_level<F>(s, n);
        // reference: DFT of length 4N of the even extension with zeros in between
        std::vector<oracle::cplx> ext(4 * n);
        for (std::size_t k = 0; k < n; ++k) {
            ext[2 * k + 1].re         = static_cast<long double>(x[k]);
            ext[4 * n - 2 * k - 1].re = static_cast<long double>(x[k]);
        }
        auto full = oracle::dft(ext, -1);
        std::vector<oracle::cplx> want(n);
        for (std::size_t k = 0; k < n; ++k) { want[k] = {full[k].re, 0}; }
        if (n <= 32) {  // and by the definition
            for (std::size_t k = 0; k < n; ++k) {
                long double sum = 0;
                for (std::size_t m = 0; m < n; ++m) { sum += static_cast<long double>(x[m]) * std::cos(3.14159265358979323846264338327950288L * static_cast<long double>(k * (2 * m + 1)) / static_cast<long double>(2 * n)); }
                require_close(want[k].re, 2 * sum, 1e-14L * (oracle::norm(cx_of(x)) + std::fabs(want[k].re)) * n * 16 + 1e-40L, "reference DCT");
            }
        }
        auto const norm = oracle::norm(full);
        s.note(show(x, 5));
        s.nontrivial(n >= 4 && norm > 0);
        Buf<F> io{x, s.flag() ? std::size_t(1) : s.size(2, 3), 3};
        if (io.stride == 1) {
            plan(io.view());
        } else {
            plan(io.sview());
        }
        io.check("DCT");
        require_close_l2(io.get(), want, fft_tol(n, eps<F>(), norm), fmt("step %zu", i).c_str());
    }
}
template<typename F>
void many(Src& s)
{
    auto const order = s.size(1, 4);
    auto const n     = std::size_t(1) << order;
    auto const steps = gen_many(s);
    auto plan        = fft::fallback_dct2_plan<F>{fft::from_order, order};
    std::vector<std::vector<F>> in(3);
    std::vector<std::vector<oracle::cplx>> want(3, std::vector<oracle::cplx>(n));
    for (std::size_t i = 0; i < 3; ++i) {
        in[i] = gen_any_level<F>(s, n);
        for (std::size_t k = 0; k < n; ++k) {
            for (std::size_t m = 0; m < n; ++m) { want[i][k].re += 2 * static_cast<long double>(in[i][m]) * std::cos(3.14159265358979323846264338327950288L * static_cast<long double>(k * (2 * m + 1)) / static_cast<long double>(2 * n)); }
        }
        s.nontrivial(oracle::norm(want[i]) > 0);
    }
    pbt::Rng r{s.below(1 << 20)};
    s.note(fmt("%s order=%zu steps=%zu", type_name<F>(), order, steps));
    Buf<F> io{in[0], 1, 2};
    for (std::size_t t = 0; t < steps; ++t) {
        auto const w = r.next() % 3;
        for (std::size_t i = 0; i < n; ++i) { io.data()[i] = in[w][i]; }
        plan(io.view());
        require_close_l2(io.get(), want[w], 4 * fft_tol(n, eps<F>(), oracle::norm(cx_of(in[w])) * std::sqrt(static_cast<long double>(n))), fmt("call %zu of a plan", t + 1).c_str());
    }
}
template<typename F>
void huge(Src& s)
{
    auto const order = gen_huge_order(s, 2, 27, 20);
    auto const n     = std::size_t(1) << order;
    std::vector<F> x;
    auto const imp = gen_impulses<F>(s, n, x);
    // y[k] = 2 x cos(pi k (2m+1) / 2n): two impulses of a transform of 4n samples
    Impulses ext;
    for (std::size_t j = 0; j < imp.at.size(); ++j) {
        ext.at.push_back(2 * imp.at[j] + 1);
        ext.at.push_back(4 * n - 2 * imp.at[j] - 1);
        ext.value.push_back(imp.value[j]);
        ext.value.push_back(imp.value[j]);
    }
    auto const want = ext.spectrum(4 * n, -1, n);
    auto plan       = fft::fallback_dct2_plan<F>{fft::from_order, order};
    s.note(fmt("%s order=%zu %zu impulses, first at %zu", type_name<F>(), order, imp.at.size(), imp.at[0]));
    s.nontrivial(true);
    Buf<F> io{x, 1, 2};
    plan(io.view());
    io.check("DCT");
    require_each(io.get(), want, 2 * huge_tol<F>(n, imp), "DCT");
}
PBT_CHECK_T(m1, "many_f", 10, 80, many<float>)
PBT_CHECK_T(m2, "many_d", 10, 80, many<double>)
PBT_CHECK_T(h1, "history_f", 3500, 30000, history<float>)
PBT_CHECK_T(h2, "history_d", 3500, 30000, history<double>)
PBT_CHECK_T(hg1, "huge_f", 10, 100, huge<float>)
PBT_CHECK_T(hg2, "huge_d", 8, 80, huge<double>)
