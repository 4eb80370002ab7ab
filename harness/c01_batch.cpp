#include "fft_common.hpp"
// The radix-2 kernels on SIMD batches of complex numbers: every lane is its own DFT.
template<typename C, typename Kernel>
void batch_kernel(Src& s)
{
    using batch             = xsimd::batch<C>;
    constexpr auto lanes    = batch::size;
    auto const order        = gen_order(s, 2, 0, 27, 15);
    auto const n            = std::size_t(1) << order;
    auto const dir          = gen_dir(s);
    std::vector<std::vector<C>> x;
    char const* kind = "";
    for (std::size_t l = 0; l < lanes; ++l) {
        if (l < 2 || n <= 16) {
            x.push_back(gen_any_level<C>(s, n, &kind));
        } else {
            pbt::Rng r{s.below(1 << 20)};
            std::vector<C> v(n);
            for (auto& e : v) { e = C(base_t<C>(r.sym()), base_t<C>(r.sym())); }
            x.push_back(v);
        }
    }
    s.note(fmt("%s lanes=%zu order=%zu %s lane0=%s", cname<C>(), std::size_t(lanes), order, dname(dir), show(x[0], 4).c_str()));
    stdex::mdarray<batch, stdex::dextents<std::size_t, 1>> v{n};
    for (std::size_t i = 0; i < n; ++i) {
        alignas(64) C tmp[lanes];
        for (std::size_t l = 0; l < lanes; ++l) { tmp[l] = x[l][i]; }
        v(i) = batch::load_unaligned(tmp);
    }
    auto const lut = fft::make_twiddle_lut_radix2<C>(n, dir);
    stdex::mdarray<batch, stdex::dextents<std::size_t, 1>> tw{lut.extent(0)};
    for (std::size_t i = 0; i < lut.extent(0); ++i) { tw(i) = batch(lut(i)); }
    auto reorder = fft::bitrevorder_plan{order};
    reorder(v.to_mdspan());
    Kernel{}(v.to_mdspan(), tw.to_mdspan());
    std::vector<std::vector<C>> got(lanes, std::vector<C>(n));
    for (std::size_t i = 0; i < n; ++i) {
        alignas(64) C tmp[lanes];
        v(i).store_unaligned(tmp);
        for (std::size_t l = 0; l < lanes; ++l) { got[l][i] = tmp[l]; }
    }
    for (std::size_t l = 0; l < lanes; ++l) {
        auto const want = oracle::dft(cx_of(x[l]), sign_of(dir));
        auto const norm = oracle::norm(want);
        s.nontrivial(n >= 4 && norm > 0);
        require_close_l2(got[l], want, fft_tol(n, eps<C>(), norm), fmt("lane %zu", l).c_str());
    }
}
#define REG(K)                                                                                                         \
    PBT_CHECK_T(K##1, #K "_cf", 150, 1500, batch_kernel<std::complex<float>, fft::kernel::c2c_dit2_##K>)               \
    PBT_CHECK_T(K##2, #K "_cd", 150, 1500, batch_kernel<std::complex<double>, fft::kernel::c2c_dit2_##K>)
REG(v1)
REG(v2)
REG(v3)
REG(v4)
