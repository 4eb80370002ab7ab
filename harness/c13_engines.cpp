#include "conv_common.hpp"
#include <neo/complex.hpp>
template<typename Engine>
void engine(Src& s)
{
    using C           = typename Engine::complex_type;
    using F           = base_t<C>;
    auto const pow2   = s.chance(1, 4);
    auto const big    = s.chance(1, 300);
    auto const block  = big ? s.size(200, 3000) : pow2 ? std::size_t(1) << s.size(0, 6) : s.len(1, s.chance(1, 10) ? 200 : 40);
    auto filter       = s.chance(1, 4) ? block : s.len(1, big ? 4000 : s.chance(1, 10) ? 300 : 60);
    if (block + filter < 3) { filter = 2; }
    auto const taps   = s.chance(1, 3) ? s.size(1, filter) : filter;
    auto h            = gen_vec<F>(s, taps);
    auto const ident  = s.chance(1, 8);
    auto const blocks = !big && s.chance(1, 40) ? s.size(13, 100) : s.size(1, 12);
    Engine eng{block, filter};
    auto const k      = std::size_t(eng.transform_size());
    s.note(fmt("%s block=%zu filter=%zu taps=%zu blocks=%zu%s h=%s", type_name<F>(), block, filter, taps, blocks, ident ? " identity" : "", show(h, 5).c_str()));
    PBT_REQUIRE(eng.block_size() == block && eng.filter_size() == filter, "sizes reported as %zu, %zu", std::size_t(eng.block_size()), std::size_t(eng.filter_size()));
    PBT_REQUIRE(k >= block + filter - 1 && (k & (k - 1)) == 0, "transform size %zu", k);
    std::vector<oracle::cplx> hp(k);
    for (std::size_t i = 0; i < taps; ++i) { hp[i].re = static_cast<long double>(h[i]); }
    auto const spec = oracle::dft(hp, -1);
    std::vector<F> hist;
    std::vector<F> out;
    Stream stream{s};
    for (std::size_t b = 0; b < blocks; ++b) {
        auto const x = stream.next<F>(s, block);
        hist.insert(hist.end(), x.begin(), x.end());
        Buf<F> io{x, s.chance(1, 3) ? std::size_t(2) : std::size_t(1), 3};
        std::size_t calls = 0;
        auto cb           = [&](auto v) {
            ++calls;
            PBT_REQUIRE(v.extent(0) == k / 2 + 1, "the callback got %zu coefficients for a transform of %zu", std::size_t(v.extent(0)), k);
            if (ident) { return; }
            for (std::size_t i = 0; i <= k / 2; ++i) {
                auto const c = v[i];
                v[i]         = C(static_cast<F>(c.real() * spec[i].re - c.imag() * spec[i].im), static_cast<F>(c.real() * spec[i].im + c.imag() * spec[i].re));
            }
        };
        io.stride == 1 ? eng(io.view(), cb) : eng(io.sview(), cb);
        PBT_REQUIRE(calls == 1, "%zu callback calls for a block", calls);
        io.check("block");
        auto const y = io.get();
        out.insert(out.end(), y.begin(), y.end());
        if (s.chance(1, 12)) {
            auto copy = eng;
            eng       = copy;
        }
    }
    if (ident) { h.assign(1, F(1)); }
    s.nontrivial(blocks >= 2 && block + filter > 3 && oracle::norm(ld_of(h)) > 0 && oracle::norm(ld_of(hist)) > 0);
    s.label(pow2 ? "power-of-two block" : "any block");
    s.label(filter > block ? "filter longer than block" : "filter within block");
    auto const want = oracle::convolve_prefix(ld_of(hist), ld_of(h), hist.size());
    auto const tol  = local_tol(hist, block, block + filter + k, oracle::norm(ld_of(h)), std::log2(static_cast<long double>(k)) + static_cast<long double>(filter) / static_cast<long double>(block) + 2);
    require_close_each(out, want, tol, fmt("block %zu, filter %zu, %zu blocks", block, filter, blocks).c_str());
}
// very many blocks through one engine
template<typename Engine, bool Huge>
void many(Src& s)
{
    using C           = typename Engine::complex_type;
    using F           = base_t<C>;
    auto const block  = Huge ? s.size(30000, 70000) : s.size(1, 4);
    auto const filter = Huge ? s.size(2, 70000) : s.size(2, 6);
    auto const calls  = Huge ? s.size(2, 4) : gen_many(s);
    Engine eng{block, filter};
    auto const k = std::size_t(eng.transform_size());
    PBT_REQUIRE(k >= block + filter - 1, "transform size %zu", k);
    Follower<F> f;
    f.taps   = gen_taps<F>(s, filter, Huge ? 5 : 6);
    f.reach  = block + filter + k;
    f.factor = std::log2(static_cast<long double>(k)) + static_cast<long double>(filter) / static_cast<long double>(block) + 2;
    s.note(fmt("%s block=%zu filter=%zu calls=%zu", type_name<F>(), block, filter, calls));
    s.nontrivial(true);
    std::vector<oracle::cplx> hp(k);
    for (auto const& [p, v] : f.taps.at) { hp[p].re = static_cast<long double>(v); }
    auto const spec = oracle::dft(hp, -1);
    pbt::Rng r{s.below(1 << 20)};
    for (std::size_t t = 0; t < calls; ++t) {
        auto const x = some_block<F>(r, block);
        f.push(x);
        Buf<F> io{x, 1, 1};
        eng(io.view(), [&](auto v) {
            for (std::size_t i = 0; i <= k / 2; ++i) {
                auto const c = v[i];
                v[i]         = C(static_cast<F>(c.real() * spec[i].re - c.imag() * spec[i].im), static_cast<F>(c.real() * spec[i].im + c.imag() * spec[i].re));
            }
        });
        f.check(io.get(), fmt("block %zu", t + 1).c_str());
    }
}
#define REG(ID, E, Q)                                                                                                  \
    PBT_CHECK_T(ID##1, #ID "_f", Q, Q * 12, engine<cv::E<std::complex<float>>>)                                        \
    PBT_CHECK_T(ID##2, #ID "_d", Q, Q * 12, engine<cv::E<std::complex<double>>>)                                       \
    PBT_CHECK_T(ID##5, #ID "_many_f", 6, 60, many<cv::E<std::complex<float>>, false>)                                  \
    PBT_CHECK_T(ID##6, #ID "_many_d", 6, 60, many<cv::E<std::complex<double>>, false>)                                 \
    PBT_CHECK_T(ID##7, #ID "_huge_f", 2, 20, many<cv::E<std::complex<float>>, true>)                                   \
    PBT_CHECK_T(ID##8, #ID "_huge_d", 2, 20, many<cv::E<neo::complex128>, true>)                                       \
    PBT_CHECK_T(ID##3, #ID "_c64", Q / 2, Q * 6, engine<cv::E<neo::complex64>>)                                        \
    PBT_CHECK_T(ID##4, #ID "_c128", Q / 2, Q * 6, engine<cv::E<neo::complex128>>)
REG(add, overlap_add, 3000)
REG(save, overlap_save, 3000)
