#include "conv_common.hpp"
template<typename F>
void stream(Src& s)
{
    using C = std::complex<F>;
    cv::upola_convolver_v2<C> conv;
    std::vector<F> hist;
    std::vector<F> out;
    auto const phases = s.chance(1, 2) ? std::size_t(1) : s.size(2, 4);
    auto block        = gen_block(s);
    s.note(fmt("%s phases=%zu", type_name<F>(), phases));
    for (std::size_t p = 0; p < phases; ++p) {
        if (p > 0 && s.chance(1, 3)) { block = gen_block(s); }
        auto f = gen_filter<F>(s, block);
        Mat<C> m{f.parts, block + 1, f.coeffs, int(s.below(3))};
        m.with([&](auto v) { conv.filter(v); });
        m.check("filter");
        if (!same(m.get(), f.coeffs)) { PBT_FAIL("filter() changed the response"); }
        m.mem.assign(m.mem.size(), C(9, 9));
        hist.clear();
        out.clear();
        auto const calls = f.parts > 30 && s.chance(2, 3) ? s.size(f.parts, f.parts + 30) : block <= 32 && s.chance(1, 30) ? s.size(11, 80) : s.size(1, 10);
        auto const style = s.below(4);
        std::string cut;
        bool partial = false;
        Stream stream{s};
        for (std::size_t b = 0; b < calls; ++b) {
            auto const n = style == 0 ? block : style == 1 ? s.size(1, 3) * block : style == 2 ? s.size(block, 2 * block) : s.size(block, 5 * block + 3);
            partial      = partial || n % block != 0;
            cut += fmt(" %zu", n);
            auto const x = stream.next<F>(s, n);
            hist.insert(hist.end(), x.begin(), x.end());
            Buf<F> io{x, s.chance(1, 4) ? std::size_t(2) : std::size_t(1), 3};
            io.stride == 1 ? conv(io.view()) : conv(io.sview());
            io.check("buffer");
            auto const y = io.get();
            out.insert(out.end(), y.begin(), y.end());
        }
        s.note(fmt("filter block=%zu parts=%zu ir=%s buffers%s", block, f.parts, show(f.ir, 4).c_str(), cut.c_str()));
        s.nontrivial(calls >= 2 && (partial || p > 0 || f.parts > 1) && oracle::norm(ld_of(f.ir)) > 0);
        s.label(partial ? "partial blocks" : "whole blocks");
        auto const want = oracle::convolve_prefix(ld_of(hist), ld_of(f.ir), hist.size());
        require_close_each(out, want, conv_tol(block, f.parts, hist, f.ir), fmt("phase %zu (block %zu, %zu partitions, buffers%s)", p, block, f.parts, cut.c_str()).c_str());
    }
}
// the same stream cut in two ways gives the same output
template<typename F>
void cuts(Src& s)
{
    using C           = std::complex<F>;
    auto const block  = gen_block(s);
    auto f            = gen_filter<F>(s, block);
    auto const n      = s.size(2 * block, (f.parts > 30 ? f.parts + 40 : block <= 32 && s.chance(1, 30) ? 200 : 14) * block);
    auto const x      = gen_stream<F>(s, n);
    auto run          = [&] {
        cv::upola_convolver_v2<C> conv;
        Mat<C> m{f.parts, block + 1, f.coeffs, 0};
        m.with([&](auto v) { conv.filter(v); });
        std::vector<F> out;
        std::size_t pos = 0;
        std::string cut;
        while (pos < n) {
            auto const left = n - pos;
            auto k          = left < 2 * block ? left : s.size(block, left - block);
            std::vector<F> part(x.begin() + std::ptrdiff_t(pos), x.begin() + std::ptrdiff_t(pos + k));
            Buf<F> io{part, 1, 3};
            conv(io.view());
            auto const y = io.get();
            out.insert(out.end(), y.begin(), y.end());
            pos += k;
            cut += fmt(" %zu", k);
        }
        s.note("cut" + cut);
        return out;
    };
    s.note(fmt("%s block=%zu parts=%zu n=%zu", type_name<F>(), block, f.parts, n));
    auto const tol = conv_tol(block, f.parts, x, f.ir);
    auto const a   = run();
    auto const b   = run();
    s.nontrivial(oracle::norm(ld_of(f.ir)) > 0 && oracle::norm(ld_of(x)) > 0);
    require_close_each(a, ld_of(b), tol, "two ways of cutting the stream", 2);
    require_close_each(a, oracle::convolve_prefix(ld_of(x), ld_of(f.ir), n), tol, "linear convolution");
}
template<typename F, bool Huge>
void many(Src& s)
{
    using C = std::complex<F>;
    cv::upola_convolver_v2<C> conv;
    auto set = [&](std::size_t parts, std::size_t block, std::vector<C> const& c) {
        Mat<C> m{parts, block + 1, c, 0};
        m.with([&](auto v) { conv.filter(v); });
    };
    auto process = [&](Buf<F>& io) { conv(io.view()); };
    if constexpr (Huge) {
        huge_block<F>(s, set, process);
    } else {
        many_blocks<F, true>(s, set, process);
    }
}
PBT_CHECK_T(a1, "stream_f", 3500, 40000, stream<float>)
PBT_CHECK_T(a2, "stream_d", 3500, 40000, stream<double>)
PBT_CHECK_T(b1, "cuts_f", 1500, 15000, cuts<float>)
PBT_CHECK_T(b2, "cuts_d", 1500, 15000, cuts<double>)
PBT_CHECK_T(m1, "many_f", 10, 100, many<float, false>)
PBT_CHECK_T(m2, "many_d", 10, 100, many<double, false>)
PBT_CHECK_T(h1, "huge_f", 3, 30, many<float, true>)
PBT_CHECK_T(h2, "huge_d", 3, 30, many<double, true>)
