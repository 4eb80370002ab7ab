#include "conv_model.hpp"
template<typename F, bool Save>
void stream(Src& s)
{
    using C      = std::complex<F>;
    using Sparse = std::conditional_t<Save, cv::sparse_upols_convolver<C>, cv::sparse_upola_convolver<C>>;
    using Dense  = std::conditional_t<Save, cv::upols_convolver<C>, cv::upola_convolver<C>>;
    Sparse conv;
    auto const phases = s.flag() ? std::size_t(1) : s.size(2, 4);
    s.note(fmt("%s phases=%zu", type_name<F>(), phases));
    for (std::size_t p = 0; p < phases; ++p) {
        auto const block = gen_block(s);
        auto const bins  = block + 1;
        auto f           = gen_filter<F>(s, block, 5);
        std::vector<char> keep(f.parts * bins, 1);
        auto const rule = s.below(6);
        auto const thr  = F(double(s.range(0, 40)) / 10.0);
        if (rule == 1) { keep.assign(keep.size(), 0); }
        if (rule == 2) {
            for (std::size_t i = 0; i < keep.size(); ++i) { keep[i] = std::abs(f.coeffs[i]) > thr ? 1 : 0; }
        }
        if (rule == 3) {
            pbt::Rng r{s.below(1 << 20)};
            auto const den = 2 + r.next() % 6;
            for (auto& k : keep) { k = r.next() % den == 0 ? 1 : 0; }
        }
        if (rule == 4) {  // some rows only
            for (std::size_t i = 0; i < f.parts; ++i) {
                auto const on = s.flag();
                for (std::size_t k = 0; k < bins; ++k) { keep[i * bins + k] = on ? 1 : 0; }
            }
        }
        if (rule == 5) {
            auto const lo = s.size(0, bins - 1);
            auto const hi = s.size(lo, bins);
            for (std::size_t i = 0; i < f.parts; ++i) {
                for (std::size_t k = 0; k < bins; ++k) { keep[i * bins + k] = k >= lo && k < hi ? 1 : 0; }
            }
        }
        auto masked = f.coeffs;
        std::size_t kept = 0;
        for (std::size_t i = 0; i < keep.size(); ++i) {
            kept += keep[i];
            if (!keep[i]) { masked[i] = C(0, 0); }
        }
        Mat<C> m{f.parts, bins, f.coeffs, int(s.below(3))};
        m.with([&](auto v) {
            conv.filter(v, [&](auto row, auto col, C value) {
                PBT_REQUIRE(std::size_t(row) < f.parts && std::size_t(col) < bins, "rule asked for (%zu,%zu)", std::size_t(row), std::size_t(col));
                PBT_REQUIRE(value == f.coeffs[std::size_t(row) * bins + std::size_t(col)], "rule asked for (%zu,%zu) with another value", std::size_t(row), std::size_t(col));
                return keep[std::size_t(row) * bins + std::size_t(col)] != 0;
            });
        });
        m.mem.assign(m.mem.size(), C(9, 9));
        Dense dense;
        Mat<C> md{f.parts, bins, masked, 0};
        md.with([&](auto v) { dense.filter(v); });
        Model model{Save, block, f.parts, cx_of(masked)};
        auto const blocks = s.size(1, 2 * f.parts + 4);
        s.note(fmt("block=%zu parts=%zu rule=%d keeps %zu of %zu, %zu blocks", block, f.parts, int(rule), kept, keep.size(), blocks));
        s.nontrivial(blocks >= 2 && kept > 0 && oracle::norm(cx_of(masked)) > 0);
        s.label(kept == 0 ? "keeps nothing" : kept == keep.size() ? "keeps everything" : "keeps some");
        std::vector<F> hist;
        std::vector<F> out;
        std::vector<F> dout;
        std::vector<long double> want;
        Stream stream{s};
        for (std::size_t b = 0; b < blocks; ++b) {
            auto const x = stream.next<F>(s, block);
            hist.insert(hist.end(), x.begin(), x.end());
            Buf<F> io{x, s.chance(1, 4) ? std::size_t(2) : std::size_t(1), 3};
            io.stride == 1 ? conv(io.view()) : conv(io.sview());
            io.check("block");
            auto const y = io.get();
            out.insert(out.end(), y.begin(), y.end());
            Buf<F> d{x, 1, 0};
            dense(d.view());
            auto const z = d.get();
            dout.insert(dout.end(), z.begin(), z.end());
            auto const w = model(ld_of(x));
            want.insert(want.end(), w.begin(), w.end());
        }
        auto const hn  = oracle::norm(cx_of(masked)) / std::sqrt(static_cast<long double>(block)) + oracle::norm(ld_of(f.ir)) * (kept ? 1 : 0);
        auto const tol = local_tol(hist, block, (f.parts + 2) * block, hn, std::log2(2.0L * block) + f.parts + 1);
        require_close_each(out, want, tol, fmt("sparse against the model, phase %zu", p).c_str());
        require_close_each(out, ld_of(dout), tol, fmt("sparse against dense, phase %zu", p).c_str(), 2);
        if (kept == keep.size()) { require_close_each(out, oracle::convolve_prefix(ld_of(hist), ld_of(f.ir), hist.size()), tol, "full convolution"); }
        if (kept == 0) {
            for (auto v : out) { PBT_REQUIRE(v == F(0), "output %g with nothing kept", double(v)); }
        }
    }
}
template<typename F, bool Save, bool Huge>
void many(Src& s)
{
    using C = std::complex<F>;
    std::conditional_t<Save, cv::sparse_upols_convolver<C>, cv::sparse_upola_convolver<C>> conv;
    auto set = [&](std::size_t parts, std::size_t block, std::vector<C> const& c) {
        Mat<C> m{parts, block + 1, c, 0};
        m.with([&](auto v) { conv.filter(v, [](auto, auto, C) { return true; }); });
    };
    auto process = [&](Buf<F>& io) { conv(io.view()); };
    if constexpr (Huge) {
        huge_block<F>(s, set, process);
    } else {
        many_blocks<F, false>(s, set, process);
    }
}
PBT_CHECK_T(a1, "upols_f", 1500, 20000, stream<float, true>)
PBT_CHECK_T(a2, "upols_d", 1500, 20000, stream<double, true>)
PBT_CHECK_T(b1, "upola_f", 1500, 20000, stream<float, false>)
PBT_CHECK_T(b2, "upola_d", 1500, 20000, stream<double, false>)
PBT_CHECK_T(msf, "upols_many_f", 6, 60, many<float, true, false>)
PBT_CHECK_T(hsf, "upols_huge_f", 2, 20, many<float, true, true>)
PBT_CHECK_T(msd, "upols_many_d", 6, 60, many<double, true, false>)
PBT_CHECK_T(hsd, "upols_huge_d", 2, 20, many<double, true, true>)
PBT_CHECK_T(maf, "upola_many_f", 6, 60, many<float, false, false>)
PBT_CHECK_T(haf, "upola_huge_f", 2, 20, many<float, false, true>)
PBT_CHECK_T(mad, "upola_many_d", 6, 60, many<double, false, false>)
PBT_CHECK_T(had, "upola_huge_d", 2, 20, many<double, false, true>)
