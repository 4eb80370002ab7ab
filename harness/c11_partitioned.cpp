#include "conv_common.hpp"
template<typename F, typename Conv>
void stream(Src& s)
{
    using C = std::complex<F>;
    Conv conv;
    std::vector<F> hist;
    std::vector<F> out;
    auto const phases = s.chance(1, 2) ? std::size_t(1) : s.size(2, 4);
    auto block        = gen_block(s);
    s.note(fmt("%s phases=%zu", type_name<F>(), phases));
    for (std::size_t p = 0; p < phases; ++p) {
        if (p > 0 && s.chance(1, 3)) { block = gen_block(s); }
        auto f = gen_filter<F>(s, block);
        Mat<C> m{f.parts, block + 1, f.coeffs, int(s.below(3))};
        m.with([&](auto v) { conv.filter(v); });
        m.check("filter");
        if (!same(m.get(), f.coeffs)) { PBT_FAIL("filter() changed the response"); }
        m.mem.assign(m.mem.size(), C(9, 9));  // the convolver must have its own copy
        hist.clear();
        auto const blocks = s.size(1, s.flag() ? 4 : 2 * f.parts + 6);
        s.note(fmt("filter block=%zu parts=%zu ir=%s then %zu blocks", block, f.parts, show(f.ir, 4).c_str(), blocks));
        s.nontrivial((f.parts >= 2 || p > 0) && blocks >= 2 && oracle::norm(ld_of(f.ir)) > 0);
        out.clear();
        Stream stream{s};
        for (std::size_t b = 0; b < blocks; ++b) {
            auto const x = stream.next<F>(s, block);
            hist.insert(hist.end(), x.begin(), x.end());
            Buf<F> io{x, s.chance(1, 4) ? std::size_t(2) : std::size_t(1), 3};
            io.stride == 1 ? conv(io.view()) : conv(io.sview());
            io.check("block");
            auto const y = io.get();
            out.insert(out.end(), y.begin(), y.end());
        }
        auto const want = oracle::convolve_prefix(ld_of(hist), ld_of(f.ir), hist.size());
        require_close_each(out, want, conv_tol(block, f.parts, hist, f.ir), fmt("phase %zu (block %zu, %zu partitions, %zu blocks)", p, block, f.parts, blocks).c_str());
        if (s.chance(1, 5)) {
            auto other = conv;
            conv       = other;
        }
    }
}
template<typename F, typename Conv, bool Huge>
void many(Src& s)
{
    using C = std::complex<F>;
    Conv conv;
    auto set = [&](std::size_t parts, std::size_t block, std::vector<C> const& c) {
        Mat<C> m{parts, block + 1, c, 0};
        m.with([&](auto v) { conv.filter(v); });
    };
    auto process = [&](Buf<F>& io) { conv(io.view()); };
    if constexpr (Huge) {
        huge_block<F>(s, set, process);
    } else {
        many_blocks<F, false>(s, set, process);
    }
}
// Spectra stored with less precision (half floats as in the command line tool, or integers): still linear convolution, to that precision.
// Unit: relative rounding of what is stored; floor: its absolute rounding. By Parseval the error of a block is bounded by the norms.
template<typename Conv>
void reduced(Src& s, long double unit, long double floor, bool bounded)
{
    using C           = std::complex<float>;
    auto const block  = std::size_t(1) << s.size(1, 7);
    auto const phases = s.size(1, 2);
    Conv conv;
    for (std::size_t p = 0; p < phases; ++p) {
        auto const parts = s.size(1, 6);
        auto const len   = s.size((parts - 1) * block + 1, parts * block);
        // the spectrum of a block stays within [-1, 1] (integers) or small (half floats)
        auto const level = static_cast<float>(1.0 / static_cast<double>(block));
        auto ir          = gen_vec<float>(s, len, nullptr, false);
        if (!bounded) {
            for (auto& v : ir) { v *= 4 * level; }
        }
        stdex::mdspan<float, stdex::dextents<std::size_t, 2>> in{ir.data(), 1, len};
        auto part = cv::uniform_partition(in, block);
        conv.filter(stdex::submdspan(part.to_mdspan(), 0, stdex::full_extent, stdex::full_extent));
        auto const blocks = s.size(1, 2 * parts + 4);
        s.note(fmt("block=%zu parts=%zu ir=%s then %zu blocks", block, parts, show(ir, 4).c_str(), blocks));
        s.nontrivial(parts >= 2 && blocks >= 2 && oracle::norm(ld_of(ir)) > 0);
        std::vector<float> hist;
        std::vector<float> out;
        for (std::size_t b = 0; b < blocks; ++b) {
            auto x = gen_vec<float>(s, block, nullptr, false);
            for (auto& v : x) { v = std::clamp(v, -1.0F, 1.0F) * (bounded ? 0.49F * level : 1.0F); }
            hist.insert(hist.end(), x.begin(), x.end());
            Buf<float> io{x, 1, 2};
            conv(io.view());
            io.check("block");
            auto const y = io.get();
            out.insert(out.end(), y.begin(), y.end());
        }
        auto const want = oracle::convolve_prefix(ld_of(hist), ld_of(ir), hist.size());
        std::vector<long double> xn(blocks, 0);
        std::vector<long double> hn(parts, 0);
        for (std::size_t i = 0; i < hist.size(); ++i) { xn[i / block] += static_cast<long double>(hist[i]) * static_cast<long double>(hist[i]); }
        for (std::size_t i = 0; i < ir.size(); ++i) { hn[i / block] += static_cast<long double>(ir[i]) * static_cast<long double>(ir[i]); }
        std::vector<long double> tol(hist.size(), 0);
        for (std::size_t b = 0; b < blocks; ++b) {
            long double t = 0;
            for (std::size_t back = 0; back <= 1 && back <= b; ++back) {  // a block also receives the tail of the one before
                for (std::size_t q = 0; q < parts; ++q) {
                    auto const first = b >= back + q ? xn[b - back - q] : 0;
                    auto const older = b >= back + q + 1 ? xn[b - back - q - 1] : 0;
                    t += (unit * (2 * static_cast<long double>(parts) + 8) + 100 * eps<float>()) * std::sqrt((first + older) * hn[q]) + floor * std::sqrt(hn[q]);
                    if (!bounded) { t += floor * (std::sqrt(first + older) + 1); }
                }
            }
            for (std::size_t i = b * block; i < (b + 1) * block; ++i) { tol[i] = 2 * t + 1e-9L; }
        }
        require_close_each(out, want, tol, fmt("phase %zu (block %zu, %zu partitions, %zu blocks)", p, block, parts, blocks).c_str());
    }
}
#if defined(NEO_HAS_BUILTIN_FLOAT16)
template<typename Overlap>
void half(Src& s)
{
    reduced<cv::uniform_partitioned_convolver<Overlap, cv::dense_split_fdl<_Float16>, cv::dense_split_filter<_Float16>>>(s, 1.0L / 2048, 1.0L / (1 << 24), false);
}
#endif
template<typename Overlap, typename Int>
void integers(Src& s)
{
    using C = std::complex<float>;
    reduced<cv::uniform_partitioned_convolver<Overlap, cv::compressed_fdl<C, neo::scalar_complex<Int>>, cv::dense_filter<C>>>(s, 0, 0.75L / std::numeric_limits<Int>::max(), true);
}
PBT_CHECK_T(a1, "upols_f", 1500, 15000, stream<float, cv::upols_convolver<std::complex<float>>>)
PBT_CHECK_T(a2, "upols_d", 1500, 15000, stream<double, cv::upols_convolver<std::complex<double>>>)
PBT_CHECK_T(b1, "upola_f", 1500, 15000, stream<float, cv::upola_convolver<std::complex<float>>>)
PBT_CHECK_T(b2, "upola_d", 1500, 15000, stream<double, cv::upola_convolver<std::complex<double>>>)
PBT_CHECK_T(c1, "split_upols_f", 1500, 15000, stream<float, cv::split_upols_convolver<std::complex<float>>>)
PBT_CHECK_T(c2, "split_upols_d", 1500, 15000, stream<double, cv::split_upols_convolver<std::complex<double>>>)
PBT_CHECK_T(d1, "split_upola_f", 1500, 15000, stream<float, cv::split_upola_convolver<std::complex<float>>>)
PBT_CHECK_T(d2, "split_upola_d", 1500, 15000, stream<double, cv::split_upola_convolver<std::complex<double>>>)
PBT_CHECK_T(maf, "upols_many_f", 6, 60, many<float, cv::upols_convolver<std::complex<float>>, false>)
PBT_CHECK_T(haf, "upols_huge_f", 2, 20, many<float, cv::upols_convolver<std::complex<float>>, true>)
PBT_CHECK_T(mad, "upols_many_d", 6, 60, many<double, cv::upols_convolver<std::complex<double>>, false>)
PBT_CHECK_T(had, "upols_huge_d", 2, 20, many<double, cv::upols_convolver<std::complex<double>>, true>)
PBT_CHECK_T(mbf, "upola_many_f", 6, 60, many<float, cv::upola_convolver<std::complex<float>>, false>)
PBT_CHECK_T(hbf, "upola_huge_f", 2, 20, many<float, cv::upola_convolver<std::complex<float>>, true>)
PBT_CHECK_T(mbd, "upola_many_d", 6, 60, many<double, cv::upola_convolver<std::complex<double>>, false>)
PBT_CHECK_T(hbd, "upola_huge_d", 2, 20, many<double, cv::upola_convolver<std::complex<double>>, true>)
PBT_CHECK_T(mcf, "split_upols_many_f", 6, 60, many<float, cv::split_upols_convolver<std::complex<float>>, false>)
PBT_CHECK_T(hcf, "split_upols_huge_f", 2, 20, many<float, cv::split_upols_convolver<std::complex<float>>, true>)
PBT_CHECK_T(mcd, "split_upols_many_d", 6, 60, many<double, cv::split_upols_convolver<std::complex<double>>, false>)
PBT_CHECK_T(hcd, "split_upols_huge_d", 2, 20, many<double, cv::split_upols_convolver<std::complex<double>>, true>)
PBT_CHECK_T(mdf, "split_upola_many_f", 6, 60, many<float, cv::split_upola_convolver<std::complex<float>>, false>)
PBT_CHECK_T(hdf, "split_upola_huge_f", 2, 20, many<float, cv::split_upola_convolver<std::complex<float>>, true>)
PBT_CHECK_T(mdd, "split_upola_many_d", 6, 60, many<double, cv::split_upola_convolver<std::complex<double>>, false>)
PBT_CHECK_T(hdd, "split_upola_huge_d", 2, 20, many<double, cv::split_upola_convolver<std::complex<double>>, true>)
using ola = cv::overlap_add<std::complex<float>>;
using ols = cv::overlap_save<std::complex<float>>;
#if defined(NEO_HAS_BUILTIN_FLOAT16)
PBT_CHECK_T(ra, "half_upola", 300, 3000, half<ola>)
PBT_CHECK_T(rs, "half_upols", 300, 3000, half<ols>)
#endif
PBT_CHECK_T(ia, "int8_upola", 300, 3000, (integers<ola, std::int8_t>))
PBT_CHECK_T(is, "int16_upols", 300, 3000, (integers<ols, std::int16_t>))
