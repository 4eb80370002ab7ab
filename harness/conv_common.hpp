#pragma once
#include "mat.hpp"
#include <neo/convolution.hpp>
namespace cv = neo::convolution;

// mostly small blocks, now and then one of a realistic size
inline std::size_t gen_block(Src& s)
{
    auto const d = s.below(480);
    return std::size_t(1) << (d < 440 ? s.size(1, 5) : d < 479 ? s.size(1, 8) : s.size(9, 12));
}

// The blocks of a stream: all generated, a beginning followed by silence, or now and then some silent ones.
struct Stream
{
    std::uint64_t mode;
    std::size_t sound;
    explicit Stream(Src& s) : mode(s.below(6)), sound(mode == 1 ? s.size(1, 3) : 0) {}
    template<typename F>
    std::vector<F> next(Src& s, std::size_t n)
    {
        if (mode == 1) {
            if (sound == 0) { return std::vector<F>(n, F(0)); }
            --sound;
        }
        if (mode == 2 && s.chance(2, 3)) { return std::vector<F>(n, F(0)); }
        return gen_stream<F>(s, n);
    }
};

// An impulse response cut into blocks and transformed, either by the library or by the reference.
template<typename F>
struct Filter
{
    std::size_t block{0};
    std::vector<F> ir;
    std::size_t parts{0};
    std::vector<std::complex<F>> coeffs;  // parts x (block+1)
};
template<typename F>
Filter<F> gen_filter(Src& s, std::size_t block, std::size_t max_parts = 6)
{
    Filter<F> f;
    f.block          = block;
    auto const parts = block <= 4 && s.chance(1, 100) ? s.size(257, 600) : block <= 32 && s.chance(1, 50) ? s.size(max_parts + 1, 100) : s.size(1, max_parts);
    auto const len   = s.flag() ? parts * block : s.size((parts - 1) * block + 1, parts * block);
    f.ir             = gen_vec<F>(s, len);
    f.parts          = parts;
    auto const bins  = block + 1;
    f.coeffs.resize(parts * bins);
    if (s.flag()) {
        stdex::mdspan<F, stdex::dextents<std::size_t, 2>> in{f.ir.data(), 1, len};
        auto p = cv::uniform_partition(in, block);
        PBT_REQUIRE(p.extent(1) == parts && p.extent(2) == bins, "uniform_partition: %zux%zu instead of %zux%zu", std::size_t(p.extent(1)), std::size_t(p.extent(2)), parts, bins);
        for (std::size_t i = 0; i < parts; ++i) {
            for (std::size_t k = 0; k < bins; ++k) { f.coeffs[i * bins + k] = p(0, i, k); }
        }
    } else {
        for (std::size_t i = 0; i < parts; ++i) {
            std::vector<oracle::cplx> x(2 * block);
            for (std::size_t k = 0; k < block && i * block + k < len; ++k) { x[k].re = static_cast<long double>(f.ir[i * block + k]); }
            auto const y = oracle::dft(x, -1);
            for (std::size_t k = 0; k < bins; ++k) { f.coeffs[i * bins + k] = {static_cast<F>(y[k].re), static_cast<F>(y[k].im)}; }
        }
    }
    return f;
}
// Tolerance per sample: rounding of so many steps, relative to the norm of the samples that can still contribute to its block (its own block
// and `reach` samples before), plus the rounding of the oracle, which may look at all of them.
template<typename F>
std::vector<long double> local_tol(std::vector<F> const& hist, std::size_t block, std::size_t reach, long double ir_norm, long double steps)
{
    auto const blocks = (hist.size() + block - 1) / block;
    auto const back   = (reach + block - 1) / block;
    std::vector<long double> energy(blocks, 0);
    std::vector<long double> tol(hist.size());
    auto const oracle_noise = 1e-17L * oracle::norm(ld_of(hist)) * ir_norm + 1e-30L;
    for (std::size_t i = 0; i < hist.size(); ++i) { energy[i / block] += static_cast<long double>(hist[i]) * static_cast<long double>(hist[i]); }
    for (std::size_t b = 0; b < blocks; ++b) {
        long double e = 0;
        for (std::size_t k = b > back ? b - back : 0; k <= b; ++k) { e += energy[k]; }
        auto const t = 32.0L * eps<F>() * steps * ir_norm * std::sqrt(e) + oracle_noise;
        for (std::size_t i = b * block; i < std::min(hist.size(), (b + 1) * block); ++i) { tol[i] = t; }
    }
    return tol;
}
template<typename F>
std::vector<long double> conv_tol(std::size_t block, std::size_t parts, std::vector<F> const& hist, std::vector<F> const& ir)
{
    return local_tol(hist, block, (parts + 2) * block, oracle::norm(ld_of(ir)), std::log2(2.0L * block) + parts + 1);
}

// Impulse response of a few taps, for direct evaluation sample by sample.
template<typename F>
struct Taps
{
    std::vector<std::pair<std::size_t, F>> at;
    std::size_t length{0};
    long double norm{0};
};
// The output of a stream, compared sample by sample with the sum over the taps; the tolerance only
// looks at the samples which the response can reach, so it does not grow with the length of the history.
template<typename F>
struct Follower
{
    Taps<F> taps;
    std::vector<F> hist;
    std::vector<long double> power{0};
    std::size_t done{0};
    long double factor{0};  // rounding steps
    std::size_t reach{0};   // samples before the current one which may contribute rounding
    void push(std::vector<F> const& x)
    {
        for (auto v : x) {
            hist.push_back(v);
            power.push_back(power.back() + static_cast<long double>(v) * static_cast<long double>(v));
        }
    }
    void check(std::vector<F> const& y, char const* what)
    {
        auto const upto  = hist.size();
        auto const from  = done > reach ? done - reach : 0;
        auto const local = std::sqrt(std::max(0.0L, power[upto] - power[from]));
        auto const tol   = 32.0L * eps<F>() * factor * local * taps.norm + 1e-30L;
        for (std::size_t i = 0; i < y.size(); ++i, ++done) {
            long double want = 0;
            for (auto const& [pos, value] : taps.at) {
                if (pos <= done) { want += static_cast<long double>(value) * static_cast<long double>(hist[done - pos]); }
            }
            auto const err = std::fabs(static_cast<long double>(y[i]) - want);
            PBT_REQUIRE(err <= tol, "%s: sample %zu is %.9g instead of %.9Lg (tolerance %.3Lg)", what, done, double(y[i]), want, tol);
        }
    }
};
template<typename F>
std::vector<F> some_block(pbt::Rng& r, std::size_t n)
{
    std::vector<F> x(n);
    for (auto& v : x) { v = static_cast<F>(r.sym()); }
    return x;
}
// A response of `len` samples with at most `most` non-zero ones.
template<typename F>
Taps<F> gen_taps(Src& s, std::size_t len, std::size_t most)
{
    Taps<F> t;
    t.length = len;
    pbt::Rng r{s.below(1 << 20)};
    std::vector<char> used(len, 0);
    auto const n = std::min(len, most);
    for (std::size_t i = 0; i < n; ++i) {
        auto const p = len <= most ? i : i == 0 ? len - 1 : static_cast<std::size_t>(r.next() % len);
        if (used[p]) { continue; }
        used[p]      = 1;
        auto const v = static_cast<F>(r.sym());
        t.at.push_back({p, v});
        t.norm += static_cast<long double>(v) * static_cast<long double>(v);
    }
    t.norm = std::sqrt(t.norm);
    return t;
}
// Very many blocks through one convolver: set(parts x bins spectra), block(samples)
template<typename F, bool AnySize, typename Set, typename Process>
void many_blocks(Src& s, Set set, Process process)
{
    auto const calls = gen_many(s);
    auto const every = s.chance(1, 3) ? s.size(1, 3) : calls;  // new filter after so many blocks
    auto block       = std::size_t(1) << s.size(1, 2);
    auto parts       = s.size(1, 3);
    auto const seed  = s.below(1 << 20);
    pbt::Rng r{seed};
    s.note(fmt("%s block=%zu parts=%zu calls=%zu, a new filter every %zu", type_name<F>(), block, parts, calls, every));
    s.nontrivial(true);
    Follower<F> f;
    for (std::size_t t = 0; t < calls; ++t) {
        if (t % every == 0) {
            f         = Follower<F>{};
            f.taps    = gen_taps<F>(s, parts * block, parts * block);
            f.reach   = (parts + 2) * block;
            f.factor  = std::log2(2.0L * block) + parts + 1;
            std::vector<F> ir(parts * block);
            for (auto const& [p, v] : f.taps.at) { ir[p] = v; }
            stdex::mdspan<F, stdex::dextents<std::size_t, 2>> in{ir.data(), 1, ir.size()};
            auto const p = cv::uniform_partition(in, block);
            std::vector<std::complex<F>> c(parts * (block + 1));
            for (std::size_t i = 0; i < parts; ++i) {
                for (std::size_t k = 0; k <= block; ++k) { c[i * (block + 1) + k] = p(0, i, k); }
            }
            set(parts, block, c);
        }
        auto const n = AnySize ? block + r.next() % (block + 1) : block;
        auto const x = some_block<F>(r, n);
        f.push(x);
        Buf<F> io{x, 1, 1};
        process(io);
        f.check(io.get(), fmt("block %zu", t + 1).c_str());
    }
}
// A block of a size beyond 16 bits.
template<typename F, typename Set, typename Process>
void huge_block(Src& s, Set set, Process process)
{
    auto const block = std::size_t(1) << s.size(14, 16);
    auto const parts = s.size(1, 3);
    auto const calls = parts + 1;
    Follower<F> f;
    f.taps   = gen_taps<F>(s, parts * block - s.size(0, 3), 6);
    f.reach  = (parts + 2) * block;
    f.factor = std::log2(2.0L * block) + parts + 1;
    s.note(fmt("%s block=%zu parts=%zu calls=%zu last tap at %zu", type_name<F>(), block, parts, calls, f.taps.length - 1));
    s.nontrivial(true);
    std::vector<F> ir(f.taps.length);
    for (auto const& [p, v] : f.taps.at) { ir[p] = v; }
    stdex::mdspan<F, stdex::dextents<std::size_t, 2>> in{ir.data(), 1, ir.size()};
    auto const p = cv::uniform_partition(in, block);
    std::vector<std::complex<F>> c(parts * (block + 1));
    for (std::size_t i = 0; i < parts; ++i) {
        for (std::size_t k = 0; k <= block; ++k) { c[i * (block + 1) + k] = p(0, i, k); }
    }
    set(parts, block, c);
    pbt::Rng r{s.below(1 << 20)};
    for (std::size_t t = 0; t < calls; ++t) {
        auto const x = some_block<F>(r, block);
        f.push(x);
        Buf<F> io{x, 1, 1};
        process(io);
        f.check(io.get(), fmt("block %zu", t + 1).c_str());
    }
}
