#include "fft_common.hpp"
#include <neo/convolution.hpp>
#include <neo/math.hpp>
#include <functional>

constexpr long double PI = 3.14159265358979323846264338327950288L;

template<typename F>
struct Signal
{
    std::size_t ch;
    std::size_t n;
    std::vector<std::vector<F>> rows;
    pbt::Mem<F> mem;  // storage of the view
    int layout;
};
template<typename F>
Signal<F> gen_signal(Src& s, std::size_t ch, std::size_t n)
{
    Signal<F> g{ch, n, {}, {}, int(s.below(3))};
    for (std::size_t c = 0; c < ch; ++c) { g.rows.push_back(gen_any_level<F>(s, n)); }
    auto const rs = g.layout == 0 ? n : g.layout == 1 ? std::size_t(1) : 2 * n + 3;
    auto const cs = g.layout == 0 ? std::size_t(1) : g.layout == 1 ? ch : std::size_t(2);
    g.mem.assign(ch * n + (g.layout == 2 ? ch * (2 * n + 3) : 0) + 1, F(-77));
    for (std::size_t c = 0; c < ch; ++c) {
        for (std::size_t i = 0; i < n; ++i) { g.mem[c * rs + i * cs] = g.rows[c][i]; }
    }
    return g;
}
template<typename F, typename Fn>
auto with_view(Signal<F>& g, Fn fn)
{
    using E = stdex::dextents<std::size_t, 2>;
    if (g.layout == 0) { return fn(stdex::mdspan<F, E>{g.mem.data(), g.ch, g.n}); }
    if (g.layout == 1) { return fn(stdex::mdspan<F, E, stdex::layout_left>{g.mem.data(), g.ch, g.n}); }
    return fn(stdex::mdspan<F, E, stdex::layout_stride>{g.mem.data(), stdex::layout_stride::mapping<E>{E{g.ch, g.n}, std::array<std::size_t, 2>{2 * g.n + 3, 2}}});
}
inline std::size_t pow2ceil(std::size_t n)
{
    std::size_t p = 1;
    while (p < n) { p *= 2; }
    return p;
}
// compares a result tensor with windowed, zero padded frames
template<typename P = void, typename F, typename R>
void compare(R const& res, Signal<F> const& g, std::size_t frame, std::size_t overlap, std::size_t padded, std::function<long double(std::size_t)> const& win, long double win_err)
{
    using W           = std::conditional_t<std::is_void_v<P>, F, P>;  // precision of the transform
    auto const hop    = frame - overlap;
    auto const frames = (g.n + hop - 1) / hop;
    auto const bins   = padded / 2 + 1;
    PBT_REQUIRE(res.extent(0) == g.ch, "%zu channels instead of %zu", std::size_t(res.extent(0)), g.ch);
    PBT_REQUIRE(res.extent(1) == frames, "%zu frames instead of %zu", std::size_t(res.extent(1)), frames);
    PBT_REQUIRE(res.extent(2) == bins, "%zu bins instead of %zu", std::size_t(res.extent(2)), bins);
    for (std::size_t c = 0; c < g.ch; ++c) {
        for (std::size_t f = 0; f < frames; ++f) {
            std::vector<oracle::cplx> in(padded);
            long double raw = 0;
            for (std::size_t i = 0; i < frame && f * hop + i < g.n; ++i) {
                auto const v = static_cast<long double>(g.rows[c][f * hop + i]);
                raw += v * v;
                in[i].re = v * win(i);
            }
            auto want = oracle::dft(in, -1);
            auto norm = oracle::norm(want);
            want.resize(bins);
            std::vector<std::complex<W>> got(bins);
            for (std::size_t k = 0; k < bins; ++k) { got[k] = {static_cast<W>(res(c, f, k).real()), static_cast<W>(res(c, f, k).imag())}; }
            require_close_l2(got, want, fft_tol(padded, eps<W>(), norm) + win_err * std::sqrt(raw * padded), fmt("channel %zu frame %zu", c, f).c_str());
        }
    }
}

// mostly short frames, now and then one of the size people use, many frames or many channels
inline std::size_t gen_frame(Src& s, std::size_t lo, std::size_t hi) { return s.chance(1, 150) ? s.len(256, 5000) : s.flag() ? s.size(lo, hi) : std::size_t(1) << s.size(lo - 1, 8); }
inline std::size_t gen_channels(Src& s) { return s.chance(1, 50) ? s.size(4, 12) : s.size(1, 3); }

template<typename F>
void options(Src& s)
{
    auto const ch        = gen_channels(s);
    auto const frame     = gen_frame(s, 1, 24);
    auto const overlap   = s.flag() ? frame / 2 : s.size(0, frame - 1);
    auto const transform = s.flag() ? frame : s.size(frame, 3 * frame);
    auto const padded    = pow2ceil(transform);
    auto const hop       = frame - overlap;
    auto const n         = s.chance(1, 4) ? s.size(1, 3) * frame : frame < 40 && s.chance(1, 100) ? s.size(1, 300 * hop) : s.size(1, std::min<std::size_t>(std::max<std::size_t>(600, 2 * frame), 12 * hop + frame));
    auto const window    = padded < 2 ? 2 + s.below(2) : s.below(4);
    s.note(fmt("%s ch=%zu n=%zu frame=%zu overlap=%zu transform=%zu window=%d", type_name<F>(), ch, n, frame, overlap, transform, int(window)));
    auto opt = fft::stft_options<F>{.frame_size = frame, .transform_size = transform, .overlap_size = overlap};
    std::function<long double(std::size_t)> win;
    long double werr = 0;
    auto const a = F(double(s.range(0, 64)) / 16.0 - 2.0);
    switch (window) {
        case 0:  // hann is the default
            win  = [padded](std::size_t i) { return 0.5L - 0.5L * std::cos(2 * PI * i / (padded - 1)); };
            werr = 8 * eps<F>();
            break;
        case 1:
            opt.window = neo::hamming_window<F>{};
            win        = [padded](std::size_t i) { return 0.54L - 0.46L * std::cos(2 * PI * i / (padded - 1)); };
            werr       = 8 * eps<F>();
            break;
        case 2:
            opt.window = neo::rectangular_window<F>{};
            win        = [](std::size_t) { return 1.0L; };
            break;
        default:
            opt.window = [a](std::size_t i, std::size_t len) { return static_cast<F>(double(a) + double(i % 5) * 0.25 + double(len % 7)); };
            win        = [a, padded](std::size_t i) { return static_cast<long double>(a) + (i % 5) * 0.25L + (padded % 7); };
            break;
    }
    auto const runs = s.size(1, 2);
    auto plan       = fft::stft_plan<F>{opt};
    for (std::size_t r = 0; r < runs; ++r) {
        auto const len = r == 0 ? n : s.size(1, 2 * n);
        auto g         = gen_signal<F>(s, r == 0 ? ch : s.size(1, 3), len);
        auto const mem = g.mem;
        s.nontrivial(len > hop && frame > 1 && !all_zero(std::vector<double>(g.rows[0].begin(), g.rows[0].end())));
        s.note(fmt("n=%zu layout=%d ch0=%s", len, g.layout, show(g.rows[0], 5).c_str()));
        with_view(g, [&](auto v) {
            if (runs == 1 && s.flag()) {
                compare(fft::stft(v, opt), g, frame, overlap, padded, win, werr);
            } else {
                compare(plan(v), g, frame, overlap, padded, win, werr);
            }
        });
        if (!same(mem, g.mem)) { PBT_FAIL("the signal was changed"); }
    }
}
template<typename F>
void by_size(Src& s)
{
    auto const frame  = gen_frame(s, 2, 40);
    auto const padded = pow2ceil(frame);
    auto const n      = s.size(1, 4 * frame);
    auto g            = gen_signal<F>(s, s.size(1, 3), n);
    s.note(fmt("%s window_size=%zu n=%zu ch=%zu", type_name<F>(), frame, n, g.ch));
    s.nontrivial(n > frame && !all_zero(std::vector<double>(g.rows[0].begin(), g.rows[0].end())));
    with_view(g, [&](auto v) {
        compare(fft::stft(v, frame), g, frame, frame / 2, padded, [padded](std::size_t i) { return 0.5L - 0.5L * std::cos(2 * PI * i / (padded - 1)); }, 8 * eps<F>());
    });
}
template<typename F>
void partition(Src& s)
{
    auto const block = gen_frame(s, 1, 40);
    auto const n     = s.chance(1, 4) ? s.size(1, 5) * block : block < 40 && s.chance(1, 60) ? s.size(1, 300 * block) : s.size(1, 6 * block + 3);
    auto g           = gen_signal<F>(s, gen_channels(s), n);
    s.note(fmt("%s block=%zu n=%zu ch=%zu", type_name<F>(), block, n, g.ch));
    s.nontrivial(n > block && !all_zero(std::vector<double>(g.rows[0].begin(), g.rows[0].end())));
    with_view(g, [&](auto v) { compare(neo::convolution::uniform_partition(v, block), g, block, 0, pow2ceil(2 * block), [](std::size_t) { return 1.0L; }, 0); });
}
// samples of another type than the transform
template<typename In, typename F>
void converted(Src& s)
{
    auto const frame     = gen_frame(s, 1, 24);
    auto const overlap   = s.size(0, frame - 1);
    auto const transform = s.size(frame, 2 * frame);
    auto const padded    = pow2ceil(transform);
    auto const n         = s.size(1, 6 * (frame - overlap) + frame);
    auto opt             = fft::stft_options<F>{.frame_size = frame, .transform_size = transform, .overlap_size = overlap};
    opt.window           = neo::rectangular_window<F>{};
    auto plan            = fft::stft_plan<F>{opt};
    Signal<In> g         = gen_signal<In>(s, s.size(1, 3), n);
    s.note(fmt("n=%zu frame=%zu overlap=%zu transform=%zu ch=%zu", n, frame, overlap, transform, g.ch));
    s.nontrivial(n > frame && frame > 1);
    with_view(g, [&](auto v) { compare<F>(plan(v), g, frame, overlap, padded, [](std::size_t) { return 1.0L; }, 0); });
}
// very many frames
template<typename F>
void many(Src& s)
{
    auto const frame   = s.size(1, 4);
    auto const overlap = s.size(0, frame - 1);
    auto const hop     = frame - overlap;
    auto const n       = gen_many(s) * hop + s.size(0, 3);
    auto const padded  = pow2ceil(std::max<std::size_t>(frame, 2));
    auto g             = gen_signal<F>(s, s.size(1, 2), n);
    auto opt           = fft::stft_options<F>{.frame_size = frame, .transform_size = padded, .overlap_size = overlap};
    opt.window         = neo::rectangular_window<F>{};
    s.note(fmt("%s n=%zu frame=%zu overlap=%zu ch=%zu", type_name<F>(), n, frame, overlap, g.ch));
    s.nontrivial(!all_zero(std::vector<double>(g.rows[0].begin(), g.rows[0].end())));
    with_view(g, [&](auto v) {
        if (overlap == 0 && frame > 1 && pow2ceil(frame) == frame && s.flag()) {
            compare(neo::convolution::uniform_partition(v, frame), g, frame, 0, 2 * frame, [](std::size_t) { return 1.0L; }, 0);
        } else {
            compare(fft::stft(v, opt), g, frame, overlap, padded, [](std::size_t) { return 1.0L; }, 0);
        }
    });
}
#define REG(F, Q)                                                                                                      \
    PBT_CHECK_T(F##1, #F "_f", Q, Q * 12, F<float>)                                                                    \
    PBT_CHECK_T(F##2, #F "_d", Q, Q * 12, F<double>)
REG(options, 3000)
REG(by_size, 1000)
REG(partition, 2000)
REG(many, 6)
PBT_CHECK_T(v1, "converted_f_d", 200, 2500, (converted<float, double>))
