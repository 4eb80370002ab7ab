// The command line convolver, run as a function on in-memory wav files.
#include "common.hpp"
#include "dr_wav.h"

auto neo_cli(int argc, char** argv) -> int;

namespace {
struct Audio
{
    std::uint32_t channels{1};
    std::uint32_t rate{44100};
    std::vector<std::vector<float>> ch;  // [channel][frame]
    void store(std::string const& path) const
    {
        drshim::File f;
        f.channels = channels;
        f.rate     = rate;
        f.frames   = ch.empty() ? 0 : ch[0].size();
        f.interleaved.resize(f.frames * channels);
        for (std::size_t c = 0; c < channels; ++c) {
            for (std::size_t i = 0; i < f.frames; ++i) { f.interleaved[i * channels + c] = ch[c][i]; }
        }
        f.interleaved.shrink_to_fit();
        drshim::files()[path] = f;
    }
};

constexpr std::size_t block = 8192 * 4;

// lengths around multiples of the internal block, or short
std::size_t gen_len(Src& s, std::size_t most)
{
    switch (s.below(4)) {
        case 0: return s.len(1, 300);
        case 1: return s.size(1, 4000);
        case 2: {
            auto const k = s.size(1, std::max<std::size_t>(1, most / block));
            return std::min(most, k * block + s.size(0, 4) - 2);
        }
        default: return s.size(1, most);
    }
}

int run(std::vector<std::string> const& args)
{
    std::vector<std::string> a{"neo_convolver"};
    a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> p;
    for (auto& x : a) { p.push_back(x.data()); }
    p.push_back(nullptr);
    drshim::writes().clear();
    return neo_cli(static_cast<int>(a.size()), p.data());
}

// the taps of a response: (position, value)
struct Taps
{
    std::vector<std::pair<std::size_t, float>> t;
    std::size_t len{1};
};

void convolver(Src& s)
{
    auto const channels = static_cast<std::uint32_t>(s.size(1, 4));
    auto const rate     = s.flag() ? s.pick<std::uint32_t>({44100, 48000, 96000, 8000, 192000, 22050, 11025, 88200}) : static_cast<std::uint32_t>(s.range(1, 400000));
    auto const n        = gen_len(s, s.thorough ? 200000 : 70000);
    auto const m        = gen_len(s, s.thorough ? 200000 : 70000);
    Audio sig{channels, rate, {}};
    Audio fil{channels, rate, {}};
    std::vector<Taps> taps(channels);
    s.note(fmt("%u channels at %u Hz, signal of %zu frames, filter of %zu frames", channels, rate, n, m));
    s.label(n > block ? "several blocks" : "one block");
    s.label(m > block ? "several partitions" : "one partition");
    bool audible = false;
    for (std::size_t c = 0; c < channels; ++c) {
        std::vector<float> x(n);
        switch (s.below(4)) {
            case 0: {
                pbt::Rng r{s.below(0)};
                for (auto& v : x) { v = static_cast<float>(r.sym()); }
                break;
            }
            case 1:
                for (auto k = s.size(1, 5); k > 0; --k) { x[s.size(0, n - 1)] = static_cast<float>(s.range(-8, 8)) / 8.0F; }
                break;
            case 2: {
                auto const f = double(s.range(1, 4000)) / 8000.0;
                for (std::size_t i = 0; i < n; ++i) { x[i] = static_cast<float>(0.8 * std::sin(3.14159265 * f * double(i))); }
                break;
            }
            default: break;  // silent channel
        }
        sig.ch.push_back(x);
        Taps& t = taps[c];
        std::vector<float> h(m, 0.0F);
        if (s.chance(7, 8)) {
            auto const k = s.size(1, 16);
            for (std::size_t i = 0; i < k; ++i) {
                auto const edge = m > block ? s.size(block - 2, std::min(m - 1, block + 2)) : std::size_t(0);
                auto const at   = s.pick<std::size_t>({0, m - 1, edge, s.size(0, m - 1), s.size(0, std::min<std::size_t>(m - 1, 64))});
                h[at]           = static_cast<float>(s.range(-16, 16)) / 16.0F;
            }
        }
        for (std::size_t i = 0; i < m; ++i) {
            if (h[i] != 0.0F) { t.t.emplace_back(i, h[i]); }
        }
        fil.ch.push_back(h);
    }
    sig.store("in/signal.wav");
    fil.store("in/filter.wav");
    auto const keep_sig = drshim::files()["in/signal.wav"].interleaved;
    int const rc        = run({"in/signal.wav", "in/filter.wav", "out/result.wav"});
    PBT_REQUIRE(rc == 0, "exit status %d", rc);
    // reference: convolution per channel, cut to the length of the signal, one factor for all channels
    std::vector<std::vector<long double>> want(channels, std::vector<long double>(n, 0.0L));
    long double peak  = 0;
    long double bound = 0;  // what rounding errors are relative to: loudest input times sum of taps
    for (std::size_t c = 0; c < channels; ++c) {
        for (auto const& [at, v] : taps[c].t) {
            for (std::size_t i = at; i < n; ++i) { want[c][i] += static_cast<long double>(v) * static_cast<long double>(sig.ch[c][i - at]); }
        }
        for (auto v : want[c]) { peak = std::max(peak, std::fabs(v)); }
        long double loud = 0;
        long double sum  = 0;
        for (auto v : sig.ch[c]) { loud = std::max(loud, std::fabs(static_cast<long double>(v))); }
        for (auto const& tap : taps[c].t) { sum += std::fabs(static_cast<long double>(tap.second)); }
        bound = std::max(bound, loud * sum);
    }
    audible = peak > 0;
    s.nontrivial(audible && n > 1);
    auto const& w = drshim::writes();
    PBT_REQUIRE(!w.empty(), "nothing was written");
    for (std::size_t k = 0; k < w.size(); ++k) {
        auto const& f = w[k].file;
        PBT_REQUIRE(w[k].path == "out/result.wav", "wrote %s", w[k].path.c_str());
        PBT_REQUIRE(f.closed, "the file written was not closed");
        PBT_REQUIRE(f.channels == channels && f.rate == rate && f.frames == n, "%u channels at %u Hz, %zu frames", f.channels, f.rate, std::size_t(f.frames));
        PBT_REQUIRE(f.format == DR_WAVE_FORMAT_IEEE_FLOAT && f.bits == 32, "format %u with %u bits", f.format, f.bits);
        // the third pass keeps its spectra in half precision
        // (where the result is silent but not the inputs, rounding noise may have been brought to full scale)
        long double const tol = audible ? (k < 2 ? 2e-5L : 1e-2L) * (1.0L + bound / peak) : bound > 0 ? 1.0L + 1e-5L : 2e-5L;
        s.label(tol < 0.2L ? "tight" : "loose");
        for (std::size_t c = 0; c < channels; ++c) {
            for (std::size_t i = 0; i < n; ++i) {
                auto const g = static_cast<long double>(f.interleaved[i * channels + c]);
                auto const e = audible ? want[c][i] / peak : 0.0L;
                if (!(std::fabs(g - e) <= tol)) {
                    PBT_FAIL("pass %zu, channel %zu, frame %zu: %.9Lg instead of %.9Lg", k, c, i, g, e);
                }
            }
        }
    }
}

// what the command refuses
void refuse(Src& s)
{
    Audio a{static_cast<std::uint32_t>(s.size(1, 3)), 44100, {}};
    Audio b = a;
    a.ch.assign(a.channels, std::vector<float>(s.size(1, 50), 0.5F));
    b.ch.assign(b.channels, std::vector<float>(s.size(1, 50), 0.5F));
    std::vector<std::string> args{"a.wav", "b.wav", "out.wav"};
    auto const kind = s.below(6);
    drshim::files().clear();
    switch (kind) {
        case 0:
            s.note("another number of channels");
            b.channels = a.channels + static_cast<std::uint32_t>(s.size(1, 2));
            b.ch.assign(b.channels, std::vector<float>(20, 0.5F));
            if (s.flag()) { std::swap(a, b); }
            break;
        case 1:
            s.note("another sample rate");
            b.rate = s.pick<std::uint32_t>({48000, 44099, 44101, 22050, 88200, 1});
            if (s.flag()) { std::swap(a, b); }
            break;
        case 2:
            s.note("wrong number of arguments");
            args.resize(s.size(0, 5));
            for (auto& x : args) { x = x.empty() ? "b.wav" : x; }
            if (args.size() == 3) { args.pop_back(); }
            break;
        case 3: s.note("the signal cannot be opened"); break;
        case 4: s.note("the filter cannot be opened"); break;
        default: s.note("neither file can be opened"); break;
    }
    s.nontrivial();
    if (kind != 3 && kind != 5) { a.store("a.wav"); }
    if (kind != 4 && kind != 5) { b.store("b.wav"); }
    if (kind == 3 && s.flag()) {  // a file that ends early
        s.note("it ends early");
        a.store("a.wav");
        drshim::files()["a.wav"].readable = s.size(0, a.ch[0].size() - 1);
    }
    int const rc = run(args);
    PBT_REQUIRE(rc != 0, "reported success");
    PBT_REQUIRE(drshim::writes().empty(), "wrote a file");
}
}  // namespace
PBT_CHECK_T(k1, "convolver", 60, 600, convolver)
PBT_CHECK_T(k2, "refuse", 600, 6000, refuse)
