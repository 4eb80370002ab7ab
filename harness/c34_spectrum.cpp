// The spectrum pictures and histograms of the plugin (extra/plugin/src/dsp/Spectrum.cpp) over a stand-in for JUCE.
#include "mat.hpp"
#include "dsp/Spectrum.hpp"

namespace {
using View = stdex::mdspan<std::complex<float> const, stdex::dextents<size_t, 2>>;

struct Spectrogram
{
    std::size_t frames, bins;
    std::vector<std::complex<float>> v;
    std::vector<float> weight;
    std::vector<long double> db;  // per frame and bin, relative to the loudest, with weight
    [[nodiscard]] View view() const { return View{v.data(), frames, bins}; }
    [[nodiscard]] std::function<float(std::size_t)> weighting() const
    {
        return [this](std::size_t k) {
            if (k >= weight.size()) {
                std::fprintf(stderr, "weight of bin %zu of %zu\n", k, weight.size());
                std::abort();
            }
            return weight[k];
        };
    }
};

Spectrogram gen(Src& s)
{
    Spectrogram g;
    g.frames = s.len(1, 20);
    g.bins   = s.len(1, 33);
    g.v.resize(g.frames * g.bins);
    auto const kind = s.below(4);
    for (auto& c : g.v) {
        double m = 0;
        switch (kind) {
            case 0: m = double(s.range(0, 1000)) / 100.0; break;
            case 1: m = std::pow(10.0, double(s.range(-900, 200)) / 200.0); break;  // spread over 110 dB
            case 2: m = s.chance(1, 8) ? 1.0 : 0.0; break;
            default: m = std::ldexp(1.0, int(s.range(-20, 4))); break;
        }
        double const a = double(s.range(0, 7)) * 0.785398163397448;
        c              = {float(m * std::cos(a)), float(m * std::sin(a))};
    }
    auto const wk = s.below(5);
    for (std::size_t k = 0; k < g.bins; ++k) {
        g.weight.push_back(wk == 0 ? 0.0F : wk == 1 ? float(s.range(-500, 60)) / 10.0F : wk == 2 ? -float(k) : wk == 3 ? float(s.range(-1600, 200)) / 10.0F : float(s.range(-80, -60)));
    }
    long double most = 0;
    for (auto c : g.v) { most = std::max(most, static_cast<long double>(c.real()) * c.real() + static_cast<long double>(c.imag()) * c.imag()); }
    for (std::size_t i = 0; i < g.v.size(); ++i) {
        long double const re = g.v[i].real(), im = g.v[i].imag(), p = re * re + im * im;
        long double const rel = p > 0 ? std::max(-72.0L, 10 * std::log10(p / most)) : -72.0L;
        g.db.push_back(rel + static_cast<long double>(g.weight[i % g.bins]));
    }
    s.note(fmt("%zu frames of %zu bins, kind %d, %s", g.frames, g.bins, int(kind), wk == 0 ? "not weighted" : "weighted"));
    s.label(most == 0 ? "silent" : wk == 0 ? "not weighted" : "weighted");
    s.nontrivial(most > 0 && g.v.size() > 2);
    return g;
}

void image(Src& s)
{
    auto const g    = gen(s);
    float const thr = float(s.range(-1000, 100)) / 10.0F;
    s.note(fmt("threshold %g", double(thr)));
    auto const img = neo::powerSpectrumImage(g.view(), g.weighting(), thr);
    PBT_REQUIRE(img.getWidth() == int(g.frames) && img.getHeight() == int(g.bins), "%d x %d pixels", img.getWidth(), img.getHeight());
    for (std::size_t f = 0; f < g.frames; ++f) {
        for (std::size_t k = 0; k < g.bins; ++k) {
            auto const d = g.db[f * g.bins + k] - static_cast<long double>(thr);
            if (std::fabs(d) < 0.001L) { continue; }
            auto const px   = img.getPixelAt(int(f), int(g.bins - 1 - k));
            auto const want = d < 0 ? juce::Colours::white : juce::Colours::black;
            PBT_REQUIRE(px == want, "frame %zu bin %zu at %.4Lf dB of the threshold is %08x", f, k, d, px.argb);
        }
    }
}

// coefficients whose level is exact: the loudest (0 dB) and the silent ones (-72 dB); one at the threshold is not below it
void at_threshold(Src& s)
{
    Spectrogram g;
    g.frames = s.len(1, 12);
    g.bins   = s.len(1, 16);
    float const loud = std::ldexp(1.0F, int(s.range(-10, 10)));
    for (std::size_t i = 0; i < g.frames * g.bins; ++i) {
        float const m = i == 0 || s.flag() ? loud : 0.0F;
        float const v = s.flag() ? m : -m;
        g.v.push_back(s.flag() ? std::complex<float>{v, 0.0F} : std::complex<float>{0.0F, v});
    }
    for (std::size_t k = 0; k < g.bins; ++k) { g.weight.push_back(float(s.range(-40, 40)) / 4.0F); }
    std::vector<float> db;
    for (std::size_t i = 0; i < g.v.size(); ++i) { db.push_back((std::norm(g.v[i]) > 0 ? 0.0F : -72.0F) + g.weight[i % g.bins]); }
    float const thr = db[s.size(0, db.size() - 1)];
    s.note(fmt("%zu frames of %zu bins, threshold %g", g.frames, g.bins, double(thr)));
    s.nontrivial(g.v.size() > 1);
    auto const img = neo::powerSpectrumImage(g.view(), g.weighting(), thr);
    for (std::size_t f = 0; f < g.frames; ++f) {
        for (std::size_t k = 0; k < g.bins; ++k) {
            auto const px = img.getPixelAt(int(f), int(g.bins - 1 - k));
            PBT_REQUIRE(px == (db[f * g.bins + k] < thr ? juce::Colours::white : juce::Colours::black), "frame %zu bin %zu at %g dB is %08x", f, k, double(db[f * g.bins + k]), px.argb);
        }
    }
}

void histogram(Src& s)
{
    auto const g = gen(s);
    auto const h = neo::powerHistogram(g.view(), g.weighting());
    PBT_REQUIRE(h.size() == 144, "%zu entries", h.size());
    std::vector<int> lo(144), hi(144);
    for (auto d : g.db) {
        auto const a = -std::clamp(d, -143.0L, 0.0L);
        auto const x = static_cast<std::size_t>(std::lround(a - 0.001L < 0 ? 0.0L : a - 0.001L));
        auto const y = static_cast<std::size_t>(std::lround(a + 0.001L > 143 ? 143.0L : a + 0.001L));
        if (x == y) { ++lo[x]; }
        ++hi[x];
        if (x != y) { ++hi[y]; }
    }
    int total = 0;
    for (std::size_t i = 0; i < 144; ++i) {
        total += h[i];
        PBT_REQUIRE(h[i] >= lo[i] && h[i] <= hi[i], "%d coefficients at -%zu dB instead of %d to %d", h[i], i, lo[i], hi[i]);
    }
    PBT_REQUIRE(std::size_t(total) == g.v.size(), "%d counted of %zu", total, g.v.size());
    if (*std::max_element(h.begin(), h.end() - 1) == 0) { return; }
    // the picture: one bar of eight pixels per decibel, the largest 250 high, with marks at 32, 64 and 96
    auto const img = neo::powerHistogramImage(g.view(), g.weighting());
    PBT_REQUIRE(img.getWidth() == 143 * 8 && img.getHeight() == 250, "%d x %d pixels", img.getWidth(), img.getHeight());
    auto const most = *std::max_element(h.begin(), h.end() - 1);
    for (int i = 0; i < 143; ++i) {
        long double const want = 250.0L * h[std::size_t(i)] / most;
        for (int x : {i * 8, i * 8 + 7, i * 8 + int(s.below(8))}) {
            bool const mark = i == 32 || i == 64 || i == 96;
            for (int y = 0; y < 250; ++y) {
                auto const px   = img.getPixelAt(x, y);
                bool const in   = y >= 250 - std::floor(want + 0.499L);
                bool const out  = y < 250 - std::floor(want + 0.501L);
                if (!in && !out) { continue; }
                auto const base = in ? juce::Colours::white : juce::Colours::black;
                // a mark tints without hiding what is below
                if (mark) {
                    PBT_REQUIRE(((px.argb >> 16U) & 255U) > (in ? 254U : 100U) && (px.argb & 255U) < (in ? 255U : 1U), "bar %d has no mark at height %d", i, y);
                } else {
                    PBT_REQUIRE(px == base, "bar %d at height %d of %.2Lf is %08x", i, 250 - y, want, px.argb);
                }
            }
        }
    }
}
}  // namespace
PBT_CHECK_T(i1, "spectrum_image", 3000, 30000, image)
PBT_CHECK_T(i2, "at_threshold", 1000, 10000, at_threshold)
PBT_CHECK_T(h1, "histogram", 3000, 30000, histogram)
