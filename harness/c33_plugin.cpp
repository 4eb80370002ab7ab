// The signal path of the plugin (extra/plugin/src/dsp) over a stand-in for JUCE.
#include "conv_model.hpp"
#include "dsp/AudioBuffer.hpp"
#include "dsp/AudioFile.hpp"
#include "dsp/ConstantOverlapAdd.hpp"
#include "dsp/Convolution.hpp"
#include "dsp/DenseConvolution.hpp"

namespace {
using Chans = std::vector<std::vector<float>>;
juce::AudioBuffer<float> buffer_of(Chans const& v)
{
    juce::AudioBuffer<float> b(int(v.size()), v.empty() ? 0 : int(v[0].size()));
    for (std::size_t c = 0; c < v.size(); ++c) { std::copy(v[c].begin(), v[c].end(), b.getWritePointer(int(c))); }
    return b;
}
Chans chans_of(juce::AudioBuffer<float> const& b)
{
    Chans v;
    for (int c = 0; c < b.getNumChannels(); ++c) { v.emplace_back(b.getReadPointer(c), b.getReadPointer(c) + b.getNumSamples()); }
    return v;
}
Chans gen_chans(Src& s, std::size_t channels, std::size_t n)
{
    Chans v;
    for (std::size_t c = 0; c < channels; ++c) { v.push_back(gen_vec<float>(s, n, nullptr, false)); }
    return v;
}
long double energy_factor(Chans const& h)
{
    long double e = 0;
    for (auto const& c : h) { e = std::max(e, oracle::norm(ld_of(c))); }
    return e > 0 ? 1 / e : 1;
}
std::vector<long double> scaled(std::vector<float> const& v, long double f)
{
    auto r = ld_of(v);
    for (auto& x : r) { x *= f; }
    return r;
}
void close(std::vector<float> const& got, std::vector<long double> const& want, long double tol, std::string const& what) { require_close_each(got, want, tol, what.c_str()); }
long double tol_of(std::size_t block, std::vector<long double> const& x, std::vector<long double> const& h)
{
    return 64.0L * eps<float>() * (std::log2(2.0L * block) + double(h.size() / block) + 2) * oracle::norm(x) * oracle::norm(h) + 1e-30L;
}

// ---- whole-signal convolution with every kind of convolver
void offline(Src& s)
{
    auto const block = gen_block(s);
    auto const ch    = s.size(1, 3);
    auto const n     = s.len(1, 6 * block + 3);
    auto const m     = s.len(1, 5 * block + 2);
    auto const x     = gen_chans(s, ch, n);
    auto const h     = gen_chans(s, ch + s.size(0, 1), m);
    auto const kind  = s.below(4);
    s.note(fmt("dense_convolve %d, %zu channels, block %zu, signal %zu, filter %zu", int(kind), ch, block, n, m));
    s.nontrivial(n > 1 && m > 1);
    auto const sig = buffer_of(x);
    auto const fil = buffer_of(h);
    using C        = std::complex<float>;
    auto const out = kind == 0 ? neo::dense_convolve<cv::upola_convolver<C>>(sig, fil, int(block))
                   : kind == 1 ? neo::dense_convolve<cv::upols_convolver<C>>(sig, fil, int(block))
                   : kind == 2 ? neo::dense_convolve<cv::split_upola_convolver<C>>(sig, fil, int(block))
                               : neo::dense_convolve<cv::split_upols_convolver<C>>(sig, fil, int(block));
    require_same(chans_of(sig)[0], x[0], "the signal was changed");
    require_same(chans_of(fil)[0], h[0], "the filter was changed");
    auto const got = chans_of(out);
    PBT_REQUIRE(got.size() == ch && got[0].size() == n, "%zu channels of %zu samples", got.size(), got[0].size());
    auto const f = energy_factor(h);
    for (std::size_t c = 0; c < ch; ++c) {
        auto const hh = scaled(h[c], f);
        close(got[c], oracle::convolve_prefix(ld_of(x[c]), hh, n), tol_of(block, ld_of(x[c]), hh), fmt("channel %zu", c));
    }
}

long double a_weight(long double f)
{
    auto sq             = [](long double t) { return t * t; };
    long double const q = f * f;
    return 2.0L + 20.0L * std::log10(sq(12194.217L) * q * q / ((q + sq(20.598997L)) * std::sqrt((q + sq(107.65265L)) * (q + sq(737.86223L))) * (q + sq(12194.217L))));
}

void sparse(Src& s)
{
    auto const block = std::size_t(1) << s.size(1, 5);
    auto const bins  = block + 1;
    auto const ch    = s.size(1, 3);
    auto const parts = s.size(1, 4);
    auto const m     = s.flag() ? parts * block : s.size((parts - 1) * block + 1, parts * block);
    auto const n     = s.len(1, 6 * block + 3);
    auto const x     = gen_chans(s, ch, n);
    auto const h     = gen_chans(s, ch, m);
    double const sr  = s.pick({44100.0, 48000.0, 8000.0, 192000.0});
    float const thr  = s.chance(1, 5) ? s.pick({-1000.0F, 10.0F, -30.0F}) : float(s.range(-900, 20)) / 10.0F;
    auto const low   = s.size(0, std::min<std::size_t>(block, 25));
    s.note(fmt("sparse_convolve, %zu channels, block %zu, signal %zu, filter %zu, threshold %g dB, %zu low bins kept", ch, block, n, m, double(thr), low));
    auto const sig = buffer_of(x);
    auto const fil = buffer_of(h);
    auto const out = chans_of(neo::sparse_convolve(sig, fil, int(block), sr, thr, int(low)));
    PBT_REQUIRE(out.size() == ch && out[0].size() == n, "%zu channels of %zu samples", out.size(), out[0].size());
    auto const f = energy_factor(h);
    for (std::size_t c = 0; c < ch; ++c) {
        std::vector<oracle::cplx> spec(parts * bins);
        long double most = 0;
        for (std::size_t p = 0; p < parts; ++p) {
            std::vector<oracle::cplx> t(2 * block);
            for (std::size_t k = 0; k < block && p * block + k < m; ++k) { t[k].re = static_cast<long double>(h[c][p * block + k]) * f; }
            auto const y = oracle::dft(t, -1);
            for (std::size_t k = 0; k < bins; ++k) {
                spec[p * bins + k] = y[k];
                most               = std::max(most, y[k].re * y[k].re + y[k].im * y[k].im);
            }
        }
        std::size_t kept = 0;
        bool unsure      = false;
        for (std::size_t i = 0; i < spec.size(); ++i) {
            auto& v               = spec[i];
            auto const k          = i % bins;
            long double const pow = most > 0 ? (v.re * v.re + v.im * v.im) / most : 0;
            long double const rel = std::max(-72.0L, pow > 0 ? 10 * std::log10(pow) : -72.0L);
            long double const w   = k < low ? 100.0L : k == 0 ? -INFINITY : a_weight(double(k) * sr / double(2 * block));
            // rounding moves weak coefficients more than strong ones
            long double const err = 0.01L + 40.0L * eps<float>() * std::sqrt(static_cast<long double>(m)) / std::sqrt(std::max(pow, 1e-9L)) * 10.0L;
            if (std::fabs(rel + w - static_cast<long double>(thr)) < err) { unsure = true; }
            if (rel + w > static_cast<long double>(thr)) {
                ++kept;
            } else {
                v = {};
            }
        }
        if (unsure) {
            s.label("at the threshold, not compared");
            continue;
        }
        s.nontrivial(n > 1 && kept > 0);
        s.label(kept == 0 ? "keeps nothing" : kept == spec.size() ? "keeps everything" : "keeps some");
        Model model{false, block, parts, spec};
        std::vector<long double> want;
        auto in = ld_of(x[c]);
        in.resize((n + block - 1) / block * block);
        for (std::size_t b = 0; b < in.size(); b += block) {
            auto const y = model(std::vector<long double>(in.begin() + long(b), in.begin() + long(b + block)));
            want.insert(want.end(), y.begin(), y.end());
        }
        want.resize(n);
        auto const hn = oracle::norm(spec) / std::sqrt(static_cast<long double>(block)) + oracle::norm(ld_of(h[c])) * f;
        close(out[c], want, 64.0L * eps<float>() * (std::log2(2.0L * block) + parts + 2) * oracle::norm(in) * hn + 1e-30L, fmt("channel %zu", c));
    }
}

// ---- the block convolver: histories of prepare, load, process and reset
void block_convolver(Src& s)
{
    juce::shim::files().clear();
    neo::Convolution conv;
    bool ready = false;        // something to convolve with
    std::optional<Chans> ir;   // as loaded
    double ir_rate = 0;
    std::optional<juce::dsp::ProcessSpec> spec;
    Chans use;                 // as used by the convolvers
    Chans hist;
    std::size_t files = 0, blocks = 0;
    auto update = [&] {
        if (!spec || !ir) { return; }
        neo::BufferWithSampleRate<float> b{buffer_of(*ir), ir_rate};
        use = chans_of(neo::resample(b, spec->sampleRate).buffer);
        hist.assign(spec->numChannels, {});
        ready = true;
    };
    auto const steps = s.size(3, 14);
    bool const usual = !s.chance(1, 4);  // prepared, then loaded; or in any order
    for (std::size_t i = 0; i < steps; ++i) {
        auto const what = usual ? (i == 0 ? 0 : i == 1 ? 1 : s.below(12)) : s.below(i < 4 ? 4 : 12);
        if (what == 0 || (usual && what == 1 && i > 1 && s.flag())) {
            auto const block = std::size_t(1) << s.size(1, 5);
            spec             = juce::dsp::ProcessSpec{s.chance(1, 5) ? 48000.0 : 44100.0, juce::uint32(block), juce::uint32(s.size(1, 2))};
            s.note(fmt("prepare block %zu channels %u rate %g;", block, spec->numChannels, spec->sampleRate));
            conv.prepare(*spec);
            update();
        } else if (what == 1) {
            auto const m = s.len(1, 100);
            ir           = gen_chans(s, 2, m);
            ir_rate      = s.chance(1, 6) ? 22050.0 : 44100.0;
            auto name    = fmt("ir%zu.wav", files++);
            juce::shim::files()[name] = {ir_rate, *ir, true};
            s.note(fmt("load %zu at %g;", m, ir_rate));
            using N = neo::Convolution;
            conv.loadImpulseResponse(juce::File{name}, N::Stereo::yes, N::Trim::no, 0, N::Normalise::no);
            update();
        } else if (what == 2) {
            s.note("reset;");
            conv.reset();
            ready = false;
        } else {
            auto const block = spec ? std::size_t(spec->maximumBlockSize) : std::size_t(8);
            auto const n     = s.chance(1, 6) ? s.size(1, 2 * block) : block;
            auto const x     = gen_chans(s, spec ? spec->numChannels : 2, n);
            bool const sep   = s.flag();
            s.note(fmt("%s %zu;", sep ? "process" : "process in place", n));
            auto in  = buffer_of(x);
            auto out = juce::AudioBuffer<float>(int(x.size()), int(n));
            if (sep) {
                auto ib = juce::dsp::AudioBlock<float const>{in};
                auto ob = juce::dsp::AudioBlock<float>{out};
                conv.process(juce::dsp::ProcessContextNonReplacing<float>{ib, ob});
                for (std::size_t c = 0; c < x.size(); ++c) { require_same(chans_of(in)[c], x[c], "the input was changed"); }
            } else {
                auto ob = juce::dsp::AudioBlock<float>{in};
                conv.process(juce::dsp::ProcessContextReplacing<float>{ob});
                out = in;
            }
            auto const got = chans_of(out);
            if (!ready || n != block) {
                s.label("passed through");
                for (std::size_t c = 0; c < x.size(); ++c) { require_same(got[c], x[c], "passed through"); }
                continue;
            }
            ++blocks;
            for (std::size_t c = 0; c < x.size(); ++c) {
                hist[c].insert(hist[c].end(), x[c].begin(), x[c].end());
                auto const want = oracle::convolve_prefix(ld_of(hist[c]), ld_of(use[c]), hist[c].size());
                close(got[c], std::vector<long double>(want.end() - long(n), want.end()), tol_of(block, ld_of(hist[c]), ld_of(use[c])), fmt("channel %zu", c));
            }
        }
    }
    s.nontrivial(blocks >= 2);
}

// ---- constant overlap-add
struct Frames final : neo::ConstantOverlapAdd<float>
{
    using neo::ConstantOverlapAdd<float>::ConstantOverlapAdd;
    auto prepareFrame(juce::dsp::ProcessSpec const& sp) -> void override { spec = sp; count = 0; ++prepared; }
    auto processFrame(juce::dsp::ProcessContextReplacing<float> const& ctx) -> void override
    {
        auto b = ctx.getOutputBlock();
        jassert(b.getNumSamples() == spec.maximumBlockSize);
        // a gain that depends on the number of the frame shows which frame a sample came from
        b.multiplyBy(gain(count++));
    }
    auto resetFrame() -> void override { count = 0; ++resets; }
    float gain(std::size_t k) const { return vary ? float(1 + k % 5) / 4.0F : 1.0F; }
    juce::dsp::ProcessSpec spec{};
    std::size_t count{0};
    int prepared{0};
    int resets{0};
    bool vary{false};
};

// what identity frames do to a constant level is the same number for every setting
float level()
{
    static float const g = [] {
        Frames p{3, 1};
        p.prepare({44100.0, 8, 1});
        p.reset();
        float last = 0;
        for (int i = 0; i < 20; ++i) {
            juce::AudioBuffer<float> b(1, 8);
            std::fill_n(b.getWritePointer(0), 8, 1.0F);
            auto blk = juce::dsp::AudioBlock<float>{b};
            p.process(juce::dsp::ProcessContextReplacing<float>{blk});
            last = b.getSample(0, 7);
        }
        return last;
    }();
    return g;
}

// the part of the interface both processors share: any cut of a stream into callbacks
template<typename P>
void feed(Src& s, P& p, Chans const& x, std::size_t most, Chans& out)
{
    auto const n = x[0].size();
    for (std::size_t at = 0; at < n;) {
        auto const l = std::min(n - at, s.chance(1, 3) ? most : s.size(1, most));
        Chans part;
        for (auto const& c : x) { part.emplace_back(c.begin() + long(at), c.begin() + long(at + l)); }
        auto in  = buffer_of(part);
        auto res = juce::AudioBuffer<float>(int(x.size()), int(l));
        if (s.flag()) {
            auto ib = juce::dsp::AudioBlock<float const>{in};
            auto ob = juce::dsp::AudioBlock<float>{res};
            p.process(juce::dsp::ProcessContextNonReplacing<float>{ib, ob});
            for (std::size_t c = 0; c < x.size(); ++c) { require_same(chans_of(in)[c], part[c], "the input was changed"); }
        } else {
            auto ob = juce::dsp::AudioBlock<float>{in};
            p.process(juce::dsp::ProcessContextReplacing<float>{ob});
            res = in;
        }
        auto const y = chans_of(res);
        for (std::size_t c = 0; c < x.size(); ++c) { out[c].insert(out[c].end(), y[c].begin(), y[c].end()); }
        at += l;
    }
}

void overlap(Src& s)
{
    auto const fo    = s.size(0, 6);
    auto const div   = s.size(0, std::min<std::size_t>(fo, 3));
    auto const frame = std::size_t(1) << fo;
    auto const hop   = frame >> div;
    Frames p{int(fo), int(div)};
    p.vary            = s.flag();
    auto const rounds = s.size(1, 3);
    s.note(fmt("frame %zu hop %zu%s", frame, hop, p.vary ? ", varying frames" : ""));
    std::size_t most = 0, ch = 0;
    for (std::size_t r = 0; r < rounds; ++r) {
        bool const reset = r > 0 && s.flag();
        if (reset) {
            s.note("; reset");
            p.reset();
        } else {
            most = s.flag() ? frame : s.len(1, 3 * frame);
            ch   = s.size(1, 3);
            s.note(fmt("; prepare %zu channels, up to %zu", ch, most));
            p.prepare({44100.0, juce::uint32(most), juce::uint32(ch)});
            PBT_REQUIRE(p.spec.maximumBlockSize == frame && p.spec.numChannels == ch && p.spec.sampleRate == 44100.0, "prepared frames of %u", p.spec.maximumBlockSize);
        }
        auto const n = s.len(1, 8 * frame + 5);
        auto const x = gen_chans(s, ch, n);
        Chans out(ch);
        s.note(fmt(", %zu samples", n));
        feed(s, p, x, most, out);
        s.nontrivial(n > 2 * frame);
        auto const g = static_cast<long double>(level()) / (static_cast<long double>(frame) / hop);
        for (std::size_t c = 0; c < ch; ++c) {
            std::vector<long double> want(n + 2 * frame, 0.0L);
            for (std::size_t k = 0; k * hop + frame <= n; ++k) {
                for (std::size_t i = 0; i < frame; ++i) { want[k * hop + i + frame - 1] += g * static_cast<long double>(p.gain(k)) * static_cast<long double>(x[c][k * hop + i]); }
            }
            want.resize(n);
            close(out[c], want, 32 * eps<float>() * static_cast<long double>(level()) * oracle::norm(ld_of(x[c])) + 1e-30L, fmt("channel %zu, round %zu", c, r));
        }
    }
}

// ---- the convolver of the plugin: overlap-add frames through the partitioned convolver
void dense_plugin(Src& s)
{
    juce::shim::files().clear();
    auto const want_block = s.len(2, 40);
    std::size_t frame     = 1;
    while (frame < want_block) { frame *= 2; }
    neo::DenseConvolution conv{int(want_block)};
    auto const rates  = s.chance(1, 3) ? std::vector<double>{44100.0, 22050.0, 48000.0, 96000.0} : std::vector<double>{44100.0};
    double rate       = 44100.0;
    double ir_rate    = 0;
    Chans ir;  // empty: nothing loaded
    std::size_t most = 0, ch = 0, files = 0, loads = 0;
    s.note(fmt("block %zu", want_block));
    auto load = [&] {
        bool const broken = s.chance(1, 8);
        auto const other  = gen_chans(s, 3, s.len(1, 5 * frame));
        auto const fs     = rates[s.below(rates.size())];
        auto name         = fmt("ir%zu.wav", files++);
        juce::shim::files()[name] = {fs, other, !broken};
        s.note(fmt("; load %s%zu at %g", broken ? "unreadable " : "", other[0].size(), fs));
        auto stream = juce::File{name}.createInputStream();
        if (broken && s.flag()) { juce::shim::files().erase(name); }  // no reader for it
        conv.loadImpulseResponse(std::move(stream));
        if (!broken) {
            ir      = other;
            ir_rate = fs;
            ++loads;
        }
    };
    // the response of channel c at the moment
    auto response = [&](std::size_t c) -> std::vector<long double> {
        if (ir.empty()) { return {1.0L}; }
        neo::BufferWithSampleRate<float> const b{buffer_of(ir), ir_rate};
        auto const use = chans_of(neo::resample(b, rate).buffer);
        return scaled(use[c], energy_factor(use));
    };
    if (s.chance(3, 4)) { load(); }
    auto const rounds = s.size(1, 3);
    for (std::size_t r = 0; r < rounds; ++r) {
        if (r > 0 && s.flag()) {
            s.note("; reset");
            conv.reset();
        } else {
            if (r > 0 && s.chance(1, 3)) { load(); }
            most = s.flag() ? frame : s.len(1, 2 * frame);
            ch   = s.size(1, 3);
            rate = rates[s.below(rates.size())];
            s.note(fmt("; prepare %zu channels, up to %zu, %g Hz", ch, most, rate));
            conv.prepare({rate, juce::uint32(most), juce::uint32(ch)});
        }
        // a response loaded between two samples counts from the next frame on, from silence
        std::size_t total = 0;
        auto const pieces = s.chance(1, 4) ? s.size(2, 3) : 1;
        Chans whole(ch);
        std::vector<Chans> heard;
        std::vector<std::size_t> ends, which;
        std::vector<std::vector<std::vector<long double>>> hs;
        for (std::size_t p = 0; p < pieces; ++p) {
            if (p > 0) { load(); }
            auto const n = s.len(1, (pieces > 1 ? 4 : 8) * frame + 3);
            auto const x = gen_chans(s, ch, n);
            Chans out(ch);
            s.note(fmt(", %zu samples", n));
            feed(s, conv, x, most, out);
            total += n;
            ends.push_back(total);
            which.push_back(loads);
            heard.push_back(out);
            hs.emplace_back();
            for (std::size_t c = 0; c < ch; ++c) {
                whole[c].insert(whole[c].end(), x[c].begin(), x[c].end());
                hs.back().push_back(response(c));
            }
        }
        s.nontrivial(total > 2 * frame);
        for (std::size_t c = 0; c < ch; ++c) {
            std::vector<long double> expect(total, 0.0L);
            std::vector<float> out;
            long double tol  = 0;
            std::size_t from = 0;  // first sample of the frames convolved with this response
            for (std::size_t p = 0; p < pieces; ++p) {
                out.insert(out.end(), heard[p][c].begin(), heard[p][c].end());
                auto const to = ends[p] / frame * frame;  // only complete frames have been convolved
                // loading starts from silence only if the file could be read
                auto const same = p + 1 < pieces && which[p + 1] == which[p];
                if (same) { continue; }
                auto const in = ld_of(std::vector<float>(whole[c].begin() + long(from), whole[c].begin() + long(to)));
                auto const y  = in.empty() ? std::vector<long double>{} : oracle::convolve_prefix(in, hs[p][c], in.size());
                for (std::size_t i = 0; i < y.size() && from + i + frame - 1 < total; ++i) { expect[from + i + frame - 1] = y[i] * static_cast<long double>(level()); }
                tol += static_cast<long double>(level()) * tol_of(frame, ld_of(whole[c]), hs[p][c]);
                from = to;
            }
            close(out, expect, tol, fmt("channel %zu, round %zu", c, r));
        }
    }
}

// ---- cutting a signal into blocks for any processor
struct Recorder
{
    juce::dsp::ProcessSpec spec{};
    int prepared{0}, resets{0};
    std::vector<std::size_t> sizes;
    void prepare(juce::dsp::ProcessSpec const& sp) { spec = sp; ++prepared; PBT_REQUIRE(sizes.empty(), "prepared after a block"); }
    void reset() { ++resets; }
    template<typename Ctx> void process(Ctx const& ctx)
    {
        PBT_REQUIRE(prepared == 1 && resets == 0, "a block before prepare or after reset");
        auto in  = ctx.getInputBlock();
        auto out = ctx.getOutputBlock();
        sizes.push_back(in.getNumSamples());
        for (std::size_t c = 0; c < in.getNumChannels(); ++c) {
            for (std::size_t i = 0; i < in.getNumSamples(); ++i) { out.setSample(int(c), int(i), in.getSample(int(c), int(i)) * 2.0F + float(sizes.size())); }
        }
    }
};
void blocks(Src& s)
{
    auto const n     = s.len(0, 200);
    auto const block = s.len(1, 60);
    auto const ch    = s.size(1, 3);
    auto const x     = gen_chans(s, ch, n);
    s.note(fmt("processBlocks of %zu channels, %zu samples in blocks of %zu", ch, n, block));
    s.nontrivial(n > block);
    auto const in = buffer_of(x);
    auto out      = juce::AudioBuffer<float>(int(ch), int(n));
    Recorder p;
    neo::processBlocks(p, juce::dsp::AudioBlock<float const>{in}, juce::dsp::AudioBlock<float>{out}, block, 48000.0);
    PBT_REQUIRE(p.prepared == 1 && p.resets == 1, "%d times prepared, %d times reset", p.prepared, p.resets);
    PBT_REQUIRE(p.spec.maximumBlockSize == block && p.spec.numChannels == ch && p.spec.sampleRate == 48000.0, "prepared for blocks of %u, %u channels, %g Hz", p.spec.maximumBlockSize, p.spec.numChannels, p.spec.sampleRate);
    std::size_t at = 0;
    for (auto l : p.sizes) {
        PBT_REQUIRE(l == std::min(block, n - at), "a block of %zu at %zu", l, at);
        at += l;
    }
    PBT_REQUIRE(at == n, "%zu of %zu samples processed", at, n);
    auto const y = chans_of(out);
    for (std::size_t c = 0; c < ch; ++c) {
        for (std::size_t i = 0; i < n; ++i) { PBT_REQUIRE(y[c][i] == x[c][i] * 2.0F + float(i / block + 1), "channel %zu sample %zu", c, i); }
    }
    auto const m = neo::to_mdarray(in);
    PBT_REQUIRE(m.extent(0) == ch && m.extent(1) == n, "to_mdarray: %zu x %zu", std::size_t(m.extent(0)), std::size_t(m.extent(1)));
    for (std::size_t c = 0; c < ch; ++c) {
        for (std::size_t i = 0; i < n; ++i) { PBT_REQUIRE(m(c, i) == x[c][i], "to_mdarray: channel %zu sample %zu", c, i); }
    }
}

// ---- files and sample rates
void files(Src& s)
{
    juce::shim::files().clear();
    juce::shim::written().clear();
    auto const ch  = s.size(1, 4);
    auto const n   = s.len(1, 200);
    auto const x   = gen_chans(s, ch, n);
    auto const src = s.pick({44100.0, 48000.0, 22050.0, 96000.0});
    auto const dst = s.chance(1, 4) ? src + double(s.range(-60, 60)) / 2 : s.pick({44100.0, 48000.0, 22050.0, 96000.0});
    juce::AudioFormatManager formats;
    formats.registerBasicFormats();
    juce::shim::files()["a.wav"] = {src, x, true};
    bool const broken            = s.chance(1, 8);
    bool const missing           = !broken && s.chance(1, 8);
    juce::shim::files()["a.wav"].readable = !broken;
    s.note(fmt("%zu channels, %zu samples at %g Hz to %g Hz%s%s", ch, n, src, dst, broken ? ", unreadable" : "", missing ? ", missing" : ""));
    s.nontrivial(n > 1);
    auto const got = neo::load(formats, juce::File{missing ? "b.wav" : "a.wav"});
    if (broken || missing) {
        PBT_REQUIRE(got.sampleRate == 0 && got.buffer.getNumSamples() == 0, "something was loaded");
        return;
    }
    PBT_REQUIRE(got.sampleRate == src, "sample rate %g", got.sampleRate);
    auto const y = chans_of(got.buffer);
    PBT_REQUIRE(y.size() == ch, "%zu channels", y.size());
    for (std::size_t c = 0; c < ch; ++c) { require_same(y[c], x[c], "loaded samples"); }
    auto const a = neo::loadAndResample(formats, juce::File{"a.wav"}, dst);
    auto const b = neo::resample(got, dst);
    PBT_REQUIRE(a.sampleRate == dst && b.sampleRate == dst, "sample rates %g and %g after resampling", a.sampleRate, b.sampleRate);
    auto const ya = chans_of(a.buffer);
    auto const yb = chans_of(b.buffer);
    auto const m  = static_cast<long double>(n) * dst / src;
    PBT_REQUIRE(ya.size() == ch && yb.size() == ch, "channels after resampling");
    PBT_REQUIRE(std::fabs(static_cast<long double>(ya[0].size()) - std::max(1.0L, m)) <= 0.5001L, "%zu samples after resampling", ya[0].size());
    for (std::size_t c = 0; c < ch; ++c) {
        require_same(ya[c], yb[c], "load and resample in one or two steps");
        for (std::size_t i = 0; i < ya[c].size(); ++i) {  // the stand-in resampler interpolates linearly
            long double const at = static_cast<long double>(i) * src / dst;
            auto const k         = static_cast<std::size_t>(at);
            auto get             = [&](std::size_t q) { return q < n ? static_cast<long double>(x[c][q]) : 0.0L; };
            long double big      = std::max({1e-30L, std::fabs(get(k)), std::fabs(get(k + 1)), k > 0 ? std::fabs(get(k - 1)) : 0.0L});
            require_close(ya[c][i], get(k) + (at - static_cast<long double>(k)) * (get(k + 1) - get(k)), 1e-5L * big, "resampled");
        }
    }
    int const bits = s.pick({16, 24, 32});
    if (s.flag()) {
        neo::writeToWavFile(juce::File{"o.wav"}, got.buffer, dst, bits);
    } else {
        auto arr = neo::to_mdarray(got.buffer);
        neo::writeToWavFile(juce::File{"o.wav"}, arr.to_mdspan(), dst, bits);
    }
    auto const& w = juce::shim::written();
    PBT_REQUIRE(w.size() == 1 && w[0].path == "o.wav" && w[0].rate == dst && w[0].channels == ch && w[0].bits == bits && w[0].ch.size() == ch, "wrote another kind of file");
    for (std::size_t c = 0; c < ch; ++c) { require_same(w[0].ch[c], x[c], "written samples"); }
}
}  // namespace
PBT_CHECK_T(o1, "dense_convolve", 1500, 15000, offline)
PBT_CHECK_T(o2, "sparse_convolve", 1500, 15000, sparse)
PBT_CHECK_T(b1, "block_convolver", 1500, 15000, block_convolver)
PBT_CHECK_T(c1, "overlap_add", 2500, 25000, overlap)
PBT_CHECK_T(d1, "dense_plugin", 1500, 15000, dense_plugin)
PBT_CHECK_T(p1, "process_blocks", 1500, 15000, blocks)
PBT_CHECK_T(f1, "files", 1500, 15000, files)
