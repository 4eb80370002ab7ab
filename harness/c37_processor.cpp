// The plugin itself (extra/plugin/src: processor, parameters, signal path) over a stand-in for JUCE.
#include "conv_model.hpp"
#include "PluginProcessor.hpp"
#include "PluginParameter.hpp"

namespace {
struct Listener final : neo::ProcessSpecListener
{
    std::vector<juce::dsp::ProcessSpec> calls;
    auto processSpecChanged(juce::dsp::ProcessSpec const& spec) -> void override { calls.push_back(spec); }
};

constexpr char const* ids[]     = {"inGain", "wet", "outGain"};
constexpr float largest[]       = {4.0F, 1.0F, 4.0F};
struct Instance
{
    std::unique_ptr<neo::PluginProcessor> plugin{std::make_unique<neo::PluginProcessor>()};
    std::array<float, 3> value{1.0F, 1.0F, 1.0F};
    std::unique_ptr<neo::DenseConvolution> conv;  // null: not prepared yet
    std::optional<juce::dsp::ProcessSpec> spec;
    std::array<bool, 2> listens{};
    long double heard{0};

    juce::AudioParameterFloat& param(std::size_t i)
    {
        auto* p = dynamic_cast<juce::AudioParameterFloat*>(plugin->getState().getParameter(ids[i]));
        if (p == nullptr) { PBT_FAIL("there is no control %s", ids[i]); }
        return *p;
    }
    void controls(char const* when)
    {
        for (std::size_t i = 0; i < 3; ++i) {
            require_close(static_cast<long double>(param(i).get()), static_cast<long double>(value[i]), 1e-5L * (1 + static_cast<long double>(value[i])), fmt("control %s %s", ids[i], when).c_str());
        }
    }
};

float gen_control(Src& s, float most)
{
    switch (s.below(6)) {
        case 0: return 0.0F;
        case 1: return most;
        case 2: return std::min(most, 1.0F);
        case 3: return 0.5F;
        default: return most * static_cast<float>(s.range(0, 1000)) / 1000.0F;
    }
}

void history(Src& s)
{
    juce::shim::files().clear();
    juce::shim::every_file().reset();
    std::size_t const most = std::size_t(1) << s.size(1, 6);
    std::vector<std::vector<float>> response;
    double const ir_rate = s.chance(1, 4) ? 22050.0 : 44100.0;
    bool const loaded    = s.chance(3, 4);
    if (loaded) {
        auto const m = s.len(1, 3 * most);
        for (int c = 0; c < 2; ++c) { response.push_back(gen_vec<float>(s, m, nullptr, false)); }
        juce::shim::every_file() = juce::shim::Audio{ir_rate, response, !s.chance(1, 10)};
        s.note(fmt("response of %zu samples at %g%s", m, ir_rate, juce::shim::every_file()->readable ? "" : ", unreadable"));
    } else {
        s.note("no response");
    }
    std::vector<Instance> all(s.size(1, 2));
    std::array<Listener, 2> listeners;
    juce::MemoryBlock saved;
    std::array<float, 3> saved_values{};
    bool has_saved = false;
    for (auto& p : all) { p.controls("by default"); }
    auto const steps      = s.size(2, 24);
    std::size_t processed = 0;
    for (std::size_t step = 0; step < steps; ++step) {
        auto const which = s.below(all.size());
        auto& in         = all[which];
        auto& plugin     = *in.plugin;
        switch (s.pick({0, 0, 0, 0, 1, 1, 2, 3, 4, 4, 5, 6, 7})) {
            case 0: {
                // a block
                auto const limit    = in.spec ? std::size_t(in.spec->maximumBlockSize) : most;
                auto const n        = s.chance(1, 2) ? limit : s.len(0, limit);
                auto const ins      = std::size_t(plugin.getTotalNumInputChannels());
                auto const channels = std::size_t(plugin.getTotalNumOutputChannels());
                if (in.spec && in.spec->numChannels != channels) { break; }
                juce::AudioBuffer<float> io{int(channels), int(n)};
                juce::AudioBuffer<float> dry{int(channels), int(n)}, wet{int(channels), int(n)};
                auto const gi = in.param(0).get(), mix = in.param(1).get(), go = in.param(2).get();
                std::vector<std::vector<float>> x;
                for (std::size_t c = 0; c < channels; ++c) {
                    x.push_back(gen_vec<float>(s, n, nullptr, false));
                    for (std::size_t i = 0; i < n; ++i) {
                        io.setSample(int(c), int(i), x[c][i]);
                        auto const v = c < ins ? x[c][i] * gi : 0.0F;
                        dry.setSample(int(c), int(i), v);
                        wet.setSample(int(c), int(i), v);
                        in.heard += static_cast<long double>(std::abs(v));
                    }
                }
                s.note(fmt("; %zu: %zu samples", which, n));
                juce::MidiBuffer midi;
                plugin.processBlock(io, midi);
                PBT_REQUIRE(std::size_t(io.getNumChannels()) == channels && std::size_t(io.getNumSamples()) == n, "the buffer became %d x %d", io.getNumChannels(), io.getNumSamples());
                if (in.conv) {
                    juce::dsp::AudioBlock<float> b{wet};
                    in.conv->process(juce::dsp::ProcessContextReplacing<float>{b});
                }
                auto const dg = in.conv ? std::min(1.0L, 2 * (1 - static_cast<long double>(mix))) : 0.0L;
                auto const wg = in.conv ? std::min(1.0L, 2 * static_cast<long double>(mix)) : 1.0L;
                for (std::size_t c = 0; c < channels; ++c) {
                    for (std::size_t i = 0; i < n; ++i) {
                        auto const w = static_cast<long double>(wet.getSample(int(c), int(i))), d = static_cast<long double>(dry.getSample(int(c), int(i)));
                        require_close(static_cast<long double>(io.getSample(int(c), int(i))), static_cast<long double>(go) * (wg * w + dg * d),
                                      1e-5L * static_cast<long double>(go) * (in.heard + std::fabs(w) + std::fabs(d)) + 1e-30L, fmt("channel %zu sample %zu (in %g wet %g out %g)", c, i, double(gi), double(mix), double(go)).c_str());
                    }
                }
                processed += n;
                break;
            }
            case 1: {
                auto const c = s.below(3);
                auto const v = gen_control(s, largest[c]);
                s.note(fmt("; %zu: %s = %g", which, ids[c], double(v)));
                in.param(c)  = v;
                in.value[c]  = v;
                in.controls("after setting one");
                break;
            }
            case 2: {
                // the host starts playing
                auto const layout = s.pick({0, 1, 2, 2, 2});
                plugin.buses.inputBuses  = {{layout == 2 ? 2 : 1}};
                plugin.buses.outputBuses = {{layout == 0 ? 1 : 2}};
                juce::dsp::ProcessSpec const spec{s.chance(1, 4) ? 22050.0 : 44100.0, juce::uint32(s.chance(1, 2) ? most : s.len(2, most)), juce::uint32(layout == 0 ? 1 : 2)};
                s.note(fmt("; %zu: prepare %g Hz, %u samples, %d -> %u channels", which, spec.sampleRate, spec.maximumBlockSize, layout == 2 ? 2 : 1, spec.numChannels));
                for (auto& l : listeners) { l.calls.clear(); }
                plugin.prepareToPlay(spec.sampleRate, int(spec.maximumBlockSize));
                in.spec = spec;
                in.conv = std::make_unique<neo::DenseConvolution>(int(spec.maximumBlockSize));
                if (loaded) { in.conv->loadImpulseResponse(juce::File{"any"}.createInputStream()); }
                in.conv->prepare(spec);
                in.heard = 0;
                for (std::size_t l = 0; l < 2; ++l) {
                    PBT_REQUIRE(listeners[l].calls.size() == (in.listens[l] ? 1U : 0U), "listener %zu was told %zu times", l, listeners[l].calls.size());
                    for (auto const& c : listeners[l].calls) { PBT_REQUIRE(c.sampleRate == spec.sampleRate && c.maximumBlockSize == spec.maximumBlockSize && c.numChannels == spec.numChannels, "the listener was told %g Hz, %u samples, %u channels", c.sampleRate, c.maximumBlockSize, c.numChannels); }
                }
                break;
            }
            case 3: {
                s.note(fmt("; %zu: release", which));
                plugin.releaseResources();
                if (in.conv) { in.conv->reset(); }
                in.heard = 0;
                break;
            }
            case 4: {
                // the state of one goes into the same or another one
                if (!has_saved || s.flag()) {
                    s.note(fmt("; %zu: save", which));
                    saved.bytes.assign(s.size(0, 3), 'x');  // what the host left in the block
                    plugin.getStateInformation(saved);
                    saved_values = in.value;
                    has_saved    = true;
                } else {
                    s.note(fmt("; %zu: restore", which));
                    plugin.setStateInformation(saved.getData(), int(saved.getSize()));
                    in.value = saved_values;
                }
                in.controls("after saving or restoring");
                break;
            }
            case 5: {
                std::string junk;
                for (auto k = s.size(0, 12); k > 0; --k) { junk.push_back(static_cast<char>(s.range(97, 122))); }
                s.note(fmt("; %zu: restore junk '%s'", which, junk.c_str()));
                plugin.setStateInformation(junk.data(), int(junk.size()));
                in.controls("after restoring junk");
                break;
            }
            case 6: {
                auto const l = s.below(2);
                bool const on = s.flag();
                s.note(fmt("; %zu: %s listener %zu", which, on ? "add" : "remove", std::size_t(l)));
                if (on) {
                    plugin.addProcessSpecListener(&listeners[l]);
                } else {
                    plugin.removeProcessSpecListener(&listeners[l]);
                }
                in.listens[l] = on;
                break;
            }
            default: {
                // which layouts are accepted
                juce::AudioProcessor::BusesLayout const b{{{int(s.size(0, 4))}}, {{int(s.size(0, 4))}}};
                auto const i = b.inputBuses[0].n, o = b.outputBuses[0].n;
                PBT_REQUIRE(plugin.isBusesLayoutSupported(b) == (i == o && (o == 1 || o == 2)), "%d -> %d channels: %d", i, o, int(plugin.isBusesLayoutSupported(b)));
            }
        }
        // nothing that happens to one instance shows in another
        for (auto& p : all) {
            p.controls("of an instance");
            auto const sp = p.plugin->getProcessSpec();
            auto const want = p.spec.value_or(juce::dsp::ProcessSpec{44100.0, 512, 2});
            PBT_REQUIRE(sp.sampleRate == want.sampleRate && sp.maximumBlockSize == want.maximumBlockSize && sp.numChannels == want.numChannels, "the settings reported are %g Hz, %u samples, %u channels", sp.sampleRate, sp.maximumBlockSize, sp.numChannels);
        }
    }
    s.nontrivial(processed > most);
    juce::shim::every_file().reset();
}

// the ranges of the controls
void ranges(Src& s)
{
    Instance in;
    auto const c = s.below(3);
    auto const v = static_cast<float>(s.range(-3000, 9000)) / 1000.0F;
    s.note(fmt("%s = %g", ids[c], double(v)));
    s.nontrivial(v != 1.0F);
    in.param(c) = v;
    in.value[c] = std::clamp(v, 0.0F, largest[c]);
    in.controls("after setting one");
    auto const p = static_cast<float>(s.range(0, 1000)) / 1000.0F;
    in.param(c).setValueNotifyingHost(p);
    auto const got = in.param(c).get();
    PBT_REQUIRE(got >= 0.0F && got <= largest[c] && (p != 0.0F || got == 0.0F) && (p != 1.0F || got == largest[c]), "%s at %g of its way is %g", ids[c], double(p), double(got));
}
}  // namespace
PBT_CHECK_T(h1, "history", 3000, 60000, history)
PBT_CHECK_T(r1, "ranges", 1500, 30000, ranges)
