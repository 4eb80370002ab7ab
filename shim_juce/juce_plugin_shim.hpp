// A stand-in for the part of JUCE that the plugin itself uses: processor, parameters, state, dry/wet mixer. The parts of
// the user interface are declared only as far as the plugin's headers need them; nothing of it is linked.
#pragma once
#include "juce_shim.hpp"

#include <chrono>
#include <cstring>
#include <sstream>

#define JUCE_CALLTYPE
#ifndef JucePlugin_Name
    #define JucePlugin_Name "Perceptual Convolution"
#endif

namespace juce {
using StringRef  = std::string;
using Identifier = std::string;
using StringArray = std::vector<std::string>;

struct ScopedNoDenormals { ScopedNoDenormals() {} ~ScopedNoDenormals() {} };
struct MidiBuffer {};
struct UndoManager {};

struct MemoryBlock
{
    std::vector<char> bytes;
    void* getData() { return bytes.data(); }
    void const* getData() const { return bytes.data(); }
    std::size_t getSize() const { return bytes.size(); }
    void reset() { bytes.clear(); }
    void setSize(std::size_t n, bool = false) { bytes.resize(n); }
    void append(void const* p, std::size_t n) { bytes.insert(bytes.end(), static_cast<char const*>(p), static_cast<char const*>(p) + n); }
};
struct MemoryOutputStream : OutputStream
{
    MemoryOutputStream(MemoryBlock& b, bool appendToExisting) : block(b) { if (!appendToExisting) { b.reset(); } }
    bool write(void const* p, std::size_t n) { block.append(p, n); return true; }
    void flush() {}
    MemoryBlock& block;
};

// ---- trees of values
struct var
{
    var() = default;
    template<typename T> requires std::is_arithmetic_v<T> var(T v) : number(double(v)) {}
    var(char const* s) : text(s) {}
    var(std::string s) : text(std::move(s)) {}
    operator double() const { return number; }
    operator float() const { return float(number); }
    std::string toString() const { return text; }
    double number{0};
    std::string text;
};
class ValueTree
{
public:
    struct Node { std::string type; std::map<std::string, std::string> text; std::map<std::string, double> number; std::vector<std::shared_ptr<Node>> children; };
    ValueTree() = default;
    explicit ValueTree(Identifier const& type) : node(std::make_shared<Node>()) { node->type = type; }
    explicit ValueTree(std::shared_ptr<Node> n) : node(std::move(n)) {}
    ValueTree(ValueTree const& o) : node(o.node) {}
    ValueTree& operator=(ValueTree const& o)
    {
        node = o.node;
        if (redirected) { redirected(); }
        return *this;
    }
    bool isValid() const { return node != nullptr; }
    Identifier getType() const { return node ? node->type : ""; }
    bool hasType(Identifier const& t) const { return node != nullptr && node->type == t; }
    int getNumChildren() const { return node ? int(node->children.size()) : 0; }
    ValueTree getChild(int i) const { return i >= 0 && i < getNumChildren() ? ValueTree(node->children[std::size_t(i)]) : ValueTree(); }
    ValueTree createCopy() const { return node ? ValueTree(copy(*node)) : ValueTree(); }
    void writeToStream(MemoryOutputStream& o) const
    {
        std::ostringstream s;
        s.precision(17);
        if (node) {
            s << "TREE ";
            put(s, *node);
        }
        auto const t = s.str();
        o.write(t.data(), t.size());
    }
    static ValueTree readFromData(void const* p, std::size_t n)
    {
        std::istringstream s(std::string(static_cast<char const*>(p), n));
        std::string magic;
        s >> magic;
        if (magic != "TREE") { return {}; }
        auto r = get(s);
        return r ? ValueTree(r) : ValueTree();
    }
    std::shared_ptr<Node> node;
    std::function<void()> redirected;

private:
    static std::shared_ptr<Node> copy(Node const& n)
    {
        auto c = std::make_shared<Node>(n);
        for (auto& k : c->children) { k = copy(*k); }
        return c;
    }
    static void put(std::ostream& s, Node const& n)
    {
        s << n.type << ' ' << n.text.size() << ' ' << n.number.size() << ' ' << n.children.size() << ' ';
        for (auto const& [k, v] : n.text) { s << k << ' ' << v << ' '; }
        for (auto const& [k, v] : n.number) { s << k << ' ' << v << ' '; }
        for (auto const& c : n.children) { put(s, *c); }
    }
    static std::shared_ptr<Node> get(std::istream& s)
    {
        auto n = std::make_shared<Node>();
        std::size_t a{}, b{}, c{};
        if (!(s >> n->type >> a >> b >> c)) { return nullptr; }
        std::string k, v;
        double d{};
        for (; a > 0; --a) { if (!(s >> k >> v)) { return nullptr; } n->text[k] = v; }
        for (; b > 0; --b) { if (!(s >> k >> d)) { return nullptr; } n->number[k] = d; }
        for (; c > 0; --c) {
            auto child = get(s);
            if (!child) { return nullptr; }
            n->children.push_back(child);
        }
        return n;
    }
};

// ---- parameters
struct ParameterID { std::string id; int version{0}; ParameterID(std::string i, int v = 0) : id(std::move(i)), version(v) {} };
template<typename T>
struct NormalisableRange
{
    NormalisableRange(T a, T b, T step = 0, T sk = 1) : start(a), end(b), interval(step), skew(sk) {}
    void setSkewForCentre(T c) { skew = static_cast<T>(std::log(0.5) / std::log((c - start) / (end - start))); }
    T convertTo0to1(T v) const
    {
        auto const p = std::clamp((v - start) / (end - start), T(0), T(1));
        return skew == T(1) ? p : static_cast<T>(std::pow(p, skew));
    }
    T convertFrom0to1(T p) const
    {
        p = std::clamp(p, T(0), T(1));
        if (skew != T(1) && p > T(0)) { p = static_cast<T>(std::exp(std::log(p) / skew)); }
        return start + (end - start) * p;
    }
    T start, end, interval, skew;
};
struct AudioProcessorParameter { virtual ~AudioProcessorParameter() = default; };
struct RangedAudioParameter : AudioProcessorParameter
{
    RangedAudioParameter(ParameterID i, std::string n) : paramID(std::move(i.id)), name(std::move(n)) {}
    virtual NormalisableRange<float> const& getNormalisableRange() const = 0;
    virtual float getValue() const                                       = 0;
    virtual void setValue(float)                                         = 0;
    virtual float getDefaultValue() const                                = 0;
    void setValueNotifyingHost(float v)
    {
        setValue(v);
        if (changed) { changed(); }
    }
    void beginChangeGesture() {}
    void endChangeGesture() {}
    float convertTo0to1(float v) const { return getNormalisableRange().convertTo0to1(v); }
    float convertFrom0to1(float v) const { return getNormalisableRange().convertFrom0to1(v); }
    std::string paramID, name;
    std::function<void()> changed;
};
struct AudioParameterFloat : RangedAudioParameter
{
    AudioParameterFloat(ParameterID i, std::string n, NormalisableRange<float> r, float d) : RangedAudioParameter(std::move(i), std::move(n)), range(r), value(d), defaultValue(r.convertTo0to1(d)) {}
    float get() const noexcept { return value; }
    operator float() const noexcept { return value; }
    AudioParameterFloat& operator=(float v)
    {
        if (value != v) { setValueNotifyingHost(range.convertTo0to1(v)); }
        return *this;
    }
    NormalisableRange<float> const& getNormalisableRange() const override { return range; }
    float getValue() const override { return range.convertTo0to1(value); }
    void setValue(float v) override { value = range.convertFrom0to1(v); }
    float getDefaultValue() const override { return defaultValue; }
    NormalisableRange<float> range;
    float value, defaultValue;
};
struct AudioParameterInt : AudioParameterFloat { using AudioParameterFloat::AudioParameterFloat; };
struct AudioParameterChoice : AudioParameterFloat { using AudioParameterFloat::AudioParameterFloat; };
struct AudioParameterBool : AudioParameterFloat { using AudioParameterFloat::AudioParameterFloat; };

// ---- processors
struct AudioChannelSet
{
    int n{0};
    static AudioChannelSet disabled() { return {0}; }
    static AudioChannelSet mono() { return {1}; }
    static AudioChannelSet stereo() { return {2}; }
    static AudioChannelSet discreteChannels(int k) { return {k}; }
    int size() const { return n; }
    bool isDisabled() const { return n == 0; }
    bool operator==(AudioChannelSet const&) const = default;
};
struct AudioProcessorEditor;
struct AudioProcessor
{
    struct BusesProperties
    {
        std::vector<AudioChannelSet> in, out;
        BusesProperties withInput(std::string, AudioChannelSet s, bool = true) const { auto c = *this; c.in.push_back(s); return c; }
        BusesProperties withOutput(std::string, AudioChannelSet s, bool = true) const { auto c = *this; c.out.push_back(s); return c; }
    };
    struct BusesLayout
    {
        std::vector<AudioChannelSet> inputBuses, outputBuses;
        AudioChannelSet getMainInputChannelSet() const { return inputBuses.empty() ? AudioChannelSet{} : inputBuses[0]; }
        AudioChannelSet getMainOutputChannelSet() const { return outputBuses.empty() ? AudioChannelSet{} : outputBuses[0]; }
        int getMainInputChannels() const { return getMainInputChannelSet().n; }
        int getMainOutputChannels() const { return getMainOutputChannelSet().n; }
    };
    AudioProcessor() = default;
    explicit AudioProcessor(BusesProperties const& b) : buses{b.in, b.out} {}
    virtual ~AudioProcessor()                                         = default;
    virtual String const getName() const                              = 0;
    virtual void prepareToPlay(double, int)                           = 0;
    virtual void releaseResources()                                   = 0;
    virtual void processBlock(AudioBuffer<float>&, MidiBuffer&)       = 0;
    virtual void processBlock(AudioBuffer<double>&, MidiBuffer&) {}
    virtual void reset() {}
    virtual bool isBusesLayoutSupported(BusesLayout const&) const { return true; }
    virtual AudioProcessorEditor* createEditor()                      = 0;
    virtual bool hasEditor() const                                    = 0;
    virtual bool acceptsMidi() const                                  = 0;
    virtual bool producesMidi() const                                 = 0;
    virtual bool isMidiEffect() const { return false; }
    virtual double getTailLengthSeconds() const                       = 0;
    virtual int getNumPrograms()                                      = 0;
    virtual int getCurrentProgram()                                   = 0;
    virtual void setCurrentProgram(int)                               = 0;
    virtual String const getProgramName(int)                          = 0;
    virtual void changeProgramName(int, String const&)                = 0;
    virtual void getStateInformation(MemoryBlock&)                    = 0;
    virtual void setStateInformation(void const*, int)                = 0;
    void setLatencySamples(int n) { latency = n; }
    int getLatencySamples() const { return latency; }
    int getMainBusNumInputChannels() const { return buses.getMainInputChannels(); }
    int getMainBusNumOutputChannels() const { return buses.getMainOutputChannels(); }
    int getTotalNumInputChannels() const { int n = 0; for (auto b : buses.inputBuses) { n += b.n; } return n; }
    int getTotalNumOutputChannels() const { int n = 0; for (auto b : buses.outputBuses) { n += b.n; } return n; }
    double getSampleRate() const { return rate; }
    int getBlockSize() const { return block; }
    BusesLayout buses;  // the host sets it
    double rate{0};
    int block{0};
    int latency{0};
};
template<typename L>
struct ListenerList
{
    std::vector<L*> all;
    void add(L* l) { if (l != nullptr && std::find(all.begin(), all.end(), l) == all.end()) { all.push_back(l); } }
    void remove(L* l) { all.erase(std::remove(all.begin(), all.end(), l), all.end()); }
    int size() const { return int(all.size()); }
    bool isEmpty() const { return all.empty(); }
    bool contains(L* l) const { return std::find(all.begin(), all.end(), l) != all.end(); }
    template<typename... M, typename... A> void call(void (L::*f)(M...), A&&... a) { for (auto* l : std::vector<L*>(all)) { (l->*f)(a...); } }
    template<typename F> void call(F&& f) { for (auto* l : std::vector<L*>(all)) { f(*l); } }
};
class AudioProcessorValueTreeState
{
public:
    struct ParameterLayout
    {
        template<typename... P> ParameterLayout(std::unique_ptr<P>... p) { (all.push_back(std::move(p)), ...); }
        ParameterLayout() = default;
        void add(std::unique_ptr<RangedAudioParameter> p) { all.push_back(std::move(p)); }
        std::vector<std::unique_ptr<RangedAudioParameter>> all;
    };
    AudioProcessorValueTreeState(AudioProcessor&, UndoManager*, Identifier const& type, ParameterLayout l) : state(type), _all(std::move(l.all))
    {
        for (auto& p : _all) {
            p->changed = [this, q = p.get()] { child(*q).number["value"] = q->convertFrom0to1(q->getValue()); };
            p->changed();
        }
        state.redirected = [this] { load(); };
    }
    AudioProcessorValueTreeState(AudioProcessorValueTreeState const&) = delete;
    RangedAudioParameter* getParameter(StringRef id) const
    {
        for (auto& p : _all) { if (p->paramID == id) { return p.get(); } }
        return nullptr;
    }
    ValueTree copyState() { return state.createCopy(); }
    void replaceState(ValueTree const& t) { state = t; }
    ValueTree state;

private:
    ValueTree::Node& child(RangedAudioParameter& p)
    {
        for (auto& c : state.node->children) { if (c->type == "PARAM" && c->text["id"] == p.paramID) { return *c; } }
        auto c        = std::make_shared<ValueTree::Node>();
        c->type       = "PARAM";
        c->text["id"] = p.paramID;
        c->number["value"] = p.convertFrom0to1(p.getDefaultValue());
        state.node->children.push_back(c);
        return *c;
    }
    void load()
    {
        for (auto& p : _all) { if (state.isValid()) { p->setValue(p->convertTo0to1(float(child(*p).number["value"]))); } }
    }
    std::vector<std::unique_ptr<RangedAudioParameter>> _all;
};

namespace dsp {
enum class DryWetMixingRule { linear, balanced, sin3dB, sin4p5dB, sin6dB, squareRoot3dB, squareRoot4p5dB };
// without JUCE's 50 ms ramps: a new proportion counts at once
template<typename T>
class DryWetMixer
{
public:
    DryWetMixer() = default;
    explicit DryWetMixer(int) {}
    void setMixingRule(DryWetMixingRule r) { _rule = r; }
    void setWetMixProportion(T p) { JUCESHIM_CHECK(p >= T(0) && p <= T(1)); _mix = p; }
    void setWetLatency(T) { juceshim::die("wet latency is not in the stand-in", __FILE__, __LINE__); }
    void prepare(ProcessSpec const& s) { _spec = s; _dry.setSize(int(s.numChannels), int(s.maximumBlockSize)); reset(); }
    void reset() { _n = 0; }
    void pushDrySamples(AudioBlock<T const> const& b)
    {
        JUCESHIM_CHECK(b.getNumChannels() <= _spec.numChannels && b.getNumSamples() + _n <= _spec.maximumBlockSize);
        for (std::size_t c = 0; c < b.getNumChannels(); ++c) { std::copy_n(b.getChannelPointer(c), b.getNumSamples(), _dry.getWritePointer(int(c)) + _n); }
        _n += b.getNumSamples();
    }
    void mixWetSamples(AudioBlock<T> const& b)
    {
        JUCESHIM_CHECK(b.getNumChannels() <= _spec.numChannels && b.getNumSamples() <= _n);
        T dry = T(1) - _mix, wet = _mix;
        if (_rule == DryWetMixingRule::balanced) {
            dry = T(2) * std::min(T(0.5), T(1) - _mix);
            wet = T(2) * std::min(T(0.5), _mix);
        } else if (_rule != DryWetMixingRule::linear) {
            auto const q = T(1.5707963267948966);
            auto const w = std::sin(q * _mix), d = std::sin(q * (T(1) - _mix));
            auto const e = _rule == DryWetMixingRule::sin3dB ? T(1) : _rule == DryWetMixingRule::sin4p5dB ? T(1.5) : _rule == DryWetMixingRule::sin6dB ? T(2) : T(0.5);
            wet = std::pow(w, e);
            dry = std::pow(d, e);
        }
        for (std::size_t c = 0; c < b.getNumChannels(); ++c) {
            auto* d = _dry.getWritePointer(int(c));
            for (std::size_t i = 0; i < b.getNumSamples(); ++i) { b(c, i) = b(c, i) * wet + d[i] * dry; }
            std::copy(d + b.getNumSamples(), d + _n, d);
        }
        _n -= b.getNumSamples();
    }

private:
    ProcessSpec _spec{0, 0, 0};
    AudioBuffer<T> _dry;
    std::size_t _n{0};
    T _mix{1};
    DryWetMixingRule _rule{DryWetMixingRule::linear};
};
}  // namespace dsp

// ---- user interface: declarations only
template<typename T> struct Array { Array() = default; Array(T) {} bool isEmpty() const { return true; } };
struct Component
{
    virtual ~Component() = default;
    virtual void paint(Graphics&) {}
    virtual void resized() {}
};
struct AudioProcessorEditor : Component { explicit AudioProcessorEditor(AudioProcessor* p) : processor(*p) {} AudioProcessor& processor; };
struct GenericAudioProcessorEditor : AudioProcessorEditor { explicit GenericAudioProcessorEditor(AudioProcessor& p) : AudioProcessorEditor(&p) {} };
struct TextButton : Component { explicit TextButton(std::string) {} std::function<void()> onClick; };
struct TabbedButtonBar { enum Orientation { TabsAtTop }; };
struct TabbedComponent : Component { explicit TabbedComponent(TabbedButtonBar::Orientation) {} };
struct Label : Component { explicit Label(std::string) {} };
struct PropertyPanel : Component {};
struct TextEditor : Component { void moveCaretToEnd(bool) {} void insertTextAtCaret(std::string const&) {} };
struct ImageComponent : Component {};
struct FileChooser {};
struct TooltipWindow {};
template<typename T> struct SharedResourcePointer {};
struct Value { Value(var) {} Value(Array<var>) {} struct Listener { virtual ~Listener() = default; virtual void valueChanged(Value&) = 0; }; };
struct ThreadPoolOptions { ThreadPoolOptions withNumberOfThreads(int) const { return *this; } ThreadPoolOptions withThreadName(std::string) const { return *this; } };
struct ThreadPool { explicit ThreadPool(ThreadPoolOptions const&) {} };
struct MessageManager { template<typename F> static bool callAsync(F) { return true; } };
}  // namespace juce
