// A stand-in for the part of JUCE that extra/plugin/src/dsp uses. Buffers that JUCE leaves uninitialised hold NaN here,
// every range is checked, files and streams live in memory.
#pragma once

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace juceshim {
[[noreturn]] inline void die(char const* what, char const* file, int line)
{
    std::fprintf(stderr, "juce stand-in: %s (%s:%d)\n", what, file, line);
    std::abort();
}
}  // namespace juceshim
#define JUCESHIM_CHECK(x) ((x) ? void() : ::juceshim::die("out of range: " #x, __FILE__, __LINE__))
#if defined(JUCESHIM_RELEASE)  // as in a release build of JUCE
    #define jassert(x) ((void)0)
#else
    #define jassert(x) ((x) ? void() : ::juceshim::die("jassert failed: " #x, __FILE__, __LINE__))
#endif
#define jassertquiet(x) jassert(x)
#define jassertfalse ::juceshim::die("jassertfalse", __FILE__, __LINE__)
#define JUCE_DECLARE_NON_COPYABLE(x)
#define JUCE_DECLARE_NON_COPYABLE_WITH_LEAK_DETECTOR(x)
#define JUCE_LEAK_DETECTOR(x)

namespace juce {
using int8   = std::int8_t;
using uint8  = std::uint8_t;
using int16  = std::int16_t;
using uint16 = std::uint16_t;
using int32  = std::int32_t;
using uint32 = std::uint32_t;
using int64  = std::int64_t;
using uint64 = std::uint64_t;

template<typename T> constexpr T jmax(T a, T b) { return a < b ? b : a; }
template<typename T> constexpr T jmin(T a, T b) { return b < a ? b : a; }
template<typename T> constexpr T jlimit(T lo, T hi, T v) { return v < lo ? lo : (hi < v ? hi : v); }
template<typename T> constexpr bool exactlyEqual(T a, T b) { return a == b; }
template<typename T> constexpr bool approximatelyEqual(T a, T b) { return std::abs(a - b) <= std::numeric_limits<T>::epsilon() * std::max(std::abs(a), std::abs(b)); }
template<typename T> int roundToInt(T v)
{
    auto const r = std::nearbyint(static_cast<double>(v));
    if (!(r >= -2147483648.0 && r <= 2147483647.0)) { juceshim::die("roundToInt of a value outside int", __FILE__, __LINE__); }
    return static_cast<int>(r);
}
template<typename T> constexpr bool isPowerOfTwo(T v) { return v > 0 && (v & (v - 1)) == 0; }
constexpr int nextPowerOfTwo(int n) { int p = 1; while (p < n) { p *= 2; } return p; }
template<typename A, typename B> constexpr bool isPositiveAndBelow(A a, B b) { return a >= A(0) && std::cmp_less(a, b); }
template<typename... T> void ignoreUnused(T&&...) noexcept {}
template<typename T> constexpr T jmap(T v, T lo, T hi) { return lo + v * (hi - lo); }
template<typename T> constexpr T jmap(T v, T a, T b, T lo, T hi) { return lo + (hi - lo) * (v - a) / (b - a); }

template<typename T>
class AudioBuffer
{
public:
    AudioBuffer() = default;
    AudioBuffer(int channels, int samples) { setSize(channels, samples); }
    int getNumChannels() const noexcept { return static_cast<int>(_ch.size()); }
    int getNumSamples() const noexcept { return _n; }
    T const* getReadPointer(int ch, int at = 0) const { check(ch, at, 0); return _ch[std::size_t(ch)].get() + at; }
    T* getWritePointer(int ch, int at = 0) { check(ch, at, 0); return _ch[std::size_t(ch)].get() + at; }
    T const* const* getArrayOfReadPointers() const { return _ptr.data(); }
    T* const* getArrayOfWritePointers() { return _ptr.data(); }
    void setSize(int channels, int samples, bool keep = false, bool clearExtra = false, bool /*avoidRealloc*/ = false)
    {
        JUCESHIM_CHECK(channels >= 0 && samples >= 0);
        if (channels == getNumChannels() && samples == _n) { return; }
        AudioBuffer o;
        o._n = samples;
        for (int c = 0; c < channels; ++c) {
            o._ch.emplace_back(new T[std::size_t(samples)]);
            auto* p = o._ch.back().get();
            std::fill_n(p, samples, clearExtra ? T(0) : std::numeric_limits<T>::quiet_NaN());
            if (keep && c < getNumChannels()) { std::copy_n(_ch[std::size_t(c)].get(), std::min(_n, samples), p); }
            o._ptr.push_back(p);
        }
        *this = std::move(o);
    }
    AudioBuffer(AudioBuffer const& o) { *this = o; }
    AudioBuffer& operator=(AudioBuffer const& o)
    {
        if (this != &o) {
            setSize(0, 0);
            setSize(o.getNumChannels(), o._n);
            for (std::size_t c = 0; c < _ch.size(); ++c) { std::copy_n(o._ch[c].get(), _n, _ch[c].get()); }
        }
        return *this;
    }
    AudioBuffer(AudioBuffer&& o) noexcept : _ch(std::move(o._ch)), _ptr(std::move(o._ptr)), _n(std::exchange(o._n, 0)) { o._ch.clear(); o._ptr.clear(); }
    AudioBuffer& operator=(AudioBuffer&& o) noexcept
    {
        if (this != &o) { _ch = std::move(o._ch); _ptr = std::move(o._ptr); _n = std::exchange(o._n, 0); o._ch.clear(); o._ptr.clear(); }
        return *this;
    }
    void makeCopyOf(AudioBuffer const& o, bool = false) { *this = o; }
    void clear() { for (int c = 0; c < getNumChannels(); ++c) { clear(c, 0, _n); } }
    void clear(int at, int n) { for (int c = 0; c < getNumChannels(); ++c) { clear(c, at, n); } }
    void clear(int c, int at, int n) { check(c, at, n); std::fill_n(_ch[std::size_t(c)].get() + at, n, T(0)); }
    T getSample(int c, int i) const { check(c, i, 1); return _ch[std::size_t(c)][i]; }
    void setSample(int c, int i, T v) { check(c, i, 1); _ch[std::size_t(c)][i] = v; }
    void addSample(int c, int i, T v) { check(c, i, 1); _ch[std::size_t(c)][i] += v; }
    void addFrom(int c, int at, AudioBuffer const& o, int oc, int oat, int n, T gain = T(1)) { o.check(oc, oat, n); addFrom(c, at, o._ch[std::size_t(oc)].get() + oat, n, gain); }
    void addFrom(int c, int at, T const* p, int n, T gain = T(1)) { check(c, at, n); for (int i = 0; i < n; ++i) { _ch[std::size_t(c)][at + i] += p[i] * gain; } }
    void copyFrom(int c, int at, AudioBuffer const& o, int oc, int oat, int n) { o.check(oc, oat, n); copyFrom(c, at, o._ch[std::size_t(oc)].get() + oat, n); }
    void copyFrom(int c, int at, T const* p, int n) { check(c, at, n); std::copy_n(p, n, _ch[std::size_t(c)].get() + at); }
    void copyFrom(int c, int at, T const* p, int n, T gain) { check(c, at, n); for (int i = 0; i < n; ++i) { _ch[std::size_t(c)][at + i] = p[i] * gain; } }
    void applyGain(T g) { for (int c = 0; c < getNumChannels(); ++c) { applyGain(c, 0, _n, g); } }
    void applyGain(int at, int n, T g) { for (int c = 0; c < getNumChannels(); ++c) { applyGain(c, at, n, g); } }
    void applyGain(int c, int at, int n, T g) { check(c, at, n); for (int i = 0; i < n; ++i) { _ch[std::size_t(c)][at + i] *= g; } }
    T getMagnitude(int c, int at, int n) const { check(c, at, n); T m = 0; for (int i = 0; i < n; ++i) { m = std::max(m, std::abs(_ch[std::size_t(c)][at + i])); } return m; }
    T getMagnitude(int at, int n) const { T m = 0; for (int c = 0; c < getNumChannels(); ++c) { m = std::max(m, getMagnitude(c, at, n)); } return m; }

private:
    void check(int c, int at, int n) const
    {
        JUCESHIM_CHECK(c >= 0 && c < getNumChannels());
        JUCESHIM_CHECK(n >= 0 && at >= 0 && at <= _n - n);
    }
    std::vector<std::unique_ptr<T[]>> _ch;
    std::vector<T*> _ptr;
    int _n{0};
};

struct FloatVectorOperations
{
    template<typename T> static void clear(T* d, int n) { std::fill_n(d, std::max(n, 0), T(0)); }
    template<typename T> static void fill(T* d, T v, int n) { std::fill_n(d, std::max(n, 0), v); }
    template<typename T> static void copy(T* d, T const* s, int n) { std::copy_n(s, std::max(n, 0), d); }
    template<typename T> static void copyWithMultiply(T* d, T const* s, T g, int n) { for (int i = 0; i < n; ++i) { d[i] = s[i] * g; } }
    template<typename T> static void add(T* d, T const* s, int n) { for (int i = 0; i < n; ++i) { d[i] += s[i]; } }
    template<typename T> static void add(T* d, T const* a, T const* b, int n) { for (int i = 0; i < n; ++i) { d[i] = a[i] + b[i]; } }
    template<typename T> static void subtract(T* d, T const* s, int n) { for (int i = 0; i < n; ++i) { d[i] -= s[i]; } }
    template<typename T> static void multiply(T* d, T const* s, int n) { for (int i = 0; i < n; ++i) { d[i] *= s[i]; } }
    template<typename T> static void multiply(T* d, T const* a, T const* b, int n) { for (int i = 0; i < n; ++i) { d[i] = a[i] * b[i]; } }
    template<typename T> static void multiply(T* d, T g, int n) { for (int i = 0; i < n; ++i) { d[i] *= g; } }
    template<typename T> static void multiply(T* d, T const* s, T g, int n) { for (int i = 0; i < n; ++i) { d[i] = s[i] * g; } }
    template<typename T> static void addWithMultiply(T* d, T const* s, T g, int n) { for (int i = 0; i < n; ++i) { d[i] += s[i] * g; } }
};

namespace dsp {
struct ProcessSpec
{
    double sampleRate;
    uint32 maximumBlockSize;
    uint32 numChannels;
};

template<typename T>
class AudioBlock
{
public:
    using SampleType  = T;
    using NumericType = std::remove_const_t<T>;
    AudioBlock()      = default;
    AudioBlock(T* const* p, std::size_t channels, std::size_t samples) : AudioBlock(p, channels, 0, samples) {}
    AudioBlock(T* const* p, std::size_t channels, std::size_t at, std::size_t samples) : _n(samples)
    {
        for (std::size_t c = 0; c < channels; ++c) { _p.push_back(p[c] + at); }
    }
    AudioBlock(AudioBuffer<NumericType>& b) : _n(std::size_t(b.getNumSamples()))
    {
        for (int c = 0; c < b.getNumChannels(); ++c) { _p.push_back(b.getWritePointer(c)); }
    }
    AudioBlock(AudioBuffer<NumericType> const& b) requires std::is_const_v<T> : _n(std::size_t(b.getNumSamples()))
    {
        for (int c = 0; c < b.getNumChannels(); ++c) { _p.push_back(b.getReadPointer(c)); }
    }
    template<typename U> requires(std::is_const_v<T> && std::is_same_v<U, std::remove_const_t<T>>) AudioBlock(AudioBlock<U> const& o) : _n(o.getNumSamples())
    {
        for (std::size_t c = 0; c < o.getNumChannels(); ++c) { _p.push_back(o.getChannelPointer(c)); }
    }
    std::size_t getNumChannels() const noexcept { return _p.size(); }
    std::size_t getNumSamples() const noexcept { return _n; }
    T* getChannelPointer(std::size_t c) const { JUCESHIM_CHECK(c < _p.size()); return _p[c]; }
    AudioBlock getSubBlock(std::size_t at, std::size_t n) const
    {
        JUCESHIM_CHECK(at <= _n && n <= _n - at);
        auto o = *this;
        for (auto& p : o._p) { p += at; }
        o._n = n;
        return o;
    }
    AudioBlock getSubBlock(std::size_t at) const { JUCESHIM_CHECK(at <= _n); return getSubBlock(at, _n - at); }
    AudioBlock getSingleChannelBlock(std::size_t c) const { JUCESHIM_CHECK(c < _p.size()); AudioBlock o; o._p = {_p[c]}; o._n = _n; return o; }
    AudioBlock getSubsetChannelBlock(std::size_t c, std::size_t k) const { JUCESHIM_CHECK(c + k <= _p.size()); AudioBlock o; o._p.assign(_p.begin() + long(c), _p.begin() + long(c + k)); o._n = _n; return o; }
    T& operator()(std::size_t c, std::size_t i) const { JUCESHIM_CHECK(c < _p.size() && i < _n); return _p[c][i]; }
    NumericType getSample(int c, int i) const { return (*this)(std::size_t(c), std::size_t(i)); }
    void setSample(int c, int i, NumericType v) const requires(!std::is_const_v<T>) { (*this)(std::size_t(c), std::size_t(i)) = v; }
    AudioBlock const& clear() const requires(!std::is_const_v<T>) { for (auto* p : _p) { std::fill_n(p, _n, T(0)); } return *this; }
    AudioBlock const& fill(NumericType v) const requires(!std::is_const_v<T>) { for (auto* p : _p) { std::fill_n(p, _n, v); } return *this; }
    template<typename U> AudioBlock const& copyFrom(AudioBlock<U> const& o) const
    {
        for (std::size_t c = 0; c < std::min(_p.size(), o.getNumChannels()); ++c) { std::copy_n(o.getChannelPointer(c), std::min(_n, o.getNumSamples()), _p[c]); }
        return *this;
    }
    template<typename U> AudioBlock const& add(AudioBlock<U> const& o) const
    {
        for (std::size_t c = 0; c < std::min(_p.size(), o.getNumChannels()); ++c) {
            for (std::size_t i = 0; i < std::min(_n, o.getNumSamples()); ++i) { _p[c][i] += o.getChannelPointer(c)[i]; }
        }
        return *this;
    }
    template<typename U> AudioBlock const& subtract(AudioBlock<U> const& o) const
    {
        for (std::size_t c = 0; c < std::min(_p.size(), o.getNumChannels()); ++c) {
            for (std::size_t i = 0; i < std::min(_n, o.getNumSamples()); ++i) { _p[c][i] -= o.getChannelPointer(c)[i]; }
        }
        return *this;
    }
    template<typename U> AudioBlock const& replaceWithProductOf(AudioBlock<U> const& o, NumericType g) const
    {
        for (std::size_t c = 0; c < std::min(_p.size(), o.getNumChannels()); ++c) {
            for (std::size_t i = 0; i < std::min(_n, o.getNumSamples()); ++i) { _p[c][i] = o.getChannelPointer(c)[i] * g; }
        }
        return *this;
    }
    template<typename U> AudioBlock const& addProductOf(AudioBlock<U> const& o, NumericType g) const
    {
        for (std::size_t c = 0; c < std::min(_p.size(), o.getNumChannels()); ++c) {
            for (std::size_t i = 0; i < std::min(_n, o.getNumSamples()); ++i) { _p[c][i] += o.getChannelPointer(c)[i] * g; }
        }
        return *this;
    }
    AudioBlock const& operator*=(NumericType g) const requires(!std::is_const_v<T>) { return multiplyBy(g); }
    AudioBlock const& multiplyBy(NumericType g) const requires(!std::is_const_v<T>)
    {
        for (auto* p : _p) { for (std::size_t i = 0; i < _n; ++i) { p[i] *= g; } }
        return *this;
    }

private:
    std::vector<T*> _p;
    std::size_t _n{0};
};
template<typename T> AudioBlock(AudioBuffer<T>&) -> AudioBlock<T>;
template<typename T> AudioBlock(AudioBuffer<T> const&) -> AudioBlock<T const>;

template<typename T>
struct ProcessContextReplacing
{
    using SampleType          = T;
    using AudioBlockType      = AudioBlock<T>;
    using ConstAudioBlockType = AudioBlock<T const>;
    ProcessContextReplacing(AudioBlockType& b) noexcept : _block(b), _in(b) {}
    ConstAudioBlockType const& getInputBlock() const noexcept { return _in; }
    AudioBlockType& getOutputBlock() const noexcept { return _block; }
    static constexpr bool usesSeparateInputAndOutputBlocks() { return false; }
    bool isBypassed{false};

private:
    AudioBlockType& _block;
    ConstAudioBlockType _in;
};
template<typename T> ProcessContextReplacing(AudioBlock<T>&) -> ProcessContextReplacing<T>;

template<typename T>
struct ProcessContextNonReplacing
{
    using SampleType          = T;
    using AudioBlockType      = AudioBlock<T>;
    using ConstAudioBlockType = AudioBlock<T const>;
    ProcessContextNonReplacing(ConstAudioBlockType const& i, AudioBlockType& o) noexcept : _in(i), _out(o) { jassert(i.getNumChannels() == o.getNumChannels() && i.getNumSamples() == o.getNumSamples()); }
    ConstAudioBlockType const& getInputBlock() const noexcept { return _in; }
    AudioBlockType& getOutputBlock() const noexcept { return _out; }
    static constexpr bool usesSeparateInputAndOutputBlocks() { return true; }
    bool isBypassed{false};

private:
    ConstAudioBlockType const& _in;
    AudioBlockType& _out;
};

template<typename T>
struct WindowingFunction
{
    enum WindowingMethod { rectangular = 0, triangular, hann, hamming, blackman, blackmanHarris, flatTop, kaiser, numWindowingMethods };
    static void fillWindowingTables(T* s, std::size_t n, WindowingMethod m, bool normalise = true, T = 0) noexcept
    {
        double const pi = 3.14159265358979323846;
        for (std::size_t i = 0; i < n; ++i) {
            double const c = std::cos(2 * pi * double(i) / double(n - 1));
            double v       = 1;
            switch (m) {
                case rectangular: break;
                case triangular: v = 1 - std::abs(2.0 / double(n) * (double(i) - (double(n) - 1) / 2)); break;
                case hann: v = 0.5 - 0.5 * c; break;
                case hamming: v = 0.54 - 0.46 * c; break;
                default: juceshim::die("window not in the stand-in", __FILE__, __LINE__);
            }
            s[i] = static_cast<T>(v);
        }
        if (normalise) {
            T sum = 0;
            for (std::size_t i = 0; i < n; ++i) { sum += s[i]; }
            for (std::size_t i = 0; i < n; ++i) { s[i] *= static_cast<T>(n) / sum; }
        }
    }
};

struct Convolution
{
    struct Latency { int latencyInSamples{0}; };
    struct NonUniform { int headSizeInSamples{0}; };
    enum class Stereo { no, yes };
    enum class Trim { no, yes };
    enum class Normalise { no, yes };
};
}  // namespace dsp

// ---- files: names in memory
namespace shim {
struct Audio
{
    double rate{0};
    std::vector<std::vector<float>> ch;
    bool readable{true};
};
inline std::map<std::string, Audio>& files() { static std::map<std::string, Audio> m; return m; }
// set: every path is this file
inline std::optional<Audio>& every_file() { static std::optional<Audio> a; return a; }
inline Audio const* find(std::string const& name)
{
    if (every_file()) { return &*every_file(); }
    auto const it = files().find(name);
    return it != files().end() ? &it->second : nullptr;
}
struct Written { std::string path; double rate; unsigned channels; int bits; std::vector<std::vector<float>> ch; };
inline std::vector<Written>& written() { static std::vector<Written> w; return w; }
}  // namespace shim

#if defined(JUCESHIM_PLUGIN)
struct String : std::string
{
    String() = default;
    String(char const* s) : std::string(s) {}
    String(std::string s) : std::string(std::move(s)) {}
    template<typename T> requires std::is_arithmetic_v<T> explicit String(T v) : std::string(std::to_string(v)) {}
};
#else
using String = std::string;
#endif
struct StringPairArray {};
struct InputStream
{
    explicit InputStream(std::string n) : name(std::move(n)) {}
    virtual ~InputStream() = default;
    std::string name;
};
struct FileInputStream : InputStream { using InputStream::InputStream; };
struct OutputStream { virtual ~OutputStream() = default; std::string name; };
struct FileOutputStream : OutputStream {};
class File
{
public:
    File() = default;
    File(std::string n) : _name(std::move(n)) {}
    std::unique_ptr<FileInputStream> createInputStream() const
    {
        return shim::find(_name) != nullptr ? std::make_unique<FileInputStream>(_name) : nullptr;
    }
    std::unique_ptr<FileOutputStream> createOutputStream() const { auto s = std::make_unique<FileOutputStream>(); s->name = _name; return s; }
    File getNonexistentChildFile(std::string const& a, std::string const& b) const { return {_name + "/" + a + b}; }
    bool existsAsFile() const { return shim::find(_name) != nullptr; }

private:
    std::string _name;
};
struct AudioFormatReader
{
    double sampleRate{0};
    unsigned numChannels{0};
    int64 lengthInSamples{0};
    bool usesFloatingPointData{true};
    shim::Audio audio;
    bool read(float* const* dst, int channels, int64 at, int n)
    {
        if (!audio.readable) { return false; }
        for (int c = 0; c < channels; ++c) {
            for (int i = 0; i < n; ++i) {
                auto const k = std::size_t(at + i);
                dst[c][i]    = std::size_t(c) < audio.ch.size() && k < audio.ch[std::size_t(c)].size() ? audio.ch[std::size_t(c)][k] : 0.0F;
            }
        }
        return true;
    }
};
struct AudioFormatManager
{
    void registerBasicFormats() { registered = true; }
    AudioFormatReader* createReaderFor(std::unique_ptr<InputStream> s)
    {
        if (s == nullptr || !registered) { return nullptr; }
        auto const* a = shim::find(s->name);
        if (a == nullptr) { return nullptr; }
        auto* r            = new AudioFormatReader;
        r->audio           = *a;
        r->sampleRate      = a->rate;
        r->numChannels     = unsigned(a->ch.size());
        r->lengthInSamples = a->ch.empty() ? 0 : int64(a->ch[0].size());
        return r;
    }
    AudioFormatReader* createReaderFor(File const& f) { return createReaderFor(f.createInputStream()); }
    bool registered{false};
};
struct AudioFormatWriter
{
    std::unique_ptr<OutputStream> out;
    double rate{0};
    unsigned channels{0};
    int bits{0};
    bool writeFromFloatArrays(float const* const* p, int n, int samples)
    {
        shim::Written w{out->name, rate, channels, bits, {}};
        for (int c = 0; c < n; ++c) { w.ch.emplace_back(p[c], p[c] + samples); }
        shim::written().push_back(std::move(w));
        return true;
    }
    bool writeFromAudioSampleBuffer(AudioBuffer<float> const& b, int at, int n)
    {
        std::vector<float const*> p;
        for (int c = 0; c < b.getNumChannels(); ++c) { p.push_back(b.getReadPointer(c, at)); }
        return writeFromFloatArrays(p.data(), b.getNumChannels(), n);
    }
};
struct WavAudioFormat
{
    AudioFormatWriter* createWriterFor(OutputStream* o, double rate, unsigned channels, int bits, StringPairArray const&, int)
    {
        if (o == nullptr || !(bits == 8 || bits == 16 || bits == 24 || bits == 32)) { return nullptr; }
        auto* w     = new AudioFormatWriter;
        w->out.reset(o);
        w->rate     = rate;
        w->channels = channels;
        w->bits     = bits;
        return w;
    }
};

// ---- sources: linear interpolation stands for JUCE's resampler
struct AudioSourceChannelInfo
{
    AudioSourceChannelInfo(AudioBuffer<float>* b, int at, int n) : buffer(b), startSample(at), numSamples(n) {}
    explicit AudioSourceChannelInfo(AudioBuffer<float>& b) : buffer(&b), startSample(0), numSamples(b.getNumSamples()) {}
    AudioBuffer<float>* buffer;
    int startSample;
    int numSamples;
};
struct AudioSource { virtual ~AudioSource() = default; };
struct MemoryAudioSource : AudioSource
{
    MemoryAudioSource(AudioBuffer<float>& b, bool copyMemory, bool loop = false) : copied(copyMemory ? b : AudioBuffer<float>{}), original(copyMemory ? nullptr : &b), looping(loop) {}
    AudioBuffer<float>& buffer() { return original != nullptr ? *original : copied; }
    AudioBuffer<float> copied;
    AudioBuffer<float>* original;
    bool looping;
};
struct ResamplingAudioSource : AudioSource
{
    ResamplingAudioSource(AudioSource* s, bool deleteSource, int channels = 2) : src(dynamic_cast<MemoryAudioSource*>(s)), numChannels(channels), owned(deleteSource ? s : nullptr) {}
    void setResamplingRatio(double r) { ratio = r; }
    void prepareToPlay(int, double) { ready = true; }
    void releaseResources() {}
    void getNextAudioBlock(AudioSourceChannelInfo const& i)
    {
        jassert(ready && src != nullptr);
        for (int c = 0; c < i.buffer->getNumChannels(); ++c) {
            for (int k = 0; k < i.numSamples; ++k) {
                double const at = ratio * (pos + k);
                int const a     = int(at);
                auto& in        = src->buffer();
                auto get        = [&](int q) {
                    if (src->looping && in.getNumSamples() > 0) { q %= in.getNumSamples(); }
                    return c < numChannels && c < in.getNumChannels() && q < in.getNumSamples() ? double(in.getSample(c, q)) : 0.0;
                };
                i.buffer->setSample(c, i.startSample + k, float(get(a) + (at - a) * (get(a + 1) - get(a))));
            }
        }
        pos += i.numSamples;
    }
    MemoryAudioSource* src;
    int numChannels;
    std::unique_ptr<AudioSource> owned;
    double ratio{1};
    int pos{0};
    bool ready{false};
};

// ---- pictures
struct Colour
{
    std::uint32_t argb{0};
    constexpr Colour() = default;
    constexpr explicit Colour(std::uint32_t v) : argb(v) {}
    constexpr Colour withAlpha(float a) const { return Colour((argb & 0xffffffU) | (std::uint32_t(a * 255.0F) << 24U)); }
    constexpr bool operator==(Colour const&) const = default;
};
struct Colours
{
    static constexpr Colour white{0xffffffffU};
    static constexpr Colour black{0xff000000U};
    static constexpr Colour red{0xffff0000U};
};
template<typename T>
struct Rectangle
{
    Rectangle() = default;
    Rectangle(T x_, T y_, T w_, T h_) : x(x_), y(y_), w(w_), h(h_) {}
    T getX() const { return x; }
    T getY() const { return y; }
    T getWidth() const { return w; }
    T getHeight() const { return h; }
    T getBottom() const { return y + h; }
    T getRight() const { return x + w; }
    Rectangle withBottomY(T b) const { return {x, b - h, w, h}; }
    Rectangle withHeight(T v) const { return {x, y, w, v}; }
    Rectangle withY(T v) const { return {x, v, w, h}; }
    T x{}, y{}, w{}, h{};
};
class Image
{
public:
    enum PixelFormat { UnknownFormat, RGB, ARGB, SingleChannel };
    Image() = default;
    Image(PixelFormat, int w, int h, bool) : _d(std::make_shared<Data>())
    {
        JUCESHIM_CHECK(w > 0 && h > 0);
        _d->w = w;
        _d->h = h;
        _d->px.resize(std::size_t(w) * std::size_t(h));
    }
    bool isValid() const { return _d != nullptr; }
    bool isNull() const { return _d == nullptr; }
    int getWidth() const { return _d ? _d->w : 0; }
    int getHeight() const { return _d ? _d->h : 0; }
    Rectangle<int> getBounds() const { return {0, 0, getWidth(), getHeight()}; }
    void setPixelAt(int x, int y, Colour c) { JUCESHIM_CHECK(x >= 0 && y >= 0 && x < getWidth() && y < getHeight()); _d->px[at(x, y)] = c; }
    Colour getPixelAt(int x, int y) const { JUCESHIM_CHECK(x >= 0 && y >= 0 && x < getWidth() && y < getHeight()); return _d->px[at(x, y)]; }

private:
    std::size_t at(int x, int y) const { return std::size_t(y) * std::size_t(_d->w) + std::size_t(x); }
    struct Data { int w{0}, h{0}; std::vector<Colour> px; };
    std::shared_ptr<Data> _d;
};
class Graphics
{
public:
    explicit Graphics(Image const& i) : _img(i) {}
    void setColour(Colour c) { _c = c; }
    void fillAll(Colour c) { for (int y = 0; y < _img.getHeight(); ++y) { for (int x = 0; x < _img.getWidth(); ++x) { _img.setPixelAt(x, y, c); } } }
    void fillRect(Rectangle<int> r)
    {
        for (int y = std::max(0, r.y); y < std::min(_img.getHeight(), r.y + r.h); ++y) {
            for (int x = std::max(0, r.x); x < std::min(_img.getWidth(), r.x + r.w); ++x) { _img.setPixelAt(x, y, blend(_img.getPixelAt(x, y))); }
        }
    }
    void fillRect(int x, int y, int w, int h) { fillRect({x, y, w, h}); }

private:
    Colour blend(Colour d) const
    {
        auto const a = (_c.argb >> 24U) / 255.0;
        std::uint32_t o = 0xff000000U;
        for (unsigned s : {0U, 8U, 16U}) { o |= std::uint32_t(((_c.argb >> s) & 255U) * a + ((d.argb >> s) & 255U) * (1 - a) + 0.5) << s; }
        return Colour(o);
    }
    Image _img;
    Colour _c;
};
}  // namespace juce
