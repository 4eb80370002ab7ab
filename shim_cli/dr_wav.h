// Offline stand-in for the subset of dr_wav that neo's command line tool uses: files live in memory.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace drshim {
struct File
{
    std::uint32_t channels{0};
    std::uint32_t rate{0};
    std::uint64_t frames{0};
    std::vector<float> interleaved;
    std::uint64_t readable{~std::uint64_t{0}};  // frames that can be read before the file "ends"
    std::uint32_t format{3};
    std::uint32_t bits{32};
    bool closed{false};
};
inline std::map<std::string, File>& files()
{
    static std::map<std::string, File> f;
    return f;
}
struct Write
{
    std::string path;
    File file;
};
inline std::vector<Write>& writes()  // every file written, in order
{
    static std::vector<Write> w;
    return w;
}
}  // namespace drshim

using drwav_uint16 = std::uint16_t;
using drwav_uint32 = std::uint32_t;
using drwav_uint64 = std::uint64_t;
using drwav_bool32 = std::uint32_t;
using drwav_allocation_callbacks = void;
enum drwav_container { drwav_container_riff, drwav_container_w64, drwav_container_rf64 };
#define DR_WAVE_FORMAT_PCM 0x1
#define DR_WAVE_FORMAT_IEEE_FLOAT 0x3
#define DRWAV_TRUE 1
#define DRWAV_FALSE 0

struct drwav_data_format
{
    drwav_container container;
    drwav_uint32 format;
    drwav_uint32 channels;
    drwav_uint32 sampleRate;
    drwav_uint32 bitsPerSample;
};
struct drwav
{
    drwav_uint32 sampleRate;
    drwav_uint16 channels;
    drwav_uint16 bitsPerSample;
    drwav_uint16 translatedFormatTag;
    drwav_uint64 totalPCMFrameCount;
    drshim::File* source;
    drwav_uint64 at;
    long target;
};

inline auto drwav_init_file(drwav* w, char const* path, drwav_allocation_callbacks const*) -> drwav_bool32
{
    auto const it = drshim::files().find(path);
    if (it == drshim::files().end()) { return 0; }
    *w                    = drwav{};
    w->source             = &it->second;
    w->channels           = static_cast<drwav_uint16>(it->second.channels);
    w->sampleRate         = it->second.rate;
    w->totalPCMFrameCount = it->second.frames;
    w->bitsPerSample      = 32;
    w->target             = -1;
    return 1;
}
inline auto drwav_read_pcm_frames_f32(drwav* w, drwav_uint64 frames, float* out) -> drwav_uint64
{
    auto const end = w->source->frames < w->source->readable ? w->source->frames : w->source->readable;
    auto const n   = w->at >= end ? 0 : (frames < end - w->at ? frames : end - w->at);
    if (out != nullptr && n > 0) {
        std::memcpy(out, w->source->interleaved.data() + w->at * w->channels, n * w->channels * sizeof(float));
    }
    w->at += n;
    return n;
}
inline auto drwav_init_file_write(drwav* w, char const* path, drwav_data_format const* f, drwav_allocation_callbacks const*) -> drwav_bool32
{
    *w = drwav{};
    drshim::Write r;
    r.path          = path;
    r.file.channels = f->channels;
    r.file.rate     = f->sampleRate;
    r.file.format   = f->format;
    r.file.bits     = f->bitsPerSample;
    w->channels     = static_cast<drwav_uint16>(f->channels);
    w->sampleRate   = f->sampleRate;
    drshim::writes().push_back(r);
    w->target = static_cast<long>(drshim::writes().size()) - 1;
    return 1;
}
inline auto drwav_write_pcm_frames(drwav* w, drwav_uint64 frames, void const* data) -> drwav_uint64
{
    auto& f       = drshim::writes()[static_cast<std::size_t>(w->target)].file;
    auto const* p = static_cast<float const*>(data);
    f.interleaved.insert(f.interleaved.end(), p, p + frames * f.channels);
    f.frames += frames;
    return frames;
}
inline auto drwav_uninit(drwav* w) -> int
{
    if (w->target >= 0) { drshim::writes()[static_cast<std::size_t>(w->target)].file.closed = true; }
    return 0;
}
