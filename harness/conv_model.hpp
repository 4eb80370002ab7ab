#pragma once
#include "conv_common.hpp"
// Model of a partitioned convolver working on given half spectra, in long double.
struct Model
{
    bool save;
    std::size_t block;
    std::size_t parts;
    std::vector<oracle::cplx> h;  // parts x (block+1)
    std::vector<std::vector<oracle::cplx>> fdl;
    std::vector<long double> window;
    std::vector<long double> tail;
    std::size_t pos{0};
    Model(bool sv, std::size_t b, std::size_t p, std::vector<oracle::cplx> coeffs) : save(sv), block(b), parts(p), h(std::move(coeffs)), fdl(p, std::vector<oracle::cplx>(b + 1)), window(2 * b, 0), tail(2 * b, 0) {}
    std::vector<long double> operator()(std::vector<long double> const& x)
    {
        auto const n = 2 * block;
        if (save) {
            for (std::size_t i = 0; i < block; ++i) {
                window[i]         = window[i + block];
                window[i + block] = x[i];
            }
        } else {
            for (std::size_t i = 0; i < n; ++i) { window[i] = i < block ? x[i] : 0; }
        }
        std::vector<oracle::cplx> in(n);
        for (std::size_t i = 0; i < n; ++i) { in[i].re = window[i]; }
        auto full = oracle::dft(in, -1);
        full.resize(block + 1);
        fdl[pos] = full;
        std::vector<oracle::cplx> acc(n);
        for (std::size_t j = 0; j < parts; ++j) {
            auto const& row = fdl[(pos + parts - j) % parts];
            for (std::size_t k = 0; k <= block; ++k) {
                auto const& a = row[k];
                auto const& b = h[j * (block + 1) + k];
                acc[k].re += a.re * b.re - a.im * b.im;
                acc[k].im += a.re * b.im + a.im * b.re;
            }
        }
        for (std::size_t k = block + 1; k < n; ++k) { acc[k] = {acc[n - k].re, -acc[n - k].im}; }
        pos           = (pos + 1) % parts;
        auto const y  = oracle::dft(acc, 1);
        std::vector<long double> out(block);
        if (save) {
            for (std::size_t i = 0; i < block; ++i) { out[i] = y[i + block].re / static_cast<long double>(n); }
        } else {
            for (std::size_t i = 0; i < n; ++i) { tail[i] += y[i].re / static_cast<long double>(n); }
            for (std::size_t i = 0; i < block; ++i) { out[i] = tail[i]; }
            for (std::size_t i = 0; i < n; ++i) { tail[i] = i + block < n ? tail[i + block] : 0; }
        }
        return out;
    }
};
