#include "oracle.hpp"
#include <algorithm>
#include <cmath>
#include <numbers>
namespace oracle {
namespace {
auto root(std::size_t k, std::size_t n, int sign) -> cplx
{
    auto const a = 2.0L * std::numbers::pi_v<long double> * static_cast<real>(k % n) / static_cast<real>(n);
    return {std::cos(a), static_cast<real>(sign) * std::sin(a)};
}
auto mul(cplx a, cplx b) -> cplx { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
// in: n elements with the given stride; w: table of the full size N roots
void rec(cplx const* in, std::size_t stride, std::size_t n, cplx* out, std::vector<cplx> const& w)
{
    if (n == 1) {
        out[0] = in[0];
        return;
    }
    std::size_t p = 2;
    while (n % p != 0) {
        ++p;
        if (p * p > n) { p = n; }
    }
    auto const m = n / p;
    auto const N = w.size();
    auto const q = N / n;  // step of an n-th root
    std::vector<cplx> sub(n);
    for (std::size_t r = 0; r < p; ++r) { rec(in + r * stride, stride * p, m, sub.data() + r * m, w); }
    for (std::size_t k = 0; k < n; ++k) {
        cplx acc{};
        for (std::size_t r = 0; r < p; ++r) {
            auto const t = mul(sub[r * m + k % m], w[(r * k % n) * q]);
            acc.re += t.re;
            acc.im += t.im;
        }
        out[k] = acc;
    }
}
}  // namespace
auto dft(std::vector<cplx> const& x, int sign) -> std::vector<cplx>
{
    auto const n = x.size();
    std::vector<cplx> w(n);
    std::vector<cplx> out(n);
    if (n == 0) { return out; }
    for (std::size_t k = 0; k < n; ++k) { w[k] = root(k, n, sign); }
    rec(x.data(), 1, n, out.data(), w);
    return out;
}
auto dft_naive(std::vector<cplx> const& x, int sign) -> std::vector<cplx>
{
    auto const n = x.size();
    std::vector<cplx> out(n);
    for (std::size_t k = 0; k < n; ++k) {
        for (std::size_t j = 0; j < n; ++j) {
            auto const t = mul(x[j], root(j * k, n, sign));
            out[k].re += t.re;
            out[k].im += t.im;
        }
    }
    return out;
}
auto convolve(std::vector<cplx> const& a, std::vector<cplx> const& b) -> std::vector<cplx>
{
    if (a.empty() || b.empty()) { return {}; }
    std::vector<cplx> o(a.size() + b.size() - 1);
    for (std::size_t i = 0; i < a.size(); ++i) {
        for (std::size_t j = 0; j < b.size(); ++j) {
            auto const t = mul(a[i], b[j]);
            o[i + j].re += t.re;
            o[i + j].im += t.im;
        }
    }
    return o;
}
auto convolve(std::vector<real> const& a, std::vector<real> const& b) -> std::vector<real>
{
    if (a.empty() || b.empty()) { return {}; }
    return convolve_prefix(a, b, a.size() + b.size() - 1);
}
auto convolve_prefix(std::vector<real> const& a, std::vector<real> const& b, std::size_t n) -> std::vector<real>
{
    std::vector<real> o(n);
    auto const na = std::min(a.size(), n), nb = std::min(b.size(), n);
    if (nb > 0) {
        // long and dense: by transform (cross-checked in selftest)
        auto const work = static_cast<double>(na - static_cast<std::size_t>(std::count(a.begin(), a.begin() + static_cast<long>(na), real(0)))) * static_cast<double>(nb);
        std::size_t len = 1;
        while (len < na + nb) { len *= 2; }
        if (work > 60.0 * static_cast<double>(len) * std::log2(static_cast<double>(len))) {
            std::vector<cplx> x(len);
            auto const sa = norm(a), sb = norm(b);
            if (sa == 0 || sb == 0) { return o; }
            for (std::size_t i = 0; i < na; ++i) { x[i].re = a[i] / sa; }
            for (std::size_t i = 0; i < nb; ++i) { x[i].im = b[i] / sb; }
            auto const f = dft(x, -1);
            // with x = a + i b the product of the two spectra is (f[k]^2 - conj(f[-k])^2) / 4i
            for (std::size_t k = 0; k < len; ++k) {
                auto const p = mul(f[k], f[k]);
                cplx const m{f[(len - k) % len].re, -f[(len - k) % len].im};
                auto const q = mul(m, m);
                x[k]         = {(p.im - q.im) / 4, -(p.re - q.re) / 4};
            }
            auto const y = dft(x, 1);
            for (std::size_t i = 0; i < n && i < na + nb - 1; ++i) { o[i] = y[i].re * sa * sb / static_cast<real>(len); }
            return o;
        }
    }
    for (std::size_t i = 0; i < a.size() && i < n; ++i) {
        if (a[i] == 0) { continue; }
        for (std::size_t j = 0; j < b.size() && i + j < n; ++j) { o[i + j] += a[i] * b[j]; }
    }
    return o;
}
auto norm(std::vector<cplx> const& x) -> real
{
    real s = 0;
    for (auto v : x) { s += v.re * v.re + v.im * v.im; }
    return std::sqrt(s);
}
auto norm(std::vector<real> const& x) -> real
{
    real s = 0;
    for (auto v : x) { s += v * v; }
    return std::sqrt(s);
}
}  // namespace oracle
