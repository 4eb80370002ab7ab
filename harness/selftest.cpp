// Checks the checker: the fast reference DFT against the definition, convolution against polynomial identities.
#include "common.hpp"
PBT_CHECK(oracle_dft, 300, 300)
{
    auto const n = s.len(1, 200);
    auto x       = cx_of(gen_vec<std::complex<double>>(s, n));
    int sign     = s.flag() ? 1 : -1;
    auto a       = oracle::dft(x, sign);
    auto b       = oracle::dft_naive(x, sign);
    long double e = 0;
    for (std::size_t i = 0; i < n; ++i) { e += (a[i].re - b[i].re) * (a[i].re - b[i].re) + (a[i].im - b[i].im) * (a[i].im - b[i].im); }
    PBT_REQUIRE(std::sqrt(e) <= 1e-16L * (1 + oracle::norm(b)), "n=%zu", n);
    s.nontrivial(n > 2);
    s.note(fmt("n=%zu", n));
}

PBT_CHECK(oracle_convolve, 60, 60)
{
    auto const n = s.len(1, 6000);
    auto const m = s.len(1, 6000);
    auto a       = ld_of(gen_vec<double>(s, n));
    auto b       = ld_of(gen_vec<double>(s, m));
    auto const k = s.size(0, n + m - 1);
    auto c       = oracle::convolve_prefix(a, b, k);
    PBT_REQUIRE(c.size() == k, "%zu samples", c.size());
    for (int i = 0; i < 20 && k > 0; ++i) {
        auto const t     = s.size(0, k - 1);
        long double want = 0;
        for (std::size_t j = 0; j < n && j <= t; ++j) { want += t - j < m ? a[j] * b[t - j] : 0; }
        PBT_REQUIRE(std::fabs(c[t] - want) <= 1e-16L * oracle::norm(a) * oracle::norm(b), "n=%zu m=%zu [%zu] %Lg instead of %Lg", n, m, t, c[t], want);
    }
    s.nontrivial(n > 2 && m > 2);
    s.note(fmt("n=%zu m=%zu", n, m));
}
