#include "conv_common.hpp"
#include <neo/complex.hpp>
#include <neo/container.hpp>
template<typename I>
void schedule(Src& s)
{
    bool const wide  = s.chance(1, 6000);
    bool const late  = !wide && s.chance(1, 8000);
    auto const n     = wide ? s.size(65537, 66000) : late ? s.size(1, 4) : s.chance(1, 400) ? s.size(100, 600) : s.chance(1, 10) ? s.size(1, 100) : s.size(1, 9);
    auto const steps = wide ? s.size(2, 5) : late ? s.size(65537, 66000) : s.chance(1, 60) && n < 10 ? s.size(100, 700) : s.size(1, 3 * n + 5);
    auto idx         = cv::fdl_index<I>{static_cast<I>(n)};
    s.note(fmt("segments=%zu steps=%zu", n, steps));
    s.nontrivial(n >= 2 && steps > n);
    std::vector<long> written(n, -1);  // step at which each slot was written
    long step = 0;
    for (std::size_t t = 0; t < steps; ++t) {
        if (!late && s.chance(1, 40)) {
            idx.reset();
            written.assign(n, -1);
            step = 0;
            s.note(fmt("reset before step %zu", t));
        }
        std::size_t inserts = 0;
        std::vector<int> used(n, 0);
        std::vector<int> slots(n, 0);
        idx(
            [&](I slot) {
                ++inserts;
                PBT_REQUIRE(static_cast<std::size_t>(slot) < n, "write to slot %zu of %zu", static_cast<std::size_t>(slot), n);
                written[static_cast<std::size_t>(slot)] = step;
            },
            [&](I slot, I part) {
                PBT_REQUIRE(inserts == 1, "%zu inserts before the first pairing", inserts);
                auto const sl = static_cast<std::size_t>(slot);
                auto const pt = static_cast<std::size_t>(part);
                PBT_REQUIRE(sl < n && pt < n, "pairing of slot %zu with partition %zu", sl, pt);
                ++used[pt];
                ++slots[sl];
                long const want = step - static_cast<long>(pt);
                PBT_REQUIRE(want < 0 ? written[sl] < 0 : written[sl] == want, "step %ld: partition %zu got the block of step %ld", step, pt, written[sl]);
            }
        );
        PBT_REQUIRE(inserts == 1, "%zu inserts in a step", inserts);
        for (std::size_t i = 0; i < n; ++i) { PBT_REQUIRE(used[i] == 1 && slots[i] == 1, "step %ld: partition %zu used %d times, slot %zu %d times", step, i, used[i], i, slots[i]); }
        ++step;
    }
}
// model based: slots of a delay line
template<typename C, typename Fdl, bool Split>
void slots(Src& s)
{
    using F         = base_t<C>;
    bool const big  = s.chance(1, 200);
    bool const tall = big && s.chance(1, 3);
    auto const rows = tall ? s.chance(1, 30) ? s.size(65537, 65600) : s.size(257, 600) : big ? s.size(1, 40) : s.size(1, 8);
    auto const cols = tall ? s.size(1, 3) : big ? s.chance(1, 100) ? s.size(65530, 66000) : s.size(70, 2100) : s.len(1, 70);
    auto fdl        = Fdl{stdex::dextents<std::size_t, 2>{rows, cols}};
    std::vector<std::vector<C>> model(rows, std::vector<C>(cols, C(0, 0)));
    auto const steps = s.size(1, 12);
    s.note(fmt("%zux%zu steps=%zu", rows, cols, steps));
    auto verify = [&] {
        for (std::size_t r = 0; r < rows; ++r) {
            if constexpr (Split) {
                auto const row = fdl[r];
                PBT_REQUIRE(row.real.extent(0) == cols && row.imag.extent(0) == cols, "row length");
                for (std::size_t c = 0; c < cols; ++c) { PBT_REQUIRE(row.real[c] == model[r][c].real() && row.imag[c] == model[r][c].imag(), "slot %zu, element %zu", r, c); }
            } else {
                auto const row = fdl[static_cast<int>(r)];
                PBT_REQUIRE(row.extent(0) == cols, "row length");
                for (std::size_t c = 0; c < cols; ++c) { PBT_REQUIRE(row[c].real() == model[r][c].real() && row[c].imag() == model[r][c].imag(), "slot %zu, element %zu is (%g,%g) instead of (%g,%g)", r, c, double(row[c].real()), double(row[c].imag()), double(model[r][c].real()), double(model[r][c].imag())); }
            }
        }
    };
    verify();
    for (std::size_t t = 0; t < steps; ++t) {
        auto const r = tall && s.flag() ? rows - 1 - s.size(0, 2) : s.size(0, rows - 1);
        auto const x = gen_vec<C>(s, cols);
        Buf<C> in{x, s.size(1, 2), 2};
        if (in.stride == 1 && s.flag()) {
            fdl.insert(in.cview(), r);
        } else {
            fdl.insert(in.sview(), r);
        }
        if (!same(in.get(), x)) { PBT_FAIL("insert changed its input"); }
        model[r] = x;
        if (s.chance(1, 6)) {
            auto copy = fdl;
            fdl       = copy;
        }
        verify();
    }
    s.nontrivial(rows >= 2 && steps >= 2);
    (void)sizeof(F);
}
// a delay line with more slots than 16 bits can number
template<typename C, typename Fdl, bool Split>
void tall(Src& s)
{
    auto const rows = s.size(65537, 65800);
    auto const cols = s.size(1, 2);
    auto fdl        = Fdl{stdex::dextents<std::size_t, 2>{rows, cols}};
    std::vector<C> model(rows * cols, C(0, 0));
    s.note(fmt("%zux%zu", rows, cols));
    s.nontrivial(true);
    pbt::Rng rng{s.below(1 << 20)};
    for (std::size_t r = 0; r < rows; r += rows - r > 300 ? 1 + rng.next() % 700 : 1) {
        std::vector<C> x(cols);
        for (auto& v : x) { v = C(base_t<C>(rng.sym()), base_t<C>(rng.sym())); }
        Buf<C> in{x, 1, 1};
        fdl.insert(in.cview(), r);
        for (std::size_t c = 0; c < cols; ++c) { model[r * cols + c] = x[c]; }
    }
    for (std::size_t r = 0; r < rows; ++r) {
        for (std::size_t c = 0; c < cols; ++c) {
            C got;
            if constexpr (Split) {
                got = C(fdl[r].real[c], fdl[r].imag[c]);
            } else {
                got = fdl[static_cast<int>(r)][c];
            }
            PBT_REQUIRE(got.real() == model[r * cols + c].real() && got.imag() == model[r * cols + c].imag(), "slot %zu, element %zu", r, c);
        }
    }
}
template<typename C, typename Int>
void compressed(Src& s)
{
    using F         = base_t<C>;
    using IC        = neo::scalar_complex<Int>;
    bool const big  = s.chance(1, 200);
    bool const tall = big && s.chance(1, 3);
    auto const rows = tall ? s.chance(1, 30) ? s.size(65537, 65600) : s.size(257, 600) : big ? s.size(1, 40) : s.size(1, 5);
    auto const cols = tall ? s.size(1, 2) : big ? s.chance(1, 100) ? s.size(65530, 66000) : s.size(40, 2100) : s.len(1, 40);
    auto fdl        = cv::compressed_fdl<C, IC>{stdex::dextents<std::size_t, 2>{rows, cols}};
    std::vector<std::vector<C>> model(rows, std::vector<C>(cols, C(0, 0)));
    long double const mx   = std::numeric_limits<Int>::max();
    long double const tol  = 0.5L / mx + 4.0L * std::numeric_limits<float>::epsilon();
    auto const steps       = s.size(1, 8);
    s.note(fmt("%d-bit %zux%zu steps=%zu", int(8 * sizeof(Int)), rows, cols, steps));
    for (std::size_t t = 0; t <= steps; ++t) {
        for (std::size_t r = 0; r < rows; ++r) {
            auto const row = fdl[r];
            PBT_REQUIRE(row.extent(0) == cols, "row length %zu", std::size_t(row.extent(0)));
            for (std::size_t c = 0; c < cols; ++c) {
                C const v = row[c];
                require_close(v.real(), model[r][c].real(), tol, fmt("slot %zu, element %zu, real", r, c).c_str());
                require_close(v.imag(), model[r][c].imag(), tol, fmt("slot %zu, element %zu, imag", r, c).c_str());
            }
        }
        if (t == steps) { break; }
        auto const r = tall && s.flag() ? rows - 1 - s.size(0, 2) : s.size(0, rows - 1);
        std::vector<C> x(cols);
        pbt::Rng rng{s.below(0)};
        for (auto& v : x) {
            auto one = [&]() -> F {
                switch (rng.next() % 6) {
                    case 0: return F(1);
                    case 1: return F(-1);
                    case 2: return F(double(std::int64_t(rng.next() % std::uint64_t(2 * mx + 1)) - std::int64_t(mx)) / double(mx));
                    case 3: return F(rng.sym() * 0.01);
                    default: return F(rng.sym());
                }
            };
            auto const re = cols <= 4 && s.flag() ? F(double(s.range(0, 2000)) / 1000.0 - 1.0) : one();
            v             = C(re, one());
        }
        Buf<C> in{x, s.size(1, 2), 2};
        fdl.insert(in.sview(), r);
        model[r] = x;
    }
    s.nontrivial(steps >= 1);
}
template<typename F, typename Int>
void accessor(Src& s)
{
    auto const n = s.len(1, 60);
    std::vector<Int> v(n);
    for (auto& x : v) { x = static_cast<Int>(s.range(std::numeric_limits<Int>::min(), std::numeric_limits<Int>::max())); }
    using E   = stdex::dextents<std::size_t, 1>;
    using Acc = neo::compressed_accessor<F, stdex::default_accessor<Int>>;
    stdex::mdspan<F, E, stdex::layout_right, Acc> view{v.data(), stdex::layout_right::mapping<E>{E{n}}, Acc{stdex::default_accessor<Int>{}}};
    s.note(fmt("accessor %d-bit n=%zu", int(8 * sizeof(Int)), n));
    s.nontrivial(n > 1);
    for (std::size_t i = 0; i < n; ++i) { require_close(view(i), static_cast<long double>(v[i]) / std::numeric_limits<Int>::max(), 4.0L * eps<F>(), fmt("element %zu", i).c_str()); }
}
PBT_CHECK_T(i1, "schedule_size_t", 4000, 60000, schedule<std::size_t>)
PBT_CHECK_T(i2, "schedule_int", 4000, 60000, schedule<int>)
PBT_CHECK_T(i3, "schedule_u32", 2000, 60000, schedule<std::uint32_t>)
PBT_CHECK_T(s1, "dense_f", 1500, 20000, slots<std::complex<float>, cv::dense_fdl<std::complex<float>>, false>)
PBT_CHECK_T(s2, "dense_d", 1500, 20000, slots<std::complex<double>, cv::dense_fdl<std::complex<double>>, false>)
PBT_CHECK_T(s3, "dense_c64", 1000, 20000, slots<neo::complex64, cv::dense_fdl<neo::complex64>, false>)
PBT_CHECK_T(s4, "split_f", 1500, 20000, slots<std::complex<float>, cv::dense_split_fdl<float>, true>)
PBT_CHECK_T(s5, "split_d", 1500, 20000, slots<std::complex<double>, cv::dense_split_fdl<double>, true>)
PBT_CHECK_T(c1, "compressed_c64_8", 1500, 20000, compressed<neo::complex64, std::int8_t>)
PBT_CHECK_T(c2, "compressed_c64_16", 1500, 20000, compressed<neo::complex64, std::int16_t>)
PBT_CHECK_T(c3, "compressed_cf_8", 1500, 20000, compressed<std::complex<float>, std::int8_t>)
PBT_CHECK_T(c4, "compressed_cf_16", 1500, 20000, compressed<std::complex<float>, std::int16_t>)
PBT_CHECK_T(a1, "accessor_8", 1000, 10000, accessor<float, std::int8_t>)
PBT_CHECK_T(a2, "accessor_16", 1000, 10000, accessor<double, std::int16_t>)
PBT_CHECK_T(t1, "dense_tall", 1, 10, tall<std::complex<float>, cv::dense_fdl<std::complex<float>>, false>)
PBT_CHECK_T(t2, "split_tall", 1, 10, tall<std::complex<float>, cv::dense_split_fdl<float>, true>)
