#include "mat.hpp"
#include <neo/container.hpp>
#include <map>
template<typename T, typename I>
void csr(Src& s)
{
    auto rows = s.size(0, s.chance(1, 10) ? 30 : 7);
    auto cols = s.size(0, s.chance(1, 10) ? 30 : 7);
    auto const large = s.chance(1, 150);
    if (large) {
        (s.flag() ? rows : cols) = s.len(30, 700);
        if (s.chance(1, 200)) {
            rows = s.size(65537, 65800), cols = s.size(1, 2);
            if (s.flag()) { std::swap(rows, cols); }
        }
    }
    std::map<std::pair<std::size_t, std::size_t>, T> model;
    using M = neo::csr_matrix<T, I>;
    auto nonzero = [](T v) { return !(to_cx(v).re == 0 && to_cx(v).im == 0); };
    auto check = [&](M const& m) {
        PBT_REQUIRE(m.rows() == rows && m.columns() == cols && m.extent(0) == rows && m.extent(1) == cols && m.size() == rows * cols, "extents %zux%zu", std::size_t(m.rows()), std::size_t(m.columns()));
        PBT_REQUIRE(static_cast<std::size_t>(m.extents().extent(0)) == rows && static_cast<std::size_t>(m.extents().extent(1)) == cols, "extents()");
        for (std::size_t r = 0; r < rows; ++r) {
            for (std::size_t c = 0; c < cols; ++c) {
                auto it       = model.find({r, c});
                T const want  = it == model.end() ? T{} : it->second;
                T const got   = m(static_cast<I>(r), static_cast<I>(c));
                if (std::memcmp(&want, &got, sizeof(T)) != 0) { PBT_FAIL("(%zu,%zu) reads as (%g,%g) instead of (%g,%g)", r, c, double(to_cx(got).re), double(to_cx(got).im), double(to_cx(want).re), double(to_cx(want).im)); }
            }
        }
        auto const& v  = m.value_container();
        auto const& ci = m.column_container();
        auto const& ri = m.row_container();
        PBT_REQUIRE(v.size() == model.size() && ci.size() == model.size(), "%zu values and %zu columns stored for %zu entries", v.size(), ci.size(), model.size());
        PBT_REQUIRE(ri.size() == rows + 1, "%zu row offsets for %zu rows", ri.size(), rows);
        std::size_t i = 0;
        std::size_t r = 0;
        PBT_REQUIRE(static_cast<std::size_t>(ri[0]) == 0, "first row offset");
        for (auto const& [pos, val] : model) {  // row by row, ascending columns
            while (r < pos.first) {
                ++r;
                PBT_REQUIRE(static_cast<std::size_t>(ri[r]) == i, "offset of row %zu is %zu instead of %zu", r, static_cast<std::size_t>(ri[r]), i);
            }
            PBT_REQUIRE(static_cast<std::size_t>(ci[i]) == pos.second, "column of entry %zu is %zu instead of %zu", i, static_cast<std::size_t>(ci[i]), pos.second);
            PBT_REQUIRE(std::memcmp(&v[i], &val, sizeof(T)) == 0, "value of entry %zu", i);
            ++i;
        }
        while (r < rows) {
            ++r;
            PBT_REQUIRE(static_cast<std::size_t>(ri[r]) == i, "offset of row %zu is %zu instead of %zu", r, static_cast<std::size_t>(ri[r]), i);
        }
    };
    M m{rows, cols};
    auto const built = s.below(4) != 0;
    s.note(fmt("%zux%zu %s", rows, cols, built ? "from dense" : "empty"));
    if (built) {
        auto const vals = gen_vec<T>(s, rows * cols);
        std::vector<char> keep(rows * cols, 1);
        auto const rule = s.below(5);
        if (rule == 1) {
            for (std::size_t i = 0; i < keep.size(); ++i) { keep[i] = nonzero(vals[i]) ? 1 : 0; }
        }
        if (rule == 2) {
            pbt::Rng r{s.below(1 << 16)};
            auto const most = s.flag();
            for (auto& k : keep) { k = most ? r.next() % 100 != 0 : r.next() % 3 == 0; }
        }
        if (rule == 3) { keep.assign(keep.size(), 0); }
        if (rule == 4) {
            for (std::size_t i = 0; i < rows; ++i) {
                auto const on = s.flag();
                for (std::size_t j = 0; j < cols; ++j) { keep[i * cols + j] = on ? 1 : 0; }
            }
        }
        Mat<T> dense{rows, cols, vals, int(s.below(3))};
        s.note(fmt("%s rule=%d values=%s", layout_name(dense.layout), int(rule), show(vals, 8).c_str()));
        dense.with([&](auto view) {
            m = M{view, [&](I r, I c, T v) {
                      PBT_REQUIRE(static_cast<std::size_t>(r) < rows && static_cast<std::size_t>(c) < cols, "rule asked for (%zu,%zu)", static_cast<std::size_t>(r), static_cast<std::size_t>(c));
                      auto const i = static_cast<std::size_t>(r) * cols + static_cast<std::size_t>(c);
                      PBT_REQUIRE(std::memcmp(&v, &vals[i], sizeof(T)) == 0, "rule asked for (%zu,%zu) with another value", static_cast<std::size_t>(r), static_cast<std::size_t>(c));
                      return keep[i] != 0;
                  }};
        });
        dense.check("dense matrix");
        if (!same(dense.get(), vals)) { PBT_FAIL("the dense matrix changed"); }
        for (std::size_t i = 0; i < keep.size(); ++i) {
            if (keep[i]) { model[{i / cols, i % cols}] = vals[i]; }
        }
    }
    check(m);
    auto const inserts = rows * cols == 0 ? 0 : s.size(0, rows * cols > 60000 ? 3 : large ? 6 : s.chance(1, 60) ? 150 : 12);
    std::size_t done   = 0;
    for (std::size_t i = 0; i < inserts; ++i) {
        auto const r = large && s.flag() ? rows - 1 - s.size(0, std::min<std::size_t>(rows - 1, 200)) : s.size(0, rows - 1);
        auto const c = large && s.flag() ? cols - 1 - s.size(0, std::min<std::size_t>(cols - 1, 200)) : s.size(0, cols - 1);
        if (model.count({r, c}) != 0) { continue; }
        T const v = gen_vec<T>(s, 1)[0];
        s.note(fmt("insert (%zu,%zu)", r, c));
        m.insert(static_cast<I>(r), static_cast<I>(c), v);
        model[{r, c}] = v;
        ++done;
        check(m);
        if (s.chance(1, 8)) {
            auto copy = m;
            m         = std::move(copy);
        }
    }
    s.nontrivial(!model.empty() && rows >= 2);
    s.label(done > 1 ? "several inserts" : "built");
}
// more rows, columns and entries than 16 bits can number
template<typename T, typename I>
void tall(Src& s)
{
    auto rows = s.size(65537, 65900);
    auto cols = s.size(1, 2);
    if (s.flag()) { std::swap(rows, cols); }
    auto const total = rows * cols;
    pbt::Rng rng{s.below(1 << 20)};
    std::vector<T> vals(total);
    std::vector<T> want(total, T{});
    std::vector<char> keep(total, 1);
    for (auto& v : vals) { v = static_cast<T>(rng.sym()); }
    auto const gaps = s.size(1, 6);
    for (std::size_t g = 0; g < gaps; ++g) { keep[total - 1 - (s.flag() ? rng.next() % 300 : rng.next() % total)] = 0; }
    for (std::size_t edge : {255, 256, 257, 4096, 32767, 32768, 65534, 65535, 65536}) {
        if (s.chance(5, 6)) { keep[edge] = 0; }
    }
    s.note(fmt("%zux%zu, %zu gaps", rows, cols, gaps));
    s.nontrivial(true);
    stdex::mdspan<T, stdex::dextents<std::size_t, 2>> dense{vals.data(), rows, cols};
    neo::csr_matrix<T, I> m{dense, [&](I r, I c, T) { return keep[static_cast<std::size_t>(r) * cols + static_cast<std::size_t>(c)] != 0; }};
    for (std::size_t i = 0; i < total; ++i) {
        if (keep[i]) { want[i] = vals[i]; }
    }
    auto check = [&](std::size_t step, std::size_t from) {
        for (std::size_t i = from; i < total; ++i) {
            auto const got = m(static_cast<I>(i / cols), static_cast<I>(i % cols));
            PBT_REQUIRE(got == want[i], "after %zu insertions (%zu,%zu) reads as %g instead of %g", step, i / cols, i % cols, double(got), double(want[i]));
        }
    };
    bool const wide = cols > 2;  // finding a column is linear in its row
    check(0, wide ? total - 300 : 0);
    std::size_t step = 0;
    for (std::size_t i = 0; i < total; ++i) {
        if (keep[i]) { continue; }
        want[i] = vals[i];
        m.insert(static_cast<I>(i / cols), static_cast<I>(i % cols), vals[i]);
        check(++step, total - 300);
    }
    check(step, wide ? total - 300 : 0);
    PBT_REQUIRE(m.value_container().size() == total && m.column_container().size() == total && m.row_container().size() == rows + 1, "containers");
    for (std::size_t i = 0; i < total; ++i) { PBT_REQUIRE(m.value_container()[i] == vals[i] && static_cast<std::size_t>(m.column_container()[i]) == i % cols, "entry %zu", i); }
    for (std::size_t r = 0; r <= rows; ++r) { PBT_REQUIRE(static_cast<std::size_t>(m.row_container()[r]) == r * cols, "offset of row %zu", r); }
}
// a million entries
template<typename T, typename I>
void million(Src& s)
{
    auto const rows = s.size(1100, 1300);
    auto const cols = s.size(1000, 1100);
    pbt::Rng rng{s.below(1 << 20)};
    std::vector<T> vals(rows * cols);
    std::vector<char> keep(rows * cols);
    for (auto& v : vals) { v = static_cast<T>(rng.sym()); }
    for (auto& k : keep) { k = rng.next() % 64 != 0 ? 1 : 0; }
    s.note(fmt("%zux%zu", rows, cols));
    s.nontrivial(true);
    stdex::mdspan<T, stdex::dextents<std::size_t, 2>> dense{vals.data(), rows, cols};
    neo::csr_matrix<T, I> m{dense, [&](I r, I c, T) { return keep[static_cast<std::size_t>(r) * cols + static_cast<std::size_t>(c)] != 0; }};
    auto const& v  = m.value_container();
    auto const& ci = m.column_container();
    auto const& ri = m.row_container();
    std::size_t k  = 0;
    PBT_REQUIRE(ri.size() == rows + 1, "row offsets");
    for (std::size_t r = 0; r < rows; ++r) {
        PBT_REQUIRE(static_cast<std::size_t>(ri[r]) == k, "offset of row %zu is %zu instead of %zu", r, static_cast<std::size_t>(ri[r]), k);
        for (std::size_t c = 0; c < cols; ++c) {
            if (keep[r * cols + c] == 0) { continue; }
            PBT_REQUIRE(k < v.size() && k < ci.size() && v[k] == vals[r * cols + c] && static_cast<std::size_t>(ci[k]) == c, "entry %zu of row %zu", k, r);
            ++k;
        }
    }
    PBT_REQUIRE(static_cast<std::size_t>(ri[rows]) == k && v.size() == k && ci.size() == k, "%zu entries stored of %zu", v.size(), k);
    for (int i = 0; i < 3000; ++i) {
        auto const r    = i % 3 == 0 ? rows - 1 - rng.next() % 5 : rng.next() % rows;
        auto const c    = rng.next() % cols;
        auto const want = keep[r * cols + c] != 0 ? vals[r * cols + c] : T{};
        auto const got  = m(static_cast<I>(r), static_cast<I>(c));
        PBT_REQUIRE(got == want, "(%zu,%zu) reads as %g instead of %g", r, c, double(got), double(want));
    }
    for (int i = 0; i < 20; ++i) {
        auto const r = i % 3 == 0 ? rows - 1 : rng.next() % rows;
        auto const c = rng.next() % cols;
        if (keep[r * cols + c] != 0) { continue; }
        m.insert(static_cast<I>(r), static_cast<I>(c), vals[r * cols + c]);
        keep[r * cols + c] = 1;
        for (auto x : {c > 0 ? c - 1 : c, c, c + 1 < cols ? c + 1 : c}) {
            auto const want = keep[r * cols + x] != 0 ? vals[r * cols + x] : T{};
            PBT_REQUIRE(m(static_cast<I>(r), static_cast<I>(x)) == want, "after inserting (%zu,%zu), (%zu,%zu) reads wrongly", r, c, r, x);
        }
    }
}
PBT_CHECK_T(a1, "float_size_t", 4000, 60000, csr<float, std::size_t>)
PBT_CHECK_T(a2, "double_u32", 4000, 60000, csr<double, std::uint32_t>)
PBT_CHECK_T(a3, "cf_size_t", 4000, 60000, csr<std::complex<float>, std::size_t>)
PBT_CHECK_T(a4, "cd_int", 4000, 60000, csr<std::complex<double>, int>)
PBT_CHECK_T(t1, "tall_f", 1, 20, tall<float, std::size_t>)
PBT_CHECK_T(t2, "tall_d", 1, 20, tall<double, std::uint32_t>)
PBT_CHECK_T(m1, "million_f", 1, 5, million<float, std::size_t>)
PBT_CHECK_T(m2, "million_d", 1, 5, million<double, std::uint32_t>)
