#include "mat.hpp"
#include <neo/algorithm.hpp>
#include <neo/complex.hpp>
#include <neo/container.hpp>

namespace {
using oracle::cplx;

void require_fma(cplx g, cplx x, cplx y, cplx z, long double e, std::size_t i, char const* what)
{
    auto const re  = x.re * y.re - x.im * y.im + z.re;
    auto const im  = x.re * y.im + x.im * y.re + z.im;
    auto const tol = 6 * e * (std::hypot(x.re, x.im) * std::hypot(y.re, y.im) + std::hypot(z.re, z.im)) + 1e-44L;
    if (!(std::fabs(g.re - re) <= tol && std::fabs(g.im - im) <= tol)) {
        PBT_FAIL("%s [%zu]: (%.9Lg,%.9Lg)*(%.9Lg,%.9Lg)+(%.9Lg,%.9Lg) gave (%.9Lg,%.9Lg) instead of (%.9Lg,%.9Lg)", what, i, x.re, x.im, y.re, y.im, z.re, z.im, g.re, g.im, re, im);
    }
}

// which of x, y, z the destination is, and which operands coincide
struct Alias
{
    int x, y, z, o;  // buffer numbers
    char const* name;
};
constexpr Alias aliases[] = {
    {0, 1, 2, 3, "separate"}, {0, 1, 2, 2, "out=z"}, {0, 1, 2, 0, "out=x"}, {0, 1, 2, 1, "out=y"}, {0, 0, 2, 3, "x=y"}, {0, 0, 0, 0, "all the same"}, {0, 1, 0, 0, "out=x=z"}, {0, 0, 2, 0, "out=x=y"},
};

std::size_t gen_n(Src& s) { return s.chance(1, 4) ? gen_length(s, 0, 600) : s.size(0, 70); }

template<typename T>
void vec(Src& s)
{
    auto const n      = gen_n(s);
    auto const al     = aliases[s.below(std::size(aliases))];
    auto const layout = s.below(3);  // 0 contiguous, 1 strided, 2 mixed
    std::vector<std::vector<T>> v;
    std::vector<Buf<T>> b;
    auto const st = s.size(2, 3);
    for (int i = 0; i < 4; ++i) {
        v.push_back(gen_vec<T>(s, n));
        b.emplace_back(v.back(), layout == 0 ? 1 : layout == 1 ? st : (i == al.o ? 1 : i % 2 == 0 ? st : 1), s.size(0, 9));
    }
    s.note(fmt("%s n=%zu %s layout %d offsets %zu,%zu,%zu,%zu", type_name<T>(), n, al.name, int(layout), b[0].pad, b[1].pad, b[2].pad, b[3].pad));
    s.label(fmt("%s %s", layout == 0 ? "contiguous" : layout == 1 ? "strided" : "mixed", al.name));
    s.nontrivial(n >= 2 && to_cx(v[0][0]).re != 0);
    if (layout == 0) {
        neo::multiply_add(b[al.x].view(), b[al.y].cview(), b[al.z].view(), b[al.o].view());
    } else {
        neo::multiply_add(b[al.x].sview(), b[al.y].sview(), b[al.z].sview(), b[al.o].sview());
    }
    auto const got = b[al.o].get();
    for (std::size_t i = 0; i < n; ++i) { require_fma(to_cx(got[i]), to_cx(v[al.x][i]), to_cx(v[al.y][i]), to_cx(v[al.z][i]), eps<T>(), i, "out"); }
    for (int i = 0; i < 4; ++i) {
        b[i].check("operand");
        if (i != al.o) { require_same(v[i], b[i].get(), "other operand"); }
    }
}

// contiguous (vectorised where there is a path) against strided (element-wise)
template<typename T>
void split(Src& s)
{
    auto const n      = gen_n(s);
    auto const al     = aliases[s.below(std::size(aliases))];
    auto const layout = s.below(3);
    auto const st     = layout == 0 ? std::size_t(1) : s.size(2, 3);
    std::vector<std::vector<T>> v;  // re, im of four operands
    std::vector<Buf<T>> b;
    for (int i = 0; i < 8; ++i) {
        v.push_back(gen_vec<T>(s, n));
        b.emplace_back(v.back(), layout == 2 && i / 2 != al.o ? 1 : st, s.size(0, 9));
    }
    s.note(fmt("split %s n=%zu %s layout %d", type_name<T>(), n, al.name, int(layout)));
    s.label(fmt("split %s %s", layout == 0 ? "contiguous" : layout == 1 ? "strided" : "mixed", al.name));
    s.nontrivial(n >= 2 && v[0][0] != 0);
    auto cv = [&](int i) { return neo::split_complex{b[2 * i].view(), b[2 * i + 1].view()}; };
    auto cc = [&](int i) { return neo::split_complex{b[2 * i].cview(), b[2 * i + 1].cview()}; };
    auto sv = [&](int i) { return neo::split_complex{b[2 * i].sview(), b[2 * i + 1].sview()}; };
    if (layout == 0) {
        neo::multiply_add(cv(al.x), cc(al.y), cv(al.z), cv(al.o));
    } else {
        neo::multiply_add(sv(al.x), sv(al.y), sv(al.z), sv(al.o));
    }
    auto at = [&](int op, std::size_t i) { return cplx{static_cast<long double>(v[2 * op][i]), static_cast<long double>(v[2 * op + 1][i])}; };
    auto const re = b[2 * al.o].get();
    auto const im = b[2 * al.o + 1].get();
    for (std::size_t i = 0; i < n; ++i) { require_fma(cplx{static_cast<long double>(re[i]), static_cast<long double>(im[i])}, at(al.x, i), at(al.y, i), at(al.z, i), eps<T>(), i, "out"); }
    for (int i = 0; i < 8; ++i) {
        b[i].check("operand");
        if (i / 2 != al.o) { require_same(v[i], b[i].get(), "other operand"); }
    }
}

// one of the operands seen through another kind of view than the others
template<typename T>
void odd(Src& s)
{
    auto const n    = gen_n(s);
    auto const w    = static_cast<int>(s.below(4));
    auto const kind = static_cast<int>(s.below(w == 3 ? odd_out : odd_in));
    std::vector<std::vector<T>> v;
    std::vector<Buf<T>> b;
    for (int i = 0; i < 4; ++i) {
        v.push_back(gen_vec<T>(s, n));
        b.emplace_back(v.back(), i == w && odd_strided(kind) ? s.size(2, 3) : 1, s.size(0, 9));
    }
    s.note(fmt("%s n=%zu, %s %s", type_name<T>(), n, w == 0 ? "x" : w == 1 ? "y" : w == 2 ? "z" : "out", odd_name(kind)));
    s.label(odd_name(kind));
    s.nontrivial(n >= 2 && to_cx(v[0][0]).re != 0);
    switch (w) {
        case 0: with_odd<true>(b[0], kind, [&](auto x) { neo::multiply_add(x, b[1].cview(), b[2].view(), b[3].view()); }); break;
        case 1: with_odd<true>(b[1], kind, [&](auto y) { neo::multiply_add(b[0].cview(), y, b[2].view(), b[3].view()); }); break;
        case 2: with_odd<true>(b[2], kind, [&](auto z) { neo::multiply_add(b[0].cview(), b[1].view(), z, b[3].view()); }); break;
        default: with_odd<false>(b[3], kind, [&](auto o) { neo::multiply_add(b[0].cview(), b[1].view(), b[2].view(), o); }); break;
    }
    auto const got = b[3].get();
    auto at        = [&](int i) { return i == w ? odd_values(v[i], kind) : v[i]; };
    auto const x = at(0), y = at(1), z = at(2);
    for (std::size_t i = 0; i < n; ++i) { require_fma(to_cx(got[i]), to_cx(x[i]), to_cx(y[i]), to_cx(z[i]), eps<T>(), i, "out"); }
    for (int i = 0; i < 4; ++i) {
        b[i].check("operand");
        if (i != 3) { require_same(v[i], b[i].get(), "other operand"); }
    }
}

template<typename T>
void odd_split(Src& s)
{
    auto const n    = gen_n(s);
    auto const w    = static_cast<int>(s.below(4));
    auto const kind = static_cast<int>(s.below(w == 3 ? odd_out : odd_in));
    std::vector<std::vector<T>> v;
    std::vector<Buf<T>> b;
    for (int i = 0; i < 8; ++i) {
        v.push_back(gen_vec<T>(s, n));
        b.emplace_back(v.back(), i / 2 == w && odd_strided(kind) ? s.size(1, 4) : 1, s.size(0, 9));
    }
    s.note(fmt("split %s n=%zu, %s %s (strides %zu, %zu)", type_name<T>(), n, w == 0 ? "x" : w == 1 ? "y" : w == 2 ? "z" : "out", odd_name(kind), b[2 * w].stride, b[2 * w + 1].stride));
    s.label(odd_name(kind));
    s.nontrivial(n >= 2 && v[0][0] != 0);
    auto u    = [&](int i) { return neo::split_complex{b[2 * i].view(), b[2 * i + 1].view()}; };
    auto pair = [&]<bool In>(std::bool_constant<In>, auto fn) {
        with_odd2<In>(b[2 * w], b[2 * w + 1], kind, [&](auto re, auto im) { fn(neo::split_complex{re, im}); });
    };
    switch (w) {
        case 0: pair(std::true_type{}, [&](auto x) { neo::multiply_add(x, u(1), u(2), u(3)); }); break;
        case 1: pair(std::true_type{}, [&](auto y) { neo::multiply_add(u(0), y, u(2), u(3)); }); break;
        case 2: pair(std::true_type{}, [&](auto z) { neo::multiply_add(u(0), u(1), z, u(3)); }); break;
        default: pair(std::false_type{}, [&](auto o) { neo::multiply_add(u(0), u(1), u(2), o); }); break;
    }
    long double const neg = kind == 5 ? -1 : 1;
    auto at = [&](int op, std::size_t i) { return cplx{(op == w ? neg : 1) * static_cast<long double>(v[2 * op][i]), (op == w ? neg : 1) * static_cast<long double>(v[2 * op + 1][i])}; };
    auto const re = b[6].get();
    auto const im = b[7].get();
    for (std::size_t i = 0; i < n; ++i) { require_fma(cplx{static_cast<long double>(re[i]), static_cast<long double>(im[i])}, at(0, i), at(1, i), at(2, i), eps<T>(), i, "out"); }
    for (int i = 0; i < 8; ++i) {
        b[i].check("operand");
        if (i / 2 != 3) { require_same(v[i], b[i].get(), "other operand"); }
    }
}

// real and imaginary parts of different precision: z and out in double, x and y in float
void split_mixed(Src& s)
{
    auto const n = gen_n(s);
    std::vector<std::vector<float>> v;
    std::vector<Buf<float>> b;
    for (int i = 0; i < 4; ++i) {
        v.push_back(gen_vec<float>(s, n));
        b.emplace_back(v.back());
    }
    auto const zr = gen_vec<double>(s, n);
    auto const zi = gen_vec<double>(s, n);
    Buf<double> br(zr), bi(zi);
    s.note(fmt("split float*float+double n=%zu", n));
    s.nontrivial(n >= 2 && v[0][0] != 0);
    neo::multiply_add(neo::split_complex{b[0].cview(), b[1].cview()}, neo::split_complex{b[2].cview(), b[3].cview()}, neo::split_complex{br.view(), bi.view()}, neo::split_complex{br.view(), bi.view()});
    auto const re = br.get();
    auto const im = bi.get();
    for (std::size_t i = 0; i < n; ++i) {
        require_fma(cplx{static_cast<long double>(re[i]), static_cast<long double>(im[i])}, cplx{v[0][i], v[1][i]}, cplx{v[2][i], v[3][i]}, cplx{static_cast<long double>(zr[i]), static_cast<long double>(zi[i])}, eps<float>(), i, "out");
    }
}

template<typename T, typename I>
void sparse(Src& s)
{
    auto const n    = s.chance(1, 4) ? gen_length(s, 0, 120, 9000) : s.size(0, 24);
    auto const rows = n < 2500 ? s.size(1, 6) : s.size(1, 2);
    auto const vals = gen_vec<T>(s, rows * n);
    std::vector<char> keep(rows * n, 1);
    auto const rule = s.below(4);
    if (rule != 0) {
        pbt::Rng r{s.below(1 << 16)};
        for (auto& k : keep) { k = r.next() % (rule + 1) == 0 ? 1 : 0; }
    }
    Mat<T> dense(rows, n, vals, static_cast<int>(s.below(3)));
    auto const m = dense.with([&](auto d) { return neo::csr_matrix<T, I>{d, [&](auto r, auto c, auto) { return keep[static_cast<std::size_t>(r) * n + static_cast<std::size_t>(c)] != 0; }}; });
    auto const xv = gen_vec<T>(s, n);
    auto zv       = gen_vec<T>(s, n);
    Buf<T> x(xv, s.size(1, 2), s.size(0, 3));
    Buf<T> z(zv, s.size(1, 2), s.size(0, 3));
    auto const steps = s.size(1, 4);
    s.note(fmt("%s sparse %zux%zu keep 1/%d, %zu rows added", type_name<T>(), rows, n, int(rule == 0 ? 1 : rule + 1), steps));
    s.nontrivial(n >= 2 && std::count(keep.begin(), keep.end(), 1) > 0);
    for (std::size_t k = 0; k < steps; ++k) {
        auto const row = s.size(0, rows - 1);
        if (x.stride == 1 && z.stride == 1) {
            neo::multiply_add(x.cview(), m, static_cast<I>(row), z.view(), z.view());
        } else {
            neo::multiply_add(x.sview(), m, static_cast<I>(row), z.sview(), z.sview());
        }
        auto const got = z.get();
        for (std::size_t i = 0; i < n; ++i) {
            if (keep[row * n + i] == 0) {
                if (std::memcmp(&got[i], &zv[i], sizeof(T)) != 0) { PBT_FAIL("column %zu is not stored in row %zu but changed", i, row); }
            } else {
                require_fma(to_cx(got[i]), to_cx(xv[i]), to_cx(vals[row * n + i]), to_cx(zv[i]), eps<T>(), i, "out");
            }
        }
        zv = got;
        x.check("x");
        z.check("z");
        require_same(xv, x.get(), "x");
    }
}
}  // namespace

PBT_CHECK_T(v1, "float", 3000, 60000, vec<float>)
PBT_CHECK_T(v2, "double", 2000, 40000, vec<double>)
PBT_CHECK_T(v3, "cfloat", 4000, 80000, vec<std::complex<float>>)
PBT_CHECK_T(v4, "cdouble", 4000, 80000, vec<std::complex<double>>)
PBT_CHECK_T(v5, "complex64", 1500, 30000, vec<neo::complex64>)
PBT_CHECK_T(s1, "split_float", 4000, 80000, split<float>)
PBT_CHECK_T(s2, "split_double", 4000, 80000, split<double>)
PBT_CHECK_T(s3, "split_mixed", 500, 10000, split_mixed)
PBT_CHECK_T(o1, "odd_float", 1000, 20000, odd<float>)
PBT_CHECK_T(o2, "odd_cfloat", 1000, 20000, odd<std::complex<float>>)
PBT_CHECK_T(o3, "odd_cdouble", 1000, 20000, odd<std::complex<double>>)
PBT_CHECK_T(o4, "odd_split_float", 1500, 30000, odd_split<float>)
PBT_CHECK_T(o5, "odd_split_double", 1500, 30000, odd_split<double>)
PBT_CHECK_T(c1, "csr_float", 1500, 30000, sparse<float, std::size_t>)
PBT_CHECK_T(c2, "csr_cfloat_u32", 1500, 30000, sparse<std::complex<float>, std::uint32_t>)
PBT_CHECK_T(c3, "csr_cdouble", 1500, 30000, sparse<std::complex<double>, std::size_t>)
