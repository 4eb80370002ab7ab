#include "mat.hpp"
#include <neo/algorithm.hpp>
#include <neo/complex.hpp>

namespace {

// reference x op y per element, and whether it has to be exact
template<typename T>
void require_op(std::vector<T> const& got, std::vector<T> const& x, std::vector<T> const& y, char op)
{
    PBT_REQUIRE(got.size() == x.size(), "%zu elements", got.size());
    for (std::size_t i = 0; i < got.size(); ++i) {
        if constexpr (std::is_integral_v<T>) {
            T const want = static_cast<T>(op == '+' ? x[i] + y[i] : x[i] * y[i]);
            PBT_REQUIRE(got[i] == want, "[%zu] %ld %c %ld gave %ld", i, long(x[i]), op, long(y[i]), long(got[i]));
        } else {
            auto const a   = to_cx(x[i]);
            auto const b   = to_cx(y[i]);
            auto const g   = to_cx(got[i]);
            auto const re  = op == '+' ? a.re + b.re : a.re * b.re - a.im * b.im;
            auto const im  = op == '+' ? a.im + b.im : a.re * b.im + a.im * b.re;
            auto const mag = op == '+' ? std::max(std::hypot(a.re, a.im), std::hypot(b.re, b.im)) : std::hypot(a.re, a.im) * std::hypot(b.re, b.im);
            auto const tol = 4 * eps<T>() * mag + 2 * std::numeric_limits<base_t<T>>::denorm_min();
            if constexpr (!is_cx<T>) {
                // infinities, NaN, overflow
                if (!std::isfinite(re) || std::fabs(re) > std::numeric_limits<T>::max()) {
                    bool const near = std::isfinite(re) && std::fabs(re) < std::numeric_limits<T>::max() * (1 + 4 * eps<T>());
                    bool const ok   = std::isnan(re) ? std::isnan(g.re) : std::signbit(g.re) == std::signbit(re) && (std::isinf(g.re) || (near && std::fabs(g.re) >= std::numeric_limits<T>::max() * (1 - 4 * eps<T>())));
                    if (!ok) { PBT_FAIL("[%zu] %.9Lg %c %.9Lg gave %.9Lg instead of %.9Lg", i, a.re, op, b.re, g.re, re); }
                    continue;
                }
            }
            if (!(std::fabs(g.re - re) <= tol && std::fabs(g.im - im) <= tol)) {
                PBT_FAIL("[%zu] (%.9Lg,%.9Lg) %c (%.9Lg,%.9Lg) gave (%.9Lg,%.9Lg) instead of (%.9Lg,%.9Lg)", i, a.re, a.im, op, b.re, b.im, g.re, g.im, re, im);
            }
        }
    }
}

// Values of every class: zeros of both signs, subnormals, the largest and smallest, and, where asked for, infinities and NaN
template<typename B>
B special(pbt::Rng& r, bool nonfinite)
{
    using L        = std::numeric_limits<B>;
    auto const neg = (r.next() & 1) != 0;
    B v{};
    switch (r.next() % (nonfinite ? 10 : 7)) {
        case 0: v = B(0); break;
        case 1: v = L::denorm_min() * B(1 + r.next() % 1000); break;
        case 2: v = L::min() * B(std::fabs(r.sym())); break;
        case 3: v = L::min() * B(1 + std::fabs(r.sym())); break;
        case 4: v = std::ldexp(B(1 + std::fabs(r.sym())), static_cast<int>(r.next() % 60) - 30); break;
        case 5: v = std::ldexp(B(1 + std::fabs(r.sym())), L::min_exponent + static_cast<int>(r.next() % unsigned(L::max_exponent / 2 - 4 - L::min_exponent))); break;
        case 6: v = B(std::fabs(r.sym())); break;
        case 7: v = L::max() * B(std::fabs(r.sym())); break;
        case 8: v = L::infinity(); break;
        default: v = L::quiet_NaN(); break;
    }
    return neg ? -v : v;
}

// equal bit by bit, except that one NaN is as good as another
template<typename T>
bool identical(std::vector<T> const& a, std::vector<T> const& b)
{
    if (a.size() != b.size()) { return false; }
    if constexpr (std::is_integral_v<T>) {
        return a == b;
    } else {
        auto eq = [](auto x, auto y) { return std::isnan(x) ? std::isnan(y) : x == y && std::signbit(x) == std::signbit(y); };
        for (std::size_t i = 0; i < a.size(); ++i) {
            auto const x = to_cx(a[i]);
            auto const y = to_cx(b[i]);
            if (!eq(x.re, y.re) || !eq(x.im, y.im)) { return false; }
        }
        return true;
    }
}

// products: complex products of infinities or of values near the limits are left out
template<typename T>
std::vector<T> gen(Src& s, std::size_t n, bool nonfinite = true)
{
    if constexpr (!std::is_integral_v<T>) {
        if (s.chance(1, 8)) {
            s.label("special values");
            pbt::Rng r{s.below(1 << 20)};
            std::vector<T> v(n);
            for (auto& x : v) {
                using B = base_t<T>;
                if constexpr (is_cx<T>) {
                    auto const re = special<B>(r, nonfinite);
                    x             = T(re, special<B>(r, nonfinite));
                } else {
                    x = special<B>(r, nonfinite);
                }
            }
            return v;
        }
    }
    if constexpr (std::is_integral_v<T>) {
        std::vector<T> v(n);
        pbt::Rng r{s.below(1 << 20)};
        for (auto& x : v) { x = static_cast<T>(static_cast<std::int64_t>(r.next() % 2001) - 1000); }
        return v;
    } else {
        return gen_vec<T>(s, n);
    }
}

template<typename T>
bool any_nonzero(std::vector<T> const& v)
{
    return std::any_of(v.begin(), v.end(), [](T x) { return to_cx(x).re != 0 || to_cx(x).im != 0; });
}

// Calls fn(x, y, out) with views of combined layouts of three vectors
template<typename T, typename Fn>
void with3(int combo, Buf<T>& x, Buf<T>& y, Buf<T>& o, Fn fn)
{
    switch (combo) {
        case 0: return fn(x.cview(), y.cview(), o.view());
        case 1: return fn(x.sview(), y.sview(), o.sview());
        case 2: return fn(x.cview(), y.sview(), o.view());
        default: return fn(x.sview(), y.view(), o.sview());
    }
}
template<typename T>
auto rowm(Mat<T>& m) { return stdex::mdspan<T, stdex::dextents<std::size_t, 2>>{m.mem.data() + m.pad, m.r, m.c}; }
template<typename T>
auto colm(Mat<T>& m) { return stdex::mdspan<T, stdex::dextents<std::size_t, 2>, stdex::layout_left>{m.mem.data() + m.pad, m.r, m.c}; }
template<typename T, typename Fn>
void with3(int combo, Mat<T>& x, Mat<T>& y, Mat<T>& o, Fn fn)
{
    switch (combo) {
        case 0: return fn(rowm(x), rowm(y), rowm(o));
        case 1: return fn(colm(x), colm(y), colm(o));
        case 2: return fn(x.strided(), y.strided(), o.strided());
        case 3: return fn(rowm(x), colm(y), o.strided());
        default: return fn(x.strided(), rowm(y), colm(o));
    }
}
constexpr int vec_stride[4][3] = {{0, 0, 0}, {1, 1, 1}, {0, 1, 0}, {1, 0, 1}};
constexpr int mat_layout[5][3] = {{0, 0, 0}, {1, 1, 1}, {2, 2, 2}, {0, 1, 2}, {2, 0, 1}};

// out = x op y with out distinct, or being x, or y, or all three the same
template<typename T>
void binary(Src& s)
{
    auto const op    = s.flag() ? '*' : '+';
    auto const rank2 = s.flag();
    auto const nonf  = !is_cx<T>;
    auto const alias = static_cast<int>(s.pick({0, 0, 1, 2, 3, 4}));  // 1: out=x 2: out=y 3: x=y=out 4: x=y
    static char const* const an[] = {"out separate", "out=x", "out=y", "out=x=y", "x=y"};
    auto run         = [&](auto& x, auto& y, auto& o, int combo, std::vector<T> const& xv, std::vector<T> const& yv, std::vector<T> const& ov) {
        with3(combo, alias == 2 || alias == 3 ? o : x, alias == 4 ? x : alias == 1 || alias == 3 ? o : y, o, [&](auto a, auto b, auto c) {
            // (for alias 1 and 2 the roles are swapped: the separate operand is x for out=y, y for out=x)
            auto call = [&](auto l, auto r, auto d) {
                if (op == '+') {
                    neo::add(l, r, d);
                } else {
                    neo::multiply(l, r, d);
                }
            };
            call(a, b, c);
        });
        auto const& want_x = alias == 2 || alias == 3 ? ov : xv;
        auto const& want_y = alias == 4 ? xv : alias == 1 || alias == 3 ? ov : yv;
        require_op(o.get(), want_x, want_y, op);
        x.check("x");
        y.check("y");
        o.check("out");
        if (!identical(x.get(), xv)) { PBT_FAIL("first operand changed"); }
        if (!identical(y.get(), yv)) { PBT_FAIL("second operand changed"); }
    };
    if (!rank2) {
        auto const n     = gen_length(s, 0, 300);
        auto const xv    = gen<T>(s, n, nonf);
        auto const yv    = gen<T>(s, n, nonf);
        auto const ov    = gen<T>(s, n, nonf);
        auto combo       = static_cast<int>(s.below(4));
        if (alias != 0 && combo > 1) { combo -= 2; }
        auto const st = s.size(2, 3);
        auto str      = [&](int i) { return vec_stride[combo][i] != 0 ? st : std::size_t(1); };
        s.note(fmt("%s vector %c n=%zu strides %zu,%zu,%zu %s", type_name<T>(), op, n, str(0), str(1), str(2), an[alias]));
        s.label(fmt("vector %c %s", op, an[alias]));
        s.nontrivial(n >= 2 && any_nonzero(xv));
        Buf<T> x(xv, str(0), s.size(0, 3));
        Buf<T> y(yv, str(1), s.size(0, 3));
        Buf<T> o(ov, str(2), s.size(0, 3));
        run(x, y, o, combo, xv, yv, ov);
    } else {
        auto const [r, c] = gen_dims(s);
        auto const xv    = gen<T>(s, r * c, nonf);
        auto const yv    = gen<T>(s, r * c, nonf);
        auto const ov    = gen<T>(s, r * c, nonf);
        auto combo       = static_cast<int>(s.below(alias != 0 ? 3 : 5));
        s.note(fmt("%s matrix %c %zux%zu layouts %d,%d,%d %s", type_name<T>(), op, r, c, mat_layout[combo][0], mat_layout[combo][1], mat_layout[combo][2], an[alias]));
        s.label(fmt("matrix %c %s", op, an[alias]));
        s.nontrivial(r * c >= 2 && any_nonzero(xv));
        Mat<T> x(r, c, xv, mat_layout[combo][0]);
        Mat<T> y(r, c, yv, mat_layout[combo][1]);
        Mat<T> o(r, c, ov, mat_layout[combo][2]);
        run(x, y, o, combo, xv, yv, ov);
    }
}

template<typename T>
void unary(Src& s)
{
    auto const is_fill = s.flag();
    auto const rank2   = s.flag();
    auto const [r, c]  = rank2 ? gen_dims(s) : std::pair{gen_length(s, 0, 300), std::size_t(1)};
    auto const v       = gen<T>(s, r * c, is_fill || !is_cx<T>);
    auto const a       = gen<T>(s, 1, is_fill || !is_cx<T>)[0];
    std::vector<T> const av(r * c, a);
    s.nontrivial(r * c >= 2 && any_nonzero(v));
    s.label(is_fill ? "fill" : "scale");
    auto run = [&](auto view) {
        if (is_fill) {
            neo::fill(view, a);
        } else {
            neo::scale(a, view);
        }
    };
    auto verify = [&](std::vector<T> const& got) {
        if (is_fill) {
            if (!identical(got, av)) { PBT_FAIL("fill gave %s", show(got).c_str()); }
        } else {
            require_op(got, v, av, '*');
        }
    };
    if (rank2) {
        Mat<T> m(r, c, v, static_cast<int>(s.below(3)));
        s.note(fmt("%s %s %zux%zu %s", type_name<T>(), is_fill ? "fill" : "scale", r, c, layout_name(m.layout)));
        m.with(run);
        m.check("object");
        verify(m.get());
    } else {
        auto const stride = s.size(1, 3);
        Buf<T> b(v, stride, s.size(0, 3));
        s.note(fmt("%s %s n=%zu stride %zu", type_name<T>(), is_fill ? "fill" : "scale", r, stride));
        if (stride == 1 && s.flag()) {
            run(b.view());
        } else {
            run(b.sview());
        }
        b.check("object");
        verify(b.get());
    }
}

// scaling a complex object by a real number
template<typename T>
void scale_real(Src& s)
{
    using B      = base_t<T>;
    auto const n = gen_length(s, 0, 100);
    auto const v = gen<T>(s, n, false);
    auto const a = gen<B>(s, 1, false)[0];
    Buf<T> b(v, s.size(1, 2), s.size(0, 2));
    s.note(fmt("%s scale by real %g n=%zu", type_name<T>(), double(a), n));
    s.nontrivial(n >= 2 && any_nonzero(v));
    neo::scale(a, b.sview());
    b.check("object");
    require_op(b.get(), v, std::vector<T>(n, T(a, B(0))), '*');
}

template<typename T, typename U>
void copy(Src& s)
{
    auto const rank2 = s.flag();
    auto const [r, c] = rank2 ? gen_dims(s) : std::pair{gen_length(s, 0, 300), std::size_t(1)};
    auto const v     = gen<T>(s, r * c);
    std::vector<U> const want(v.begin(), v.end());
    s.nontrivial(r * c >= 2 && any_nonzero(v));
    if (rank2) {
        auto const li = static_cast<int>(s.below(3));
        auto const lo = static_cast<int>(s.below(3));
        s.note(fmt("copy %s to %s %zux%zu %s to %s", type_name<T>(), type_name<U>(), r, c, layout_name(li), layout_name(lo)));
        Mat<T> in(r, c, v, li);
        Mat<U> out(r, c, std::vector<U>(r * c, U(3)), lo);
        in.with([&](auto i) { out.with([&](auto o) { neo::copy(i, o); }); });
        in.check("input");
        out.check("output");
        if (!identical(in.get(), v)) { PBT_FAIL("input changed"); }
        if (!identical(out.get(), want)) { PBT_FAIL("copied %s as %s", show(want).c_str(), show(out.get()).c_str()); }
    } else {
        auto const si = s.size(1, 3);
        auto const so = s.size(1, 3);
        s.note(fmt("copy %s to %s n=%zu strides %zu,%zu", type_name<T>(), type_name<U>(), r, si, so));
        Buf<T> in(v, si, s.size(0, 3));
        Buf<U> out(std::vector<U>(r, U(3)), so, s.size(0, 3));
        if (si == 1 && so == 1 && s.flag()) {
            neo::copy(in.cview(), out.view());
        } else {
            neo::copy(in.sview(), out.sview());
        }
        in.check("input");
        out.check("output");
        if (!identical(in.get(), v)) { PBT_FAIL("input changed"); }
        if (!identical(out.get(), want)) { PBT_FAIL("copied %s as %s", show(want).c_str(), show(out.get()).c_str()); }
    }
}

template<typename T>
void copy_split(Src& s)
{
    using B       = base_t<T>;
    auto const n  = gen_length(s, 0, 200);
    auto const to = s.flag();
    auto const v  = gen<T>(s, n);
    auto const w  = gen<T>(s, n);
    std::vector<B> vr(n), vi(n), wr(n), wi(n);
    for (std::size_t i = 0; i < n; ++i) {
        vr[i] = v[i].real();
        vi[i] = v[i].imag();
        wr[i] = w[i].real();
        wi[i] = w[i].imag();
    }
    auto const st = s.size(1, 3);
    Buf<T> a(to ? v : w, s.size(1, 3), s.size(0, 2));
    Buf<B> re(to ? wr : vr, st, s.size(0, 2));
    Buf<B> im(to ? wi : vi, st, s.size(0, 2));
    s.note(fmt("%s %s split n=%zu", type_name<T>(), to ? "to" : "from", n));
    s.label(to ? "to split" : "from split");
    s.nontrivial(n >= 2 && any_nonzero(v));
    auto const contiguous = st == 1 && a.stride == 1 && s.flag();
    if (to) {
        if (contiguous) {
            neo::copy(a.cview(), neo::split_complex{re.view(), im.view()});
        } else {
            neo::copy(a.sview(), neo::split_complex{re.sview(), im.sview()});
        }
    } else {
        if (contiguous) {
            neo::copy(neo::split_complex{re.cview(), im.cview()}, a.view());
        } else {
            neo::copy(neo::split_complex{re.sview(), im.sview()}, a.sview());
        }
    }
    a.check("interleaved");
    re.check("real");
    im.check("imag");
    if (!identical(v, a.get())) { PBT_FAIL("interleaved: %s became %s", show(v).c_str(), show(a.get()).c_str()); }
    if (!identical(vr, re.get())) { PBT_FAIL("real parts: %s became %s", show(vr).c_str(), show(re.get()).c_str()); }
    if (!identical(vi, im.get())) { PBT_FAIL("imaginary parts: %s became %s", show(vi).c_str(), show(im.get()).c_str()); }
}
// one of the vectors seen through another kind of view than the others
template<typename T>
void odd(Src& s)
{
    auto const op   = static_cast<int>(s.below(3));  // add, multiply, copy
    auto const n    = gen_length(s, 0, 200);
    auto const w    = static_cast<int>(s.below(3));
    auto const kind = static_cast<int>(s.below(w == 2 ? odd_out : odd_in));
    std::vector<std::vector<T>> v;
    std::vector<Buf<T>> b;
    for (int i = 0; i < 3; ++i) {
        v.push_back(gen<T>(s, n, false));
        b.emplace_back(v.back(), i == w && odd_strided(kind) ? s.size(2, 3) : 1, s.size(0, 3));
    }
    s.note(fmt("%s %s n=%zu, %s %s", type_name<T>(), op == 0 ? "add" : op == 1 ? "multiply" : "copy", n, w == 0 ? "x" : w == 1 ? "y" : "out", odd_name(kind)));
    s.label(odd_name(kind));
    s.nontrivial(n >= 2 && any_nonzero(v[0]));
    auto call = [&](auto x, auto y, auto o) {
        switch (op) {
            case 0: neo::add(x, y, o); break;
            case 1: neo::multiply(x, y, o); break;
            default: neo::copy(x, o); break;
        }
    };
    switch (w) {
        case 0: with_odd<true>(b[0], kind, [&](auto x) { call(x, b[1].cview(), b[2].view()); }); break;
        case 1: with_odd<true>(b[1], kind, [&](auto y) { call(b[0].cview(), y, b[2].view()); }); break;
        default: with_odd<false>(b[2], kind, [&](auto o) { call(b[0].cview(), b[1].cview(), o); }); break;
    }
    auto at      = [&](int i) { return i == w ? odd_values(v[i], kind) : v[i]; };
    auto const x = at(0), y = at(1);
    for (int i = 0; i < 3; ++i) { b[i].check("operand"); }
    if (op == 2) {
        if (!identical(b[2].get(), x)) { PBT_FAIL("copied %s as %s", show(x).c_str(), show(b[2].get()).c_str()); }
    } else {
        require_op(b[2].get(), x, y, op == 0 ? '+' : '*');
    }
    if (!identical(b[0].get(), v[0]) || !identical(b[1].get(), v[1])) { PBT_FAIL("an operand changed"); }
    // fill and scale through the same view
    auto const a       = s.flag() || n == 0 ? gen<T>(s, 1, false)[0] : T(0);
    auto const inside  = n != 0 && s.flag();  // the value is an element of the vector itself
    auto const at_elem = inside ? s.size(0, n - 1) : 0;
    auto const fill    = s.flag();
    for (std::size_t i = 0; i < n; ++i) { b[w].data()[i * b[w].stride] = v[w][i]; }
    auto const before = v[w];
    auto const value   = inside ? before[at_elem] : a;
    with_odd<false>(b[w], kind, [&](auto o) {
        if (fill) {
            if (inside) {
                neo::fill(o, b[w].data()[at_elem * b[w].stride]);
            } else {
                neo::fill(o, a);
            }
        } else if (inside) {
            neo::scale(b[w].data()[at_elem * b[w].stride], o);
        } else {
            neo::scale(a, o);
        }
    });
    b[w].check("object");
    std::vector<T> const vv(n, value);
    if (fill) {
        if (!identical(b[w].get(), vv)) { PBT_FAIL("fill gave %s", show(b[w].get()).c_str()); }
    } else {
        require_op(b[w].get(), before, vv, '*');
    }
}

// vectors whose size is part of their type
template<typename T, std::size_t N>
void fixed(Src& s)
{
    using V = stdex::mdspan<T, stdex::extents<std::size_t, N>>;
    auto const xv = gen<T>(s, N, false), yv = gen<T>(s, N, false), ov = gen<T>(s, N, false);
    Buf<T> x(xv, 1, s.size(0, 3)), y(yv, 1, s.size(0, 3)), o(ov, 1, s.size(0, 3));
    auto const op = s.below(5);
    s.note(fmt("%s of %zu elements, operation %d", type_name<T>(), N, int(op)));
    s.label(fmt("%zu elements", N));
    s.nontrivial(any_nonzero(xv));
    V a{x.data()}, b{y.data()}, c{o.data()};
    switch (op) {
        case 0: neo::add(a, b, c); break;
        case 1: neo::multiply(a, b, c); break;
        case 2: neo::copy(a, c); break;
        case 3: neo::fill(c, xv[0]); break;
        default: neo::scale(xv[0], c); break;
    }
    x.check("x");
    y.check("y");
    o.check("out");
    if (!identical(x.get(), xv) || !identical(y.get(), yv)) { PBT_FAIL("an operand changed"); }
    std::vector<T> const first(N, xv[0]);
    if (op < 2) {
        require_op(o.get(), xv, yv, op == 0 ? '+' : '*');
    } else if (op == 4) {
        require_op(o.get(), ov, first, '*');
    } else if (!identical(o.get(), op == 2 ? xv : first)) {
        PBT_FAIL("gave %s", show(o.get()).c_str());
    }
}
template<typename T>
void fixed_sizes(Src& s)
{
    switch (s.below(6)) {
        case 0: return fixed<T, 1>(s);
        case 1: return fixed<T, 2>(s);
        case 2: return fixed<T, 7>(s);
        case 3: return fixed<T, 16>(s);
        case 4: return fixed<T, 33>(s);
        default: return fixed<T, 300>(s);
    }
}

// operands of different element types: real and complex, single and double
template<typename X, typename Y, typename O>
void mixed(Src& s)
{
    auto const op    = s.flag() ? '*' : '+';
    auto const rank2 = s.flag();
    auto const [r, c] = rank2 ? gen_dims(s, 12, 300) : std::pair{gen_length(s, 0, 100, 800), std::size_t(1)};
    auto const xv = gen_vec<X>(s, r * c);
    auto const yv = gen_vec<Y>(s, r * c);
    auto const ov = gen_vec<O>(s, r * c);
    s.note(fmt("%s %c %s to %s, %zux%zu", type_name<X>(), op, type_name<Y>(), type_name<O>(), r, c));
    s.nontrivial(r * c >= 2 && any_nonzero(xv));
    std::vector<O> got;
    if (rank2) {
        Mat<X> x(r, c, xv, static_cast<int>(s.below(3)));
        Mat<Y> y(r, c, yv, static_cast<int>(s.below(3)));
        Mat<O> o(r, c, ov, static_cast<int>(s.below(3)));
        x.with([&](auto a) { y.with([&](auto b) { o.with([&](auto d) { op == '+' ? neo::add(a, b, d) : neo::multiply(a, b, d); }); }); });
        x.check("x"), y.check("y"), o.check("out");
        got = o.get();
    } else {
        Buf<X> x(xv, s.size(1, 2), 2);
        Buf<Y> y(yv, s.size(1, 2), 2);
        Buf<O> o(ov, s.size(1, 2), 2);
        op == '+' ? neo::add(x.sview(), y.sview(), o.sview()) : neo::multiply(x.sview(), y.sview(), o.sview());
        x.check("x"), y.check("y"), o.check("out");
        got = o.get();
    }
    auto const e = std::max<long double>(eps<O>(), std::min<long double>(eps<X>(), eps<Y>()));  // the operation is done in the wider type
    for (std::size_t i = 0; i < got.size(); ++i) {
        auto const a = to_cx(xv[i]);
        auto const b = to_cx(yv[i]);
        auto const g = to_cx(got[i]);
        auto const re  = op == '+' ? a.re + b.re : a.re * b.re - a.im * b.im;
        auto const im  = op == '+' ? a.im + b.im : a.re * b.im + a.im * b.re;
        auto const mag = op == '+' ? std::hypot(a.re, a.im) + std::hypot(b.re, b.im) : std::hypot(a.re, a.im) * std::hypot(b.re, b.im);
        require_close(g.re, re, 4 * e * mag + 1e-44L, fmt("[%zu] real part", i).c_str());
        require_close(g.im, im, 4 * e * mag + 1e-44L, fmt("[%zu] imaginary part", i).c_str());
    }
}
}  // namespace

using cf = std::complex<float>;
using cd = std::complex<double>;
PBT_CHECK_T(a1, "binary_float", 2500, 40000, binary<float>)
PBT_CHECK_T(a2, "binary_double", 1500, 25000, binary<double>)
PBT_CHECK_T(a3, "binary_cfloat", 2000, 30000, binary<cf>)
PBT_CHECK_T(a4, "binary_cdouble", 1500, 25000, binary<cd>)
PBT_CHECK_T(a5, "binary_int", 1500, 25000, binary<std::int32_t>)
PBT_CHECK_T(b1, "unary_float", 1500, 25000, unary<float>)
PBT_CHECK_T(b2, "unary_double", 1000, 15000, unary<double>)
PBT_CHECK_T(b3, "unary_cfloat", 1500, 25000, unary<cf>)
PBT_CHECK_T(b4, "unary_cdouble", 1000, 15000, unary<cd>)
PBT_CHECK_T(b5, "unary_int", 500, 10000, unary<std::int16_t>)
PBT_CHECK_T(b6, "scale_real_cfloat", 500, 10000, scale_real<cf>)
PBT_CHECK_T(b7, "scale_real_cdouble", 500, 10000, scale_real<cd>)
PBT_CHECK_T(c1, "copy_float", 1500, 25000, copy<float, float>)
PBT_CHECK_T(c2, "copy_float_double", 1000, 15000, copy<float, double>)
PBT_CHECK_T(c3, "copy_cfloat", 1500, 25000, copy<cf, cf>)
PBT_CHECK_T(c4, "copy_int8", 500, 10000, copy<std::int8_t, std::int8_t>)
PBT_CHECK_T(d1, "split_cfloat", 1500, 25000, copy_split<cf>)
PBT_CHECK_T(d2, "split_cdouble", 1000, 15000, copy_split<cd>)
PBT_CHECK_T(d3, "split_complex64", 1000, 15000, copy_split<neo::complex64>)
PBT_CHECK_T(o1, "odd_float", 800, 15000, odd<float>)
PBT_CHECK_T(o2, "odd_double", 500, 8000, odd<double>)
PBT_CHECK_T(o3, "odd_cfloat", 800, 15000, odd<cf>)
PBT_CHECK_T(o4, "odd_int", 300, 5000, odd<std::int16_t>)
PBT_CHECK_T(f1, "fixed_float", 300, 5000, fixed_sizes<float>)
PBT_CHECK_T(f2, "fixed_cdouble", 300, 5000, fixed_sizes<cd>)
PBT_CHECK_T(x1, "mixed_float_double", 300, 5000, mixed<float, double, double>)
PBT_CHECK_T(x2, "mixed_double_float", 300, 5000, mixed<double, float, double>)
PBT_CHECK_T(x3, "mixed_real_complex", 300, 5000, mixed<float, cf, cf>)
PBT_CHECK_T(x4, "mixed_complex_real", 300, 5000, mixed<cd, double, cd>)
PBT_CHECK_T(x5, "mixed_narrowing", 200, 3000, mixed<double, double, float>)
PBT_CHECK_T(y1, "binary_complex64", 500, 10000, binary<neo::complex64>)
PBT_CHECK_T(y2, "unary_complex128", 400, 8000, unary<neo::complex128>)
