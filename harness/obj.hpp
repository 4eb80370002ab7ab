#pragma once
#include "mat.hpp"
// A vector (contiguous or strided) or a matrix (three layouts) holding generated values.
template<typename T>
struct Obj
{
    bool rank2;
    std::size_t r;
    std::size_t c;
    int layout;
    std::vector<T> v;
    Buf<T> b;
    Mat<T> m;

    Obj(bool mat, std::size_t rows, std::size_t cols, int lay, std::vector<T> const& vals, std::size_t pad = 2)
        : rank2(mat), r(rows), c(cols), layout(lay), v(vals), b(mat ? std::vector<T>{} : vals, lay == 2 ? 3 : lay == 1 ? 2 : 1, pad), m(mat ? rows : 0, mat ? cols : 0, mat ? vals : std::vector<T>{}, lay)
    {
    }
    // fn(view) for the dynamic layout
    template<typename Fn>
    decltype(auto) with(Fn fn)
    {
        if (rank2) { return m.with_int(fn); }
        if (layout == 0) { return fn(b.view()); }
        if (layout == 3) { return fn(iview()); }
        return fn(b.sview());
    }
    auto iview() { return stdex::mdspan<T, stdex::dextents<int, 1>>{b.data(), static_cast<int>(b.n)}; }
    // element i of the row-major numbering
    T& at(std::size_t i) { return rank2 ? m.mem[m.pad + i / c * m.rs() + i % c * m.cs()] : b.mem[b.pad + i * b.stride]; }
    std::vector<T> get() const { return rank2 ? m.get() : b.get(); }
    void check(char const* what) const
    {
        b.check(what);
        m.check(what);
    }
    void unchanged(char const* what) const
    {
        check(what);
        require_same(v, get(), what);
    }
    std::string str() const { return rank2 ? fmt("%zux%zu %s", r, c, layout_name(layout)) : fmt("n=%zu stride %d%s", r, layout == 3 ? 1 : layout + 1, layout == 3 ? " indexed by int" : ""); }
};
struct Shape
{
    bool rank2;
    std::size_t r, c;
    std::size_t n() const { return r * c; }
};
inline Shape gen_shape(Src& s, std::size_t max1 = 300, std::size_t max2 = 20)
{
    auto const rank2 = s.flag();
    if (!rank2) { return {false, gen_length(s, 0, max1), 1}; }
    auto const [r, c] = gen_dims(s, max2);
    return {true, r, c};
}
template<typename T>
Obj<T> make(Src& s, Shape sh, std::vector<T> const& v)
{
    return Obj<T>(sh.rank2, sh.r, sh.c, static_cast<int>(s.below(4)), v, s.size(0, 3));
}
// A shape for probing element by element, and the elements to probe: all of a small object, of a large one those next to
// powers of two (also of its rows and columns), the last ones and some others.
inline Shape gen_probe_shape(Src& s)
{
    auto const wide = s.chance(1, 4);
    if (s.flag()) { return {false, wide ? s.size(257, 700) : s.chance(1, 6) ? s.size(65537, 65600) : s.size(1, 64), 1}; }
    auto r = wide ? s.size(257, 400) : s.chance(1, 6) ? s.size(65537, 65600) : s.size(1, 20);
    auto c = s.size(1, r > 20 ? 2 : 20);
    if (s.flag()) { std::swap(r, c); }
    return {true, r, c};
}
inline std::vector<std::size_t> probe_elements(Src& s, Shape sh)
{
    std::vector<std::size_t> e;
    auto const n = sh.n();
    if (n <= 1500) {
        for (std::size_t i = 0; i < n; ++i) { e.push_back(i); }
        return e;
    }
    pbt::Rng r{s.below(1 << 20)};
    for (std::size_t k = 1; k < n; k *= 2) {
        for (std::size_t d = 0; d < 3; ++d) {
            if (auto const i = k + d - 1; i < n) { e.push_back(i); }
            if (auto const i = (k + d - 1) * sh.c; sh.rank2 && i < n) { e.push_back(i + sh.c - 1), e.push_back(i); }
        }
    }
    for (int i = 0; i < 10; ++i) { e.push_back(r.next() % n); }
    e.push_back(n - 1);
    return e;
}
template<typename L, typename R, typename Fn>
auto with2(Obj<L>& l, Obj<R>& r, Fn fn)
{
    if (l.rank2) { return l.m.with_int([&](auto x) { return r.m.with_int([&](auto y) { return fn(x, y); }); }); }
    if (l.layout == 0 && r.layout == 0) { return fn(l.b.view(), r.b.view()); }
    if (l.layout == 3) { return fn(l.iview(), r.b.sview()); }
    if (r.layout == 3) { return fn(l.b.sview(), r.iview()); }
    if (l.layout == 0) { return fn(l.b.view(), r.b.sview()); }
    return fn(l.b.sview(), r.b.sview());
}
