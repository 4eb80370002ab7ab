#pragma once
#include "common.hpp"
// A matrix in guarded storage: row-major (0), column-major (1) or strided (2: padded rows, every second column).
template<typename T>
struct Mat
{
    std::size_t r;
    std::size_t c;
    int layout;
    pbt::Mem<T> mem;
    std::size_t pad{5};

    std::size_t rs() const { return layout == 0 || layout == 3 ? c : layout == 1 ? std::size_t(1) : 2 * c + 3; }
    std::size_t cs() const { return layout == 0 || layout == 3 ? std::size_t(1) : layout == 1 ? r : std::size_t(2); }
    Mat(std::size_t rows, std::size_t cols, std::vector<T> const& v, int lay) : r(rows), c(cols), layout(lay)
    {
        mem.assign(2 * pad + (layout == 2 ? r * (2 * c + 3) : r * c), Buf<T>::sentinel());
        for (std::size_t i = 0; i < r; ++i) {
            for (std::size_t j = 0; j < c; ++j) { mem[pad + i * rs() + j * cs()] = v[i * c + j]; }
        }
    }
    std::vector<T> get() const
    {
        std::vector<T> v(r * c);
        for (std::size_t i = 0; i < r; ++i) {
            for (std::size_t j = 0; j < c; ++j) { v[i * c + j] = mem[pad + i * rs() + j * cs()]; }
        }
        return v;
    }
    void check(char const* what) const
    {
        std::vector<char> elem(mem.size(), 0);
        for (std::size_t i = 0; i < r; ++i) {
            for (std::size_t j = 0; j < c; ++j) { elem[pad + i * rs() + j * cs()] = 1; }
        }
        T const g = Buf<T>::sentinel();
        for (std::size_t i = 0; i < mem.size(); ++i) {
            if (!elem[i] && std::memcmp(&mem[i], &g, sizeof(T)) != 0) { PBT_FAIL("%s: memory outside of the %zux%zu matrix was changed (layout %d, offset %zd)", what, r, c, layout, std::ptrdiff_t(i) - std::ptrdiff_t(pad)); }
        }
    }
    template<typename Fn>
    decltype(auto) with(Fn fn)
    {
        using E = stdex::dextents<std::size_t, 2>;
        if (layout == 0) { return fn(stdex::mdspan<T, E>{mem.data() + pad, r, c}); }
        if (layout == 1) { return fn(stdex::mdspan<T, E, stdex::layout_left>{mem.data() + pad, r, c}); }
        return fn(strided());
    }
    // the same, or (layout 3) row-major and indexed by int
    template<typename Fn>
    decltype(auto) with_int(Fn fn)
    {
        if (layout == 3) { return fn(stdex::mdspan<T, stdex::dextents<int, 2>>{mem.data() + pad, static_cast<int>(r), static_cast<int>(c)}); }
        return with(fn);
    }
    auto strided()
    {
        using E = stdex::dextents<std::size_t, 2>;
        return stdex::mdspan<T, E, stdex::layout_stride>{mem.data() + pad, stdex::layout_stride::mapping<E>{E{r, c}, std::array<std::size_t, 2>{rs(), cs()}}};
    }
};
// Reads the negative of what is stored.
template<typename T>
struct Negated
{
    using element_type     = T;
    using reference        = std::remove_const_t<T>;
    using data_handle_type = T*;
    using offset_policy    = Negated;
    constexpr reference access(T* p, std::size_t i) const noexcept { return static_cast<reference>(-p[i]); }
    constexpr T* offset(T* p, std::size_t i) const noexcept { return p + i; }
};
// A vector seen through another kind of view than the usual one: fn(view).
// 0 as usual, 1 strided, 2 column-major, 3 int as index type, 4 int and strided, 5 (inputs only) through Negated
constexpr int odd_out = 5;
constexpr int odd_in  = 6;
inline char const* odd_name(int k)
{
    static char const* const n[] = {"as usual", "strided", "column-major", "indexed by int", "strided, indexed by int", "through an accessor"};
    return n[k];
}
template<bool In, typename T, typename Fn>
void with_odd(Buf<T>& b, int kind, Fn fn)
{
    using I = stdex::dextents<int, 1>;
    switch (kind) {
        case 1: return fn(b.sview());
        case 2: return fn(stdex::mdspan<T, stdex::dextents<std::size_t, 1>, stdex::layout_left>{b.data(), b.n});
        case 3: return fn(stdex::mdspan<T, I>{b.data(), static_cast<int>(b.n)});
        case 4: return fn(stdex::mdspan<T, I, stdex::layout_stride>{b.data(), stdex::layout_stride::mapping<I>{I{static_cast<int>(b.n)}, std::array<int, 1>{static_cast<int>(b.stride)}}});
        case 5:
            if constexpr (In) {
                using E = stdex::dextents<std::size_t, 1>;
                return fn(stdex::mdspan<T const, E, stdex::layout_right, Negated<T const>>{b.data(), stdex::layout_right::mapping<E>{E{b.n}}, {}});
            }
            [[fallthrough]];
        default: return fn(b.view());
    }
}
// two buffers through views of one type
template<bool In, typename T, typename Fn>
void with_odd2(Buf<T>& b, Buf<T>& c, int kind, Fn fn)
{
    using E = stdex::dextents<std::size_t, 1>;
    using I = stdex::dextents<int, 1>;
    switch (kind) {
        case 1: return fn(b.sview(), c.sview());
        case 2: {
            using V = stdex::mdspan<T, E, stdex::layout_left>;
            return fn(V{b.data(), b.n}, V{c.data(), c.n});
        }
        case 3: {
            using V = stdex::mdspan<T, I>;
            return fn(V{b.data(), static_cast<int>(b.n)}, V{c.data(), static_cast<int>(c.n)});
        }
        case 4: {
            using V = stdex::mdspan<T, I, stdex::layout_stride>;
            auto map = [](Buf<T> const& q) { return stdex::layout_stride::mapping<I>{I{static_cast<int>(q.n)}, std::array<int, 1>{static_cast<int>(q.stride)}}; };
            return fn(V{b.data(), map(b)}, V{c.data(), map(c)});
        }
        case 5:
            if constexpr (In) {
                using V = stdex::mdspan<T const, E, stdex::layout_right, Negated<T const>>;
                return fn(V{b.data(), stdex::layout_right::mapping<E>{E{b.n}}, {}}, V{c.data(), stdex::layout_right::mapping<E>{E{c.n}}, {}});
            }
            [[fallthrough]];
        default: return fn(b.view(), c.view());
    }
}
inline bool odd_strided(int kind) { return kind == 1 || kind == 4; }
template<typename T>
std::vector<T> odd_values(std::vector<T> v, int kind)
{
    if (kind == 5) {
        for (auto& x : v) { x = static_cast<T>(-x); }
    }
    return v;
}
inline char const* layout_name(int l) { return l == 0 ? "row-major" : l == 1 ? "column-major" : l == 2 ? "strided" : "row-major, indexed by int"; }
