// Offline stand-in for the subset of Kokkos mdspan that neo uses.  Written for the
// verification harness because the real dependency cannot be fetched here.
// Differences to the real thing, all deliberate:
//   * every element access and every submdspan slice is bounds checked; a failure prints
//     "MDSPAN-BOUNDS" and aborts, which the harness reports as a violation.
#pragma once

#include <array>
#include <concepts>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <span>
#include <tuple>
#include <type_traits>
#include <utility>

namespace Kokkos {

namespace shim {
[[noreturn]] inline void fail(char const* what, long long index, long long extent)
{
    std::fprintf(stderr, "MDSPAN-BOUNDS: %s index=%lld extent=%lld\n", what, index, extent);
    std::fflush(stderr);
    std::abort();
}
template<typename T>
constexpr auto is_int = std::is_convertible_v<T, std::size_t>;
}  // namespace shim

inline constexpr std::size_t dynamic_extent = std::numeric_limits<std::size_t>::max();

template<typename IndexType, std::size_t... Exts>
struct extents
{
    using index_type = IndexType;
    using size_type  = std::make_unsigned_t<IndexType>;
    using rank_type  = std::size_t;

    static constexpr auto rank() noexcept -> rank_type { return sizeof...(Exts); }
    static constexpr auto rank_dynamic() noexcept -> rank_type { return ((Exts == dynamic_extent ? 1U : 0U) + ... + 0U); }
    static constexpr auto static_extent(rank_type i) noexcept -> std::size_t
    {
        std::size_t const e[sizeof...(Exts) + 1] = {Exts..., 0};
        return e[i];
    }

    constexpr extents() noexcept { init_static(); }

    template<typename... Is>
        requires((shim::is_int<Is> and ...) and (sizeof...(Is) == sizeof...(Exts) or sizeof...(Is) == rank_dynamic())
                 and sizeof...(Is) > 0)
    constexpr explicit extents(Is... is) noexcept
    {
        index_type const v[] = {static_cast<index_type>(is)...};
        assign(v, sizeof...(Is));
    }

    template<typename T, std::size_t N>
        requires(shim::is_int<T> and (N == sizeof...(Exts) or N == rank_dynamic()))
    constexpr explicit(N != rank_dynamic()) extents(std::array<T, N> const& a) noexcept
    {
        index_type v[N + 1] = {};
        for (std::size_t i = 0; i < N; ++i) { v[i] = static_cast<index_type>(a[i]); }
        assign(v, N);
    }

    template<typename T, std::size_t N>
        requires(shim::is_int<T> and (N == sizeof...(Exts) or N == rank_dynamic()))
    constexpr explicit(N != rank_dynamic()) extents(std::span<T, N> a) noexcept
    {
        index_type v[N + 1] = {};
        for (std::size_t i = 0; i < N; ++i) { v[i] = static_cast<index_type>(a[i]); }
        assign(v, N);
    }

    template<typename OtherIndex, std::size_t... OtherExts>
        requires(sizeof...(OtherExts) == sizeof...(Exts))
    constexpr extents(extents<OtherIndex, OtherExts...> const& o) noexcept
    {
        index_type v[sizeof...(Exts) + 1] = {};
        for (std::size_t i = 0; i < rank(); ++i) { v[i] = static_cast<index_type>(o.extent(i)); }
        assign(v, rank());
    }

    constexpr auto extent(rank_type i) const noexcept -> index_type { return _e[i]; }

    template<typename OtherIndex, std::size_t... OtherExts>
    friend constexpr auto operator==(extents const& l, extents<OtherIndex, OtherExts...> const& r) noexcept -> bool
    {
        if constexpr (sizeof...(Exts) != sizeof...(OtherExts)) {
            return false;
        } else {
            for (std::size_t i = 0; i < rank(); ++i) {
                if (static_cast<std::size_t>(l.extent(i)) != static_cast<std::size_t>(r.extent(i))) { return false; }
            }
            return true;
        }
    }

private:
    constexpr void init_static() noexcept
    {
        for (std::size_t i = 0; i < rank(); ++i) {
            _e[i] = static_extent(i) == dynamic_extent ? index_type(0) : static_cast<index_type>(static_extent(i));
        }
    }
    constexpr void assign(index_type const* v, std::size_t n) noexcept
    {
        init_static();
        if (n == rank()) {
            for (std::size_t i = 0; i < n; ++i) {
                if (static_extent(i) == dynamic_extent) {
                    _e[i] = v[i];
                } else if (static_cast<std::size_t>(v[i]) != static_extent(i)) {
                    shim::fail("static extent mismatch", static_cast<long long>(v[i]), static_cast<long long>(static_extent(i)));
                }
            }
        } else {
            std::size_t k = 0;
            for (std::size_t i = 0; i < rank(); ++i) {
                if (static_extent(i) == dynamic_extent) { _e[i] = v[k++]; }
            }
        }
    }
    std::array<index_type, sizeof...(Exts) + 1> _e{};
};

namespace shim {
template<typename>
struct dyn;
}
template<typename... Is>
    requires(shim::is_int<Is> and ...)
extents(Is...) -> extents<std::size_t, (static_cast<void>(sizeof(Is)), dynamic_extent)...>;

namespace shim {
template<typename IndexType, typename Seq>
struct dext;
template<typename IndexType, std::size_t... I>
struct dext<IndexType, std::index_sequence<I...>>
{
    using type = extents<IndexType, (static_cast<void>(I), dynamic_extent)...>;
};
template<typename E>
constexpr auto product(E const& e) noexcept -> std::size_t
{
    std::size_t n = 1;
    for (std::size_t i = 0; i < E::rank(); ++i) { n *= static_cast<std::size_t>(e.extent(i)); }
    return n;
}
}  // namespace shim

template<typename IndexType, std::size_t Rank>
using dextents = typename shim::dext<IndexType, std::make_index_sequence<Rank>>::type;

template<std::size_t Rank, typename IndexType = std::size_t>
using dims = dextents<IndexType, Rank>;

template<typename OffsetType, typename ExtentType, typename StrideType>
struct strided_slice
{
    using offset_type = OffsetType;
    using extent_type = ExtentType;
    using stride_type = StrideType;
    [[no_unique_address]] offset_type offset{};
    [[no_unique_address]] extent_type extent{};
    [[no_unique_address]] stride_type stride{};
};
template<typename O, typename E, typename S>
strided_slice(O, E, S) -> strided_slice<O, E, S>;

struct full_extent_t
{
    explicit full_extent_t() = default;
};
inline constexpr full_extent_t full_extent{};

struct layout_left;
struct layout_right;
struct layout_stride;

namespace shim {
template<typename Ext, typename Derived>
struct mapping_base
{
    using extents_type = Ext;
    using index_type   = typename Ext::index_type;
    using size_type    = typename Ext::size_type;
    using rank_type    = typename Ext::rank_type;
    constexpr auto extents() const noexcept -> Ext const& { return _ext; }
    constexpr auto stride(rank_type r) const noexcept -> index_type { return _strides[r]; }
    constexpr auto strides() const noexcept { return _strides; }
    template<typename... Is>
    constexpr auto operator()(Is... is) const noexcept -> index_type
    {
        static_assert(sizeof...(Is) == Ext::rank());
        std::size_t const v[sizeof...(Is) + 1] = {static_cast<std::size_t>(is)..., 0};
        std::size_t off                        = 0;
        for (std::size_t i = 0; i < Ext::rank(); ++i) { off += v[i] * static_cast<std::size_t>(_strides[i]); }
        return static_cast<index_type>(off);
    }
    static constexpr auto is_always_unique() noexcept -> bool { return true; }
    static constexpr auto is_always_strided() noexcept -> bool { return true; }
    static constexpr auto is_unique() noexcept -> bool { return true; }
    static constexpr auto is_strided() noexcept -> bool { return true; }

    template<typename OtherMapping>
        requires(OtherMapping::extents_type::rank() == Ext::rank())
    friend constexpr auto operator==(Derived const& l, OtherMapping const& r) noexcept -> bool
    {
        if (not(l.extents() == r.extents())) { return false; }
        for (std::size_t i = 0; i < Ext::rank(); ++i) {
            if (static_cast<std::size_t>(l.stride(i)) != static_cast<std::size_t>(r.stride(i))) { return false; }
        }
        return true;
    }

protected:
    Ext _ext{};
    std::array<index_type, Ext::rank() == 0 ? 1 : Ext::rank()> _strides{};
};
}  // namespace shim

struct layout_right
{
    template<typename Ext>
    struct mapping : shim::mapping_base<Ext, mapping<Ext>>
    {
        using layout_type = layout_right;
        constexpr mapping() noexcept : mapping{Ext{}} {}
        constexpr mapping(Ext const& e) noexcept
        {
            this->_ext    = e;
            std::size_t s = 1;
            for (std::size_t i = Ext::rank(); i-- > 0;) {
                this->_strides[i] = static_cast<typename Ext::index_type>(s);
                s *= static_cast<std::size_t>(e.extent(i));
            }
        }
        template<typename Other>
        constexpr mapping(mapping<Other> const& o) noexcept : mapping{Ext(o.extents())} {}
        template<typename Other>
            requires(not std::same_as<typename Other::layout_type, layout_right> and Other::extents_type::rank() == Ext::rank())
        constexpr explicit(Ext::rank() > 0) mapping(Other const& o) : mapping{Ext(o.extents())}
        {
            for (std::size_t i = 0; i < Ext::rank(); ++i) {
                if (static_cast<std::size_t>(o.stride(i)) != static_cast<std::size_t>(this->stride(i)) and shim::product(this->_ext) > 1) {
                    shim::fail("layout conversion with another stride, dimension", static_cast<long long>(i), static_cast<long long>(o.stride(i)));
                }
            }
        }
        constexpr auto required_span_size() const noexcept { return shim::product(this->_ext); }
        static constexpr auto is_always_exhaustive() noexcept -> bool { return true; }
        static constexpr auto is_exhaustive() noexcept -> bool { return true; }
    };
};

struct layout_left
{
    template<typename Ext>
    struct mapping : shim::mapping_base<Ext, mapping<Ext>>
    {
        using layout_type = layout_left;
        constexpr mapping() noexcept : mapping{Ext{}} {}
        constexpr mapping(Ext const& e) noexcept
        {
            this->_ext    = e;
            std::size_t s = 1;
            for (std::size_t i = 0; i < Ext::rank(); ++i) {
                this->_strides[i] = static_cast<typename Ext::index_type>(s);
                s *= static_cast<std::size_t>(e.extent(i));
            }
        }
        template<typename Other>
        constexpr mapping(mapping<Other> const& o) noexcept : mapping{Ext(o.extents())} {}
        template<typename Other>
            requires(not std::same_as<typename Other::layout_type, layout_left> and Other::extents_type::rank() == Ext::rank())
        constexpr explicit(Ext::rank() > 0) mapping(Other const& o) : mapping{Ext(o.extents())}
        {
            for (std::size_t i = 0; i < Ext::rank(); ++i) {
                if (static_cast<std::size_t>(o.stride(i)) != static_cast<std::size_t>(this->stride(i)) and shim::product(this->_ext) > 1) {
                    shim::fail("layout conversion with another stride, dimension", static_cast<long long>(i), static_cast<long long>(o.stride(i)));
                }
            }
        }
        constexpr auto required_span_size() const noexcept { return shim::product(this->_ext); }
        static constexpr auto is_always_exhaustive() noexcept -> bool { return true; }
        static constexpr auto is_exhaustive() noexcept -> bool { return true; }
    };
};

struct layout_stride
{
    template<typename Ext>
    struct mapping : shim::mapping_base<Ext, mapping<Ext>>
    {
        using layout_type = layout_stride;
        constexpr mapping() noexcept : mapping{layout_right::mapping<Ext>{}} {}
        template<typename T>
        constexpr mapping(Ext const& e, std::array<T, Ext::rank()> const& s) noexcept
        {
            this->_ext = e;
            for (std::size_t i = 0; i < Ext::rank(); ++i) {
                this->_strides[i] = static_cast<typename Ext::index_type>(s[i]);
            }
        }
        template<typename T>
        constexpr mapping(Ext const& e, std::span<T, Ext::rank()> s) noexcept
        {
            this->_ext = e;
            for (std::size_t i = 0; i < Ext::rank(); ++i) {
                this->_strides[i] = static_cast<typename Ext::index_type>(s[i]);
            }
        }
        template<typename Other>
            requires requires(Other const& o) { o.stride(0); requires(not std::same_as<Other, mapping>); requires std::is_constructible_v<Ext, typename Other::extents_type>; }
        constexpr mapping(Other const& o) noexcept
        {
            this->_ext = Ext(o.extents());
            for (std::size_t i = 0; i < Ext::rank(); ++i) {
                this->_strides[i] = static_cast<typename Ext::index_type>(o.stride(i));
            }
        }
        constexpr auto required_span_size() const noexcept -> std::size_t
        {
            std::size_t n = 1;
            for (std::size_t i = 0; i < Ext::rank(); ++i) {
                if (this->_ext.extent(i) == 0) { return 0; }
                n += (static_cast<std::size_t>(this->_ext.extent(i)) - 1) * static_cast<std::size_t>(this->_strides[i]);
            }
            return n;
        }
        static constexpr auto is_always_exhaustive() noexcept -> bool { return false; }
        constexpr auto is_exhaustive() const noexcept -> bool { return required_span_size() == shim::product(this->_ext); }
    };
    template<typename Ext, typename T, std::size_t N>
    mapping(Ext const&, std::array<T, N> const&) -> mapping<Ext>;
};

template<typename ElementType>
struct default_accessor
{
    using offset_policy    = default_accessor;
    using element_type     = ElementType;
    using reference        = ElementType&;
    using data_handle_type = ElementType*;

    constexpr default_accessor() noexcept = default;
    template<typename Other>
        requires std::is_convertible_v<Other (*)[], ElementType (*)[]>
    constexpr default_accessor(default_accessor<Other>) noexcept
    {}
    constexpr auto access(data_handle_type p, std::size_t i) const noexcept -> reference { return p[i]; }
    constexpr auto offset(data_handle_type p, std::size_t i) const noexcept -> data_handle_type { return p + i; }
};

template<typename T, typename Ext, typename Layout = layout_right, typename Accessor = default_accessor<T>>
struct mdspan
{
    using extents_type     = Ext;
    using layout_type      = Layout;
    using accessor_type    = Accessor;
    using mapping_type     = typename Layout::template mapping<Ext>;
    using element_type     = T;
    using value_type       = std::remove_cv_t<T>;
    using index_type       = typename Ext::index_type;
    using size_type        = typename Ext::size_type;
    using rank_type        = typename Ext::rank_type;
    using data_handle_type = typename Accessor::data_handle_type;
    using reference        = typename Accessor::reference;

    constexpr mdspan() = default;

    template<typename... Is>
        requires((shim::is_int<Is> and ...) and (sizeof...(Is) == Ext::rank() or sizeof...(Is) == Ext::rank_dynamic())
                 and std::is_constructible_v<mapping_type, Ext>)
    constexpr explicit mdspan(data_handle_type p, Is... is) : _p{p}, _m{Ext(is...)}, _a{}
    {}
    constexpr mdspan(data_handle_type p, Ext const& e)
        requires std::is_constructible_v<mapping_type, Ext const&>
        : _p{p}, _m{e}, _a{}
    {}
    template<typename I, std::size_t N>
        requires(N == Ext::rank() or N == Ext::rank_dynamic())
    constexpr mdspan(data_handle_type p, std::array<I, N> const& e) : _p{p}, _m{Ext(e)}, _a{}
    {}
    template<typename I, std::size_t N>
        requires(N == Ext::rank() or N == Ext::rank_dynamic())
    constexpr mdspan(data_handle_type p, std::span<I, N> e) : _p{p}, _m{Ext(e)}, _a{}
    {}
    constexpr mdspan(data_handle_type p, mapping_type const& m)
        requires std::is_default_constructible_v<Accessor>
        : _p{p}, _m{m}, _a{}
    {}
    constexpr mdspan(data_handle_type p, mapping_type const& m, Accessor const& a) : _p{p}, _m{m}, _a{a} {}

    template<typename OT, typename OE, typename OL, typename OA>
        requires(std::is_constructible_v<mapping_type, typename OL::template mapping<OE> const&>
                 and std::is_constructible_v<Accessor, OA const&>
                 and std::is_convertible_v<typename OA::data_handle_type, data_handle_type>)
    constexpr mdspan(mdspan<OT, OE, OL, OA> const& o) : _p{o.data_handle()}, _m{o.mapping()}, _a{o.accessor()}
    {}

    template<typename... Is>
        requires(sizeof...(Is) == Ext::rank() and (shim::is_int<Is> and ...))
    constexpr auto operator()(Is... is) const -> reference
    {
        check(is...);
        return _a.access(_p, static_cast<std::size_t>(_m(is...)));
    }
#if defined(__cpp_multidimensional_subscript)
    template<typename... Is>
        requires(sizeof...(Is) == Ext::rank() and sizeof...(Is) != 1 and (shim::is_int<Is> and ...))
    constexpr auto operator[](Is... is) const -> reference
    {
        return (*this)(is...);
    }
#endif
    template<typename I>
        requires(Ext::rank() == 1 and shim::is_int<I>)
    constexpr auto operator[](I i) const -> reference
    {
        check(i);
        return _a.access(_p, static_cast<std::size_t>(_m(i)));
    }
    template<typename I>
        requires(shim::is_int<I>)
    constexpr auto operator()(std::array<I, Ext::rank()> const& a) const -> reference
    {
        return (*this)[a];
    }
    template<typename I>
        requires(shim::is_int<I>)
    constexpr auto operator[](std::array<I, Ext::rank()> const& a) const -> reference
    {
        return std::apply([this](auto... is) -> reference { return (*this)(is...); }, a);
    }

    static constexpr auto rank() noexcept -> rank_type { return Ext::rank(); }
    static constexpr auto rank_dynamic() noexcept -> rank_type { return Ext::rank_dynamic(); }
    static constexpr auto static_extent(rank_type r) noexcept -> std::size_t { return Ext::static_extent(r); }
    constexpr auto extent(rank_type r) const noexcept -> index_type { return _m.extents().extent(r); }
    constexpr auto extents() const noexcept -> Ext const& { return _m.extents(); }
    constexpr auto size() const noexcept -> size_type { return static_cast<size_type>(shim::product(_m.extents())); }
    constexpr auto empty() const noexcept -> bool { return size() == 0; }
    constexpr auto stride(rank_type r) const noexcept -> index_type { return _m.stride(r); }
    constexpr auto mapping() const noexcept -> mapping_type const& { return _m; }
    constexpr auto accessor() const noexcept -> Accessor const& { return _a; }
    constexpr auto data_handle() const noexcept -> data_handle_type const& { return _p; }
    static constexpr auto is_always_unique() noexcept -> bool { return mapping_type::is_always_unique(); }
    static constexpr auto is_always_exhaustive() noexcept -> bool { return mapping_type::is_always_exhaustive(); }
    static constexpr auto is_always_strided() noexcept -> bool { return mapping_type::is_always_strided(); }
    constexpr auto is_unique() const noexcept -> bool { return _m.is_unique(); }
    constexpr auto is_exhaustive() const noexcept -> bool { return _m.is_exhaustive(); }
    constexpr auto is_strided() const noexcept -> bool { return _m.is_strided(); }

    friend constexpr void swap(mdspan& l, mdspan& r) noexcept
    {
        std::swap(l._p, r._p);
        std::swap(l._m, r._m);
        std::swap(l._a, r._a);
    }

private:
    template<typename... Is>
    constexpr void check(Is... is) const
    {
        std::size_t r = 0;
        auto one      = [&](auto i) {
            if (static_cast<std::size_t>(i) >= static_cast<std::size_t>(extent(r))) {
                shim::fail("mdspan access", static_cast<long long>(i), static_cast<long long>(extent(r)));
            }
            ++r;
        };
        (one(is), ...);
    }

    data_handle_type _p{};
    mapping_type _m{};
    [[no_unique_address]] Accessor _a{};
};

template<typename T, typename... Is>
    requires((shim::is_int<Is> and ...) and sizeof...(Is) > 0)
explicit mdspan(T*, Is...) -> mdspan<T, dextents<std::size_t, sizeof...(Is)>>;
template<typename T, typename I, std::size_t... E>
mdspan(T*, extents<I, E...> const&) -> mdspan<T, extents<I, E...>>;
template<typename T, typename I, std::size_t N>
mdspan(T*, std::array<I, N> const&) -> mdspan<T, dextents<std::size_t, N>>;
template<typename T, typename Mapping>
    requires requires { typename Mapping::layout_type; }
mdspan(T*, Mapping const&) -> mdspan<T, typename Mapping::extents_type, typename Mapping::layout_type>;
template<typename Mapping, typename Accessor>
mdspan(typename Accessor::data_handle_type const&, Mapping const&, Accessor const&)
    -> mdspan<typename Accessor::element_type, typename Mapping::extents_type, typename Mapping::layout_type, Accessor>;

namespace shim {

enum class slice { index, range, full, strided };

template<typename S>
inline constexpr bool is_strided_slice = false;
template<typename O, typename E, typename S>
inline constexpr bool is_strided_slice<strided_slice<O, E, S>> = true;

template<typename S>
constexpr auto slice_kind() -> slice
{
    using U = std::remove_cvref_t<S>;
    if constexpr (std::is_same_v<U, full_extent_t>) {
        return slice::full;
    } else if constexpr (is_int<U>) {
        return slice::index;
    } else if constexpr (is_strided_slice<U>) {
        return slice::strided;
    } else {
        return slice::range;
    }
}

template<std::size_t N>
constexpr auto count_kept(std::array<slice, N> const& k) -> std::size_t
{
    std::size_t n = 0;
    for (auto s : k) { n += s != slice::index ? 1 : 0; }
    return n;
}

// [mdspan.submdspan] layout rules
template<std::size_t N>
constexpr auto keeps_right(std::array<slice, N> const& k) -> bool
{
    // trailing kept dimensions: all but the first kept must be full, and indices only lead
    auto const sub = count_kept(k);
    if (sub == 0) { return true; }
    std::size_t const first = N - sub;
    for (std::size_t i = 0; i < N; ++i) {
        if (i < first and k[i] != slice::index) { return false; }
        if (i == first and (k[i] == slice::index or k[i] == slice::strided)) { return false; }
        if (i > first and k[i] != slice::full) { return false; }
    }
    return true;
}
template<std::size_t N>
constexpr auto keeps_left(std::array<slice, N> const& k) -> bool
{
    auto const sub = count_kept(k);
    if (sub == 0) { return true; }
    std::size_t const last = sub - 1;
    for (std::size_t i = 0; i < N; ++i) {
        if (i > last and k[i] != slice::index) { return false; }
        if (i == last and (k[i] == slice::index or k[i] == slice::strided)) { return false; }
        if (i < last and k[i] != slice::full) { return false; }
    }
    return true;
}

template<typename S>
constexpr auto slice_begin(S const& s) -> std::size_t
{
    if constexpr (slice_kind<S>() == slice::full) {
        return 0;
    } else if constexpr (slice_kind<S>() == slice::index) {
        return static_cast<std::size_t>(s);
    } else if constexpr (slice_kind<S>() == slice::strided) {
        return static_cast<std::size_t>(s.offset);
    } else {
        return static_cast<std::size_t>(std::get<0>(s));
    }
}
template<typename S>
constexpr auto slice_end(S const& s, std::size_t extent) -> std::size_t
{
    if constexpr (slice_kind<S>() == slice::full) {
        return extent;
    } else if constexpr (slice_kind<S>() == slice::index) {
        return static_cast<std::size_t>(s) + 1;
    } else if constexpr (slice_kind<S>() == slice::strided) {
        return static_cast<std::size_t>(s.offset) + static_cast<std::size_t>(s.extent);
    } else {
        return static_cast<std::size_t>(std::get<1>(s));
    }
}

template<typename S>
constexpr auto slice_stride(S const& s) -> std::size_t
{
    if constexpr (slice_kind<S>() == slice::strided) {
        auto const st = static_cast<std::size_t>(s.stride);
        return st == 0 or st >= static_cast<std::size_t>(s.extent) ? 1 : st;
    } else {
        return 1;
    }
}

template<typename Ext, typename... Slices>
struct sub_extents
{
    static constexpr std::array<slice, sizeof...(Slices)> kinds{slice_kind<Slices>()...};
    static constexpr auto sub_rank = count_kept(kinds);
    static constexpr auto nth_kept(std::size_t n) -> std::size_t
    {
        for (std::size_t i = 0; i < sizeof...(Slices); ++i) {
            if (kinds[i] != slice::index) {
                if (n == 0) { return i; }
                --n;
            }
        }
        return 0;
    }
    template<std::size_t... K>
    static auto make(std::index_sequence<K...>)
        -> extents<typename Ext::index_type, (kinds[nth_kept(K)] == slice::full ? Ext::static_extent(nth_kept(K)) : dynamic_extent)...>;
    using type = decltype(make(std::make_index_sequence<sub_rank>{}));
};
}  // namespace shim

template<typename T, typename Ext, typename Layout, typename Accessor, typename... Slices>
constexpr auto submdspan(mdspan<T, Ext, Layout, Accessor> const& src, Slices... slices)
{
    static_assert(sizeof...(Slices) == Ext::rank());
    using sub              = shim::sub_extents<Ext, Slices...>;
    using ext_t            = typename sub::type;
    constexpr auto kinds   = sub::kinds;
    constexpr auto keep_r  = std::is_same_v<Layout, layout_right> and shim::keeps_right(kinds);
    constexpr auto keep_l  = std::is_same_v<Layout, layout_left> and shim::keeps_left(kinds);
    using layout_t         = std::conditional_t<keep_r, layout_right, std::conditional_t<keep_l, layout_left, layout_stride>>;
    using offset_policy    = typename Accessor::offset_policy;
    using element          = typename offset_policy::element_type;

    std::array<std::size_t, sizeof...(Slices)> b{};
    std::array<std::size_t, sizeof...(Slices)> e{};
    std::array<std::size_t, sizeof...(Slices)> st{};
    std::size_t r  = 0;
    std::size_t of = 0;
    bool empty     = false;
    auto one       = [&](auto const& s) {
        auto const ext = static_cast<std::size_t>(src.extent(r));
        b[r]           = shim::slice_begin(s);
        e[r]           = shim::slice_end(s, ext);
        st[r]          = shim::slice_stride(s);
        if constexpr (shim::slice_kind<decltype(s)>() == shim::slice::strided) {
            if (static_cast<std::size_t>(s.extent) > 0 and static_cast<std::size_t>(s.stride) == 0) { shim::fail("strided_slice stride", 0, 0); }
        }
        if (b[r] > e[r] or e[r] > ext) {
            shim::fail("submdspan slice end", static_cast<long long>(e[r]), static_cast<long long>(ext));
        }
        if (b[r] == ext) { empty = true; }
        of += b[r] * static_cast<std::size_t>(src.stride(r));
        ++r;
    };
    (one(slices), ...);
    [[maybe_unused]] auto raw_stride = [](auto const& s) -> std::size_t {
        if constexpr (shim::slice_kind<decltype(s)>() == shim::slice::strided) {
            return static_cast<std::size_t>(s.stride) == 0 ? 1 : static_cast<std::size_t>(s.stride);
        } else {
            return 1;
        }
    };
    if (empty) { of = src.mapping().required_span_size(); }

    std::array<std::size_t, sub::sub_rank == 0 ? 1 : sub::sub_rank> ne{};
    std::array<std::size_t, sub::sub_rank> ns{};
    for (std::size_t k = 0; k < sub::sub_rank; ++k) {
        auto const i = sub::nth_kept(k);
        auto const full_stride = [&] { std::size_t q = 0; std::size_t v = 1; ((q++ == i ? (void)(v = raw_stride(slices)) : (void)0), ...); return v; }();
        ne[k]        = e[i] == b[i] ? 0 : 1 + (e[i] - b[i] - 1) / full_stride;
        ns[k]        = static_cast<std::size_t>(src.stride(i)) * st[i];
    }
    auto const exts = [&]<std::size_t... K>(std::index_sequence<K...>) {
        if constexpr (sizeof...(K) == 0) { return ext_t{}; } else { return ext_t(ne[K]...); }
    }(std::make_index_sequence<sub::sub_rank>{});

    auto const handle = src.accessor().offset(src.data_handle(), of);
    using mapping_t   = typename layout_t::template mapping<ext_t>;
    using result_t    = mdspan<element, ext_t, layout_t, offset_policy>;
    if constexpr (std::is_same_v<layout_t, layout_stride>) {
        return result_t(handle, mapping_t(exts, ns), offset_policy(src.accessor()));
    } else {
        return result_t(handle, mapping_t(exts), offset_policy(src.accessor()));
    }
}

}  // namespace Kokkos
