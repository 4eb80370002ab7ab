// Offline stand-in for Kokkos::Experimental::mdarray (the subset neo uses).
#pragma once

#include <mdspan/mdspan.hpp>

#include <vector>

namespace Kokkos::Experimental {

template<typename T, typename Ext, typename Layout = layout_right, typename Container = std::vector<T>>
struct mdarray
{
    using extents_type    = Ext;
    using layout_type     = Layout;
    using container_type  = Container;
    using mapping_type    = typename Layout::template mapping<Ext>;
    using element_type    = T;
    using value_type      = std::remove_cv_t<T>;
    using index_type      = typename Ext::index_type;
    using size_type       = typename Ext::size_type;
    using rank_type       = typename Ext::rank_type;
    using pointer         = T*;
    using reference       = T&;
    using const_reference = T const&;

    constexpr mdarray() : mdarray(Ext{}) {}
    mdarray(mdarray const&)                    = default;
    mdarray(mdarray&&) noexcept                = default;
    auto operator=(mdarray const&) -> mdarray& = default;
    auto operator=(mdarray&&) -> mdarray&      = default;
    ~mdarray()                                 = default;

    template<typename... Is>
        requires((shim::is_int<Is> and ...) and sizeof...(Is) > 0 and std::is_constructible_v<Ext, Is...>)
    constexpr explicit mdarray(Is... is) : mdarray(Ext(is...))
    {}
    constexpr mdarray(Ext const& e) : _m{e}, _c(_m.required_span_size()) {}
    constexpr explicit mdarray(mapping_type const& m) : _m{m}, _c(_m.required_span_size()) {}
    constexpr mdarray(Ext const& e, T const& v) : _m{e}, _c(_m.required_span_size(), v) {}
    constexpr mdarray(mapping_type const& m, T const& v) : _m{m}, _c(_m.required_span_size(), v) {}
    constexpr mdarray(Ext const& e, Container const& c) : _m{e}, _c(c) { check_container(); }
    constexpr mdarray(Ext const& e, Container&& c) : _m{e}, _c(std::move(c)) { check_container(); }
    constexpr mdarray(mapping_type const& m, Container const& c) : _m{m}, _c(c) { check_container(); }
    constexpr mdarray(mapping_type const& m, Container&& c) : _m{m}, _c(std::move(c)) { check_container(); }

    template<typename OT, typename OE, typename OL, typename OC>
        requires(std::is_constructible_v<Ext, OE> and std::is_constructible_v<T, OT const&>
                 and not(std::same_as<OT, T> and std::same_as<OE, Ext> and std::same_as<OL, Layout> and std::same_as<OC, Container>))
    constexpr explicit mdarray(mdarray<OT, OE, OL, OC> const& o) : mdarray(Ext(o.extents()))
    {
        copy_from(o.to_mdspan());
    }
    template<typename OT, typename OE, typename OL, typename OA>
        requires(std::is_constructible_v<Ext, OE> and std::is_constructible_v<T, typename OA::reference>)
    constexpr explicit mdarray(mdspan<OT, OE, OL, OA> const& o) : mdarray(Ext(o.extents()))
    {
        copy_from(o);
    }

    template<typename... Is>
        requires(sizeof...(Is) == Ext::rank() and (shim::is_int<Is> and ...))
    constexpr auto operator()(Is... is) -> reference { return to_mdspan()(is...); }
    template<typename... Is>
        requires(sizeof...(Is) == Ext::rank() and (shim::is_int<Is> and ...))
    constexpr auto operator()(Is... is) const -> const_reference { return to_mdspan()(is...); }
    template<typename I>
        requires(Ext::rank() == 1 and shim::is_int<I>)
    constexpr auto operator[](I i) -> reference { return to_mdspan()[i]; }
    template<typename I>
        requires(Ext::rank() == 1 and shim::is_int<I>)
    constexpr auto operator[](I i) const -> const_reference { return to_mdspan()[i]; }

#if defined(__cpp_multidimensional_subscript)
    template<typename... Is>
        requires(sizeof...(Is) == Ext::rank() and sizeof...(Is) != 1 and (shim::is_int<Is> and ...))
    constexpr auto operator[](Is... is) -> reference { return to_mdspan()(is...); }
    template<typename... Is>
        requires(sizeof...(Is) == Ext::rank() and sizeof...(Is) != 1 and (shim::is_int<Is> and ...))
    constexpr auto operator[](Is... is) const -> const_reference { return to_mdspan()(is...); }
#endif
    template<typename I>
        requires(shim::is_int<I>)
    constexpr auto operator[](std::array<I, Ext::rank()> const& a) -> reference { return to_mdspan()[a]; }
    template<typename I>
        requires(shim::is_int<I>)
    constexpr auto operator[](std::array<I, Ext::rank()> const& a) const -> const_reference { return to_mdspan()[a]; }

    static constexpr auto rank() noexcept -> rank_type { return Ext::rank(); }
    static constexpr auto rank_dynamic() noexcept -> rank_type { return Ext::rank_dynamic(); }
    static constexpr auto static_extent(rank_type r) noexcept -> std::size_t { return Ext::static_extent(r); }
    static constexpr auto is_always_unique() noexcept -> bool { return mapping_type::is_always_unique(); }
    constexpr auto extent(rank_type r) const noexcept -> index_type { return _m.extents().extent(r); }
    constexpr auto extents() const noexcept -> Ext const& { return _m.extents(); }
    constexpr auto size() const noexcept -> size_type { return static_cast<size_type>(shim::product(_m.extents())); }
    constexpr auto stride(rank_type r) const noexcept -> index_type { return _m.stride(r); }
    constexpr auto mapping() const noexcept -> mapping_type const& { return _m; }
    constexpr auto empty() const noexcept -> bool { return size() == 0; }
    static constexpr auto is_always_exhaustive() noexcept -> bool { return mapping_type::is_always_exhaustive(); }
    static constexpr auto is_always_strided() noexcept -> bool { return mapping_type::is_always_strided(); }
    constexpr auto is_unique() const noexcept -> bool { return _m.is_unique(); }
    constexpr auto is_exhaustive() const noexcept -> bool { return _m.is_exhaustive(); }
    constexpr auto is_strided() const noexcept -> bool { return _m.is_strided(); }
    constexpr auto container_data() noexcept -> T* { return _c.data(); }
    constexpr auto container_data() const noexcept -> T const* { return _c.data(); }
    constexpr auto extract_container() && -> Container&& { return std::move(_c); }
    friend constexpr void swap(mdarray& l, mdarray& r) noexcept
    {
        std::swap(l._m, r._m);
        std::swap(l._c, r._c);
    }
    constexpr auto container_size() const { return _c.size(); }
    constexpr auto data() noexcept -> T* { return _c.data(); }
    constexpr auto data() const noexcept -> T const* { return _c.data(); }
    constexpr auto container() const noexcept -> Container const& { return _c; }

    constexpr auto to_mdspan() { return mdspan<T, Ext, Layout>(_c.data(), _m); }
    constexpr auto to_mdspan() const { return mdspan<T const, Ext, Layout>(_c.data(), _m); }
    template<typename Accessor = default_accessor<T>>
    constexpr auto to_mdspan(Accessor const& a)
    {
        return mdspan<T, Ext, Layout, Accessor>(_c.data(), _m, a);
    }
    template<typename Accessor = default_accessor<T const>>
    constexpr auto to_mdspan(Accessor const& a) const
    {
        return mdspan<T const, Ext, Layout, Accessor>(_c.data(), _m, a);
    }
    constexpr operator mdspan<T, Ext, Layout>() { return to_mdspan(); }
    constexpr operator mdspan<T const, Ext, Layout>() const { return to_mdspan(); }

private:
    constexpr void check_container() const
    {
        if (_c.size() < _m.required_span_size()) {
            shim::fail("mdarray container too small", static_cast<long long>(_c.size()), static_cast<long long>(_m.required_span_size()));
        }
    }
    template<typename Src>
    constexpr void copy_from(Src const& o)
    {
        std::array<std::size_t, Ext::rank() == 0 ? 1 : Ext::rank()> at{};
        if (size() == 0) { return; }
        auto dst = to_mdspan();
        for (;;) {
            [&]<std::size_t... K>(std::index_sequence<K...>) { dst(at[K]...) = static_cast<T>(o(at[K]...)); }(std::make_index_sequence<Ext::rank()>{});
            std::size_t d = Ext::rank();
            while (d > 0) {
                if (++at[d - 1] < static_cast<std::size_t>(extent(d - 1))) { break; }
                at[d - 1] = 0;
                --d;
            }
            if (d == 0) { return; }
        }
    }
    mapping_type _m{};
    Container _c{};
};

}  // namespace Kokkos::Experimental

