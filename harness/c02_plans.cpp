#include "fft_common.hpp"
// Histories on one plan object (and copies of it), inversion, reported sizes.
template<typename Plan, std::size_t Radix, std::size_t MinOrder, bool Recurrence = false>
void history(Src& s)
{
    using C          = typename Plan::value_type;
    auto const order = s.size(MinOrder, std::max(MinOrder, order_for(Radix, s.chance(1, 24) ? 1u << 14 : 1u << 10)));
    auto const n     = upow(Radix, order);
    s.note(fmt("%s order=%zu n=%zu", cname<C>(), order, n));
    auto tolf = [&](long double norm) {
        auto t = fft_tol(n, eps<C>(), norm);
        if (Recurrence) { t += 4.0L * eps<C>() * static_cast<long double>(n / Radix) * norm; }
        return t;
    };
    std::vector<Plan> plans;
    plans.emplace_back(fft::from_order, order);
    PBT_REQUIRE(plans[0].order() == order, "order() is %zu", std::size_t(plans[0].order()));
    PBT_REQUIRE(plans[0].size() == n, "size() is %zu", std::size_t(plans[0].size()));
    PBT_REQUIRE(Plan::max_size() == upow(Radix, Plan::max_order()), "max_size() is %zu", std::size_t(Plan::max_size()));
    auto const steps = s.size(2, 7);
    std::vector<C> cur = gen_any_level<C>(s, n);
    std::vector<C> first_in;
    std::vector<C> first_out;
    fft::direction first_dir{};
    for (std::size_t i = 0; i < steps; ++i) {
        auto const which = s.below(plans.size());
        switch (s.below(8)) {
            case 0:
                if (plans.size() < 4) {
                    auto copy = plans[which];
                    plans.push_back(copy);
                    s.note("copy");
                }
                break;
            case 1: {
                auto other = Plan{fft::from_order, std::max<std::size_t>(MinOrder, order > MinOrder ? order - 1 : order + 1)};
                other      = plans[which];  // assignment over a plan of another size
                PBT_REQUIRE(other.size() == n && other.order() == order, "after assignment size() is %zu", std::size_t(other.size()));
                plans[which] = std::move(other);
                s.note("assign");
                break;
            }
            default: break;
        }
        auto& plan     = plans[s.below(plans.size())];
        auto const dir = gen_dir(s);
        if (s.chance(1, 3)) { cur = gen_any_level<C>(s, n); }
        auto const x    = cur;
        auto const want = oracle::dft(cx_of(x), sign_of(dir));
        std::string how;
        auto const got = transform(s, plan, x, dir, &how);
        s.note(std::string(dname(dir)) + " " + how);
        require_close_l2(got, want, tolf(oracle::norm(want)), fmt("step %zu", i).c_str());
        // the other direction undoes it
        if (s.flag()) {
            auto& plan2     = plans[s.below(plans.size())];
            auto const back = transform(s, plan2, got, dir == fft::direction::forward ? fft::direction::backward : fft::direction::forward);
            auto expect     = cx_of(x);
            for (auto& e : expect) {
                e.re *= static_cast<long double>(n);
                e.im *= static_cast<long double>(n);
            }
            require_close_l2(back, expect, 2 * tolf(oracle::norm(expect)), fmt("inverse of step %zu", i).c_str());
        }
        if (i == 0) {
            first_in  = x;
            first_out = got;
            first_dir = dir;
        }
        PBT_REQUIRE(plan.order() == order && plan.size() == n, "order/size changed to %zu/%zu", std::size_t(plan.order()), std::size_t(plan.size()));
        // stay bounded: continue with the result or, when it has grown, with new data
        cur = s.flag() && i < 1 ? got : x;
    }
    // the first transform once more
    auto const again = transform(s, plans[s.below(plans.size())], first_in, first_dir);
    auto ref         = cx_of(first_out);
    require_close_l2(again, ref, 2 * tolf(oracle::norm(ref)), "first transform repeated");
    s.nontrivial(n >= 4 && steps >= 2 && oracle::norm(ref) > 0);
}

// very many transforms on one plan
template<typename Plan, std::size_t Radix, std::size_t MinOrder, bool Recurrence = false>
void many(Src& s)
{
    using C          = typename Plan::value_type;
    auto const order = s.size(MinOrder, std::max(MinOrder, order_for(Radix, 16)));
    auto const n     = upow(Radix, order);
    auto const steps = gen_many(s);
    auto plan        = Plan{fft::from_order, order};
    std::vector<std::vector<C>> in(3);
    std::vector<std::vector<oracle::cplx>> want[2] = {std::vector<std::vector<oracle::cplx>>(3), std::vector<std::vector<oracle::cplx>>(3)};
    for (std::size_t i = 0; i < 3; ++i) {
        in[i]      = gen_any_level<C>(s, n);
        want[0][i] = oracle::dft(cx_of(in[i]), -1);
        want[1][i] = oracle::dft(cx_of(in[i]), 1);
        s.nontrivial(n >= 2 && oracle::norm(want[0][i]) > 0);
    }
    pbt::Rng r{s.below(1 << 20)};
    s.note(fmt("%s order=%zu steps=%zu", cname<C>(), order, steps));
    Buf<C> io{in[0], s.size(1, 2), 2};
    for (std::size_t t = 0; t < steps; ++t) {
        auto const which = r.next() % 3;
        auto const dir   = r.next() % 2;
        for (std::size_t i = 0; i < n; ++i) { io.data()[i * io.stride] = in[which][i]; }
        plan(io.sview(), dir == 0 ? fft::direction::forward : fft::direction::backward);
        auto const& w = want[dir][which];
        auto const nm = oracle::norm(w);
        require_close_l2(io.get(), w, fft_tol(n, eps<C>(), nm) + (Recurrence ? 4.0L * eps<C>() * static_cast<long double>(n / Radix) * nm : 0), fmt("transform number %zu of a plan", t + 1).c_str());
    }
    io.check("vector");
}

template<typename Plan>
void refuse(Src& s)
{
    PBT_REQUIRE(Plan::max_order() == 27 || Plan::max_order() < 60, "max_order");
    std::size_t const order = s.flag() ? Plan::max_order() + s.size(1, 40) : Plan::max_order() + 1 + (s.below(0) >> s.size(1, 63)) % (std::size_t(-1) - 1000);
    s.note(fmt("order=%zu max_order=%zu", order, std::size_t(Plan::max_order())));
    bool threw = false;
    try {
        auto plan = Plan{fft::from_order, order};
        (void)plan;
    } catch (std::exception const&) {
        threw = true;
    }
    s.nontrivial();
    PBT_REQUIRE(threw, "a plan of order %zu was made", order);
}

// A plan of the user's own: in place, out of place or both. The free functions have to go through it.
template<typename C, bool In, bool Out>
struct UserPlan
{
    using value_type = C;
    std::size_t n;
    std::size_t size() const { return n; }
    template<typename Get, typename Set>
    void run(Get get, Set set, fft::direction dir)
    {
        std::vector<oracle::cplx> x(n);
        for (std::size_t i = 0; i < n; ++i) { x[i] = to_cx(get(i)); }
        auto const y = oracle::dft(x, sign_of(dir));
        for (std::size_t i = 0; i < n; ++i) { set(i, C(static_cast<base_t<C>>(y[i].re), static_cast<base_t<C>>(y[i].im))); }
    }
    template<neo::inout_vector V>
        requires In
    void operator()(V v, fft::direction dir)
    {
        run([&](auto i) { return C(v[i]); }, [&](auto i, C x) { v[i] = x; }, dir);
    }
    template<neo::in_vector I, neo::out_vector O>
        requires Out
    void operator()(I in, O out, fft::direction dir)
    {
        run([&](auto i) { return C(in[i]); }, [&](auto i, C x) { out[i] = x; }, dir);
    }
};
template<typename C, bool In, bool Out>
void user_plan(Src& s)
{
    auto const n   = s.len(1, 40);
    auto const dir = gen_dir(s);
    auto const x   = gen_any_level<C>(s, n);
    auto const fwd = dir == fft::direction::forward;
    auto const any = s.flag();  // dft/idft instead of fft/ifft
    UserPlan<C, In, Out> plan{n};
    Buf<C> in{x, s.size(1, 2), 3};
    std::vector<C> got;
    auto const inplace = In && (!Out ? s.flag() : s.chance(1, 4));
    s.note(fmt("%s n=%zu %s%s %s", cname<C>(), n, any ? "dft " : "fft ", dname(dir), inplace ? "in place" : "out of place"));
    if constexpr (In) {
        if (inplace) {
            if (any) {
                fwd ? fft::dft(plan, in.sview()) : fft::idft(plan, in.sview());
            } else {
                fwd ? fft::fft(plan, in.sview()) : fft::ifft(plan, in.sview());
            }
            got = in.get();
        }
    }
    if (!inplace) {
        Buf<C> out{std::vector<C>(n, C(4, 5)), s.size(1, 2), 3};
        if (any) {
            fwd ? fft::dft(plan, in.sview(), out.sview()) : fft::idft(plan, in.sview(), out.sview());
        } else {
            fwd ? fft::fft(plan, in.sview(), out.sview()) : fft::ifft(plan, in.sview(), out.sview());
        }
        out.check("output");
        if (!same(in.get(), x)) { PBT_FAIL("out-of-place transform changed its input"); }
        got = out.get();
    }
    in.check("input");
    auto const want = oracle::dft(cx_of(x), sign_of(dir));
    s.nontrivial(n > 1 && oracle::norm(want) > 0);
    require_close_l2(got, want, fft_tol(n, eps<C>(), oracle::norm(want)), "free function with a plan of the user's own");
}
#define REG(ID, PLAN, R, LO, Q, ...)                                                                                   \
    PBT_CHECK_T(ID##1, #ID "_cf", Q, Q * 15, history<fft::PLAN<std::complex<float>>, R, LO __VA_OPT__(, ) __VA_ARGS__>) \
    PBT_CHECK_T(ID##2, #ID "_c128", Q, Q * 15, history<fft::PLAN<neo::complex128>, R, LO __VA_OPT__(, ) __VA_ARGS__>) \
    PBT_CHECK_T(ID##3, #ID "_many", 6, 60, many<fft::PLAN<std::complex<float>>, R, LO __VA_OPT__(, ) __VA_ARGS__>)
#if PART == 1
REG(def, fft_plan, 2, 0, 600)
REG(dif2r, c2c_stockham_dif2r_plan, 2, 1, 300)
REG(dif2i, c2c_stockham_dif2i_plan, 2, 1, 300)
REG(dit4, c2c_dit4_plan, 4, 1, 300)
REG(dif4, c2c_dif4_plan, 4, 1, 300)
template<typename C>
using dit2v1 = fft::c2c_dit2_plan<C, fft::kernel::c2c_dit2_v1>;
PBT_CHECK_T(v1f, "dit2v1", 300, 3000, history<dit2v1<std::complex<double>>, 2, 0>)
template<typename C>
using dit2v4 = fft::c2c_dit2_plan<C, fft::kernel::c2c_dit2_v4>;
PBT_CHECK_T(v4f, "dit2v4", 300, 3000, history<dit2v4<neo::complex64>, 2, 0>)
PBT_CHECK_T(refuse_f, "refuse_cf", 200, 2000, refuse<fft::fft_plan<std::complex<float>>>)
PBT_CHECK_T(refuse_d, "refuse_cd", 200, 2000, refuse<fft::fft_plan<std::complex<double>>>)
PBT_CHECK_T(refuse_64, "refuse_c64", 200, 2000, refuse<fft::fft_plan<neo::complex64>>)
PBT_CHECK_T(user_in, "user_in", 200, 2000, user_plan<std::complex<float>, true, false>)
PBT_CHECK_T(user_out, "user_out", 200, 2000, user_plan<std::complex<double>, false, true>)
PBT_CHECK_T(user_both, "user_both", 200, 2000, user_plan<neo::complex64, true, true>)
#else
REG(dif3, c2c_dif3_plan, 3, 1, 300, true)
REG(dif5, c2c_dif5_plan, 5, 1, 300, true)
REG(sdif3, c2c_stockham_dif3_plan, 3, 1, 300)
REG(sdif4, c2c_stockham_dif4_plan, 4, 1, 300)
REG(sdif5, c2c_stockham_dif5_plan, 5, 1, 300)
REG(sdif8, c2c_stockham_dif8_plan, 8, 1, 300)
REG(sdit4, c2c_stockham_dit4_plan, 4, 1, 300)
#endif
