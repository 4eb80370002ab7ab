#include "fft_common.hpp"
// Any-length DFT: plan (Bluestein) and direct sum.
inline std::size_t gen_len(Src& s, std::size_t big)
{
    switch (s.below(8)) {
        case 0: return s.size(1, 8);
        case 1: return std::size_t(1) << s.size(0, 9);
        case 2: return s.pick({3, 5, 7, 11, 13, 31, 61, 97, 127, 131, 251, 257, 509, 521});
        case 3: return s.size(1, big);
        default: return s.size(1, 150);
    }
}
inline long double blue_tol(std::size_t n, long double e, long double norm) { return 40.0L * e * (std::log2(static_cast<long double>(n)) + 3.0L) * norm + 1e-30L; }

template<typename C>
void plan_history(Src& s)
{
    // long lengths are products of small numbers: the reference needs n * (sum of the prime factors) steps
    auto const n = s.chance(1, 200) ? s.size(240, s.thorough ? 700 : 380) * s.size(20, s.thorough ? 700 : 380) : s.chance(1, 150) ? s.size(2000, 9000) : gen_len(s, 1200);
    auto plan    = fft::dft_plan<C>{n};
    PBT_REQUIRE(plan.size() == n, "size() is %zu", std::size_t(plan.size()));
    auto const steps = n > 3000 ? 1 : s.size(1, 4);
    s.note(fmt("%s n=%zu", cname<C>(), n));
    for (std::size_t i = 0; i < steps; ++i) {
        auto const dir  = gen_dir(s);
        auto const x    = gen_any_level<C>(s, n);
        auto const want = oracle::dft(cx_of(x), sign_of(dir));
        auto const norm = oracle::norm(want);
        s.note(fmt("%s %s", dname(dir), show(x, 4).c_str()));
        s.nontrivial(n > 1 && norm > 0);
        auto const stride = s.flag() ? std::size_t(1) : s.size(2, 3);
        Buf<C> io{x, stride, 3};
        std::vector<C> got;
        switch (s.below(3)) {
            case 0: plan(io.sview(), dir); got = io.get(); break;
            case 1:
                dir == fft::direction::forward ? fft::dft(plan, io.sview()) : fft::idft(plan, io.sview());
                got = io.get();
                break;
            default: {
                Buf<C> out{std::vector<C>(n, C(4, 5)), s.flag() ? std::size_t(1) : stride, 3};
                dir == fft::direction::forward ? fft::dft(plan, io.sview(), out.sview()) : fft::idft(plan, io.sview(), out.sview());
                out.check("output");
                if (!same(io.get(), x)) { PBT_FAIL("out-of-place transform changed its input"); }
                got = out.get();
            }
        }
        io.check("in/out vector");
        require_close_l2(got, want, blue_tol(n, eps<C>(), norm), fmt("step %zu", i).c_str());
        if (s.flag()) {
            Buf<C> b{got, 1, 2};
            dir == fft::direction::forward ? fft::idft(plan, b.view()) : fft::dft(plan, b.view());
            auto expect = cx_of(x);
            for (auto& e : expect) {
                e.re *= static_cast<long double>(n);
                e.im *= static_cast<long double>(n);
            }
            require_close_l2(b.get(), expect, 2 * blue_tol(n, eps<C>(), oracle::norm(expect)), "inverse");
        }
    }
}
template<typename C>
void direct(Src& s)
{
    auto const n    = gen_len(s, 300);
    auto const dir  = gen_dir(s);
    auto const x    = gen_any_level<C>(s, n);
    auto const want = oracle::dft(cx_of(x), sign_of(dir));
    auto const norm = oracle::norm(want);
    s.note(fmt("%s n=%zu %s %s", cname<C>(), n, dname(dir), show(x, 4).c_str()));
    s.nontrivial(n > 1 && norm > 0);
    Buf<C> in{x, s.size(1, 2), 2};
    Buf<C> out{std::vector<C>(n, C(1, 2)), s.size(1, 2), 2};
    if (dir == fft::direction::forward && s.flag()) {
        fft::dft(in.sview(), out.sview());  // forward is the default
    } else if (in.stride == 1 && s.flag()) {
        fft::dft(in.cview(), out.sview(), dir);
    } else {
        fft::dft(in.sview(), out.sview(), dir);
    }
    in.check("input");
    out.check("output");
    if (!same(in.get(), x)) { PBT_FAIL("input changed"); }
    // the angle 2 pi n k / N is rounded before it is reduced, so the error grows with N
    require_close_l2(out.get(), want, (16.0L + 10.0L * n) * eps<C>() * norm + 1e-30L, "dft(in, out, dir)");
}
template<typename C>
void many(Src& s)
{
    auto const n     = s.size(1, 9);
    auto const steps = gen_many(s);
    auto plan        = fft::dft_plan<C>{n};
    std::vector<std::vector<C>> in(3);
    std::vector<std::vector<oracle::cplx>> want[2] = {std::vector<std::vector<oracle::cplx>>(3), std::vector<std::vector<oracle::cplx>>(3)};
    for (std::size_t i = 0; i < 3; ++i) {
        in[i]      = gen_any_level<C>(s, n);
        want[0][i] = oracle::dft(cx_of(in[i]), -1);
        want[1][i] = oracle::dft(cx_of(in[i]), 1);
        s.nontrivial(n >= 2 && oracle::norm(want[0][i]) > 0);
    }
    auto const style = s.below(4);
    pbt::Rng r{s.below(1 << 20)};
    s.note(fmt("%s n=%zu steps=%zu", cname<C>(), n, steps));
    Buf<C> io{in[0], 1, 2};
    for (std::size_t t = 0; t < steps; ++t) {
        auto const which = r.next() % 3;
        auto const dir   = style < 2 && r.next() % 300 != 0 ? style : r.next() % 2;
        for (std::size_t i = 0; i < n; ++i) { io.data()[i] = in[which][i]; }
        plan(io.view(), dir == 0 ? fft::direction::forward : fft::direction::backward);
        auto const& w = want[dir][which];
        require_close_l2(io.get(), w, blue_tol(n, eps<C>(), oracle::norm(w)), fmt("transform number %zu of a plan", t + 1).c_str());
    }
}
template<typename C>
void huge(Src& s)
{
    // long and prime, around powers of two, or anything
    auto const top = std::size_t(1) << (s.thorough ? 20 : 19);
    auto const n   = s.chance(1, 3) ? std::size_t(s.pick({65521, 65537, 131071, 131101, 262147, 524287})) : s.flag() ? (std::size_t(1) << s.size(16, 19)) + s.size(0, 2) - 1 : s.size(60000, top);
    auto const dir = gen_dir(s);
    std::vector<C> x;
    auto const imp = gen_impulses<C>(s, n, x);
    auto plan      = fft::dft_plan<C>{n};
    s.note(fmt("%s n=%zu %s %zu impulses, first at %zu", cname<C>(), n, dname(dir), imp.at.size(), imp.at[0]));
    s.nontrivial(true);
    Buf<C> io{x, 1, 2};
    plan(io.view(), dir);
    io.check("in/out vector");
    require_each(io.get(), imp.spectrum(n, sign_of(dir), n), 4 * huge_tol<C>(n, imp), "dft");
}
#define REG(F, Q)                                                                                                      \
    PBT_CHECK_T(F##1, #F "_cf", Q, Q * 15, F<std::complex<float>>)                                                     \
    PBT_CHECK_T(F##2, #F "_cd", Q, Q * 15, F<std::complex<double>>)
REG(plan_history, 2500)
REG(direct, 1000)
REG(many, 6)
PBT_CHECK_T(hg1, "huge_cf", 16, 150, huge<std::complex<float>>)
PBT_CHECK_T(hg2, "huge_cd", 12, 120, huge<std::complex<double>>)
