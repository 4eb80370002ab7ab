#include "fft_common.hpp"
// Radix-2 plans: the default plan, every dit2 kernel, both Stockham forms
template<typename C>
using def = fft::fft_plan<C>;
template<typename C>
using v1 = fft::c2c_dit2_plan<C, fft::kernel::c2c_dit2_v1>;
template<typename C>
using v2 = fft::c2c_dit2_plan<C, fft::kernel::c2c_dit2_v2>;
template<typename C>
using v3 = fft::c2c_dit2_plan<C, fft::kernel::c2c_dit2_v3>;
template<typename C>
using v4 = fft::c2c_dit2_plan<C, fft::kernel::c2c_dit2_v4>;
template<typename C>
using dr = fft::c2c_stockham_dif2r_plan<C>;
template<typename C>
using di = fft::c2c_stockham_dif2i_plan<C>;
#define REG(P, LO, MAX, Q)                                                                                             \
    PBT_CHECK_T(P##1, #P "_cf", Q, Q * 12, check_plan<P<std::complex<float>>, 2, LO, MAX>)                             \
    PBT_CHECK_T(P##2, #P "_cd", Q, Q * 12, check_plan<P<std::complex<double>>, 2, LO, MAX>)                            \
    PBT_CHECK_T(P##3, #P "_c64", Q, Q * 12, check_plan<P<neo::complex64>, 2, LO, MAX>)                                 \
    PBT_CHECK_T(P##4, #P "_c128", Q, Q * 12, check_plan<P<neo::complex128>, 2, LO, MAX>)                            \
    PBT_CHECK_T(P##5, #P "_huge_cf", 6, 40, check_huge<P<std::complex<float>>, 2, LO, MAX>)                            \
    PBT_CHECK_T(P##6, #P "_huge_cd", 4, 30, check_huge<P<std::complex<double>>, 2, LO, MAX>)
#if PART == 1
REG(def, 0, 27, 500)
PBT_CHECK_T(gi1, "giant_cf", 2, 8, check_giant<def<std::complex<float>>>)
REG(v1, 0, 27, 250)
REG(v2, 0, 27, 250)
#else
REG(v3, 0, 27, 250)
REG(v4, 0, 27, 250)
REG(dr, 1, 20, 250)
REG(di, 1, 20, 250)
#endif
