#include "fft_common.hpp"
// Radix-3/4/5/8 plans
template<typename C>
using dit4 = fft::c2c_dit4_plan<C>;
template<typename C>
using dif4 = fft::c2c_dif4_plan<C>;
template<typename C>
using dif3 = fft::c2c_dif3_plan<C>;
template<typename C>
using dif5 = fft::c2c_dif5_plan<C>;
template<typename C>
using sdif3 = fft::c2c_stockham_dif3_plan<C>;
template<typename C>
using sdif4 = fft::c2c_stockham_dif4_plan<C>;
template<typename C>
using sdif5 = fft::c2c_stockham_dif5_plan<C>;
template<typename C>
using sdif8 = fft::c2c_stockham_dif8_plan<C>;
template<typename C>
using sdit4 = fft::c2c_stockham_dit4_plan<C>;
#define REG(P, R, MAX, Q, ...)                                                                                              \
    PBT_CHECK_T(P##1, #P "_cf", Q, Q * 12, check_plan<P<std::complex<float>>, R, 1, MAX __VA_OPT__(, ) __VA_ARGS__>)                              \
    PBT_CHECK_T(P##2, #P "_cd", Q, Q * 12, check_plan<P<std::complex<double>>, R, 1, MAX __VA_OPT__(, ) __VA_ARGS__>)                             \
    PBT_CHECK_T(P##3, #P "_c64", Q, Q * 12, check_plan<P<neo::complex64>, R, 1, MAX __VA_OPT__(, ) __VA_ARGS__>)                                  \
    PBT_CHECK_T(P##4, #P "_c128", Q, Q * 12, check_plan<P<neo::complex128>, R, 1, MAX __VA_OPT__(, ) __VA_ARGS__>)                                  \
    PBT_CHECK_T(P##5, #P "_huge_cf", 6, 40, check_huge<P<std::complex<float>>, R, 1, MAX __VA_OPT__(, ) __VA_ARGS__>)                             \
    PBT_CHECK_T(P##6, #P "_huge_cd", 4, 30, check_huge<P<std::complex<double>>, R, 1, MAX __VA_OPT__(, ) __VA_ARGS__>)
#if PART == 1
REG(dit4, 4, 11, 200)
REG(dif4, 4, 11, 200)
REG(sdit4, 4, 11, 200)
REG(dif3, 3, 17, 200, true)
REG(dif5, 5, 11, 200, true)
#else
REG(sdif3, 3, 11, 200)
REG(sdif4, 4, 11, 200)
REG(sdif5, 5, 11, 200)
REG(sdif8, 8, 9, 200)
#endif
