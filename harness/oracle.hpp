// Reference computations in extended precision, independent of the library under test.
#pragma once
#include <cstddef>
#include <vector>
namespace oracle {
using real = long double;
struct cplx
{
    real re{0};
    real im{0};
};
// unscaled DFT, sign = -1 forward, +1 backward
auto dft(std::vector<cplx> const& x, int sign) -> std::vector<cplx>;
// the same by the definition, O(n^2); used to cross-check dft()
auto dft_naive(std::vector<cplx> const& x, int sign) -> std::vector<cplx>;
// full linear convolution
auto convolve(std::vector<cplx> const& a, std::vector<cplx> const& b) -> std::vector<cplx>;
auto convolve(std::vector<real> const& a, std::vector<real> const& b) -> std::vector<real>;
// first n output samples only
auto convolve_prefix(std::vector<real> const& a, std::vector<real> const& b, std::size_t n) -> std::vector<real>;
auto norm(std::vector<cplx> const& x) -> real;
auto norm(std::vector<real> const& x) -> real;
}  // namespace oracle
