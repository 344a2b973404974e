// Reference discrete Fourier transforms, straight from the definition, in long double.
#pragma once
#include <complex>
#include <vector>
#include <cmath>
#include <limits>
#include <algorithm>
#include <cstddef>
namespace ref
{
using ld  = long double;
using cld = std::complex<long double>;

// exact-as-possible table of exp(-2*pi*i*k/n)
inline const std::vector<cld>& roots(size_t n)
{
    static thread_local std::vector<cld> t;
    static thread_local size_t cached = 0;
    if (cached != n)
    {
        t.resize(n);
        const ld pi = 3.14159265358979323846264338327950288L;
        for (size_t k = 0; k < n; k++)
        {
            // reduce to the first octant for accuracy
            ld a = 2 * pi * (ld)k / (ld)n;
            t[k] = cld(std::cos(a), -std::sin(a));
            if (4 * k == n)
                t[k] = cld(0, -1);
            else if (2 * k == n)
                t[k] = cld(-1, 0);
            else if (4 * k == 3 * n)
                t[k] = cld(0, 1);
        }
        cached = n;
    }
    return t;
}
template <typename C>
inline cld dft_bin(const std::vector<C>& x, size_t k, bool inverse)
{
    size_t n      = x.size();
    const auto& w = roots(n);
    cld s         = 0;
    size_t j      = 0;
    for (size_t i = 0; i < n; i++)
    {
        cld r = w[j];
        if (inverse)
            r = std::conj(r);
        ld a = (ld)x[i].real(), b = (ld)x[i].imag();
        s += cld(a * r.real() - b * r.imag(), a * r.imag() + b * r.real());
        j += k;
        if (j >= n)
            j -= n;
    }
    return s;
}
template <typename C>
inline std::vector<cld> dft(const std::vector<C>& x, bool inverse)
{
    std::vector<cld> r(x.size());
    for (size_t k = 0; k < x.size(); k++)
        r[k] = dft_bin(x, k, inverse);
    return r;
}
template <typename C>
inline ld norm2(const std::vector<C>& x)
{
    ld s = 0;
    for (auto& v : x)
        s += (ld)std::norm(cld(v.real(), v.imag()));
    return std::sqrt(s);
}
// The part of n that is not a product of 2, 3, 5, 7: above 100 the library falls back to a convolution.
inline size_t residual(size_t n)
{
    for (size_t p : { 2, 3, 5, 7 })
        while (n % p == 0)
            n /= p;
    return n;
}
// Tolerance of one output of a size-n transform in precision T. Each of the ~log2 n stages is a unitary operation up
// to scale with a relative error of a few eps, so errors spread like the signal norm; where the spectrum is
// concentrated (one large bin) they concentrate too, hence the max|X| term. A residual factor r is summed directly
// (error grows with r); above 100 it is done as a circular convolution, whose intermediate values are larger than the
// result by about sqrt(n).
template <typename T>
inline ld tol(size_t n, ld norm, ld maxX)
{
    ld eps   = std::numeric_limits<T>::epsilon();
    size_t r = residual(n);
    maxX     = std::min(maxX, norm * std::sqrt((ld)n)); // NaN/garbage cannot widen the bound beyond Parseval's
    if (!(maxX >= 0))
        maxX = norm * std::sqrt((ld)n);
    ld extra = r > 100 ? 16 * std::sqrt((ld)n) : r > 1 ? 4 * (ld)r : 0;
    return eps * ((24 + 12 * std::log2((ld)n + 1) + extra) * norm + 16 * maxX) + 1e-37L;
}
} // namespace ref
