// N02: accuracy of the approximations over the whole set of floats in the domain
#include "mc.hpp"
#include "utils_math.h"
#include <cmath>
using namespace ccgl::utils_math;
static float bits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static double dbits(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
static bool rel(double got, double want, double tol) { return std::fabs(got - want) <= tol * std::fabs(want); }
// one execution: one exponent and one of 64 blocks of mantissas
MC_BODY(float_sqrt_ln, 64) {
    int e = x.range(1, 254); if (!x.mine()) return; int blk = x.choose(64);
    uint32_t base = (uint32_t)e << 23 | (uint32_t)blk << 17, step = 1; x.note("floats from %a", (double)bits(base));
    for (uint32_t m = 0; m < (1u << 17); m += step) {
        float f = bits(base | m); float s = ApprSqrt(f), r = sqrtf(f);
        if (!(std::fabs(s - r) <= 1e-6f * r)) { x.fail("sqrt-float", "ApprSqrt(%a) = %.9g, exact %.9g", f, s, r); break; }
    }
    for (uint32_t m = 0; m < (1u << 17); m += step * (x.thorough ? 1 : 3)) {
        float f = bits(base | m); double l = ApprLn(f), w = log((double)f); if (!(std::fabs(l - w) <= 5e-4)) { x.fail("ln-float", "ApprLn(%a) = %.9g, exact %.9g", f, l, w); break; }
    }
    x.step((1u << 17) / step);
}
MC_BODY(double_sqrt_ln, 32) {
    int e = x.range(1, 2046); if (!x.mine()) return; x.note("doubles with exponent field %d", e);
    for (uint64_t m = 0; m < 4096; m++) for (int t = 0; t < (x.thorough ? 8 : 2); t++) {
        uint64_t low = t == 0 ? 0 : t == 1 ? 0xffffffffffULL : 0x123456789aULL * t & 0xffffffffffULL; double d = dbits((uint64_t)e << 52 | m << 40 | low);
        double s = ApprSqrt(d), r = std::sqrt(d); if (!rel(s, r, 1e-6)) { x.fail("sqrt-double", "ApprSqrt(%a) = %.17g, exact %.17g", d, s, r); return; }
        double l = ApprLn(d), w = std::log(d); if (!(std::fabs(l - w) <= 5e-4)) { x.fail("ln-double", "ApprLn(%a) = %.17g, exact %.17g", d, l, w); return; }
    }
    x.step(8192);
}
MC_BODY(exponential, 32) {
    int hi = x.range(-708, 707); if (!x.mine()) return; int n = x.thorough ? 200000 : 20000; x.note("exponents from %d", hi);
    for (int i = 0; i < n; i++) {
        double d = hi + (double)i / n, s = ApprExp(d), w = std::exp(d); if (!rel(s, w, 1e-5)) { x.fail("exp-double", "ApprExp(%.17g) = %.17g, exact %.17g", d, s, w); break; }
        if (hi < -87 || hi > 87) continue; float f = (float)d; float sf = ApprExp(f); w = std::exp((double)f); if (!rel(sf, w, 1e-5)) { x.fail("exp-float", "ApprExp(%.9gf) = %.9g, exact %.9g", f, sf, w); break; }
    }
    x.step(n);
}
MC_BODY(power, 32) {
    int e = x.range(107, 127), blk = x.choose(256); if (!x.mine()) return; x.note("bases with exponent field %d, mantissa block %d", e, blk);
    int nb = x.thorough ? 2000 : 200, step = x.thorough ? 1 << 7 : 1 << 10;
    for (uint32_t m = 0; m < (1u << 15); m += step) {
        float a = bits((uint32_t)e << 23 | (uint32_t)blk << 15 | m); if (a < 1e-6f || a > 2.f) continue;
        for (int j = 0; j <= nb; j++) { float b = -1.f + 2.f * j / nb; float s = ApprPow(a, b); double w = std::pow((double)a, (double)b); if (!rel(s, w, 1e-3)) { x.fail("pow", "ApprPow(%.9g, %.9g) = %.9g, exact %.9g", a, b, s, w); return; } }
    }
    x.step((1 << 15) / step * nb);
}
MC_BODY(special, 1) {
    static const double V[] = {0, 1, 2, 4, 0.25, 10, 1e-5, 123.456, 19.5, 20, 20.5, 87}; double v = V[x.choose(12)]; x.note("value %g", v);
    MC_EQ(x, "sqrt-zero", ApprSqrt(0.f), 0.f); MC_EQ(x, "sqrt-zero", ApprSqrt(0.), 0.); MC_EQ(x, "exp-zero", ApprExp(0.f), 1.f); MC_EQ(x, "exp-zero", ApprExp(0.), 1.);
    MC_TRUE(x, "cal-sqrt", rel(CalSqrt(v), std::sqrt(v), 1e-6)); MC_TRUE(x, "cal-exp", rel(CalExp(v), std::exp(v), 1e-5)); if (v > 0) MC_TRUE(x, "cal-ln", std::fabs(CalLn(v) - std::log(v)) <= 5e-4);
    if (v > 0 && v <= 2) MC_TRUE(x, "cal-pow", rel(CalPow(v, 0.5), std::pow(v, 0.5), 1e-3));
    float f = (float)v;
    MC_TRUE(x, "bounded-exp", rel(Expo(f), std::exp(std::min(f, 20.f)), 1e-6)); MC_TRUE(x, "bounded-exp", rel(Expo(-f), std::exp(std::max(-f, -20.f)), 1e-6));
    MC_TRUE(x, "bounded-exp", rel(Expo(f, 3.f, -2.f), std::exp(std::min(f, 3.f)), 1e-6)); MC_TRUE(x, "bounded-exp", rel(Expo(-f, 3.f, -2.f), std::exp(std::max(-f, -2.f)), 1e-6));
    static const float E[] = {2.f, 0.5f, 3.f, 1.f}; for (float e : E) if (f < 1e9) { MC_TRUE(x, "signed-power", rel(Power(f, e), std::pow((double)f, (double)e), 1e-5)); if (f > 0) MC_TRUE(x, "signed-power", rel(Power(-f, e), -std::pow((double)f, (double)e), 1e-5)); }
}
template <typename A, typename B> static void equal(mc::X& x, double a, double b) {
    A p = (A)a; B q = (B)b; if ((double)p != a || (double)q != b) return; MC_EQ(x, "float-equal", FloatEqual(p, q), std::fabs(a - b) < 1e-32); MC_EQ(x, "float-equal", FloatEqual(q, p), std::fabs(a - b) < 1e-32);
}
MC_BODY(comparison, 1) {
    static const double V[] = {0, 1, -1, -9999, 0.1, 1e-10, 1e10, 255, -9999.5, 3.4e38, 1e300, 5e-32, 0.1f, 10.12345};
    static const double D[] = {0, 1e-33, -1e-33, 9.9e-33, 1.1e-32, -1.1e-32, 1e-31, 1e-30, 1e-20, 1e-12, 1e-9, 1e-7, 1e-6, 1e-3, 1, -1, 2};
    double a = V[x.choose(14)]; int k = x.choose(17 + 14 + 2); double b = k < 17 ? a + D[k] : k < 31 ? V[k - 17] : k == 31 ? std::nextafter(a, 1e308) : (double)std::nextafterf((float)a, 1e38f);
    x.note("%.17g and %.17g", a, b);
    equal<double, double>(x, a, b); equal<float, double>(x, a, b); equal<float, float>(x, a, b); equal<int, double>(x, a, b); equal<int, int>(x, a, b); equal<short, float>(x, a, b); equal<ccgl::vint64_t, double>(x, a, b); equal<unsigned char, int>(x, a, b);
}
