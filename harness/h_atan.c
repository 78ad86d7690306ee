/* Fast arctangent.  -DMODE 0: every pair of floats; 1: ratios MLO..MHI of 2^BITS in the octant OCT;
 * 3: pairs of whole numbers up to LIM of the first octant */
#include "vp_env.h"
#include "atan_ref.h"           /* REF[k] = atan(k/255) * 2^32, generated */
float fast_atan2f(float y, float x);
static float absf(float v) { return v < 0 ? -v : v; }
#ifndef MANT
#define MANT 7
#endif
/* any sign, exponent (zero, denormal, infinite and not-a-number included) and the first MANT bits of the fraction */
static float coarse(void) { union { uint32_t u; float f; } v; v.u = nd_u32() & ~((1u << (23 - MANT)) - 1); return v.f; }
#define PI_UP 3.1415930f
VP_MAIN {
#if MODE == 0
    float y = coarse(), x = coarse();
    bool finite = (x - x == 0.0f) & (y - y == 0.0f);
    float r = fast_atan2f(y, x);
    if (finite) {
        VP_ASSERT((r <= PI_UP) & (r >= -PI_UP), "the angle is within half a turn");
        if (y > 0) VP_ASSERT(r >= 0, "the angle of a point above the axis is positive");
        if (y < 0) VP_ASSERT(r <= 0, "the angle of a point below the axis is negative");
        if (x > 0) VP_ASSERT((r <= 1.5707970f) & (r >= -1.5707970f), "a point on the right is within a quarter turn");
        if (x < 0) VP_ASSERT((r >= 1.5707956f) | (r <= -1.5707956f), "a point on the left is beyond a quarter turn");
        if (absf(y) <= absf(x)) if (x > 0) VP_ASSERT(absf(r) <= 0.7853990f, "a point nearer to the x axis is within an eighth of a turn of it");
        if (absf(y) >= absf(x)) if (y > 0) VP_ASSERT((r >= 0.7853970f) & (r <= 2.3561960f), "a point nearer to the y axis is within an eighth of a turn of it");
        if (absf(y) >= absf(x)) if (y < 0) VP_ASSERT((r <= -0.7853970f) & (r >= -2.3561960f), "a point nearer to the y axis is within an eighth of a turn of it");
    }
#elif MODE == 1
    uint32_t m = nd_u16();                      /* y = m / 2^BITS exactly */
    VP_ASSUME((m >= MLO) & (m <= MHI));
    float z = (float) m / (float) (1 << BITS);
    int k = (int) ((m * 255) >> BITS);
#if OCT == 0
    float r = fast_atan2f(z, 1.0f);
#elif OCT == 1
    float r = fast_atan2f(-z, 1.0f);
#elif OCT == 2
    float r = fast_atan2f(z, -1.0f);
#elif OCT == 3
    float r = fast_atan2f(-z, -1.0f);
#elif OCT == 4
    float r = fast_atan2f(1.0f, z);
#elif OCT == 5
    float r = fast_atan2f(1.0f, -z);
#elif OCT == 6
    float r = fast_atan2f(-1.0f, z);
#else
    float r = fast_atan2f(-1.0f, -z);
#endif
    /* on the chord between the true values at the ends of the cell, in units of 2^-32; the arc leaves it by less than 1.3e-6 */
    int64_t part = (int64_t) (m * 255) - ((int64_t) k << BITS);        /* place in the cell, of 2^BITS */
    int64_t b = REF[k] + (((REF[k + 1] - REF[k]) * part) >> BITS);
    const int64_t pi = 13493037705LL, half = 6746518852LL;
    int64_t want = OCT == 0 ? b : OCT == 1 ? -b : OCT == 2 ? pi - b : OCT == 3 ? b - pi : OCT == 4 ? half - b : OCT == 5 ? half + b : OCT == 6 ? b - half : -half - b;
    int64_t got = (int64_t) ((double) r * 4294967296.0);
    VP_ASSERT((got - want <= TOL) & (want - got <= TOL), "the angle is accurate");
#elif MODE == 3
    uint8_t n = nd_u8(), d = nd_u8();
    VP_ASSUME((d >= 1) & (d <= LIM) & (n < d));
    float s = SCALE;
    float r = fast_atan2f((float) n * s, (float) d * s), w = fast_atan2f((float) n / (float) d, 1.0f);
    float e = r - w; VP_ASSERT((e <= 1e-6f) & (e >= -1e-6f), "the angle depends on the ratio only");
#endif
    VP_COVER("end");
}
