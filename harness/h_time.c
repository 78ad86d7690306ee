/* Calendar conversions against integer arithmetic on the Gregorian calendar.  -DMODE which conversion, -DYLO -DYHI years */
#define VP_CUSTOM_time
#define VP_CUSTOM_sincos
#include "vp_env.h"
#include "sgpsdp/sgp4sdp4.h"
double vp_sin(double x) { (void) x; return 0; }
double vp_cos(double x) { (void) x; return 1; }
#ifdef VP_CBMC
double modf(double x, double *i) { *i = (double) (int64_t) x; return x - *i; }
double floor(double x) { double t = (double) (int64_t) x; return t > x ? t - 1 : t; }
#endif
#ifndef YLO
#define YLO 1901
#define YHI 2199
#endif
static struct tm shared;
struct tm *vp_gmtime(const time_t *t) { (void) t; return &shared; }
struct tm *vp_gmtime_r(const time_t *t, struct tm *r) { (void) t; *r = shared; return r; }
time_t vp_time(time_t *t) { if (t) *t = 1583840449; return 1583840449; }

static int leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int before(int y, int m) {       /* days of the year before the month */
    static const int d[13] = {0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    return d[m] + (m > 2 ? leap(y) : 0);
}
static int length(int y, int m) { return m == 2 ? 28 + leap(y) : (m == 4) | (m == 6) | (m == 9) | (m == 11) ? 30 : 31; }
/* half days from the start of the Julian period to 0.0 January */
static int32_t halves_of_year(int y) { int p = y - 1; return 2 * (1721424 + 365 * p + p / 4 - p / 100 + p / 400) + 1; }
static bool near(double a, double b, double e) { return (a - b <= e) & (b - a <= e); }

static int civil_year(void) { int y = nd_u16(); VP_ASSUME((y >= YLO) & (y <= YHI)); return y; }
static void civil_date(int *y, int *m, int *d) {
    *y = civil_year(); *m = nd_u8(); *d = nd_u8();
    VP_ASSUME((*m >= 1) & (*m <= 12) & (*d >= 1));
    VP_ASSUME(*d <= length(*y, *m));
}

static int pick(int n) { for (int i = 0; i < n - 1; i++) if (nd_bool()) return i; return n - 1; }
VP_MAIN {
    int y, m, d;
#if MODE == 0
    civil_date(&y, &m, &d);
    VP_ASSERT(DOY(y, m, d) == before(y, m) + d, "the day of the year is the one of the Gregorian calendar");
#elif MODE == 1
    y = civil_year();
    VP_ASSERT(Julian_Date_of_Year((double) y) * 2.0 == (double) halves_of_year(y), "a year begins on its Julian date");
#elif MODE == 2
    int h = nd_u8(), mi = nd_u8(), s = nd_u8();
    VP_ASSUME((h >= HLO) & (h <= HHI) & (mi < 60) & (s <= 60));
    double f = Fraction_of_Day(h, mi, s);
    VP_ASSERT(near(f * 86400.0, (double) (h * 3600 + mi * 60 + s), 1e-4), "the fraction of the day is the time of the day");
#elif MODE == 3         /* date and whole hours */
    civil_date(&y, &m, &d);
    int h = nd_u8() * HSTEP; VP_ASSUME(h < 24);
    struct tm t; memset(&t, 0, sizeof(t));
    t.tm_year = y; t.tm_mon = m; t.tm_mday = d; t.tm_hour = h;
    double j = Julian_Date(&t);
    int32_t hours = 12 * (halves_of_year(y) + 2 * (before(y, m) + d)) + h;
    VP_ASSERT(near(j * 24.0, (double) hours, 1e-6), "the Julian date is the one of the civil date");
#elif MODE == 4         /* two-digit years and fractions of a day */
    int yy = YLO + pick(YHI - YLO + 1), day = nd_u16(); uint32_t n = nd_u32();
    VP_ASSUME((day >= 1) & (day <= 366) & (n < 1u << FBITS));
    double frac = (double) n / (double) (1u << FBITS);
    double j = Julian_Date_of_Epoch((double) (yy * 1000 + day) + frac);
    int full = yy < 57 ? 2000 + yy : 1900 + yy;
    VP_ASSERT(near(j, (double) (halves_of_year(full) + 2 * day) / 2.0 + frac, 1e-8), "the epoch is the Julian date of its year and day");
#elif MODE == 6
    shared.tm_year = (int16_t) nd_u16(); shared.tm_mon = nd_u8(); shared.tm_mday = nd_u8(); shared.tm_hour = nd_u8(); shared.tm_min = nd_u8(); shared.tm_sec = nd_u8();
    VP_ASSUME((shared.tm_year >= 0) & (shared.tm_mon < 12));
    struct tm t, w = shared;
    UTC_Calendar_Now(&t);
    VP_ASSERT((t.tm_year == w.tm_year + 1900) & (t.tm_mon == w.tm_mon + 1) & (t.tm_mday == w.tm_mday) & (t.tm_hour == w.tm_hour) & (t.tm_min == w.tm_min) & (t.tm_sec == w.tm_sec), "now is the current time of the civil calendar");
#elif MODE == 7         /* the inverse */
    civil_date(&y, &m, &d);
    struct tm t; memset(&t, 0, sizeof(t));
    Calendar_Date((double) (halves_of_year(y) + 2 * (before(y, m) + d)) / 2.0, &t);
    VP_ASSERT((t.tm_year == y) & (t.tm_mon == m) & (t.tm_mday == d), "a Julian date turns back into its civil date");
#elif MODE == 8         /* time of the day, on one date */
    int h = nd_u8(), mi = nd_u8(), s = nd_u8();
    VP_ASSUME((h >= HLO) & (h <= HHI) & (mi < 60) & (s < 60));
    struct tm t; memset(&t, 0, sizeof(t));
    t.tm_year = YLO; t.tm_mon = 3; t.tm_mday = 1; t.tm_hour = h; t.tm_min = mi; t.tm_sec = s;
    double j = Julian_Date(&t) - (double) (halves_of_year(YLO) + 2 * (before(YLO, 3) + 1)) / 2.0;
    VP_ASSERT(near(j * 86400.0, (double) (h * 3600 + mi * 60 + s), 1e-3), "the Julian date contains the time of the day");
#endif
    VP_COVER("end");
}
