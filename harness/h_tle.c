/* Orbit elements.
 * -DRAW: arbitrary bytes: accepted exactly when checksums, line numbers, catalogue numbers and layout are right.
 * -DCOL0/-DCOL1/-DBASE: a right set in which any one column COL0..COL1 of the two lines is replaced by any digit, blank or sign (checksums adjusted): every field has its stated value.
 * -DNAME: arbitrary name line.  -DCOPY: the fixed-width copy of strings of any length. */
#define VP_CUSTOM_strtol
#include "vp_env.h"
#include <ctype.h>
#include "sgpsdp/sgp4sdp4.h"
#include "api_utils.h"
static const double p10[23] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
#if defined(RAW) || defined(NAME)
double vp_any_f64(void) { return nd_f64(); }
double atof(const char *s) { (void) s; return nd_f64(); }
int atoi(const char *s) { (void) s; return nd_i32(); }
#else
/* decimal numbers, correctly rounded (mantissas below 2^53, powers of ten up to 22) */
double strtod(const char *s, char **e) {
    int64_t m = 0; int x = 0; bool neg = false, dot = false, any = false;
    while (*s == ' ') s++;
    if (*s == '-' || *s == '+') neg = *s++ == '-';
    for (; (*s >= '0' && *s <= '9') || (*s == '.' && !dot); s++) { if (*s == '.') dot = true; else { any = true; m = m * 10 + (*s - '0'); if (dot) x--; } }
    if (any && (*s == 'E' || *s == 'e')) {
        const char *b = s; bool en = false; int ex = 0; s++;
        if (*s == '-' || *s == '+') en = *s++ == '-';
        if (*s >= '0' && *s <= '9') { for (; *s >= '0' && *s <= '9'; s++) ex = ex * 10 + (*s - '0'); x += en ? -ex : ex; } else s = b;
    }
    if (e != NULL) *e = (char *) s;
    double v = (double) m;
    if (x < 0) v /= p10[-x]; else v *= p10[x];
    return neg ? -v : v;
}
double atof(const char *s) { return strtod(s, NULL); }
long strtol(const char *s, char **e, int base) {
    long v = 0; bool neg = false;
    VP_ASSERT(base == 10, "model: decimal numbers");
    while (*s == ' ') s++;
    if (*s == '-' || *s == '+') neg = *s++ == '-';
    for (; *s >= '0' && *s <= '9'; s++) v = v * 10 + (*s - '0');
    if (e != NULL) *e = (char *) s;
    return neg ? -v : v;
}
int atoi(const char *s) { return (int) strtol(s, NULL, 10); }
#endif
static tle_t tle;
#if defined(RAW)
static char line[3][80], t1[70], t2[70];
static bool sum_ok(const char *t) {
    int s = 0;
    for (int i = 0; i < 68; i++) { if (t[i] >= '0' && t[i] <= '9') s += t[i] - '0'; if (t[i] == '-') s++; }
    return t[68] == '0' + s % 10;
}
VP_MAIN {
    bool e1 = false, e2 = false;
    static const char *g1 = "1 25544U 98067A   20194.88612269 -.00002218  00000-0 -31515-4 0  9992", *g2 = "2 25544  51.6461 221.2784 0001413  89.1723 280.4612 15.49507896236008";
    for (int i = 0; i < 70; i++) {
        line[1][i] = RAW & 1 ? (char) nd_u8() : i < 69 ? g1[i] : 0; line[2][i] = RAW & 2 ? (char) nd_u8() : i < 69 ? g2[i] : 0;
        e1 = e1 | (line[1][i] == 0); e2 = e2 | (line[2][i] == 0);
        t1[i] = e1 ? 0 : line[1][i]; t2[i] = e2 ? 0 : line[2][i];
    }
    bool good = sum_ok(t1) & sum_ok(t2) & (t1[0] == '1') & (t2[0] == '2') & (t1[23] == '.') & (t1[34] == '.') & (t1[61] == ' ') & (t1[62] == '0') & (t1[63] == ' ')
        & (t2[11] == '.') & (t2[20] == '.') & (t2[37] == '.') & (t2[46] == '.') & (t2[54] == '.');
    for (int i = 2; i < 7; i++) good = good & (t1[i] == t2[i]);
    int code = Get_Next_Tle_Set(line, &tle);
    VP_ASSERT((code == 1) == good, "a set is accepted exactly when its checksums, numbers and layout are right");
    if (code == 1) VP_COVER("accepted");
    if (code != 1) VP_COVER("refused");
}
#elif defined(NAME)
static char line[3][80];
VP_MAIN {
    bool end = false; int n = 0;
    for (int i = 0; i < 26; i++) line[0][i] = (char) nd_u8();
    (void) Get_Next_Tle_Set(line, &tle);
    bool plain = true;
    for (int i = 0; i < 26; i++) {
        char c = line[0][i];
        end = end | (c == 0) | (c == '\r') | (c == '\n');
        if (!end) { plain = plain & (c != '&') & (c != '[') & (c != ' '); n = i + 1; }
    }
    if (n > 24) n = 24;
    if (plain & (n != 1)) {
        for (int i = 0; i < 24; i++) if (i < n) VP_ASSERT(tle.sat_name[i] == line[0][i], "the name is taken as written");
        VP_ASSERT(tle.sat_name[n] == 0, "the name is terminated");
        VP_COVER("named");
    }
    bool term = false;
    for (int i = 0; i < 25; i++) term = term | (tle.sat_name[i] == 0);
    VP_ASSERT(term, "the name is always terminated");
    VP_COVER("end");
}
#elif defined(COPY)
VP_MAIN {
    char out[3][80]; char *in[3]; static char src[3][COPY + 1];
    size_t len[3];
    for (int k = 0; k < 3; k++) {
        size_t n = COPY; len[k] = n;
        in[k] = vp_malloc_ok((size_t) n + 1);
        for (int i = 0; i < COPY; i++) { char c = (char) nd_u8(); VP_ASSUME(c != 0); src[k][i] = c; if (i < n) in[k][i] = c; }
        in[k][n] = 0;
    }
    api_utils_convert_tle(in, out);
    for (int k = 0; k < 3; k++) for (int i = 0; i < 80; i++) VP_ASSERT(out[k][i] == (i < (int) len[k] ? src[k][i] : 0), "each line is copied up to its fixed width and padded");
    VP_COVER("end");
}
#else
#if BASE == 0
static const char *base1 = "1 25544U 98067A   20194.88612269 -.00002218  00000-0 -31515-4 0  9992", *base2 = "2 25544  51.6461 221.2784 0001413  89.1723 280.4612 15.49507896236008";
#elif BASE == 1
static const char *base1 = "1 44832U 19084L   56  5.38712364  .00001250  12345-5  63218+1 0  1234", *base2 = "2 44832  97.0123   7.0045 1020304 359.9999   0.0001  2.00561234 98765";
#endif
static char line[3][80];
static int64_t num(const char *t, int a, int n) { int64_t v = 0; for (int i = a; i < a + n; i++) v = v * 10 + (t[i] >= '0' && t[i] <= '9' ? t[i] - '0' : 0); return v; }
static bool minus(const char *t, int a, int n) { bool m = false; for (int i = a; i < a + n; i++) m = m | (t[i] == '-'); return m; }
/* digits around a fixed point */
static double fix(const char *t, int a, int n, int dec) {
    int64_t v = 0;
    for (int i = a; i < a + n; i++) if (t[i] >= '0' && t[i] <= '9') v = v * 10 + (t[i] - '0');
    double d = (double) v / p10[dec];
    return minus(t, a, n) ? -d : d;
}
static double expo(const char *t, int a) {      /* sDDDDDsD: assumed point and exponent */
    double v = (double) num(t, a + 1, 5); int x = (int) num(t, a + 7, 1);
    x = (t[a + 6] == '-' ? -x : x) - 5;
    v = x < 0 ? v / p10[-x] : v * p10[x];
    return t[a] == '-' ? -v : v;
}
static bool near(double a, double b) { double d = a - b, m = b < 0 ? -b : b; d = d < 0 ? -d : d; return d <= m * 1e-14; }
/* which characters a column may hold: d digit, b digit or blank (leading), s sign or blank, x sign of an exponent, . fixed */
static const char *form1 = "..ddddd..--------.ddbbd.dddddddd.s.dddddddd.sdddddxd.sdddddxd...bbbd.", *form2 = "..ddddd.bbd.dddd.bbd.dddd.ddddddd.bbd.dddd.bbd.dddd.bd.ddddddddbbbbd.";
static void sum(char *t) { int s = 0; for (int i = 0; i < 68; i++) { if (t[i] >= '0' && t[i] <= '9') s += t[i] - '0'; if (t[i] == '-') s++; } t[68] = (char) ('0' + s % 10); t[69] = 0; }
static int pick(int n) { for (int i = 0; i < n - 1; i++) if (nd_bool()) return i; return n - 1; }
VP_MAIN {
    for (int i = 0; i < 68; i++) { line[1][i] = base1[i]; line[2][i] = base2[i]; }
    line[0][0] = 'T'; line[0][1] = 'W'; line[0][2] = 'O';
    int col = COL0 + pick(COL1 - COL0 + 1);
    char *t = col < 69 ? line[1] : line[2]; int c = col < 69 ? col : col - 69;
    char f = (col < 69 ? form1 : form2)[c];
    #ifndef EVERY    /* two digits other than the base, or every digit */
#define EVERY 0
#endif
    if (f == 'd') t[c] = (char) (EVERY ? '0' + pick(10) : '0' + (t[c] - '0' + 1 + 4 * pick(2)) % 10);
    else if (f == 'b') { int k = EVERY ? pick(11) : pick(2) ? 10 : t[c] == ' ' ? 7 : (t[c] - '0' + 3) % 10; t[c] = k == 10 ? ' ' : (char) ('0' + k); if (k == 10) for (int i = c - 1; i >= 0 && (col < 69 ? form1 : form2)[i] == 'b'; i--) t[i] = ' '; }
    else if (f == 's') t[c] = pick(2) ? '-' : ' ';
    else if (f == 'x') t[c] = pick(2) ? '-' : '+';
    else if (f == '-') t[c] = pick(2) ? 'A' : '3';
    if (c >= 2 && c < 7) { line[1][c] = t[c]; line[2][c] = t[c]; }
    sum(line[1]); sum(line[2]);
    int code = Get_Next_Tle_Set(line, &tle);
    VP_ASSERT(code == 1, "a right set is accepted");
    const char *a = line[1], *b = line[2];
    VP_ASSERT(tle.catnr == num(a, 2, 5), "catalogue number");
    for (int i = 0; i < 8; i++) VP_ASSERT(tle.idesg[i] == a[9 + i], "international designator");
    VP_ASSERT(tle.idesg[8] == 0, "designator ends");
    VP_ASSERT(near(tle.epoch, (double) (num(a, 18, 5) * 100000000 + num(a, 24, 8)) / 1e8), "epoch");
    VP_ASSERT(tle.epoch_year % 100 == num(a, 18, 2), "epoch year");
    VP_ASSERT(tle.epoch_day == (unsigned) num(a, 20, 3), "epoch day");
    VP_ASSERT(near(tle.epoch_fod, (double) num(a, 24, 8) / 1e8), "epoch fraction");
    VP_ASSERT(near(tle.xndt2o, fix(a, 33, 10, 8)), "first derivative of the mean motion");
    VP_ASSERT(near(tle.xndd6o, expo(a, 44)), "second derivative of the mean motion");
    VP_ASSERT(near(tle.bstar, expo(a, 53)), "drag term");
    VP_ASSERT(tle.elset == num(a, 64, 4), "element number");
    VP_ASSERT(near(tle.xincl, fix(b, 8, 8, 4)), "inclination");
    VP_ASSERT(near(tle.xnodeo, fix(b, 17, 8, 4)), "ascending node");
    double eo = (double) num(b, 26, 7) / 1e7;
    if (eo >= 1e-6) VP_ASSERT(near(tle.eo, eo), "eccentricity");
    else VP_ASSERT(tle.eo > 0 && tle.eo <= 1.1e-6, "a circular orbit is approximated");
    VP_ASSERT(near(tle.omegao, fix(b, 34, 8, 4)), "argument of perigee");
    VP_ASSERT(near(tle.xmo, fix(b, 43, 8, 4)), "mean anomaly");
    VP_ASSERT(near(tle.xno, fix(b, 52, 10, 7)) || near(tle.xno, fix(b, 52, 11, 8)), "mean motion, to seven decimals at least");
    VP_ASSERT(tle.revnum == num(b, 63, 5), "revolution number");
    VP_COVER("end");
}
#endif
