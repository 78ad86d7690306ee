/* native replay driver: reads the counterexample values in order */
#undef printf
#undef fprintf
#undef vfprintf
#undef fopen
#undef fclose
#undef getenv
#undef exit
#undef fflush
#undef perror
int vp_fill = 0xA5;
static FILE *vp_tf;
static int vp_exhausted;
static unsigned long vp_pos;
static uint64_t vp_next(const char *kind) {
    char k[8]; unsigned long long v = 0;
    if (!vp_tf) { vp_tf = fopen(getenv("VP_TRACE"), "r"); if (!vp_tf) { fprintf(stderr, "VP_NOTRACE\n"); _exit(70); } }
    if (fscanf(vp_tf, "%7s %llx", k, &v) != 2) {
        vp_exhausted++;
        if (vp_exhausted == 1) fprintf(stderr, "VP_EXHAUSTED after %lu values\n", vp_pos);
        if (vp_exhausted > 2000000) { fprintf(stderr, "VP_NONTERMINATION nondet stream exhausted\n"); _exit(98); }
        return 0;
    }
    vp_pos++;
    if (strcmp(k, kind) != 0) { fprintf(stderr, "VP_MISMATCH at %lu: want %s have %s\n", vp_pos, kind, k); _exit(71); }
    return v;
}
bool nd_bool(void) { return vp_next("bool") & 1; }
uint8_t nd_u8(void) { return (uint8_t) vp_next("u8"); }
uint16_t nd_u16(void) { return (uint16_t) vp_next("u16"); }
uint32_t nd_u32(void) { return (uint32_t) vp_next("u32"); }
uint64_t nd_u64(void) { return vp_next("u64"); }
float nd_f32(void) { uint32_t b = (uint32_t) vp_next("f32"); float f; memcpy(&f, &b, 4); return f; }
double nd_f64(void) { uint64_t b = vp_next("f64"); double f; memcpy(&f, &b, 8); return f; }
void vp_assume_failed(const char *c, const char *f, int l) {
    fprintf(stderr, "VP_ASSUME_FAILED %s:%d %s\n", f, l, c); _exit(77);
}
void vp_violation(const char *m, const char *f, int l) {
    fprintf(stderr, "VP_VIOLATED %s (%s:%d)\n", m, f, l); _exit(99);
}
void vp_cover(const char *m) { fprintf(stderr, "%s\n", m); }
void vp_stop(void) { fprintf(stderr, "VP_STOPPED\n"); _exit(0); }
void vp_note(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); }
void vp_exit(int c) { fprintf(stderr, "VP_EXIT %d\n", c); _exit(0); }
void vp_abort(void) { fprintf(stderr, "VP_VIOLATED abort called\n"); _exit(99); }
void vp_main(void);
int main(void) {
    char *f = getenv("VP_FILL");
    if (f) vp_fill = (int) strtoul(f, NULL, 16);
    vp_main();
    fprintf(stderr, "VP_DONE\n");
    fflush(NULL);
    _exit(0);
}
#define printf vp_printf
#define fprintf vp_fprintf
#define fopen vp_fopen
#define fclose vp_fclose
#define getenv vp_getenv
#define exit vp_exit
#define fflush vp_fflush
#define perror vp_perror
