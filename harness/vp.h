/* Harness API.  Two modes:
 *   VP_CBMC   - symbolic: nd_*() are unconstrained solver variables, VP_ASSERT is a proof obligation.
 *   VP_REPLAY - native: nd_*() come, in order, from a counterexample file ($VP_TRACE); VP_ASSERT is checked. */
#ifndef VP_H
#define VP_H
#include "vp_pre.h"

#ifdef VP_CBMC
_Bool nondet_vp_bool(void); uint8_t nondet_vp_u8(void); uint16_t nondet_vp_u16(void);
uint32_t nondet_vp_u32(void); uint64_t nondet_vp_u64(void); float nondet_vp_f32(void); double nondet_vp_f64(void);
static bool vp_nd_val_bool;
static inline bool nd_bool(void) { vp_nd_val_bool = nondet_vp_bool(); return vp_nd_val_bool; }
static uint8_t vp_nd_val_u8;
static inline uint8_t nd_u8(void) { vp_nd_val_u8 = nondet_vp_u8(); return vp_nd_val_u8; }
static uint16_t vp_nd_val_u16;
static inline uint16_t nd_u16(void) { vp_nd_val_u16 = nondet_vp_u16(); return vp_nd_val_u16; }
static uint32_t vp_nd_val_u32;
static inline uint32_t nd_u32(void) { vp_nd_val_u32 = nondet_vp_u32(); return vp_nd_val_u32; }
static uint64_t vp_nd_val_u64;
static inline uint64_t nd_u64(void) { vp_nd_val_u64 = nondet_vp_u64(); return vp_nd_val_u64; }
static float vp_nd_val_f32;
static inline float nd_f32(void) { vp_nd_val_f32 = nondet_vp_f32(); return vp_nd_val_f32; }
static double vp_nd_val_f64;
static inline double nd_f64(void) { vp_nd_val_f64 = nondet_vp_f64(); return vp_nd_val_f64; }
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_ASSERT(c, msg) __CPROVER_assert((c), "VP: " msg)
/* reachability witness: must come back violated, its trace is replayed on the real code */
#define VP_COVER(label) __CPROVER_assert(0, "VP_COVER " label)
#define VP_STOP() __CPROVER_assume(0)
#define VP_LOG(...) ((void) 0)
#else
bool nd_bool(void); uint8_t nd_u8(void); uint16_t nd_u16(void); uint32_t nd_u32(void); uint64_t nd_u64(void);
float nd_f32(void); double nd_f64(void);
void vp_assume_failed(const char *c, const char *f, int l);
void vp_violation(const char *m, const char *f, int l);
void vp_cover(const char *m);
void vp_stop(void);
void vp_note(const char *fmt, ...);
#define VP_ASSUME(c) do { if (!(c)) vp_assume_failed(#c, __FILE__, __LINE__); } while (0)
#define VP_ASSERT(c, msg) do { if (!(c)) vp_violation("VP: " msg, __FILE__, __LINE__); } while (0)
#define VP_COVER(label) vp_cover("VP_COVER " label)
#define VP_STOP() vp_stop()
#define VP_LOG(...) vp_note(__VA_ARGS__)
#define __CPROVER_assume(c) VP_ASSUME(c)
#endif
static inline int32_t nd_i32(void) { return (int32_t) nd_u32(); }
static inline int64_t nd_i64(void) { return (int64_t) nd_u64(); }
static inline int8_t nd_i8(void) { return (int8_t) nd_u8(); }
/* n in [lo,hi] */
static inline uint64_t nd_range(uint64_t lo, uint64_t hi) { uint64_t v = nd_u64(); VP_ASSUME(v >= lo && v <= hi); return v; }
static inline int64_t nd_irange(int64_t lo, int64_t hi) { int64_t v = nd_i64(); VP_ASSUME(v >= lo && v <= hi); return v; }
static inline float nd_frange(float lo, float hi) { float v = nd_f32(); VP_ASSUME(v >= lo && v <= hi); return v; }
/* small integer as a float: exact arithmetic, cheap for the solver */
static inline float nd_fint(int lo, int hi) { int8_t v = nd_i8(); VP_ASSUME(v >= lo && v <= hi); return (float) v; }
/* case split: CBMC sees v as a disjunction of constants */
#ifndef VP_MAIN
#define VP_MAIN void vp_main(void)
#endif
extern long vp_live;            /* live heap blocks of the code under test */
extern bool vp_oom;             /* may allocation fail? */
void *vp_malloc(size_t n);
void vp_free(void *p);
#endif
