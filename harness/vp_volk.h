/* VOLK: the documented result of each kernel, computed by the obvious loop.  Sample values in these harnesses are small
 * integers held in floats, so that every order of summation gives the same, exact result.
 * Memory: volk_malloc returns typed, exactly sized blocks so that every access outside them is noticed. */
#ifndef VP_VOLK_H
#define VP_VOLK_H
#include <volk/volk.h>
#ifdef VP_VOLK_INT
#define VP_MUL(a, b) ((int) (a) * (int) (b))
typedef int vp_acc;
#else
#define VP_MUL(a, b) ((a) * (b))
typedef float vp_acc;
#endif
#ifndef VP_ALIGN
#define VP_ALIGN 8
#endif
size_t volk_get_alignment(void) { return VP_ALIGN; }
void *volk_malloc(size_t n, size_t a) {
    (void) a;
#ifdef VP_CBMC
#undef malloc
    if (n > VP_MALLOC_MAX) return NULL;
    if (vp_oom && nd_bool()) return NULL;
    if (vp_fail_alloc != 0 && ++vp_alloc_no == vp_fail_alloc) return NULL;
    float *p = malloc(sizeof(float) * (n / sizeof(float)));
    VP_ASSUME(p != NULL);
    vp_live++;
    vp_track_add(p);
    return p;
#define malloc vp_malloc
#else
    void *p = vp_malloc(n), *q = NULL;
    if (p == NULL) return NULL;
    vp_track_del(p);
#undef free
#undef posix_memalign
    free(p);
    if (posix_memalign(&q, a < sizeof(void *) ? sizeof(void *) : a, n == 0 ? 1 : n) != 0) return NULL;
    { extern int vp_fill; memset(q, vp_fill, n); }
    vp_track_add(q);
#define free vp_free
#define posix_memalign vp_posix_memalign
    return q;
#endif
}
void volk_free(void *p) { vp_free(p); }
static void vp_dot_f(float *r, const float *a, const float *b, unsigned int n) {
    vp_acc s = 0;
    for (unsigned int i = 0; i < n; i++) s += VP_MUL(a[i], b[i]);
    *r = (float) s;
}
static void vp_dot_c(lv_32fc_t *r, const lv_32fc_t *a, const float *b, unsigned int n) {
    vp_acc s = 0, t = 0;
    const float *x = (const float *) a;
    for (unsigned int i = 0; i < n; i++) { s += VP_MUL(x[2 * i], b[i]); t += VP_MUL(x[2 * i + 1], b[i]); }
    ((float *) r)[0] = (float) s; ((float *) r)[1] = (float) t;
}
static void vp_mul_c(lv_32fc_t *r, const lv_32fc_t *a, const lv_32fc_t *b, unsigned int n) {
    const float *x = (const float *) a, *y = (const float *) b; float *o = (float *) r;
    for (unsigned int i = 0; i < n; i++) {
        float re = (float) (VP_MUL(x[2 * i], y[2 * i]) - VP_MUL(x[2 * i + 1], y[2 * i + 1]));
        float im = (float) (VP_MUL(x[2 * i], y[2 * i + 1]) + VP_MUL(x[2 * i + 1], y[2 * i]));
        o[2 * i] = re; o[2 * i + 1] = im;
    }
}
static void vp_mul_conj_c(lv_32fc_t *r, const lv_32fc_t *a, const lv_32fc_t *b, unsigned int n) {
    const float *x = (const float *) a, *y = (const float *) b; float *o = (float *) r;
    for (unsigned int i = 0; i < n; i++) {
        float re = (float) (VP_MUL(x[2 * i], y[2 * i]) + VP_MUL(x[2 * i + 1], y[2 * i + 1]));
        float im = (float) (VP_MUL(x[2 * i + 1], y[2 * i]) - VP_MUL(x[2 * i], y[2 * i + 1]));
        o[2 * i] = re; o[2 * i + 1] = im;
    }
}
#ifndef VP_CUSTOM_to8
static void vp_to8(int8_t *o, const float *a, const float k, unsigned int n) {
    for (unsigned int i = 0; i < n; i++) {
        float v = a[i] * k;
        o[i] = v > 127.0f ? 127 : v < -128.0f ? -128 : (int8_t) rintf(v);
    }
}
#endif
#define VP_K(name, fn) __typeof__(name) name = fn
VP_K(volk_32f_x2_dot_prod_32f, vp_dot_f);
VP_K(volk_32f_x2_dot_prod_32f_a, vp_dot_f);
VP_K(volk_32f_x2_dot_prod_32f_u, vp_dot_f);
VP_K(volk_32fc_32f_dot_prod_32fc, vp_dot_c);
VP_K(volk_32fc_32f_dot_prod_32fc_a, vp_dot_c);
VP_K(volk_32fc_32f_dot_prod_32fc_u, vp_dot_c);
VP_K(volk_32fc_x2_multiply_32fc, vp_mul_c);
VP_K(volk_32fc_x2_multiply_32fc_a, vp_mul_c);
VP_K(volk_32fc_x2_multiply_32fc_u, vp_mul_c);
VP_K(volk_32fc_x2_multiply_conjugate_32fc, vp_mul_conj_c);
VP_K(volk_32fc_x2_multiply_conjugate_32fc_a, vp_mul_conj_c);
VP_K(volk_32fc_x2_multiply_conjugate_32fc_u, vp_mul_conj_c);
VP_K(volk_32f_s32f_convert_8i, vp_to8);
VP_K(volk_32f_s32f_convert_8i_a, vp_to8);
VP_K(volk_32f_s32f_convert_8i_u, vp_to8);
#endif
