/* Loading the radio library: any subset of its functions may be missing, the library itself may be missing, memory may be missing. */
#define VP_CUSTOM_dl
#include "vp_env.h"
#include "sdr/iio_lib.h"
#define NAMES(X) X(iio_buffer_end) X(iio_buffer_first) X(iio_buffer_push_partial) X(iio_buffer_refill) X(iio_context_find_device) X(iio_device_find_channel) X(iio_strerror) \
    X(iio_channel_attr_write) X(iio_channel_attr_write_longlong) X(iio_device_attr_write_bool) X(iio_channel_attr_write_bool) X(iio_channel_attr_write_double) X(iio_device_attr_write_raw) \
    X(iio_create_scan_context) X(iio_scan_context_get_info_list) X(iio_scan_context_destroy) X(iio_context_info_get_uri) X(iio_create_context_from_uri) X(iio_context_info_list_free) \
    X(iio_context_set_timeout) X(iio_channel_enable) X(iio_device_create_buffer) X(iio_buffer_destroy) X(iio_channel_disable) X(iio_context_destroy)
#define NFN 25
#define X(n) #n,
static const char *names[NFN] = {NAMES(X)};
#undef X
static char fn[NFN], the_lib;
static bool lib_missing; static uint32_t mask; static int opened, closed;
static bool eq(const char *a, const char *b) { int i = 0; for (; a[i] != 0 && a[i] == b[i]; i++); return a[i] == b[i]; }
void *vp_dlopen(const char *n, int f) { (void) f; VP_ASSERT(eq(n, "libiio.so"), "the radio library is opened"); if (lib_missing) return NULL; opened++; return &the_lib; }
void *vp_dlsym(void *h, const char *n) {
    VP_ASSERT(h == &the_lib && opened == 1 && closed == 0, "functions are looked up in the open library");
    for (int i = 0; i < NFN; i++) if (eq(n, names[i])) return (mask >> i) & 1 ? NULL : &fn[i];
    return NULL;
}
int vp_dlclose(void *h) { VP_ASSERT(h == &the_lib, "the opened library is closed"); closed++; VP_ASSERT(closed <= opened, "the library is closed once"); return 0; }
char *vp_dlerror(void) { return ""; }
VP_MAIN {
    lib_missing = nd_bool();
    mask = nd_u32();
    VP_ASSUME(mask < (1u << NFN));
    vp_fail_alloc = (int) nd_u8();
    iio_lib *l = NULL;
    int code = iio_lib_create(&l);
    if (code != 0) {
        VP_ASSERT(l == NULL, "an incomplete library is not offered");
        VP_ASSERT(lib_missing || mask != 0 || vp_fail_alloc == 1, "a complete library is usable");
        VP_ASSERT(opened == closed, "an incomplete library is closed exactly once");
        VP_ASSERT(vp_live == 0, "a failed load leaves nothing allocated");
        VP_COVER("refused");
        return;
    }
    VP_ASSERT(!lib_missing && mask == 0, "an incomplete library is refused");
    VP_ASSERT(l != NULL && opened == 1 && closed == 0, "a loaded library stays open");
    VP_ASSUME(l != NULL);
    int k = 0;
#define X(n) VP_ASSERT((void *) l->n == (void *) &fn[k], "every function is bound to its own name: " #n); k++;
    NAMES(X)
    iio_lib_destroy(l);
    VP_ASSERT(closed == 1, "the library is closed exactly once");
    VP_ASSERT(vp_live == 0, "the table is released");
    VP_COVER("loaded");
}
