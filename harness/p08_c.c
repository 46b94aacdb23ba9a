/* P08: optimised static tracepoints as the C macros implement them. */
#include <hawktracer/global_timeline.h>
#ifndef HT_TP_STRACEPOINT   /* C without pthreads: not provided (only the single-threaded mode runs there) */
#undef HT_TP_G_STRACEPOINT
#define HT_TP_G_STRACEPOINT(label) HT_G_TRACE(label)
#endif
#define CS(N) case N: { HT_TP_G_STRACEPOINT("c-static-" #N); inside("c-static-" #N); break; }
static void c_function(void (*inside)(const char*)) { HT_G_TRACE_FUNCTION(); inside("c_function"); }
void hv_c_static(int which, void (*inside)(const char*))
{
    switch (which)
    {
    CS(0) CS(1) CS(2) CS(3)
    default: c_function(inside);
    }
}
