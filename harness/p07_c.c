/* P07: the C flavour of the scoped tracepoints (cleanup attribute). */
#include <hawktracer/scoped_tracepoint.h>
#include <stdint.h>
void hv_c_closing(void);
void hv_c_opened_before(const char* s, uint64_t l, int kind);
static void closing(int* x) { (void)x; hv_c_closing(); }
void hv_c_scopes(int depth, HT_Timeline* t, void (*enter)(const char*, uint64_t, int), void (*leave)(void))
{
    (void)enter;
    if (depth % 2)
    {
        HT_TP_SCOPED_INT(t, (uint64_t)depth * 977);
        int c __attribute__((__cleanup__(closing))) = (hv_c_opened_before(0, (uint64_t)depth * 977, 1), 0);
        leave();
        if (depth > 0) hv_c_scopes(depth - 1, t, enter, leave);
        leave();
        if (depth > 3) return;
        leave();
    }
    else
    {
        HT_TP_SCOPED_STRING(t, "c-scope");
        int c __attribute__((__cleanup__(closing))) = (hv_c_opened_before("c-scope", 0, 0), 0);
        leave();
        if (depth > 0) hv_c_scopes(depth - 1, t, enter, leave);
        leave();
    }
}
