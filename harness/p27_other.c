/* P27: a second translation unit of the same program (the headers must be usable in more than one). */
#ifdef P27_AMALGAMATED
#include "hawktracer.h"
#else
#include <hawktracer.h>
#endif
int p27_other(void);
int p27_other(void) { HT_DECL_EVENT(HT_CallstackIntEvent, e); return (int)ht_HT_CallstackIntEvent_get_size(HT_EVENT(&e)) + (HT_VERSION_MAJOR < 0); }
