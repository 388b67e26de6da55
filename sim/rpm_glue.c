/* The allocator's configuration, laid out as the header of the code under test says. */
#include <string.h>
#include "rpmalloc.h"
int glue_rp_config(unsigned long span_map_count) { rpmalloc_config_t c; memset(&c, 0, sizeof c); c.span_map_count = span_map_count; return rpmalloc_initialize_config(&c); }
