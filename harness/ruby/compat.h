/* Ruby 3 includes <stdbool.h>; ferret's config.h has its own
 * "typedef unsigned int bool". Let ruby.h see _Bool, then give the name back. */
#include <ruby.h>
#undef bool
