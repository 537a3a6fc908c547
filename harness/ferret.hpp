// C++ view of the Ferret C library.  The library's own `bool` is a 4-byte unsigned int, so the
// headers are read with `bool` replaced by a type of the same size.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <setjmp.h>
#include <stdarg.h>
#include <errno.h>
#include <assert.h>
#include <pthread.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <memory>
typedef unsigned int frt_cbool;
#define bool frt_cbool
extern "C" {
#include "config.h"
#include "global.h"
#include "except.h"
#include "symbol.h"
#include "hash.h"
#include "hashset.h"
#include "array.h"
#include "bitvector.h"
#include "priorityqueue.h"
#include "mempool.h"
#include "multimapper.h"
#include "helper.h"
#include "store.h"
#include "document.h"
#include "analysis.h"
#include "similarity.h"
#include "index.h"
#include "search.h"
#include "field_index.h"
}
#undef bool
#undef true
#undef false
