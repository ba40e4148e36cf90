/* Failing memory allocations, one at a time.
 *
 * LD_PRELOADed before the sanitizer runtime; counts the allocations made by
 * the armed thread and lets the requested one (or all from it on) fail. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

typedef void *(*f_malloc)(size_t);
typedef void *(*f_calloc)(size_t, size_t);
typedef void *(*f_realloc)(void *, size_t);
typedef int (*f_memalign)(void **, size_t, size_t);

static f_malloc next_malloc;
static f_calloc next_calloc;
static f_realloc next_realloc;
static f_memalign next_memalign;

static __thread int armed __attribute__((tls_model("initial-exec")));
static long seen, target, last;
static void *site;
static char early[65536];
static size_t early_used;
static int resolving;

static void resolve(void)
{
    resolving = 1;
    next_calloc = (f_calloc)dlsym(RTLD_NEXT, "calloc");
    next_malloc = (f_malloc)dlsym(RTLD_NEXT, "malloc");
    next_realloc = (f_realloc)dlsym(RTLD_NEXT, "realloc");
    next_memalign = (f_memalign)dlsym(RTLD_NEXT, "posix_memalign");
    resolving = 0;
}

static void *early_alloc(size_t size)
{
    void *out = early + early_used;
    early_used += (size + 15) & ~(size_t)15;
    return early_used <= sizeof(early) ? out : NULL;
}

/* address ranges of the code whose allocations are concerned (1), or are never
 * concerned (0); other code is concerned if the ranges are not used */
static uintptr_t ranges[64][3];
static int range_count, range_used;

static int concerned(uintptr_t caller)
{
    int i;
    for (i = 0; i < range_count; ++i)
        if (caller >= ranges[i][0] && caller < ranges[i][1])
            return (int)ranges[i][2];
    return !range_used;
}

/* true if this allocation shall fail */
static int fails(void *caller)
{
    if (!armed || !concerned((uintptr_t)caller))
        return 0;
    ++seen;
    if (target && seen >= target && seen <= last)
    {
        site = caller;
        errno = ENOMEM;
        return 1;
    }
    return 0;
}

void *malloc(size_t size)
{
    if (!next_malloc)
    {
        if (resolving)
            return early_alloc(size);
        resolve();
    }
    return fails(__builtin_return_address(0)) ? NULL : next_malloc(size);
}

void *calloc(size_t count, size_t size)
{
    if (!next_calloc)
    {
        if (resolving)
            return early_alloc(count * size);
        resolve();
    }
    return fails(__builtin_return_address(0)) ? NULL : next_calloc(count, size);
}

void *realloc(void *data, size_t size)
{
    if (!next_realloc)
        resolve();
    return fails(__builtin_return_address(0)) ? NULL : next_realloc(data, size);
}

int posix_memalign(void **out, size_t alignment, size_t size)
{
    if (!next_memalign)
        resolve();
    return fails(__builtin_return_address(0)) ? ENOMEM : next_memalign(out, alignment, size);
}

/* interface */

void failalloc_range(uintptr_t begin, uintptr_t end, int own)
{
    if (range_count < 64)
    {
        ranges[range_count][0] = begin;
        ranges[range_count][1] = end;
        ranges[range_count++][2] = own;
    }
}

void failalloc_arm(long first, long until)
{
    seen = 0;
    target = first;
    last = until;
    site = NULL;
    armed = 1;
}

long failalloc_disarm(void)
{
    armed = 0;
    return seen;
}

/* the library holding the call site of the failed allocation */
const char *failalloc_where(void)
{
    Dl_info info;
    if (!site)
        return "";
    if (!dladdr(site, &info) || !info.dli_fname)
        return "?";
    return info.dli_fname;
}

/* call(args, kwargs) with failing allocations, without any allocation of the
 * caller in between */
typedef struct _object PyObject;
PyObject *failalloc_call(PyObject *(*call)(PyObject *, PyObject *, PyObject *), PyObject *func, PyObject *args, PyObject *kwargs, long first, long until, int own, long *count)
{
    PyObject *result;
    range_used = own;
    failalloc_arm(first, until);
    result = call(func, args, kwargs);
    *count = failalloc_disarm();
    return result;
}
