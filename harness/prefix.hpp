// Force-included in the library and the harness: Eigen's own assertions (sizes, bounds) stay on although
// the library is built as in a release (NDEBUG), and abort through a reporter.
#pragma once
#ifdef __cplusplus
extern "C" void vp_eigen_fail(const char *expr, const char *file, int line);
#define eigen_assert(x)                                                                                                \
    do {                                                                                                               \
        if (!(x)) vp_eigen_fail(#x, __FILE__, __LINE__);                                                               \
    } while (0)
#include <cstddef>
#endif
