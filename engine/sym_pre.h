// Forced into every instrumented translation unit: std::string and friends are
// instantiated (and instrumented) here instead of being taken from libstdc++.
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
