// no extern templates: the library templates the code uses are compiled (and instrumented) with it
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
