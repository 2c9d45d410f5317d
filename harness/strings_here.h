// Included before everything else where accesses are recorded: strings are instantiated in the instrumented objects instead
// of being taken from the C++ library.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
