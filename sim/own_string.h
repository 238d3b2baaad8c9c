// Included first in every instrumented file: std::string is compiled with the code, not taken from libstdc++, so that the
// simulator sees what its members read and write.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
