// instantiate libstdc++'s string templates here instead of using the copies in the library binary
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
