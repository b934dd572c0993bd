// Included first when a harness is lowered to IR: have std::string's members instantiated instead of taken from libstdc++.so.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
