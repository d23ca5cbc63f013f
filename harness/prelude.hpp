// Included before everything else (-include). The headers of lru-cache do not
// include everything they use, so all of the standard library comes first, the
// way the tests of the project are built here.
//   default            the project's own Optional is used (as in its tests)
//   -DVP_STD_OPTIONAL  std::optional is used (what a C++17 user gets)
#pragma GCC system_header
#include <bits/stdc++.h>
#ifndef VP_STD_OPTIONAL
#undef __has_include
#endif
