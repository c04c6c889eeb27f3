// Plain build: the built-in double, with assert() and eigen_assert() reported.
#include <bits/stdc++.h>
#include "shim/assert.h"
#undef eigen_assert
#define eigen_assert(e) assert(e)
