// force-included into every translation unit of the checked build: Eigen's own preconditions stay on in the
// optimised build, and a broken one is a crash that the explorer attributes to the choices that led to it.
#pragma once
#include <cstdio>
#include <cstdlib>
#undef eigen_assert
#define eigen_assert(x) do { if (!(x)) { fprintf(stderr, "EIGEN-ASSERT %s:%d %s\n", __FILE__, __LINE__, #x); abort(); } } while (0)
