// Force-included before Eigen: a failed Eigen assertion (which aborts the process in a normal
// build) becomes an exception the driver can record as "crash".
#pragma once
#include <cstdlib>
#include <string>
struct EigenAssertion { std::string what; };
#ifdef VERIF_ASSERT_ABORTS
#include <cstdio>
#define eigen_assert(x) do { if (!(x)) { fputs("runtime error: Eigen assertion " #x, stderr); abort(); } } while (0)
#else
#define eigen_assert(x) do { if (!(x)) throw EigenAssertion{#x}; } while (0)
#endif
#define EIGEN_NO_AUTOMATIC_RESIZING_DUMMY
