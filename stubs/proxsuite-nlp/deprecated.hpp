/// Stand-in for the header the project's CMake generates.
#pragma once
#define PROXSUITE_NLP_DEPRECATED
#define PROXSUITE_NLP_DEPRECATED_MESSAGE(msg)
#define PROXSUITE_NLP_DEPRECATED_HEADER(msg)
#define PROXSUITE_NLP_PRAGMA(x)
