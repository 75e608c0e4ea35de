/// Stand-in for the header the project's CMake generates.
#pragma once
#define PROXSUITE_NLP_WARN(msg)
