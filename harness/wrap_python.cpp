// neo's Python module, built against the stand-in for pybind11
#define NO_IMPORT_ARRAY
#include "main.cpp"
