// neo's command line convolver, built against in-memory wav files
#include "dr_wav.h"
#include <algorithm>
#include <array>
#include <bit>
#include <chrono>
#include <complex>
#include <filesystem>
#include <fmt/format.h>
#include <fmt/os.h>
#include <span>
#include <vector>
#define main neo_cli_main
#include "convolver.cpp"
#undef main
auto neo_cli(int argc, char** argv) -> int { return neo_cli_main(argc, argv); }
