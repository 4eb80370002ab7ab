#pragma once
#include "../juce_shim.hpp"
