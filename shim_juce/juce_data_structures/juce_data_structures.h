#pragma once
#include "../juce_shim.hpp"
#if defined(JUCESHIM_PLUGIN)
    #include "../juce_plugin_shim.hpp"
#endif
