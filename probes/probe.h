// Probe units: one extern "C" function per public operation, so that the
// operation is instantiated and has a stable entry name.  Nothing here is run.
#pragma once
#include <ustl.h>
using namespace ustl;
#define PROBE(name, spec, params, ...) \
    extern "C" const char S_##name[] __attribute__((used)) = spec; \
    extern "C" __attribute__((used)) void P_##name params { __VA_ARGS__; }
// as PROBE, with a result
#define PROBER(ret, name, spec, params, ...) \
    extern "C" const char S_##name[] __attribute__((used)) = spec; \
    extern "C" __attribute__((used)) ret P_##name params { __VA_ARGS__; }
