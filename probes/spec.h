// Specification probes: the body sets up a situation, performs the operation and states what must hold.
#pragma once
#include "probe.h"
extern "C" {
void require_ (bool, int) noexcept;		// must hold
void assume_ (bool) noexcept;			// only situations where this holds
unsigned long any_ (void) noexcept;		// some number
unsigned long off_ (const void*) noexcept;	// offset inside its object
bool same_ (const void*, const void*) noexcept;	// do they point into the same object?
uint8_t peek1_ (const void*) noexcept;		// contents, without being an access
uint16_t peek2_ (const void*) noexcept;
uint32_t peek4_ (const void*) noexcept;
uint64_t peek8_ (const void*) noexcept;
uint8_t was1_ (const void*) noexcept;		// contents when the probe began
uint16_t was2_ (const void*) noexcept;
uint32_t was4_ (const void*) noexcept;
uint64_t was8_ (const void*) noexcept;
// r, a value carried by the last loop that has one: what it was before the first round, how many rounds there were,
// what a round i that begins with x makes of it, what such a round leaves at p, and how many writes it does
unsigned long fold_start_ (unsigned long r) noexcept;
unsigned long fold_rounds_ (unsigned long r) noexcept;
unsigned long fold_step_ (unsigned long r, unsigned long i, unsigned long x) noexcept;
unsigned fold_put4_ (unsigned long r, unsigned long i, unsigned long x, const void* p) noexcept;
unsigned long fold_puts_ (unsigned long r, unsigned long i, unsigned long x) noexcept;
void el_ctor_ (void*) noexcept;			// lifetime of an El
void el_dtor_ (void*) noexcept;
bool live_ (const void*) noexcept;
void act_ (unsigned long) noexcept;		// an action happens
unsigned long acts_ (unsigned long) noexcept;	// how often it has
void share_ (void) noexcept;			// other threads hold references from now on
unsigned long atomics_ (void) noexcept;		// atomic accesses so far
unsigned long plain_ (const void*) noexcept;	// ordinary accesses to this cell
unsigned long order_ (void) noexcept;		// memory order of the last one
}
#define REQUIRE(...) require_ ((__VA_ARGS__), __LINE__)
#define ASSUME(...) assume_ ((__VA_ARGS__))
struct El { int v; El (void) { el_ctor_(this); } El (int n) : v(n) { el_ctor_(this); } ~El (void) { el_dtor_(this); } };
