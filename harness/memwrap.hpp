// Interposition of the allocator for the library's (statically linked) code: live-block accounting and an arena
// whose contents can be write-protected.  Linked with -Wl,--wrap=malloc,...
#pragma once
#include <cstddef>
namespace memw {
long live();                        // blocks allocated and not yet released through the wrapped functions
long allocations();                 // total number of allocations so far
void arena_on();                    // library allocations of this thread go to the arena until arena_off()
void arena_off();
void *arena_alloc(size_t n);        // for the harness' own inputs
void protect();                     // make everything allocated in the arena so far read-only
void unprotect();
bool in_arena(const void *p);
}
