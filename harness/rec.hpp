// Memory recorder.  The library is compiled with -fsanitize=thread, but linked with the hooks in
// rec.cpp instead of the sanitizer's runtime, so that every load and store reaches us.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
namespace rec {
enum { ALLOC = 1, FREE = 2, USE = 3, BEGIN = 4, END = 5 };
struct Ev { int t; long id, a, b; };                       // ALLOC id size form / FREE id size form / USE id lo hi / BEGIN / END
struct Acc { int t; long loc; int n; };                    // t: 0 read 1 write 2 atomic read 3 atomic write 4 lock 5 unlock; n bytes
struct Alloc;
void heap(bool on, int pattern);     // route operator new of this thread to the arena, blocks filled with a pattern
void reset();                        // forget everything recorded by this thread
void begin();                        // a query begins / ends
void end();
void finish();                       // flush what is pending
const std::vector<Ev> &events();
const std::vector<Acc> &accesses();  // of the query last recorded: memory it shares with others
bool instrumented();                 // hooks were called at all
void dirty_stack(int pattern);
}
