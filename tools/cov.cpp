// Development aid: which basic blocks of the library the harnesses execute (see tools/cover.py)
#include <cstdint>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
static unsigned char* map; enum : long { N = 1l << 26 };
extern "C" void __sanitizer_cov_trace_pc() {
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  if (__builtin_expect(!map, 0)) { const char* f = getenv("MC_COVER"); int d = open(f, O_RDWR | O_CREAT, 0600); if (ftruncate(d, N)) abort(); map = (unsigned char*)mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_SHARED, d, 0); close(d); }
  if (pc < N) map[pc] = 1;
}
