// Driver: instantiates and forwards to /repo's arena, nothing else. Compiled together with
// /repo/arena/arena.cc on every run.
#include <cstddef>
#include "arena/arena.hpp"
namespace stdb::memory {
// the friend the class declares for its own tests: gives the driver the field offsets
class ArenaTestHelper {
 public:
  static constexpr uint64_t options = offsetof(Arena, _options), last = offsetof(Arena, _last_block),
                            resource = offsetof(Arena, _resource), cookie = offsetof(Arena, _cookie),
                            space = offsetof(Arena, _space_allocated), size = sizeof(Arena);
  static void* new_block(Arena* a, uint64_t n, void* prev) { return a->newBlock(n, static_cast<Arena::Block*>(prev)); }
  static bool add_cleanup(Arena* a, void* o, void (*c)(void*)) { return a->addCleanup(o, c); }
};
}  // namespace stdb::memory
using namespace stdb::memory;
using O = Arena::Options;
struct alignas(8) Pod { uint64_t a, b; };
struct Obj3 { uint64_t a, b, c; Obj3(uint64_t x); ~Obj3(); using ArenaManaged_ = void; };
extern "C" {
extern const uint64_t lay[];
const uint64_t lay[] = {
  ArenaTestHelper::size, ArenaTestHelper::last, ArenaTestHelper::resource, ArenaTestHelper::cookie, ArenaTestHelper::space,
  ArenaTestHelper::options + offsetof(O, normal_block_size), ArenaTestHelper::options + offsetof(O, huge_block_size),
  ArenaTestHelper::options + offsetof(O, suggested_init_block_size), ArenaTestHelper::options + offsetof(O, block_alloc),
  ArenaTestHelper::options + offsetof(O, block_dealloc), ArenaTestHelper::options + offsetof(O, logger_func),
  ArenaTestHelper::options + offsetof(O, on_arena_init), ArenaTestHelper::options + offsetof(O, on_arena_reset),
  ArenaTestHelper::options + offsetof(O, on_arena_allocation), ArenaTestHelper::options + offsetof(O, on_arena_newblock),
  ArenaTestHelper::options + offsetof(O, on_arena_destruction)};
void* d_new_block(Arena* a, uint64_t n, void* prev) { return ArenaTestHelper::new_block(a, n, prev); }
bool d_add_cleanup(Arena* a, void* o, void (*c)(void*)) { return ArenaTestHelper::add_cleanup(a, o, c); }
void* d_alloc(Arena* a, uint64_t bytes, uint64_t al) { return a->AllocateAligned(bytes, al); }
void* d_alloc_cleanup(Arena* a, uint64_t bytes, void (*c)(void*), void* e) { return a->AllocateAlignedAndAddCleanup(bytes, c, e); }
void* d_create_pod(Arena* a) { return a->Create<Pod>(); }
void* d_create_obj(Arena* a, uint64_t x) { return a->Create<Obj3>(x); }
bool d_own(Arena* a, uint64_t* p) { return a->Own<uint64_t>(p); }
void* d_create_array8(Arena* a, uint64_t n) { return a->CreateArray<uint64_t>(n); }
void* d_create_array1(Arena* a, uint64_t n) { return a->CreateArray<char>(n); }
void* d_create_array16(Arena* a, uint64_t n) { return a->CreateArray<Pod>(n); }
uint64_t d_reset(Arena* a) { return a->Reset(); }
void d_dtor(Arena* a) { a->~Arena(); }
void d_ctor(void* a, const O* o) { new (a) Arena(*o); }
void d_move(void* dst, Arena* src) { new (dst) Arena(std::move(*src)); }
uint8_t d_check(Arena* a, const char* p) { return static_cast<uint8_t>(a->check(p)); }
uint64_t d_space_allocated(Arena* a) { return a->SpaceAllocated(); }
uint64_t d_space_remains(Arena* a) { return a->SpaceRemains(); }
uint64_t d_cleanups(Arena* a) { return a->cleanups(); }
void* d_get_resource(Arena* a) { return a->get_memory_resource(); }
void* d_pmr_alloc(Arena* a, uint64_t bytes, uint64_t al) { return a->get_memory_resource()->allocate(bytes, al); }
void* d_res_arena(Arena* a) { return a->get_memory_resource()->get_arena(); }
}
