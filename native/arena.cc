// Replay harness for the arena properties: random histories of public operations on the real code,
// against an independent model. Used to confirm a failed obligation, and as the bounded stand-in for a
// function the verifier could not process. Only public interfaces are used.
#include "common.hpp"
#include <map>
#include "arena/arena.hpp"
using namespace stdb::memory;
using namespace h;
struct Blk { char* mem; uint64_t size, pos, limit; bool dead; };
struct Alloc { char* p; uint64_t n; unsigned char pat; };
static std::vector<Blk> blocks;     // oldest first, live blocks of the arena under test
static std::vector<Alloc> allocs;
static std::vector<void*> want_clean;  // registration order
static std::vector<void*> ran;
static std::vector<std::pair<uint64_t, char*>> newblk;  // block_alloc calls of the current operation
static std::vector<uint64_t> dealloc_order;
static uint64_t fail_in = 0;         // nth block_alloc fails
static uint64_t refused = 0;
struct Ev { int k; uint64_t a, b, c, d; };
static std::vector<Ev> ev;
static uint64_t live_obj = 0, dtor_cnt = 0;
static std::map<char*, char*> raws;
static void* balloc(size_t n) {
    if (fail_in && --fail_in == 0) { ++refused; newblk.push_back({n, nullptr}); return nullptr; }
    if (n > (1ull << 28)) { ++refused; newblk.push_back({n, nullptr}); return nullptr; }
    // 8-byte aligned, arbitrary modulo 32; guard bytes come from ASan
    uint64_t sh = 8 * below(4);
    char* raw = nullptr;
    if (posix_memalign((void**)&raw, 64, n + sh)) { ++refused; newblk.push_back({n, nullptr}); return nullptr; }
    memset(raw, 0xEE, n + sh < 65536 ? n + sh : 65536);
    char* m = raw + sh;
    raws[m] = raw;
    newblk.push_back({n, m});
    return m;
}
static void bdealloc(void* p) {
    bool ok = false;
    for (auto& b : blocks)
        if (b.mem == p && !b.dead) { b.dead = true; ok = true; }
    CHK("A02 A03", ok, "block_dealloc of %p, which is not a live block", p);
    if (ok) { free(raws[(char*)p]); raws.erase((char*)p); }
    dealloc_order.push_back((uint64_t)p);
}
static std::string lastlog;
static void lg(const std::string& s) { lastlog = s; }
static int cookie_obj;
static void* hinit(Arena* a, const boost::source_location&) { ev.push_back({0, (uint64_t)a, 0, 0, 0}); return &cookie_obj; }
static void hreset(Arena* a, void* c, uint64_t u, uint64_t w) { ev.push_back({1, (uint64_t)a, (uint64_t)c, u, w}); }
static void halloc(const type_info* t, uint64_t n, void* c) { ev.push_back({2, t ? t->hash_code() : 0, n, (uint64_t)c, 0}); }
static void hblk(uint64_t n, uint64_t s, void* c) { ev.push_back({3, n, s, (uint64_t)c, 0}); }
static void* hdestr(Arena* a, void* c, uint64_t u, uint64_t w) { ev.push_back({4, (uint64_t)a, (uint64_t)c, u, w}); return nullptr; }
static void cleanup_fn(void* p) { ran.push_back(p); }
static std::vector<void*> ctor_at;
struct Obj3 { uint64_t a, b, c; Obj3(uint64_t x) : a(x), b(x), c(x) { ctor_at.push_back(this); ++live_obj; } ~Obj3() { --live_obj; ++dtor_cnt; ran.push_back(this); } ArenaFullManagedTag; };
struct Skip { std::string* keep; uint64_t x; ArenaFullManagedTag; ArenaManagedCreateOnlyTag; ~Skip() { CHK("A02", false, "destructor of a skippable type run"); } };
struct Pod { uint64_t a, b; };
struct Pod3 { unsigned char c[24]; };
struct Owned { uint64_t v; ~Owned() { ran.push_back(this); } };
static bool ghook, hk[5];
static Arena::Options ops;
static uint64_t up(uint64_t n, uint64_t a) { return (n + a - 1) / a * a; }
static uint64_t policy(uint64_t minb, bool first) {
    uint64_t req = minb + 32, base;
    if (first) base = ops.suggested_init_block_size;
    else if (req <= ops.normal_block_size) base = ops.normal_block_size;
    else if (req <= ops.huge_block_size / 4) base = up(minb, ops.normal_block_size);
    else if (req <= ops.huge_block_size) base = ops.huge_block_size;
    else base = 0;
    return std::max(base, req);
}
static uint64_t space() { uint64_t s = 0; for (auto& b : blocks) s += b.size; return s; }
static uint64_t wasted() { uint64_t s = 0; for (auto& b : blocks) s += b.limit - b.pos; return s; }
static uint64_t rsize() {
    uint64_t v;
    switch (below(12)) {
        case 0: v = below(64); break;
        case 1: v = below(300); break;
        case 2: v = ops.normal_block_size - 48 + below(33); break;
        case 3: v = ops.huge_block_size / 4 - 48 + below(33); break;
        case 4: v = ops.huge_block_size - 48 + below(33); break;
        case 5: case 6: case 7: if (!blocks.empty()) { auto& b = blocks.back(); uint64_t r = b.limit - b.pos; v = r + below(80) - 40; if (v > (1ull << 40)) v = 0; break; }
            [[fallthrough]];
        case 8: v = below(2 * ops.normal_block_size); break;
        case 9: v = ops.suggested_init_block_size - 40 + below(24); if (v > (1ull << 40)) v = 0; break;
        case 10: if (!hints.empty()) { v = hints[below(hints.size())] + below(9) - 4; break; } [[fallthrough]];
        default: v = below(128);
    }
    if (chance(1, 150)) v = ~0ull - below(100);
    if (chance(1, 300)) v = (~0ull >> below(20)) - below(100);
    return v;
}
static void verify(Arena* a, const char* after) {
    CHK("A03", a->SpaceAllocated() == space(), "%s: SpaceAllocated %llu, live blocks hold %llu", after, (unsigned long long)a->SpaceAllocated(), (unsigned long long)space());
    if (!blocks.empty()) {
        auto& b = blocks.back();
        CHK("A03 A01", a->SpaceRemains() == b.limit - b.pos, "%s: SpaceRemains %llu, expected %llu", after, (unsigned long long)a->SpaceRemains(), (unsigned long long)(b.limit - b.pos));
        uint64_t n = 0; for (auto& x : blocks) n += (x.size - x.limit) / 16;
        CHK("A02", a->cleanups() == n, "%s: %llu cleanups, expected %llu", after, (unsigned long long)a->cleanups(), (unsigned long long)n);
    }
    CHK("A02", ran.empty(), "%s: a cleanup ran", after);
    CHK("A03 A02", dealloc_order.empty(), "%s: a block was released", after);
    for (auto& x : allocs)
        for (uint64_t i = 0; i < x.n; i += (x.n > 256 && i > 16 && i + 40 < x.n) ? 13 : 1)
            CHK("A01", (unsigned char)x.p[i] == x.pat, "%s: bytes of an earlier allocation changed", after);
}
static void check_ptr(Arena* a, Arena* shown, const char* p) {
    int want = 0;
    for (auto& b : blocks) {
        if (p < b.mem || p >= b.mem + b.size) continue;
        uint64_t o = p - b.mem;
        want = o < 32 ? 1 : o < b.pos ? 3 : o < b.limit ? 4 : 2;
    }
    CHK("A05", (int)shown->check(p) == want, "check(%p): %d, expected %d", (const void*)p, (int)a->check(p), want);
}
// take over what one operation did to the block list; `needs`: payload requests that may each have opened a block
static void absorb(Arena* a, const std::vector<uint64_t>& needs, uint64_t hooks_before) {
    (void)a;
    size_t k = 0;
    for (auto& [n, m] : newblk) {
        bool first = blocks.empty();
        uint64_t minb = k < needs.size() ? needs[k] : 0;
        (void)minb;
        bool pol = false;
        for (auto x : needs) pol |= policy(x, first) == n;
        CHK("A04", pol, "block of %llu bytes requested, policy says %llu", (unsigned long long)n, (unsigned long long)(needs.empty() ? 0 : policy(needs[0], first)));
        ++k;
        if (!m) continue;
        if (hk[3]) {
            bool found = false;
            for (size_t i = hooks_before; i < ev.size(); ++i)
                if (ev[i].k == 3) {
                    CHK("A07", ev[i].a == blocks.size() && ev[i].b == n && ev[i].c == (hk[0] ? (uint64_t)&cookie_obj : 0), "block hook got (%llu,%llu), expected (%zu,%llu)", (unsigned long long)ev[i].a, (unsigned long long)ev[i].b, blocks.size(), (unsigned long long)n);
                    found = true; ev.erase(ev.begin() + i); break;
                }
            CHK("A07", found, "block hook not called for a new block");
        }
        blocks.push_back({m, n, 32, n, false});
    }
    for (auto& e : ev) CHK("A07", e.k != 3, "block hook called without a new block");
    newblk.clear();
}
static void took(char* p, uint64_t n, uint64_t al, const char* what) {
    CHK("A01", !blocks.empty(), "%s: no block", what);
    if (blocks.empty()) die(prop.c_str(), "allocation without a block");
    bool in = false;
    // the allocation is served by the newest block, or by the one before if a cleanup node opened a new one
    for (size_t i = blocks.size(); i-- > 0 && i + 2 >= blocks.size();) {
        auto& b = blocks[i];
        if (p < b.mem || p > b.mem + b.size) continue;
        uint64_t o = p - b.mem;
        in = true;
        CHK("A01", o >= b.pos && o + n <= b.limit && o + n >= o, "%s: result [%llu,+%llu) outside the free part [%llu,%llu)", what, (unsigned long long)o, (unsigned long long)n, (unsigned long long)b.pos, (unsigned long long)b.limit);
        b.pos = o + up(n, 8);
        break;
    }
    CHK("A01", in, "%s: result outside the arena's current block", what);
    CHK("A01", (uint64_t)p % al == 0, "%s: misaligned result (%llu)", what, (unsigned long long)al);
    if (n <= (1 << 20)) {
        unsigned char pat = 1 + below(255);
        memset(p, pat, n);
        allocs.push_back({p, n, pat});
    }
}
static void hook_alloc(bool ok, uint64_t ty, uint64_t n) {
    uint64_t c = 0;
    for (auto& e : ev)
        if (e.k == 2) {
            ++c;
            CHK("A07", e.a == ty && e.b == n && e.c == (hk[0] ? (uint64_t)&cookie_obj : 0), "allocation hook got size %llu, expected %llu", (unsigned long long)e.b, (unsigned long long)n);
        } else CHK("A07", false, "unexpected hook %d", e.k);
    CHK("A07", c == (hk[2] && ok ? 1 : 0), "allocation hook called %llu times", (unsigned long long)c);
    ev.clear();
}
static void failed(uint64_t n, const char* what) {
    CHK("A06", refused > 0 || n > ~0ull - 256, "%s(%llu) failed although block_alloc did not", what, (unsigned long long)n);
}
static void finish(uint64_t keep) {
    // expected cleanup order: newest first
    std::vector<void*> exp(want_clean.rbegin(), want_clean.rend());
    CHK("A02", ran.size() == exp.size(), "%zu cleanups ran, %zu registered", ran.size(), exp.size());
    CHK("A02", ran == exp, "cleanups ran in the wrong order or with the wrong element");
    uint64_t n = 0;
    for (size_t i = 0; i < blocks.size(); ++i) n += blocks[i].dead;
    CHK("A03", n == blocks.size() - std::min<uint64_t>(keep, blocks.size()), "%llu of %zu blocks released", (unsigned long long)n, blocks.size());
    if (keep && !blocks.empty()) CHK("A03", !blocks[0].dead, "the first block was released");
    CHK("A02", live_obj == 0, "%llu objects not destroyed", (unsigned long long)live_obj);
    ran.clear(); want_clean.clear(); allocs.clear(); dealloc_order.clear();
}
static void one() {
    for (auto& [m, r] : raws) free(r);
    raws.clear();
    blocks.clear(); allocs.clear(); want_clean.clear(); ran.clear(); newblk.clear(); ev.clear(); dealloc_order.clear();
    live_obj = 0; refused = 0; fail_in = 0;
    uint64_t nb = 64ull << below(8);
    ops = Arena::Options{};
    ops.normal_block_size = nb;
    ops.huge_block_size = nb << below(6);
    ops.suggested_init_block_size = pick<uint64_t>({0, 8, 32, 40, 48, 64, 256, nb, 4096, 8 * below(200)});
    ops.block_alloc = balloc; ops.block_dealloc = bdealloc; ops.logger_func = lg;
    uint64_t hm = pick<uint64_t>({0, 31, 31, below(32)});
    for (int i = 0; i < 5; ++i) hk[i] = hm >> i & 1;
    if (hk[0]) ops.on_arena_init = hinit;
    if (hk[1]) ops.on_arena_reset = hreset;
    if (hk[2]) ops.on_arena_allocation = halloc;
    if (hk[3]) ops.on_arena_newblock = hblk;
    if (hk[4]) ops.on_arena_destruction = hdestr;
    log("Arena(normal=%llu huge=%llu init=%llu hooks=%llu)", (unsigned long long)nb, (unsigned long long)ops.huge_block_size, (unsigned long long)ops.suggested_init_block_size, (unsigned long long)hm);
    alignas(Arena) static char store[2][sizeof(Arena)];
    Arena* a = new (store[0]) Arena(ops);
    int cur = 0;
    CHK("A07", ev.size() == (hk[0] ? 1u : 0u), "init hook called %zu times", ev.size());
    if (hk[0] && !ev.empty()) CHK("A07", ev[0].k == 0 && ev[0].a == (uint64_t)a, "init hook arguments");
    ev.clear();
    uint64_t cookie = hk[0] ? (uint64_t)&cookie_obj : 0;
    CHK("A03", newblk.empty() && a->SpaceAllocated() == 0, "a new arena already owns memory");
    std::vector<Owned*> owned;
    int steps = 1 + below(40);
    for (int s = 0; s < steps; ++s) {
        newblk.clear(); refused = 0; lastlog.clear();
        fail_in = chance(1, 6) ? 1 + below(2) : 0;
        size_t hb = ev.size();
        uint64_t op = below(24);
        if (op < 7) {
            uint64_t n = rsize(), al = pick<uint64_t>({8, 8, 16, 32});
            log("AllocateAligned(%llu,%llu) fail_in=%llu", (unsigned long long)n, (unsigned long long)al, (unsigned long long)fail_in);
            char* p = a->AllocateAligned(n, al);
            CHK("A03", newblk.size() <= 1, "%zu blocks requested", newblk.size());
            if (!p) failed(n, "AllocateAligned");
            absorb(a, {up(n, 8) + al - 8, up(n, 8)}, hb);
            if (p) took(p, n, al, "AllocateAligned");
            hook_alloc(p, 0, n);
            verify(a, "AllocateAligned");
        } else if (op < 10) {
            uint64_t n = rsize();
            void* el = chance(1, 2) ? nullptr : (void*)(8 + 8 * below(100));
            log("AllocateAlignedAndAddCleanup(%llu) fail_in=%llu", (unsigned long long)n, (unsigned long long)fail_in);
            char* p = a->AllocateAlignedAndAddCleanup(n, cleanup_fn, el);
            if (!p) failed(n, "AllocateAlignedAndAddCleanup");
            uint64_t sp = a->SpaceAllocated();
            (void)sp;
            uint64_t before = blocks.empty() ? 0 : blocks.back().pos;
            (void)before;
            absorb(a, {up(n, 8), 16}, hb);
            if (p) {
                took(p, n, 8, "AllocateAlignedAndAddCleanup");
                blocks.back().limit -= 16;
                want_clean.push_back(el ? el : p);
            } else if (!blocks.empty() && refused == 1 && n < (1ull << 40)) {
                // the allocation itself may have been served: resynchronise the position
                auto& b = blocks.back();
                uint64_t r = a->SpaceRemains();
                CHK("A06", b.limit - b.pos == r || b.limit - b.pos - r == up(n, 8), "failed AllocateAlignedAndAddCleanup: SpaceRemains %llu", (unsigned long long)r);
                b.pos = b.limit - r;
            }
            hook_alloc(p, 0, n);
            verify(a, "AllocateAlignedAndAddCleanup");
        } else if (op < 12) {
            log("Create<Obj3> fail_in=%llu", (unsigned long long)fail_in);
            ctor_at.clear();
            uint64_t lo = live_obj;
            auto* p = a->Create<Obj3>(7);
            std::vector<void*> r2; r2.swap(ran);
            if (!p) {
                failed(24, "Create");
                CHK("A06 A02", live_obj == lo, "failed Create leaves a constructed object behind");
                live_obj = lo;
            } else {
                CHK("A02", ctor_at.size() == 1 && ctor_at[0] == p && r2.empty(), "Create constructs the object once, in place");
            }
            absorb(a, {24, 16}, hb);
            if (p) {
                took((char*)p, 24, 8, "Create");
                allocs.pop_back();
                blocks.back().limit -= 16;
                want_clean.push_back(p);
            } else if (!blocks.empty()) {
                auto& b = blocks.back(); b.pos = b.limit - a->SpaceRemains();
            }
            hook_alloc(p, typeid(Obj3).hash_code(), 24);
            verify(a, "Create<Obj3>");
        } else if (op < 13) {
            log("Create<Pod> fail_in=%llu", (unsigned long long)fail_in);
            auto* p = a->Create<Pod>();
            if (!p) failed(16, "Create<Pod>");
            absorb(a, {16}, hb);
            if (p) took((char*)p, 16, 8, "Create<Pod>");
            hook_alloc(p, typeid(Pod).hash_code(), 16);
            verify(a, "Create<Pod>");
        } else if (op < 15) {
            bool w = chance(1, 2);
            uint64_t es = w ? 24 : 1, n = rsize();
            if (n < (1ull << 40)) n /= es;
            log("CreateArray<%llu>(%llu) fail_in=%llu", (unsigned long long)es, (unsigned long long)n, (unsigned long long)fail_in);
            bool over = n > ~0ull / es;
            char* p = w ? (char*)a->CreateArray<Pod3>(n) : a->CreateArray<char>(n);
            if (!p) failed(over ? ~0ull : n * es, "CreateArray");
            CHK("A01", !(p && over), "CreateArray size wrapped around");
            absorb(a, {up(n * es, 8)}, hb);
            if (p) {
                for (uint64_t i = 0; i < n * es; ++i) CHK("A01", p[i] == 0, "CreateArray: element not value-initialized");
                took(p, n * es, 8, "CreateArray");
            }
            hook_alloc(p, w ? typeid(Pod3).hash_code() : typeid(char).hash_code(), n * es);
            verify(a, "CreateArray");
        } else if (op < 16) {
            log("Own fail_in=%llu", (unsigned long long)fail_in);
            auto* o = new Owned{1};
            bool ok = a->Own<Owned>(o);
            if (!ok) { failed(16, "Own"); }
            absorb(a, {16}, hb);
            if (ok) { want_clean.push_back(o); blocks.back().limit -= 16; }
            else { std::vector<void*> r2 = ran; delete o; ran = r2; }
            CHK("A07", ev.empty(), "hook called by Own");
            ev.clear();
            verify(a, "Own");
        } else if (op < 18) {
            uint64_t n = rsize(), al = pick<uint64_t>({1, 2, 4, 8, 16, 32});
            log("memory_resource::allocate(%llu,%llu) fail_in=%llu", (unsigned long long)n, (unsigned long long)al, (unsigned long long)fail_in);
            CHK("A01 A09", a->get_memory_resource()->get_arena() == a, "the memory resource serves another arena");
            if (a->get_memory_resource()->get_arena() != a) return;
            char* p = (char*)a->get_memory_resource()->allocate(n, al);
            if (!p) failed(n, "memory_resource::allocate");
            uint64_t al8 = std::max<uint64_t>(8, al);
            absorb(a, {up(n, 8) + al8 - 8, up(n, 8)}, hb);
            if (p) took(p, n, al8, "memory_resource::allocate");
            CHK("A07", ev.empty(), "hook called by memory_resource::allocate");
            ev.clear();
            verify(a, "memory_resource::allocate");
        } else if (op < 21) {
            for (int i = 0; i < 6; ++i) {
                const char* p;
                if (blocks.empty() || chance(1, 10)) p = (const char*)(rnd() >> 17);
                else {
                    auto& b = blocks[below(blocks.size())];
                    p = (const char*)((uint64_t)b.mem + pick<uint64_t>({0, 31, 32, b.pos - 1, b.pos, b.limit - 1, b.limit, b.size - 1, b.size, ~0ull, below(b.size + 1)}));
                }
                log("check(%p)", (const void*)p);
                check_ptr(a, a, p);
            }
            verify(a, "check");
        } else if (op < 22) {
            if (blocks.empty()) continue;
            log("Reset");
            uint64_t sp = space(), wa = wasted();
            uint64_t r = a->Reset();
            CHK("A03", r == sp, "Reset returned %llu, expected %llu", (unsigned long long)r, (unsigned long long)sp);
            CHK("A07", ev.size() == (hk[1] ? 1u : 0u), "reset hook called %zu times", ev.size());
            if (hk[1] && ev.size() == 1) CHK("A07", ev[0].k == 1 && ev[0].a == (uint64_t)a && ev[0].b == cookie && ev[0].c == sp && ev[0].d == wa, "reset hook got used=%llu wasted=%llu, expected %llu %llu", (unsigned long long)ev[0].c, (unsigned long long)ev[0].d, (unsigned long long)sp, (unsigned long long)wa);
            ev.clear();
            finish(1);
            while (blocks.size() > 1) { blocks.pop_back(); }
            blocks[0].pos = 32; blocks[0].limit = blocks[0].size;
            verify(a, "Reset");
        } else if (op < 23) {
            log("move");
            Arena* b = new (store[1 - cur]) Arena(std::move(*a));
            CHK("A09", ev.empty() && newblk.empty(), "a hook or an allocation ran during a move");
            ev.clear();
            CHK("A09", a->SpaceAllocated() == 0, "moved-from arena still accounts memory");
            a->~Arena();
            CHK("A09", ran.empty() && dealloc_order.empty(), "destroying the moved-from arena released something");
            ev.clear(); ran.clear(); dealloc_order.clear();
            a = b; cur = 1 - cur;
            CHK("A09", a->get_memory_resource()->get_arena() == a, "the memory resource does not follow the move");
            CHK("A09", a->SpaceAllocated() == space(), "move lost memory");
            if (!blocks.empty()) CHK("A09", a->SpaceRemains() == blocks.back().limit - blocks.back().pos, "move changed the current block");
            verify(a, "move");
        }
    }
    log("~Arena");
    uint64_t sp = space(), wa = wasted();
    ev.clear(); ran.clear();
    a->~Arena();
    CHK("A07", ev.size() == (hk[4] ? 1u : 0u), "destruction hook called %zu times", ev.size());
    if (hk[4] && ev.size() == 1) CHK("A07", ev[0].k == 4 && ev[0].a == (uint64_t)a && ev[0].b == cookie && ev[0].c == sp && ev[0].d == wa, "destruction hook got used=%llu wasted=%llu, expected %llu %llu", (unsigned long long)ev[0].c, (unsigned long long)ev[0].d, (unsigned long long)sp, (unsigned long long)wa);
    finish(0);
}
int main(int c, char** v) { return h::main(c, v, one); }
