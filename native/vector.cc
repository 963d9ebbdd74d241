// Replay harness for the stdb_vector properties: random histories of public operations on the real code,
// against std::vector as the model. Used to confirm a failed obligation, and as the bounded stand-in for
// functions without a contract (erase(value), erase_if). Allocation goes through a malloc that can refuse.
#include "common.hpp"
#include <fmt/format.h>
#include <compare>
#include <concepts>
#include <cstring>
#include <deque>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <span>
#include <stdexcept>
#include <type_traits>
#include <unordered_map>
#include <utility>
static long fail_in = 0, refused = 0;
static std::unordered_map<void*, size_t> bufs;
static std::vector<void*> freed_order;
namespace std {
inline void* vf_malloc(size_t n) {
    if ((fail_in && --fail_in == 0) || n > (1ull << 30)) { ++refused; return nullptr; }
    void* p = malloc(n);
    if (p) { memset(p, 0xA5, n < 4096 ? n : 4096); bufs[p] = n; }
    return p;
}
inline void vf_free(void* p) {
    if (!p) return;
    CHK("V02", bufs.count(p), "free of %p, which is not a live buffer", p);
    bufs.erase(p);
    free(p);
}
}  // namespace std
#define malloc vf_malloc
#define free vf_free
#include "container/stdb_vector.hpp"
#undef malloc
#undef free
using namespace stdb::container;
using namespace h;
using u64 = uint64_t;
using u8 = unsigned char;

// ---- tracked elements: every object has an identity; copies and moves are only valid from live objects
static std::unordered_map<u64, int> alive;  // identity -> 1 (alive) or 2 (moved from)
static u64 next_id = 1;
template <int K> struct Tr {
    u64 id, v;
    const void* self;
    void born(u64 x) { id = next_id++; v = x; self = this; alive[id] = 1; }
    bool ok() const { return alive.count(id) && (K == 2 || self == this); }
    void from(const Tr& o, const char* what) const {
        CHK("V02 V04", o.ok() && alive[o.id] == 1, "%s from something that is not a live element", what);
    }
    Tr() { born(0); }
    explicit Tr(u64 x) { born(x); }
    Tr(const Tr& o) { from(o, "copy construction"); born(o.v); }
    Tr(Tr&& o) noexcept requires(K != 1) { from(o, "move construction"); born(o.v); alive[o.id] = 2; o.v = 0xDEAD; }
    Tr(Tr&& o) noexcept requires(K == 1) = delete;
    Tr& operator=(const Tr& o) { from(o, "copy assignment"); CHK("V02", ok(), "assignment to something that is not an element"); v = o.v; alive[id] = 1; return *this; }
    Tr& operator=(Tr&& o) noexcept requires(K != 1) { from(o, "move assignment"); CHK("V02", ok(), "assignment to something that is not an element"); v = o.v; alive[id] = 1; if (this != &o) { alive[o.id] = 2; o.v = 0xDEAD; } return *this; }
    ~Tr() { CHK("V02", ok(), "destruction of something that is not an element"); alive.erase(id); id = 0xBAD; }
};
struct M : Tr<0> { using Tr<0>::Tr; M(const M&) = default; M(M&&) noexcept = default; M& operator=(const M&) = default; M& operator=(M&&) noexcept = default; M() = default; };
struct C : Tr<1> { using Tr<1>::Tr; C(const C&) = default; C(C&&) = delete; C& operator=(const C&) = default; C() = default; };
struct R : Tr<2> { using Tr<2>::Tr; R(const R&) = default; R(R&&) noexcept = default; R& operator=(const R&) = default; R& operator=(R&&) noexcept = default; R() = default; };
template <int K> static bool operator==(const Tr<K>& a, const Tr<K>& b) { return a.v == b.v; }
template <int K> static bool operator<(const Tr<K>& a, const Tr<K>& b) { return a.v < b.v; }
template <int K> static bool operator>(const Tr<K>& a, const Tr<K>& b) { return a.v > b.v; }
template <> struct stdb::Relocatable<R> : std::true_type {};
struct Big { u64 w[4096 * 8]; explicit Big(u64 x = 0) { w[0] = x; w[4096 * 8 - 1] = x; } };
static bool operator==(const Big& a, const Big& b) { return a.w[0] == b.w[0]; }
template <class T> static u64 key(const T& t) {
    if constexpr (std::is_integral_v<T>) return t;
    else if constexpr (std::is_same_v<T, Big>) return t.w[0];
    else return t.v;
}
template <class T> static T mk(u64 x) { return T(x); }
template <class T> static u64 rk() {
    if constexpr (std::is_same_v<T, u8>) return below(256) < 40 ? pick({0ull, 127ull, 128ull, 255ull}) : below(256);
    else return chance(1, 4) ? pick({0ull, 1ull, 255ull, ~0ull, 1ull << 63, 0x0101010101010101ull}) : below(6);
}
template <class T> static size_t initcap() { return sizeof(T) < 64 ? 64 / sizeof(T) : 1; }
template <class T> static size_t nextcap(size_t cap) {
    if (cap < initcap<T>()) return initcap<T>();
    return cap < 4096 * 32 / sizeof(T) ? (3 * cap + 1) / 2 : 2 * cap;
}
template <class T> struct Sub {  // a vector and its model
    stdb_vector<T>* v = nullptr;
    std::vector<u64> m;
    size_t cap = 0;
};
template <class T> static void show(const char* w, Sub<T>& s, const char* props) {
    const stdb_vector<T>& v = *s.v;
    CHK(props, v.size() == s.m.size(), "%s: size %zu, expected %zu", w, v.size(), s.m.size());
    CHK(props, v.empty() == s.m.empty(), "%s: empty", w);
    if (v.size() != s.m.size()) return;
    for (size_t i = 0; i < s.m.size(); ++i)
        CHK(props, key(v.data()[i]) == s.m[i], "%s: element %zu is %llu, expected %llu", w, i, (unsigned long long)key(v.data()[i]), (unsigned long long)s.m[i]);
    if constexpr (requires { v.data()->self; })
        for (size_t i = 0; i < s.m.size(); ++i) CHK("V02", v.data()[i].ok() && alive[v.data()[i].id] == 1, "%s: element %zu is not a live object", w, i);
    if (!s.m.empty()) {
        size_t i = below(s.m.size());
        CHK("V01", &v.at(i) == v.data() + i && &v[i] == v.data() + i && &(*s.v)[i] == v.data() + i && &s.v->at(i) == v.data() + i && &v.front() == v.data() && &v.back() == v.data() + s.m.size() - 1 && &s.v->front() == v.data() && &s.v->back() == v.data() + s.m.size() - 1, "%s: accessors disagree", w);
        CHK("V01", &*v.rbegin() == &v.back() && &*(v.rend() - 1) == &v.front(), "%s: reverse iterators disagree", w);
    }
    CHK("V01", v.end() - v.begin() == (long)s.m.size() && v.cend() - v.cbegin() == (long)s.m.size() && s.v->end() - s.v->begin() == (long)s.m.size() && v.begin().operator->() == v.data(), "%s: iterators disagree with size", w);
    CHK("V03", v.capacity() == s.cap, "%s: capacity %zu, expected %zu", w, v.capacity(), s.cap);
    CHK("V03", v.capacity() >= v.size(), "%s: capacity below size", w);
    auto it = bufs.find((void*)v.data());
    CHK("V03 V02", s.cap ? it != bufs.end() && it->second >= v.capacity() * sizeof(T) : v.data() == nullptr || it != bufs.end(), "%s: the buffer is not an allocation of capacity elements", w);
}
// live elements and buffers are exactly the ones the vectors and the harness hold
template <class T> static void census(const char* w, std::initializer_list<Sub<T>*> l, size_t mine_) {
    size_t b = 0, e = mine_;
    for (auto* s : l) { if (s->v && s->v->data()) ++b; if (s->v) e += s->v->size(); }
    CHK("V02 V06", bufs.size() == b, "%s: %zu buffers are allocated, the vectors own %zu", w, bufs.size(), b);
    CHK("V02 V06", std::is_trivially_destructible_v<T> || alive.size() == e, "%s: %zu elements exist, expected %zu", w, alive.size(), e);
}
template <class T> static size_t rcount(Sub<T>& s) {
    size_t c;
    switch (below(8)) {
        case 0: c = 0; break;
        case 1: c = 1; break;
        case 2: c = s.cap - std::min(s.cap, s.m.size()); break;
        case 3: c = s.cap + 1 - std::min(s.cap, s.m.size()); break;
        case 4: c = nextcap<T>(s.cap) - std::min(s.m.size(), s.cap) + below(3); break;
        case 5: c = s.m.size() + below(3); break;
        case 6: if (!hints.empty()) { c = hints[below(hints.size())]; if (c > 3000) c = c % 3000; break; } [[fallthrough]];
        default: c = below(20);
    }
    size_t lim = sizeof(T) > 100000 ? 3 : sizeof(T) < 16 && std::is_trivially_copyable_v<T> ? 40000 : 3000;
    // once in a while, past the range of 16-bit arithmetic
    if (sizeof(T) < 16 && std::is_trivially_copyable_v<T> && s.m.size() < 1000 && chance(1, 60)) return 65536 + below(5000);
    return std::min(c, lim);
}
static int fillmode; static size_t fill_ann, fill_wr; static u64 fill_seed; static int fill_calls;
template <class T> static size_t filler(T* p) {
    ++fill_calls;
    if (!p) return fill_ann;
    for (size_t i = 0; i < fill_wr; ++i) p[i] = T((u64)(fill_seed + i));
    return fill_wr;
}
template <class T> static void run() {
    constexpr bool life = !std::is_trivially_destructible_v<T>;
    constexpr bool movable = std::is_move_constructible_v<T>;
    constexpr bool big = std::is_same_v<T, Big>;
    alive.clear(); bufs.clear(); fail_in = refused = 0;
    Sub<T> a, b;
    alignas(stdb_vector<T>) char sa[sizeof(stdb_vector<T>)], sb[sizeof(stdb_vector<T>)];
    memset(sa, 0x5A, sizeof sa); memset(sb, 0x5A, sizeof sb);
    auto arr = [&](size_t k, std::vector<u64>& keys) { keys.clear(); std::deque<T> d; for (size_t i = 0; i < k; ++i) { u64 x = rk<T>(); keys.push_back(x); d.emplace_back(x); } return d; };
    // construct
    auto build = [&](Sub<T>& s, char* mem, Sub<T>* other) {
        size_t k = big ? below(3) : chance(1, 20) ? below(3000) : below(12);
        int how = (int)below(other ? 8 : 6);
        if (how == 6 && !other->v) how = 0;
        log("construct how=%d k=%zu", how, k);
        s.m.clear();
        size_t keep = 0;
        bool thrown = false;
        refused = 0;
        fail_in = chance(1, 30) ? 1 : 0;
        try {
            switch (how) {
                case 0: case 7: s.v = new (mem) stdb_vector<T>(); s.cap = 0; break;
                case 1: s.v = new (mem) stdb_vector<T>(k); s.m.assign(k, 0); s.cap = k; if constexpr (big) for (auto i = 0u; i < k; ++i) (*s.v)[i].w[0] = 0; break;
                case 2: { u64 x = rk<T>(); T t(x); s.v = new (mem) stdb_vector<T>(k, t); s.m.assign(k, x); s.cap = k; break; }
                case 3: { std::vector<u64> ks; auto d = arr(k, ks); s.v = new (mem) stdb_vector<T>(d.begin(), d.end()); s.m = ks; s.cap = k; break; }
                case 4: { std::vector<u64> ks; auto d = arr(k, ks); s.v = new (mem) stdb_vector<T>(d.rbegin(), d.rend()); s.m.assign(ks.rbegin(), ks.rend()); s.cap = k; break; }
                case 5: { std::vector<u64> ks; auto d = arr(k, ks); std::vector<T> c(d.begin(), d.end()); s.v = new (mem) stdb_vector<T>(c.data(), c.data() + k); s.m = ks; s.cap = k; break; }
                case 6: s.v = new (mem) stdb_vector<T>(*other->v); s.m = other->m; s.cap = other->m.size(); show("copy construction", *other, "V04"); break;
            }
        } catch (const std::bad_alloc&) { thrown = true; } catch (const std::length_error&) { thrown = true; }
        fail_in = 0;
        CHK("V01 V06", !thrown || refused, "construction throws although memory is there");
        if (thrown) { CHK("V06 V02", bufs.size() == (other && other->v && other->v->data() ? 1u : 0u), "a failed construction keeps memory"); s.v = new (mem) stdb_vector<T>(); s.m.clear(); s.cap = 0; }
        (void)keep;
        show("construction", s, how == 6 ? "V04" : "V01");
    };
    build(a, sa, nullptr);
    build(b, sb, &a);
    census<T>("construction", {&a, &b}, 0);
    size_t steps = 1 + below(big ? 8 : 40);
    for (size_t st = 0; st < steps; ++st) {
        Sub<T>& s = chance(2, 3) ? a : b;
        Sub<T>& o = &s == &a ? b : a;
        auto& v = *s.v;
        const T* data0 = v.data();
        size_t n = s.m.size(), cap0 = s.cap, i = below(n + 1), k = rcount(s);
        std::vector<u64> m0 = s.m;
        bool al = n && chance(1, 4);     // the const reference argument is an element of the vector
        size_t ai = n ? below(n) : 0;
        u64 x = al ? s.m[ai] : rk<T>();
        bool huge = chance(1, 60);
        u64 hk = chance(1, 2) ? ~0ull - below(70) : (~0ull >> below(12)) - below(70);
        int op = (int)below(44);
        if (focus == "erase" && chance(1, 2)) op = 19 + (int)below(4);
        refused = 0;
        fail_in = chance(1, 12) ? 1 : 0;
        log("%d: %c size=%zu cap=%zu op=%d i=%zu k=%zu x=%llu%s%s%s", (int)st, &s == &a ? 'a' : 'b', n, cap0, op, i, k, (unsigned long long)x, al ? " (element)" : "", huge ? " huge" : "", fail_in ? " fail" : "");
        size_t need = n;   // capacity the operation needs
        size_t want = cap0;
        const T* ret = nullptr; size_t reti = 0; bool haveret = false;
        bool basic = false, thrown = false, exact = false, other_too = false, anybuf = false;
        std::optional<T> tmp;
        auto ref = [&]() -> const T& { if (al) return v.data()[ai]; tmp.emplace(x); return *tmp; };
        auto grow = [&](size_t nd) { need = nd; want = nd <= cap0 ? cap0 : std::max(nextcap<T>(cap0), nd); };
        auto plain = [&](size_t nd) { need = nd; want = std::max(cap0, nd); };
        const char* P = "V01";
        try {
            switch (op) {
                case 0: case 1: case 2: grow(n + 1); { const T& t = ref(); v.push_back(t); } s.m.push_back(x); break;
                case 3: if constexpr (movable) { T t(x); grow(n + 1); v.push_back(std::move(t)); s.m.push_back(x); if constexpr (life && !std::is_same_v<T, R>) CHK("V02", alive[t.id] == 2, "push_back(T&&) does not move"); } break;
                case 4: grow(n + 1); ret = v.emplace_back(x).operator->(); reti = n; haveret = true; s.m.push_back(key(T(x))); break;
                case 5: if (n < cap0) { need = n + 1; const T& t = ref(); v.template push_back<Safety::Unsafe>(t); s.m.push_back(x); } break;
                case 6: case 7: case 8: { grow(n + 1); const T& t = ref(); ret = v.insert(v.cbegin() + (long)i, t).operator->(); reti = i; haveret = true; s.m.insert(s.m.begin() + i, x); break; }
                case 9: if constexpr (movable) { T t(x); grow(n + 1); ret = v.insert(v.cbegin() + (long)i, std::move(t)).operator->(); reti = i; haveret = true; s.m.insert(s.m.begin() + i, x); if constexpr (life && !std::is_same_v<T, R>) CHK("V02", alive[t.id] == 2, "insert(T&&) does not move"); } break;
                case 10: case 11: case 12: {
                    if (!huge && k == 0) k = 1;
                    const T& t = ref();
                    if (huge && hk > (1ull << 40)) { need = ~0ull; ret = v.insert(v.cbegin() + (long)i, hk, t).operator->(); break; }
                    grow(n + k); ret = v.insert(v.cbegin() + (long)i, k, t).operator->(); reti = i; haveret = true; s.m.insert(s.m.begin() + i, k, x); break; }
                case 13: case 14: { std::vector<u64> ks; auto d = arr(std::min<size_t>(k, 300), ks); grow(n + ks.size());
                    if (chance(1, 3)) { std::vector<T> c(d.begin(), d.end()); ret = v.insert(v.cbegin() + (long)i, c.data(), c.data() + c.size()).operator->(); }
                    else if (chance(1, 3)) { std::reverse(ks.begin(), ks.end()); ret = v.insert(v.cbegin() + (long)i, d.rbegin(), d.rend()).operator->(); }
                    else ret = v.insert(v.cbegin() + (long)i, d.begin(), d.end()).operator->();
                    reti = i; haveret = v.data() != nullptr; s.m.insert(s.m.begin() + i, ks.begin(), ks.end()); break; }
                case 15: grow(n + 1); ret = v.emplace(v.begin() + (long)i, x).operator->(); reti = i; haveret = true; s.m.insert(s.m.begin() + i, key(T(x))); break;
                case 16: grow(n + 1); ret = v.emplace(i, x).operator->(); reti = i; haveret = true; s.m.insert(s.m.begin() + i, key(T(x))); break;
                case 17: if (n) { i = below(n); ret = chance(1, 2) ? v.erase(v.begin() + (long)i).operator->() : v.erase(v.cbegin() + (long)i).operator->(); reti = i; haveret = true; s.m.erase(s.m.begin() + i); } break;
                case 18: { size_t j = i + below(n - i + 1); if (chance(1, 2)) v.erase(v.begin() + (long)i, v.begin() + (long)j); else v.erase(v.cbegin() + (long)i, v.cbegin() + (long)j); s.m.erase(s.m.begin() + i, s.m.begin() + j); break; }
                case 19: case 20: { u64 y = chance(2, 3) && n ? s.m[below(n)] : x; T t(y); size_t r = chance(1, 2) ? v.erase(t) : std::erase(v, t); size_t e = std::erase(s.m, y); CHK("V01", r == e, "erase(value) reports %zu, expected %zu", r, e); break; }
                case 21: { u64 y = rk<T>(); static u64 lim; lim = y; size_t r = v.erase_if([](const T& t) { return key(t) <= lim; }); size_t e = std::erase_if(s.m, [y](u64 t) { return t <= y; }); CHK("V01", r == e, "erase_if reports %zu, expected %zu", r, e); break; }
                case 22: { size_t c = 0; size_t r = std::erase_if(v, [](const T& t) { return (key(t) & 1) == 0; }); c = std::erase_if(s.m, [](u64 t) { return (t & 1) == 0; }); CHK("V01", r == c, "std::erase_if reports %zu, expected %zu", r, c); break; }
                case 23: if (n) { v.pop_back(); s.m.pop_back(); } break;
                case 24: v.clear(); s.m.clear(); break;
                case 25: case 26: if (huge) { need = ~0ull; v.resize(hk); break; } plain(k); v.resize(k); { size_t old = s.m.size(); s.m.resize(k, 0); if constexpr (big) for (size_t q = old; q < k; ++q) v[q].w[0] = 0; } break;
                case 27: case 28: { const T& t = ref(); if (huge) { need = ~0ull; v.resize(hk, t); break; } plain(k); if (al && k <= n) { tmp.emplace(x); v.resize(k, *tmp); } else v.resize(k, t); s.m.resize(k, x); break; }
                case 29: if (huge) { need = ~0ull; v.reserve(hk); break; } plain(k); v.reserve(k); break;
                case 30: need = 0; want = n; exact = true; anybuf = n != cap0; need = anybuf ? ~0ull >> 1 : n; v.shrink_to_fit(); break;
                case 31: case 32: { const T& t = ref(); basic = true; if (huge) { need = ~0ull; v.assign(hk, t); break; } plain(k); v.assign(k, t); s.m.assign(k, x); break; }
                case 33: case 34: { std::vector<u64> ks; auto d = arr(std::min<size_t>(k, 300), ks); basic = true; plain(ks.size());
                    if (chance(1, 3)) { std::vector<T> c(d.begin(), d.end()); v.assign(c.data(), c.data() + c.size()); }
                    else if (chance(1, 3)) { std::reverse(ks.begin(), ks.end()); v.assign(d.rbegin(), d.rend()); }
                    else v.assign(d.begin(), d.end());
                    s.m = ks; break; }
                case 35: basic = true; P = "V04"; plain(o.m.size()); v = *o.v; s.m = o.m; other_too = true; break;
                case 36: P = "V04"; { const T* od = o.v->data(); v = std::move(*o.v); s.m = o.m; want = o.cap; CHK("V04 V03", v.data() == od, "move assignment does not hand the buffer over"); o.m.clear(); o.cap = 0; anybuf = true; other_too = true; } break;
                case 37: P = "V04"; { const T* od = o.v->data(); if (chance(1, 2)) v.swap(*o.v); else std::swap(v, *o.v); CHK("V04 V03", v.data() == od && o.v->data() == data0, "swap does not exchange the buffers"); std::swap(s.m, o.m); want = o.cap; o.cap = cap0; anybuf = true; other_too = true; } break;
                case 38: P = "V04"; { stdb_vector<T> t(std::move(v)); CHK("V04 V03", t.data() == data0 && t.size() == n && t.capacity() == cap0, "move construction does not hand the buffer over"); CHK("V04", v.size() == 0 && v.empty(), "a moved-from vector is not empty"); CHK("V04", v.capacity() == 0, "a moved-from vector has capacity"); v = std::move(t); } break;
                case 39: P = "V04"; { auto& w = v; if (chance(1, 2)) v = w; else v = std::move(w); } break;
                case 40: if constexpr (std::is_trivially_copyable_v<T> && !big) { if (huge) { need = ~0ull; (void)v.get_writebuffer(hk > (1ull << 40) ? hk : ~0ull); break; } grow(n + k); auto sp = v.get_writebuffer(k); CHK("V01", sp.size() == k, "span of %zu, expected %zu", sp.size(), k); CHK("V01", k == 0 || sp.data() == v.data() + n, "the write buffer is not behind the elements"); for (size_t q = 0; q < k && q < sp.size(); ++q) { sp[q] = T(x + q); s.m.push_back(T(x + q)); } } break;
                case 41: if constexpr (std::is_trivially_copyable_v<T> && !big) { fill_ann = k; fill_wr = below(k + 1); fill_seed = x; fill_calls = 0; grow(n + k); v.fill(&filler<T>); for (size_t q = 0; q < fill_wr; ++q) s.m.push_back(T(x + q)); } break;
                case 42: if constexpr (std::is_trivially_copyable_v<T> && !big) { plain(k); v.template resize<Safety::Unsafe>(k); for (size_t q = n; q < k; ++q) v[q] = T(x); s.m.resize(k, T(x)); } break;
                case 43: if constexpr (!std::is_same_v<T, R> && !big && !std::is_same_v<T, C>) {
                    if (chance(1, 2)) { fail_in = 0; *o.v = v; o.m = s.m; o.cap = std::max(o.cap, n); if (n && chance(2, 3)) { size_t q = below(n); u64 y = rk<T>(); (*o.v)[q] = T(y); o.m[q] = y; } if (chance(1, 3) && !o.m.empty()) { o.v->pop_back(); o.m.pop_back(); } }
                    const auto &l = v, &r = *o.v;
                    int c = s.m < o.m ? -1 : s.m == o.m ? 0 : 1;
                    auto q = l <=> r; int g = q < 0 ? -1 : q > 0 ? 1 : 0;
                    CHK("V05", (l == r) == (c == 0), "== is %d", (int)(l == r)); CHK("V05", (l != r) == (c != 0), "!="); CHK("V05", g == c, "<=> is %d, expected %d", g, c);
                    CHK("V05", (l < r) == (c < 0) && (l > r) == (c > 0) && (l <= r) == (c <= 0) && (l >= r) == (c >= 0), "relational operators");
                    other_too = true;
                } break;
            }
        } catch (const std::bad_alloc&) { thrown = true; } catch (const std::length_error&) { thrown = true; }
        fail_in = 0;
        if (thrown) {
            log("   thrown, refused=%ld", refused);
            CHK("V01 V06", refused || need == ~0ull, "op %d throws although memory is there", op);
            CHK("V06", need > cap0, "op %d throws although the capacity suffices", op);
            s.m = m0; s.cap = cap0;
            if (basic && v.data() == nullptr && data0) { s.m.clear(); s.cap = 0; }
            else CHK("V06", v.data() == data0, "op %d, failed: the buffer is gone", op);
            show("after a failure", s, "V06");
            show("after a failure, other", o, "V04 V06");
        } else {
            CHK("V06", !refused, "op %d: memory was refused and nothing is reported", op);
            CHK("V01 V06", need != ~0ull, "op %d accepts an impossible size", op);
            s.cap = want;
            char w[40]; snprintf(w, sizeof w, "op %d", op);
            show(w, s, P);
            show("other", o, other_too ? "V04" : "V04 V01");
            if (!anybuf && need <= cap0) CHK("V03 V06", v.data() == data0, "op %d reallocates although the capacity suffices", op);
            if (haveret) CHK("V01", ret == v.data() + reti, "op %d returns position %ld, expected %zu", op, (long)(ret - v.data()), reti);
            if constexpr (requires { tmp->self; }) if (tmp) CHK("V02 V01", tmp->ok() && alive[tmp->id] == 1 && tmp->v == x, "op %d changes its argument", op);
        }
        tmp.reset();
        census<T>("after an operation", {&a, &b}, 0);
    }
    log("destroy");
    a.v->~stdb_vector<T>(); a.v = nullptr;
    show("other, after a destruction", b, "V04");
    census<T>("destruction", {&b}, 0);
    b.v->~stdb_vector<T>(); b.v = nullptr;
    census<T>("destruction", {}, 0);
}
static void one() {
    switch (below(12)) {
        case 0: case 1: case 2: log("u64"); run<u64>(); break;
        case 3: case 4: log("u8"); run<u8>(); break;
        case 5: case 6: case 7: log("M"); run<M>(); break;
        case 8: case 9: log("C"); run<C>(); break;
        case 10: log("R"); run<R>(); break;
        default: if (chance(1, 8)) { log("Big"); run<Big>(); } else { log("M"); run<M>(); }
    }
}
int main(int c, char** v) { return h::main(c, v, one); }
