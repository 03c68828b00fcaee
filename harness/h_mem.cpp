// A01: the pooling allocator, containers on it and owning pointers.
#include "common.hpp"
#include "Simu/utility/Memory.hpp"
#include <deque>
#include <list>
#include <map>
#include <new>
#include <set>

using namespace simu;
using vf::Ctx;
using vf::Hash;
using vf::Rng;

namespace
{
template <size_t S, size_t A>
struct alignas(A) Obj
{
    unsigned char b[S];
};

struct Rec
{
    unsigned char* p;
    size_t bytes, n, align;
    int type;
    unsigned char tag;
    int owner; // which copy of the allocator handed it out
};

struct Pool
{
    virtual ~Pool() = default;
    virtual unsigned char* get(size_t n) = 0;
    virtual void put(unsigned char* p, size_t n) = 0;
    virtual size_t size() const = 0;
    virtual size_t align() const = 0;
    virtual std::unique_ptr<Pool> copy() const = 0;
    virtual bool same(const Pool& o) const = 0;
    virtual const void* raw() const = 0;
};
typedef FreeListAllocator<unsigned char> Bytes;
template <class T>
struct PoolOf : Pool
{
    FreeListAllocator<T> a;
    explicit PoolOf(const FreeListAllocator<T>& x) : a{x} {}
    template <class U>
    explicit PoolOf(const FreeListAllocator<U>& x) : a{x} {}
    unsigned char* get(size_t n) override { return reinterpret_cast<unsigned char*>(std::allocator_traits<FreeListAllocator<T>>::allocate(a, n)); }
    void put(unsigned char* p, size_t n) override { std::allocator_traits<FreeListAllocator<T>>::deallocate(a, reinterpret_cast<T*>(p), n); }
    size_t size() const override { return sizeof(T); }
    size_t align() const override { return alignof(T); }
    std::unique_ptr<Pool> copy() const override { return std::make_unique<PoolOf<T>>(a); }
    bool same(const Pool& o) const override { Bytes x{a}; Bytes y = o.raw() ? *static_cast<const Bytes*>(o.raw()) : Bytes{}; return x == y; }
    const void* raw() const override { keep = std::make_unique<Bytes>(a); return keep.get(); }
    mutable std::unique_ptr<Bytes> keep;
};
template <class U>
std::unique_ptr<Pool> rebound(int type, const FreeListAllocator<U>& from)
{
    switch (type)
    {
        case 0: return std::make_unique<PoolOf<Obj<1, 1>>>(from);
        case 1: return std::make_unique<PoolOf<Obj<8, 8>>>(from);
        case 2: return std::make_unique<PoolOf<Obj<24, 8>>>(from);
        case 3: return std::make_unique<PoolOf<Obj<48, 16>>>(from);
        case 4: return std::make_unique<PoolOf<Obj<5, 1>>>(from);
        case 5: return std::make_unique<PoolOf<Obj<600, 8>>>(from);
        case 6: return std::make_unique<PoolOf<Obj<64, 64>>>(from);
        case 7: return std::make_unique<PoolOf<Obj<12, 4>>>(from);
        case 8: return std::make_unique<PoolOf<Obj<40000, 8>>>(from);
        default: return std::make_unique<PoolOf<Obj<6, 2>>>(from);
    }
}
constexpr int nTypes = 10;

void history(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Hash h;
    struct Family
    {
        std::vector<std::pair<int, std::unique_ptr<Pool>>> handles; // (type, allocator)
        std::vector<Rec> live;
        std::map<uintptr_t, size_t> ranges;
    };
    std::vector<Family> fam(size_t(r.i(1, 3)));
    std::map<uintptr_t, size_t> all; // ranges of every family
    for (auto& f : fam)
    {
        FreeListAllocator<int> root;
        for (int k = r.i(1, 4); k > 0; --k) { int t = r.i(0, nTypes - 1); f.handles.push_back({t, rebound(t, root)}); }
        // root goes away here: the copies must keep the memory
    }
    auto check = [&](const Rec& c, const char* when) {
        for (size_t k = 0; k < c.bytes; ++k)
            VF_CHECK(ctx, c.p[k] == (unsigned char)(c.tag + k * 7), "content", "byte %zu of a %zu byte block changed (%s)", k, c.bytes, when);
    };
    int ops = r.i(20, 250);
    int bias = r.i(30, 65);
    for (int op = 0; op < ops; ++op)
    {
        Family& f = fam[size_t(r.i(0, int(fam.size()) - 1))];
        int what = r.i(0, 99);
        if (what < bias || f.live.empty())
        {
            size_t hi = size_t(r.i(0, int(f.handles.size()) - 1));
            auto& [type, pool] = f.handles[hi];
            size_t n = r.chance(0.5) ? 1 : size_t(r.i(0, type == 8 ? 2 : type == 5 ? 20 : 300));
            if (r.chance(0.01)) n = 40000 / pool->size() + size_t(r.i(0, 300));
            if (n * pool->size() > 200000) n = 1;
            unsigned char* p = pool->get(n);
            h.add(uint64_t(type * 1000003 + n));
            if (n == 0) { pool->put(p, 0); continue; }
            VF_CHECK(ctx, p != nullptr, "null", "allocation of %zu x %zu gave null", n, pool->size());
            VF_CHECK(ctx, reinterpret_cast<uintptr_t>(p) % pool->align() == 0, "alignment", "block for alignment %zu at %p", pool->align(), (void*)p);
            size_t bytes = n * pool->size();
            uintptr_t s = reinterpret_cast<uintptr_t>(p), e = s + bytes;
            auto nx = all.lower_bound(s);
            VF_CHECK(ctx, nx == all.end() || nx->first >= e, "overlap", "a block of %zu bytes overlaps the next live one", bytes);
            if (nx != all.begin())
            {
                auto pv = std::prev(nx);
                VF_CHECK(ctx, pv->first + pv->second <= s, "overlap", "a block of %zu bytes starts inside a live one", bytes);
            }
            all[s] = bytes;
            Rec c{p, bytes, n, pool->align(), type, (unsigned char)r.i(0, 255), int(hi)};
            for (size_t k = 0; k < bytes; ++k) p[k] = (unsigned char)(c.tag + k * 7);
            f.live.push_back(c);
            ctx.count("allocated");
            ctx.max("live_blocks", double(all.size()));
        }
        else if (what < 90)
        {
            size_t i = r.chance(0.2) ? f.live.size() - 1 : size_t(r.i(0, int(f.live.size()) - 1));
            Rec c = f.live[i];
            check(c, "before release");
            // any allocator of the family and of that type may release
            std::vector<Pool*> can;
            for (auto& [t, p] : f.handles) if (t == c.type) can.push_back(p.get());
            std::unique_ptr<Pool> fresh;
            if (can.empty() || r.chance(0.3))
            {
                Bytes b{*static_cast<const Bytes*>(f.handles[size_t(r.i(0, int(f.handles.size()) - 1))].second->raw())};
                fresh = rebound(c.type, b);
                can = {fresh.get()};
            }
            r.pick(can)->put(c.p, c.n);
            all.erase(reinterpret_cast<uintptr_t>(c.p));
            f.live.erase(f.live.begin() + long(i));
            ctx.count("released");
        }
        else if (what < 96)
        { // copies and rebinds come and go
            if (f.handles.size() < 6 && r.chance(0.6))
            {
                Bytes b{*static_cast<const Bytes*>(f.handles[size_t(r.i(0, int(f.handles.size()) - 1))].second->raw())};
                int t = r.i(0, nTypes - 1);
                f.handles.push_back({t, r.chance(0.5) ? rebound(t, b) : [&] { auto& x = f.handles[size_t(r.i(0, int(f.handles.size()) - 1))]; t = x.first; return x.second->copy(); }()});
                f.handles.back().first = t;
                ctx.count("copied");
            }
            else if (f.handles.size() > 1)
            {
                f.handles.erase(f.handles.begin() + r.i(0, int(f.handles.size()) - 1));
                ctx.count("dropped");
            }
        }
        else
        {
            auto& a = f.handles[size_t(r.i(0, int(f.handles.size()) - 1))].second;
            auto& b = f.handles[size_t(r.i(0, int(f.handles.size()) - 1))].second;
            VF_CHECK(ctx, a->same(*b), "equality", "copies of an allocator compare different");
            if (fam.size() > 1)
            {
                Family& o = &f == &fam[0] ? fam[1] : fam[0];
                VF_CHECK(ctx, !a->same(*o.handles[0].second), "equality", "unrelated allocators compare equal");
            }
            for (auto& g : fam) for (auto& c : g.live) check(c, "sweep");
        }
    }
    for (auto& f : fam)
    {
        r.shuffle(f.live);
        for (auto& c : f.live)
        {
            check(c, "at the end");
            Bytes b{*static_cast<const Bytes*>(f.handles[0].second->raw())};
            rebound(c.type, b)->put(c.p, c.n);
        }
    }
    ctx.state(h);
    ctx.sample("%zu families, %d operations, %d%% allocations", fam.size(), ops, bias);
}

// Bounded number of live objects => bounded memory.
template <class T>
void reuse(Ctx& ctx)
{
#ifndef SIMU_VERIF_MALLOC
    Rng& r = ctx.rng;
    FreeListAllocator<T> a;
    typedef std::allocator_traits<FreeListAllocator<T>> Tr;
    int cap = r.i(1, int(std::min<size_t>(120, 32 * 1024 / sizeof(T) / 2))), rounds = r.i(300, 2500);
    std::vector<T*> live;
    std::set<uintptr_t> pages; // distinct addresses ever handed out
    for (int k = 0; k < rounds; ++k)
    {
        if (int(live.size()) < cap && (live.empty() || r.chance(0.5)))
        {
            live.push_back(Tr::allocate(a, 1));
            pages.insert(reinterpret_cast<uintptr_t>(live.back()));
        }
        else
        {
            size_t i = size_t(r.i(0, int(live.size()) - 1));
            Tr::deallocate(a, live[i], 1);
            live.erase(live.begin() + long(i));
        }
        if (r.chance(0.005))
        { // new blocks may be taken once everything was released
            for (T* p : live) Tr::deallocate(a, p, 1);
            live.clear();
            pages.clear();
            ctx.count("emptied");
        }
        if (live.empty()) pages.clear();
        // everything fits in one block, which lives until nothing is held: any reusing strategy stays below
        // the number of slots of the block, and far below the number of requests
        VF_CHECK(ctx, pages.size() <= size_t(cap) * 2 + 1, "growth", "%zu distinct slots for at most %d live objects of %zu bytes", pages.size(), cap, sizeof(T));
    }
    for (T* p : live) Tr::deallocate(a, p, 1);
    // lifo: the slot is reused at once while the block is alive
    T* keep = Tr::allocate(a, 1);
    T* p1 = Tr::allocate(a, 1);
    Tr::deallocate(a, p1, 1);
    std::set<T*> seen;
    for (int k = 0; k < 50; ++k)
    {
        T* p = Tr::allocate(a, 1);
        seen.insert(p);
        Tr::deallocate(a, p, 1);
    }
    VF_CHECK(ctx, seen.size() == 1, "reuse", "a released slot is not reused: %zu slots for one object", seen.size());
    Tr::deallocate(a, keep, 1);
    ctx.count("reuse_rounds", rounds);
#endif
}

template <class C, class Make>
void container(Ctx& ctx, Make make)
{
    Rng& r = ctx.rng;
    typedef typename C::allocator_type Al;
    Al a1, a2;
    std::unique_ptr<Al> gone{new Al{}};
    C c{*gone};
    std::vector<int> want;
    auto same = [&](const C& x, const char* when) {
        size_t i = 0;
        for (auto& v : x)
        {
            VF_CHECK(ctx, i < want.size() && v == make(want[i]), "container-content", "element %zu differs (%s)", i, when);
            ++i;
        }
        VF_CHECK(ctx, i == want.size(), "container-content", "%zu of %zu elements (%s)", i, want.size(), when);
    };
    gone.reset();
    for (int k = r.i(1, 60); k > 0; --k)
    {
        switch (r.i(0, 6))
        {
            case 0: case 1: case 2: { int v = r.i(0, 100000); c.push_back(make(v)); want.push_back(v); break; }
            case 3: if (!want.empty()) { c.pop_back(); want.pop_back(); } break;
            case 4:
            {
                const Al& to = r.chance(0.5) ? a1 : a2;
                replaceAllocator(c, to);
                VF_CHECK(ctx, c.get_allocator() == to, "replaced", "the container does not use the new allocator");
                ctx.count("replaced");
                break;
            }
            case 5: { C d{c}; same(d, "copy"); C e{std::move(d)}; same(e, "moved copy"); c = std::move(e); break; }
            default: { C d{a1}; d = c; same(d, "assigned"); std::swap(c, d); break; }
        }
        same(c, "after an operation");
    }
}

struct Counts
{
    int made = 0, base = 0, derived = 0;
    const void* where = nullptr;
};
struct Other
{
    virtual ~Other() { o = 0; }
    uint64_t o = 0x77;
};
struct Base
{
    explicit Base(Counts* c) : c{c} { c->made++; }
    virtual ~Base() { c->base++; }
    Counts* c;
    uint64_t x = 0x1111;
};
struct One : Base
{
    explicit One(Counts* c) : Base{c} { c->where = this; }
    ~One() override { if (c->where == this && y == 0x2222) c->derived++; else c->derived += 100; }
    uint64_t y = 0x2222;
};
struct Two : Other, Base
{
    explicit Two(Counts* c) : Base{c} { c->where = this; }
    ~Two() override { if (c->where == this && y == 0x3333 && o == 0x77) c->derived++; else c->derived += 100; }
    uint64_t y = 0x3333;
};
struct Throws : Base
{
    explicit Throws(Counts* c) : Base{c} { throw std::string{"no"}; }
};

void pointers(Ctx& ctx)
{
    Rng& r = ctx.rng;
    std::unique_ptr<FreeListAllocator<int>> a{new FreeListAllocator<int>{}};
    std::vector<UniquePtr<Base>> v;
    std::list<Counts> counts;
    std::vector<Counts*> of;
    for (int k = r.i(1, 30); k > 0; --k)
    {
        switch (r.i(0, 5))
        {
            case 0: case 1: case 2:
            {
                if (!a) break;
                counts.emplace_back();
                Counts* c = &counts.back();
                if (r.chance(0.5)) v.push_back(makeUnique<One>(*a, c));
                else v.push_back(makeUnique<Two>(*a, c));
                of.push_back(c);
                VF_CHECK(ctx, v.back()->x == 0x1111, "pointer-value", "owning pointer");
                break;
            }
            case 3:
            {
                if (!a) break;
                counts.emplace_back();
                bool threw = false;
                void* before = FreeListAllocator<Throws>{*a}.allocate(1);
                try { auto p = makeUnique<Throws>(*a, &counts.back()); } catch (const std::string&) { threw = true; }
                VF_CHECK(ctx, threw && counts.back().base == 1, "constructor-throws", "exception of the constructor");
                FreeListAllocator<Throws>{*a}.deallocate(static_cast<Throws*>(before), 1);
                ctx.count("throwing_constructors");
                break;
            }
            case 4:
                if (!v.empty())
                {
                    size_t i = size_t(r.i(0, int(v.size()) - 1));
                    if (r.chance(0.5)) { UniquePtr<Base> p = std::move(v[i]); UniquePtr<Base> q; q = std::move(p); }
                    else v[i].reset();
                    v.erase(v.begin() + long(i));
                    VF_CHECK(ctx, of[i]->base == 1 && of[i]->derived == 1, "destroyed-once", "destroyed %d times, derived part %d", of[i]->base, of[i]->derived);
                    of.erase(of.begin() + long(i));
                    ctx.count("pointers_released");
                }
                break;
            default:
                if (r.chance(0.1)) a.reset(); // the pointers outlive their allocator
        }
        for (size_t i = 0; i < v.size(); ++i) VF_CHECK(ctx, of[i]->base == 0 && of[i]->derived == 0 && v[i]->c == of[i], "destroyed-early", "a held object was destroyed");
    }
    v.clear();
    for (auto* c : of) VF_CHECK(ctx, c->base == 1 && c->derived == 1, "destroyed-once", "destroyed %d times, derived part %d", c->base, c->derived);
    // a throwing constructor gives its slot back
#ifndef SIMU_VERIF_MALLOC
    FreeListAllocator<Throws> t;
    Throws* keep = t.allocate(1);
    std::set<void*> slots;
    for (int k = 0; k < 20; ++k)
    {
        Counts c;
        try { makeUnique<Throws>(t, &c); } catch (const std::string&) {}
        Throws* p = t.allocate(1);
        slots.insert(p);
        t.deallocate(p, 1);
    }
    VF_CHECK(ctx, slots.size() == 1, "constructor-throws-leak", "%zu slots used by constructors that threw", slots.size());
    t.deallocate(keep, 1);
#endif
    ctx.count("pointer_histories");
}
} // namespace

VF_PROPERTY(A01)
{
    switch (ctx.caseNo % 4)
    {
        case 0: case 1: history(ctx); break;
        case 2:
            switch (ctx.rng.i(0, 3))
            {
                case 0: reuse<Obj<24, 8>>(ctx); break;
                case 1: reuse<Obj<600, 8>>(ctx); break;
                case 2: reuse<Obj<64, 64>>(ctx); break;
                default: reuse<Obj<5, 1>>(ctx); break;
            }
            break;
        default:
            container<std::vector<int, FreeListAllocator<int>>>(ctx, [](int v) { return v; });
            container<std::list<double, FreeListAllocator<double>>>(ctx, [](int v) { return double(v); });
            container<std::deque<std::string, FreeListAllocator<std::string>>>(ctx, [](int v) { return std::string(size_t(v % 40), 'x') + std::to_string(v); });
            pointers(ctx);
            ctx.state(ctx.rng.s);
    }
}
