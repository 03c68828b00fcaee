// T01, T02: the spatial index against a model multiset, under histories of operations.
#include "common.hpp"
#include "Simu/physics/RTree.hpp"
#include "Simu/utility/Memory.hpp"
#include <map>
#include <memory>
#include <set>

using namespace simu;
using vf::Ctx;
using vf::Hash;
using vf::Rng;

namespace
{
struct Ledger
{
    std::map<int, int> alive;  // id -> number of live copies
    long bad = 0;
};
struct Elem
{
    int id;
    Ledger* l;
    uint64_t canary = 0xabcdef0123456789ull;
    Elem(int i, Ledger* led) : id{i}, l{led} { l->alive[id]++; }
    Elem(const Elem& o) : id{o.id}, l{o.l} { l->alive[id]++; }
    ~Elem()
    {
        if (canary != 0xabcdef0123456789ull || --l->alive[id] < 0) l->bad++;
        canary = 0;
    }
};
struct Box
{
    float x0, y0, x1, y1;
    BoundingBox bb() const { return BoundingBox{Vec2{x0, y0}, Vec2{x1, y1}}; }
    bool valid() const { return x0 <= x1 && y0 <= y1; }
    bool touches(const Box& o) const
    {
        return valid() && o.valid() && x0 <= o.x1 && o.x0 <= x1 && y0 <= o.y1 && o.y0 <= y1;
    }
};
Box randomBox(Rng& r, int style, int n)
{
    float ex = 0, ey = 0;
    auto size = [&](double s) { ex = r.f(0, s); ey = r.f(0, s); };
    float x = 0, y = 0;
    switch (style)
    {
        case 0: x = float(r.i(-8, 8)); y = float(r.i(-8, 8)); ex = float(r.i(0, 4)); ey = float(r.i(0, 4)); break; // lattice: many exact touches
        case 1: x = r.f(-50, 50); y = r.f(-50, 50); size(3); break;
        case 2: x = r.f(-1, 1); y = r.f(-1, 1); size(4); break; // everything overlaps
        case 3: x = float(n) * 1.5f; y = r.f(0, 1); size(1); break; // sorted
        case 4: x = float(r.i(0, 3)) * 100 + r.f(0, 2); y = float(r.i(0, 3)) * 100; size(1); break; // clusters
        case 5: x = float(r.i(-5, 5)); y = float(r.i(-5, 5)); break; // points
        case 6: x = 1; y = 2; ex = 3; ey = 4; break; // identical
        case 7: { float k = float(r.i(1, 30)); x = -k; y = -k; ex = 2 * k; ey = 2 * k; break; } // nested
        case 8: x = r.logf_(1e10, 1e37) * (r.chance(0.5) ? 1.f : -1.f); y = r.f(-1, 1) * 1e30f; ex = std::abs(x) * r.f(0, 1); ey = 1e30f * r.f(0, 1); break; // huge
        case 9: x = 4096 + r.f(0, 1); y = -4096 - r.f(0, 1); size(0.05); break; // far from the origin, tiny
        default: x = r.f(-20, 20); y = float(r.i(-3, 3)); ex = r.chance(0.3) ? 30.f : 0.5f; ey = 0; break; // segments
    }
    Box b{x, y, x + ex, y + ey};
    if (r.chance(0.01)) b = Box{1, 1, 0, 0};
    return b;
}

template <class Tree>
struct Model
{
    typedef typename Tree::iterator It;
    struct Entry
    {
        Box box;
        It it;
        const Elem* where;
    };
    Ctx& ctx;
    Rng& r;
    Ledger ledger;
    std::unique_ptr<Tree> tree{new Tree{}};
    std::map<int, Entry> m;
    int nextId = 1;
    int style;
    Hash h;
    const char* last = "start";
    long opNo = 0;

    Model(Ctx& c) : ctx{c}, r{c.rng}, style{c.rng.i(0, 10)} {}

    Box newBox() { return randomBox(r, r.chance(0.9) ? style : r.i(0, 10), nextId); }
    int someId()
    {
        auto k = m.begin();
        std::advance(k, r.i(0, int(m.size()) - 1));
        return r.chance(0.15) ? m.rbegin()->first : k->first;
    }

    void insert()
    {
        Box b = newBox();
        int id = nextId++;
        It it = r.chance(0.5) ? tree->emplace(b.bb(), id, &ledger) : tree->insert(b.bb(), Elem{id, &ledger});
        VF_CHECK(ctx, it->id == id, "inserted-value", "the inserted element reads %d instead of %d", it->id, id);
        m.emplace(id, Entry{b, it, &*it});
        h.add(b.x0).add(b.y0).add(b.x1).add(b.y1);
    }
    void erase()
    {
        if (m.empty()) return;
        int id = someId();
        It it = m.at(id).it;
        It got = tree->erase(it);
        m.erase(id);
        VF_CHECK(ctx, ledger.alive[id] == 0, "erased-value", "element %d still alive after erase", id);
        if (got != tree->end()) VF_CHECK(ctx, m.count(got->id) == 1 && m.at(got->id).it == got, "erase-returns-held", "erase returns an iterator to an element not held");
        ctx.count("erased");
    }
    void update()
    {
        if (m.empty()) return;
        int id = someId();
        auto& e = m.at(id);
        e.box = newBox();
        It it = tree->update(e.it, e.box.bb());
        VF_CHECK(ctx, it->id == id, "updated-value", "update returned another element");
        e.it = it;
        ctx.count("updated");
    }
    void clear()
    {
        tree->clear();
        for (auto& [id, e] : m) VF_CHECK(ctx, ledger.alive[id] == 0, "cleared-value", "element %d alive after clear", id);
        m.clear();
        ctx.count("cleared");
    }
    void moveTree()
    {
        if (r.chance(0.5))
        {
            std::unique_ptr<Tree> other{new Tree{std::move(*tree)}};
            VF_CHECK(ctx, tree->isEmpty() && tree->size() == 0 && tree->begin() == tree->end(), "moved-from", "the moved-from tree is not empty");
            if (r.chance(0.5)) tree->emplace(newBox().bb(), 0, &ledger);
            tree = std::move(other);
        }
        else
        {
            Tree other;
            int k = r.i(0, 3);
            for (int i = 0; i < k; ++i) other.emplace(newBox().bb(), 0, &ledger);
            std::unique_ptr<Tree> nt{new Tree{}};
            if (k == 3) nt->emplace(newBox().bb(), 0, &ledger);
            *nt = std::move(*tree);
            *tree = std::move(other);
            tree = std::move(nt);
        }
        ctx.count("moved");
    }
    void verify()
    {
        size_t n = 0;
        std::set<int> seen;
        for (It it = tree->begin(); it != tree->end(); ++it)
        {
            VF_CHECK(ctx, ++n <= m.size(), "iteration", "iteration yields more than the %zu elements held (after %s)", m.size(), last);
            auto k = m.find(it->id);
            VF_CHECK(ctx, k != m.end(), "iteration", "element %d is not held (after %s)", it->id, last);
            VF_CHECK(ctx, seen.insert(it->id).second, "iteration", "element %d visited twice (after %s)", it->id, last);
            VF_CHECK(ctx, &*it == k->second.where, "stable-location", "element %d moved in memory (after %s)", it->id, last);
            VF_CHECK(ctx, it == k->second.it, "stable-iterator", "iterator of %d changed (after %s)", it->id, last);
            VF_CHECK(ctx, it->canary == 0xabcdef0123456789ull && (*it).id == k->first, "content", "content of %d", it->id);
            VF_CHECK(ctx, it.bounds() == k->second.box.bb() && tree->bounds(it) == k->second.box.bb(), "element-box", "box of %d (after %s)", it->id, last);
        }
        VF_CHECK(ctx, n == m.size(), "iteration", "%zu of %zu elements visited (after %s)", n, m.size(), last);
        VF_CHECK(ctx, tree->size() == m.size() && tree->isEmpty() == m.empty(), "size", "size %zu, %zu elements held (after %s)", tree->size(), m.size(), last);
        const Tree& ct = *tree;
        size_t cn = 0;
        for (auto it = ct.begin(); it != ct.end(); ++it)
            VF_CHECK(ctx, ++cn <= m.size() && m.count(it->id), "const-iteration", "constant iteration");
        VF_CHECK(ctx, cn == n, "const-iteration", "constant iteration yields %zu", cn);
        bool any = false;
        Box t{};
        for (auto& [id, e] : m)
        {
            VF_CHECK(ctx, ledger.alive[id] == 1, "ownership", "%d live copies of element %d", ledger.alive[id], id);
            if (!e.box.valid()) continue;
            if (!any) t = e.box;
            t = Box{std::min(t.x0, e.box.x0), std::min(t.y0, e.box.y0), std::max(t.x1, e.box.x1), std::max(t.y1, e.box.y1)};
            any = true;
        }
        BoundingBox b = tree->bounds();
        if (any)
        {
            VF_CHECK(ctx, b.isValid() && b.min()[0] <= t.x0 && b.min()[1] <= t.y0 && b.max()[0] >= t.x1 && b.max()[1] >= t.y1, "tree-bounds", "bounds do not enclose an element (after %s)", last);
            VF_CHECK(ctx, b == t.bb(), "tree-bounds-tight", "bounds exceed the elements (after %s)", last);
        }
        else if (m.empty()) VF_CHECK(ctx, !b.isValid(), "tree-bounds-empty", "an empty tree has bounds (after %s)", last);
        long total = 0;
        for (auto& [id, c] : ledger.alive) { total += c; VF_CHECK(ctx, c >= 0, "ownership", "element %d", id); }
        VF_CHECK(ctx, ledger.bad == 0, "ownership", "an element was destroyed twice");
        VF_CHECK(ctx, total == long(m.size()), "ownership", "%ld live values for %zu elements (after %s)", total, m.size(), last);
        ctx.max("elements", double(m.size()));
        ctx.max("height", double(tree->height()));
    }
    void query()
    {
        Box q = r.chance(0.3) && !m.empty() ? m.at(someId()).box : randomBox(r, style, r.i(0, nextId));
        if (r.chance(0.2)) q.x1 = q.x0;
        bool at = r.chance(0.3);
        if (at) { q.x1 = q.x0; q.y1 = q.y0; }
        std::map<int, int> got;
        if (at) tree->forEachAt(Vec2{q.x0, q.y0}, [&](It it) { got[it->id]++; });
        else tree->forEachIn(q.bb(), [&](It it) { got[it->id]++; });
        int hits = 0;
        for (auto& [id, e] : m)
        {
            bool want = e.box.touches(q);
            hits += want;
            int c = got.count(id) ? got[id] : 0;
            VF_CHECK(ctx, c == int(want), "region-query", "element %d (%g,%g)-(%g,%g) reported %d times for query (%g,%g)-(%g,%g) (after %s)", id, e.box.x0, e.box.y0, e.box.x1, e.box.y1, c, q.x0, q.y0, q.x1, q.y1, last);
            got.erase(id);
        }
        VF_CHECK(ctx, got.empty(), "region-query", "a query reports an element not held");
        ctx.count("queries");
        ctx.count("hits", hits);
    }
    void overlapQuery()
    {
        if (m.empty()) return;
        if (r.chance(0.5))
        {
            int id = someId();
            std::map<int, int> got;
            tree->forEachOverlapping(m.at(id).it, [&](It it) { got[it->id]++; });
            got.erase(id);
            for (auto& [k, e] : m)
                if (k != id)
                    VF_CHECK(ctx, (got.count(k) ? got[k] : 0) == int(e.box.touches(m.at(id).box)), "overlap-query", "element %d against %d (after %s)", k, id, last);
            ctx.count("overlap_queries");
        }
        else
        {
            std::vector<It> its;
            std::set<int> ids;
            int n = r.i(1, int(m.size()));
            for (int k = 0; k < n; ++k)
            {
                int id = someId();
                if (ids.insert(id).second) its.push_back(m.at(id).it);
            }
            std::map<std::pair<int, int>, int> got;
            tree->forEachOverlapping(makeView(its.data(), its.data() + its.size()), [&](It a, It b) { got[{a->id, b->id}]++; });
            for (int g : ids)
                for (auto& [k, e] : m)
                {
                    if (k == g) continue;
                    bool want = e.box.touches(m.at(g).box);
                    int c = got.count({k, g}) ? got[{k, g}] : 0;
                    VF_CHECK(ctx, c == int(want), "group-overlap-query", "elements %d and given %d reported %d times, touching %d (after %s)", k, g, c, int(want), last);
                }
            for (auto& [p, c] : got) VF_CHECK(ctx, m.count(p.first) && ids.count(p.second), "group-overlap-query", "an element that is not held or not given is reported");
            ctx.count("overlap_queries");
        }
    }
    void refresh()
    {
        int how = r.i(0, 3);
        std::map<int, int> asked;
        std::map<std::pair<int, int>, int> got;
        for (auto& [id, e] : m)
        {
            if (how == 0) continue; // nothing moves
            if (how == 1 && r.chance(0.7)) continue;
            if (how == 2)
            {
                float dx = r.f(-1, 1), dy = r.f(-1, 1);
                if (style == 0 || style == 5) { dx = float(r.i(-1, 1)); dy = float(r.i(-1, 1)); }
                e.box = Box{e.box.x0 + dx, e.box.y0 + dy, e.box.x1 + dx, e.box.y1 + dy};
            }
            else e.box = newBox();
        }
        tree->updateAndCollide(
            [&](It it) { asked[it->id]++; auto k = m.find(it->id); VF_CHECK(ctx, k != m.end(), "refresh-asks", "refresh asks for an element not held"); return k->second.box.bb(); },
            [&](It a, It b) { got[{std::min(a->id, b->id), std::max(a->id, b->id)}]++; });
        for (auto& [id, e] : m) VF_CHECK(ctx, asked.count(id) && asked[id] == 1, "refresh-asks", "box of element %d asked %d times", id, asked.count(id) ? asked[id] : 0);
        long pairs = 0;
        for (auto i = m.begin(); i != m.end(); ++i)
            for (auto j = std::next(i); j != m.end(); ++j)
            {
                bool want = i->second.box.touches(j->second.box);
                auto k = got.find({i->first, j->first});
                int c = k == got.end() ? 0 : k->second;
                pairs += want;
                VF_CHECK(ctx, c == int(want), "refresh-pairs", "pair %d (%.9g,%.9g)-(%.9g,%.9g), %d (%.9g,%.9g)-(%.9g,%.9g) reported %d times among %zu elements", i->first, i->second.box.x0, i->second.box.y0, i->second.box.x1, i->second.box.y1,
                         j->first, j->second.box.x0, j->second.box.y0, j->second.box.x1, j->second.box.y1, c, m.size());
                if (k != got.end()) got.erase(k);
            }
        VF_CHECK(ctx, got.empty(), "refresh-pairs", "an element is reported against itself or not held");
        ctx.count("refreshes");
        ctx.count("pairs", double(pairs));
        ctx.max("refreshed_elements", double(m.size()));
        h.add(uint64_t(pairs)).add(uint64_t(m.size()));
    }

    void run(bool refreshing)
    {
        int target = r.i(0, 3) == 0 ? r.i(0, 4) : r.chance(0.1) ? r.i(80, 200) : r.i(3, 40);
        int ops = r.i(10, 60) + target * 2;
        for (; opNo < ops; ++opNo)
        {
            double p = r.d01();
            bool grow = int(m.size()) < target;
            if (p < (grow ? 0.55 : 0.2)) { last = "insert"; insert(); }
            else if (p < 0.65) { last = "erase"; erase(); }
            else if (p < 0.8) { last = "update"; update(); }
            else if (p < 0.81) { last = "clear"; clear(); }
            else if (p < 0.83) { last = "move"; moveTree(); }
            else if (p < (refreshing ? 1.0 : 0.87)) { last = "refresh"; refresh(); }
            else { last = "query"; query(); }
            ctx.count("operations");
            if (target < 50 || opNo % 8 == 0)
            {
                verify();
                query();
                overlapQuery();
            }
        }
        // drain completely
        while (!m.empty()) { last = "drain"; if (r.chance(0.9)) erase(); else update(); if (m.size() < 6 || r.chance(0.1)) { verify(); query(); } }
        verify();
        tree.reset();
        for (auto& [id, c] : ledger.alive) VF_CHECK(ctx, c == 0, "ownership", "element %d outlives the tree", id);
        ctx.state(h);
        ctx.sample("style %d, up to %d elements, %d operations", style, target, ops);
    }
};
void both(Ctx& ctx, bool refreshing)
{
    if (ctx.rng.chance(0.5)) Model<RTree<Elem>>{ctx}.run(refreshing);
    else Model<RTree<Elem, FreeListAllocator<Elem>>>{ctx}.run(refreshing);
}
} // namespace

VF_PROPERTY(T01) { both(ctx, false); }
VF_PROPERTY(T02) { both(ctx, true); }
