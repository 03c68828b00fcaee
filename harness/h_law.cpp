// Groups (W06), repeatability (W07) and symmetry (W08) of whole worlds.
#include "world_kit.hpp"
#include <algorithm>
#include <numeric>

namespace
{
using namespace wk;

// ---------------------------------------------------------------------------
// W06
enum Stage { sActive, sInit, sWarm, sVel, sPos };
const char* stageName[] = {"isActive", "initSolve", "warmstart", "solveVelocities", "solvePositions"};
struct Sheet
{
    struct Entry
    {
        int link;
        Stage st;
    };
    std::vector<Entry> log;
    std::map<const Body*, int> index;
};
struct Link : Constraint
{
    Sheet* s;
    int id;
    bool on = true;
    double reach = -1; // active only while further apart than this
    bool answered = false;
    struct Look
    {
        P c;
        double th;
    };
    std::array<Look, 2> start, first;
    int nPos = 0;
    std::array<double, 2> dom;
    Link(const Bodies& b, Sheet* s_, int i, std::array<double, 2> d) : Constraint{b, true}, s{s_}, id{i}, dom{d} {}
    static std::array<Look, 2> look(const Proxies& p)
    {
        return {Look{P{p[0].centroid()}, p[0].orientation()}, Look{P{p[1].centroid()}, p[1].orientation()}};
    }
    bool isActive(const Proxies& p) override
    {
        s->log.push_back({id, sActive});
        start = look(p);
        nPos = 0;
        answered = on && (reach < 0 || ref::norm(start[0].c - start[1].c) > reach);
        return answered;
    }
    void initSolve(const Proxies&) override { s->log.push_back({id, sInit}); }
    void warmstart(Proxies&, float) override { s->log.push_back({id, sWarm}); }
    void solveVelocities(Proxies&, float) override { s->log.push_back({id, sVel}); }
    void solvePositions(Proxies& p) override
    {
        s->log.push_back({id, sPos});
        if (nPos++ == 0) first = look(p);
    }
};

void groupsTogether(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Sheet sheet;
    std::set<std::pair<const Body*, const Body*>> touching;
    std::set<const Body*> listed;
    World w{watching([&](WatchedContact& c) {
        for (Body* b : c.bodies()) listed.insert(b);
        if (c.contactInfo().nContacts > 0) touching.insert({c.bodies()[0], c.bodies()[1]});
    })};
    World::Settings set{};
    set.nVelocityIterations = unsigned(r.i(1, 3));
    set.nPositionIterations = unsigned(r.i(1, 3));
    set.enableWarmstarting = r.chance(0.7);
    w.updateSettings(set);
    std::vector<Body*> bodies;
    bool crowded = r.chance(0.6);
    int n = r.i(2, 12);
    for (int k = 0; k < n; ++k)
    {
        BodySpec b;
        b.pos = crowded ? P{r.d(-2.5, 2.5), r.d(-2.5, 2.5)} : P{3.0 * k + r.d(-.5, .5), r.d(-1, 1)};
        b.angle = r.d(-3, 3);
        b.dominance = r.chance(0.35) ? 0.f : 1.f;
        bool rests = r.chance(b.dominance == 0 ? 0.8 : 0.3);
        if (!rests) b.vel = P{r.d(-2, 2), r.d(-2, 2)}, b.w = r.chance(0.5) ? 0 : r.d(-2, 2);
        if (!rests && r.chance(0.25)) b.vel = P{}, b.w = r.d(-2, 2); // turns in place
        if (!rests && r.chance(0.2)) (r.chance(0.5) ? b.vel.x : b.vel.y) = 0;
        b.cols = {ColSpec{shape(r, r.d(0.5, 1.5))}};
        bodies.push_back(addBody(w, b));
        sheet.index[bodies.back()] = k;
    }
    std::vector<Link*> links; // by id
    auto link = [&] {
        int a = r.i(0, n - 1), b = r.chance(0.05) ? a : r.i(0, n - 1);
        std::array<double, 2> d{double(bodies[size_t(a)]->dominance()), double(bodies[size_t(b)]->dominance())};
        std::optional<Bodies::Dominance> o;
        if (a == b) d = {1, 1};
        else if (r.chance(0.2))
        {
            d = {r.chance(0.5) ? 0.0 : 1.0, r.chance(0.5) ? 0.0 : 1.0};
            o = Bodies::Dominance{float(d[0]), float(d[1])};
        }
        if (d[0] == 0 && d[1] == 0) return;
        Bodies bs = a == b ? Bodies::singleBody(bodies[size_t(a)]) : o ? Bodies({bodies[size_t(a)], bodies[size_t(b)]}, *o) : Bodies{bodies[size_t(a)], bodies[size_t(b)]};
        Link* l = w.makeConstraint<Link>(bs, &sheet, int(links.size()), d);
        l->on = r.chance(0.75);
        if (r.chance(0.4)) l->reach = ref::norm(P{bodies[size_t(a)]->centroid()} - P{bodies[size_t(b)]->centroid()}) + r.d(-.1, .1);
        links.push_back(l);
    };
    for (int k = r.i(0, 2 * n); k > 0; --k) link();
    int steps = r.i(1, 12);
    for (int s = 0; s < steps; ++s)
    {
        for (int k = r.i(0, 2); k > 0; --k) link();
        for (auto*& l : links)
            if (l != nullptr)
            {
                if (r.chance(0.1)) l->on = !l->on;
                if (r.chance(0.04)) l->kill(), l = nullptr;
            }
        if (r.chance(0.3))
        {
            Body* b = r.pick(bodies);
            bool z = r.chance(0.5);
            b->setVelocity(z || r.chance(0.3) ? Vec2{} : Vec2{r.chance(0.2) ? 0.f : r.f(-2, 2), r.chance(0.2) ? 0.f : r.f(-2, 2)});
            b->setAngularVelocity(z || r.chance(0.2) ? 0.f : r.f(-2, 2));
        }
        sheet.log.clear();
        touching.clear();
        listed.clear();
        std::vector<Snap> before;
        for (Body* b : bodies) before.push_back(Snap{b});
        float dt = r.chance(0.7) ? 1 / 60.f : r.f(0.005, 0.1);
        w.step(dt);

        auto idx = [&](const Body* b) { return size_t(sheet.index.at(b)); };
        std::vector<char> rests(size_t(n), 1), inContact(size_t(n), 0);
        for (size_t k = 0; k < size_t(n); ++k)
        {
            if (!(same(before[k].v, Vec2{}) && before[k].w == 0)) rests[k] = 0;
            if (listed.count(bodies[k]) && bodies[k]->dominance() != 0) rests[k] = 0;
        }
        for (auto* l : links)
            if (l)
                for (unsigned k = 0; k < 2; ++k)
                    if (l->dom[k] != 0) rests[idx(l->bodies()[k])] = 0;
        // groups
        std::vector<size_t> up(size_t(n) + links.size());
        std::iota(up.begin(), up.end(), size_t(0));
        std::function<size_t(size_t)> root = [&](size_t k) { return up[k] == k ? k : up[k] = root(up[k]); };
        auto join = [&](size_t a, size_t b) { up[root(a)] = root(b); };
        std::vector<int> asked(links.size(), 0);
        for (auto& e : sheet.log)
            if (e.st == sActive) ++asked[size_t(e.link)];
        for (auto* l : links)
        {
            if (!l) continue;
            // someone has to want it: a constraint of which both bodies rest as structural does not exist
            VF_CHECK(ctx, asked[size_t(l->id)] == 1, "not-in-one-group", "step %d: constraint %d between bodies %zu and %zu was considered %d times", s, l->id, idx(l->bodies()[0]), idx(l->bodies()[1]), asked[size_t(l->id)]);
            if (!l->answered) { ctx.count("inactive"); continue; }
            for (Body* b : l->bodies())
                if (!rests[idx(b)]) join(size_t(n) + size_t(l->id), idx(b));
                else ctx.count("resting_structural_links");
        }
        for (auto [a, b] : touching)
        {
            inContact[idx(a)] = inContact[idx(b)] = 1;
            if (!rests[idx(a)] && !rests[idx(b)]) join(idx(a), idx(b));
            ctx.count("touching_pairs");
        }
        std::vector<std::pair<Stage, unsigned>> seq{{sInit, 0}};
        if (set.enableWarmstarting) seq.push_back({sWarm, 0});
        for (unsigned k = 0; k < set.nVelocityIterations; ++k) seq.push_back({sVel, k});
        for (unsigned k = 0; k < set.nPositionIterations; ++k) seq.push_back({sPos, k});
        std::vector<std::map<std::pair<Stage, unsigned>, long>> when(links.size());
        std::vector<std::map<Stage, unsigned>> nth(links.size());
        for (size_t t = 0; t < sheet.log.size(); ++t)
        {
            auto e = sheet.log[t];
            when[size_t(e.link)][{e.st, nth[size_t(e.link)][e.st]++}] = long(t);
        }
        std::map<size_t, std::vector<Link*>> groups;
        Hash h;
        for (auto* l : links)
        {
            if (!l) continue;
            size_t want = l->answered ? seq.size() + 1 : 1;
            VF_CHECK(ctx, when[size_t(l->id)].size() == want, "solved-not-once", "step %d: constraint %d (active %d) was driven %zu times, %zu expected", s, l->id, int(l->answered), when[size_t(l->id)].size(), want);
            if (l->answered) groups[root(size_t(n) + size_t(l->id))].push_back(l);
        }
        for (auto& [g, ls] : groups)
        {
            h.add(uint64_t(ls.size()));
            if (ls.size() > 1) ctx.count("groups_of_several");
            ctx.max("largest_group", double(ls.size()));
            // nobody in a group starts a stage before all have finished the one before it
            for (size_t k = 0; k + 1 < seq.size(); ++k)
            {
                long last = -1, next = 1L << 60;
                int a = -1, b = -1;
                for (Link* l : ls)
                {
                    auto& wn = when[size_t(l->id)];
                    if (!wn.count(seq[k]) || !wn.count(seq[k + 1])) ctx.fail("stage-missing", "step %d: constraint %d missed a stage", s, l->id);
                    if (wn[seq[k]] > last) last = wn[seq[k]], a = l->id;
                    if (wn[seq[k + 1]] < next) next = wn[seq[k + 1]], b = l->id;
                }
                VF_CHECK(ctx, last < next, "group-split", "step %d: connected constraints %d and %d are not solved together: %s %u of %d ran before %s %u of %d", s, a, b, stageName[seq[k + 1].first], seq[k + 1].second, b,
                         stageName[seq[k].first], seq[k].second, a);
            }
            for (Link* l : ls)
                for (unsigned k = 0; k < 2; ++k)
                {
                    size_t b = idx(l->bodies()[k]);
                    P moved = l->first[k].c - l->start[k].c, want = P{bodies[b]->velocity()} * double(dt);
                    double turned = l->first[k].th - l->start[k].th, wantT = double(bodies[b]->angularVelocity()) * double(dt);
                    VF_CHECK(ctx, ref::norm(moved - want) < 2e-5 && std::abs(turned - wantT) < 2e-5, "not-advanced-once",
                             "step %d: between velocities and positions body %zu moved by (%g %g), turned %g; its velocity gives (%g %g), %g", s, b, moved.x, moved.y, turned, want.x, want.y, wantT);
                }
            ctx.count("groups");
        }
        for (size_t k = 0; k < size_t(n); ++k)
            if (!inContact[k])
            {
                P moved = P{bodies[k]->centroid()} - P{before[k].c}, want = P{bodies[k]->velocity()} * double(dt);
                double turned = double(bodies[k]->orientation()) - double(before[k].th), wantT = double(bodies[k]->angularVelocity()) * double(dt);
                VF_CHECK(ctx, ref::norm(moved - want) < 3e-5 && std::abs(turned - wantT) < 2e-5, "not-advanced-once", "step %d: body %zu moved by (%g %g), turned %g; its velocity gives (%g %g), %g", s, k, moved.x, moved.y, turned,
                         want.x, want.y, wantT);
                VF_CHECK(ctx, same(bodies[k]->velocity(), before[k].v) && bodies[k]->angularVelocity() == before[k].w, "velocity-changed", "step %d: body %zu touches nothing and changed its velocity", s, k);
                ctx.count("advanced");
            }
        h.add(uint64_t(touching.size()));
        if (!groups.empty()) ctx.state(h.add(uint64_t(s)));
    }
}

// one group alone and the same among others that share its resting structural bodies
void groupsApart(Ctx& ctx)
{
    Rng& r = ctx.rng;
    int nGroups = r.i(2, 4);
    Scene shared; // structural, at rest
    int ns = r.i(1, 3);
    for (int k = 0; k < ns; ++k)
    {
        BodySpec b;
        b.pos = P{r.d(-3, 3), r.d(-3, 3)};
        b.dominance = 0;
        b.angle = r.d(-3, 3);
        if (r.chance(0.8)) b.cols = {ColSpec{shape(r, 0.5)}};
        shared.bodies.push_back(b);
    }
    World::Settings set{};
    set.enableWarmstarting = r.chance(0.8);
    std::vector<P> gravities;
    if (r.chance(0.5)) gravities.push_back({r.d(-5, 5), r.d(-10, 0)});
    std::vector<Scene> groups;
    for (int g = 0; g < nGroups; ++g)
    {
        SceneOptions o;
        o.minBodies = 1;
        o.maxBodies = 4;
        o.loops = true;
        o.motors = r.chance(0.3);
        Scene s = jointedScene(r, o);
        for (auto& b : s.bodies)
        {
            b.pos = b.pos + P{40.0 * g, 0};
            if (!gravities.empty()) b.cols.resize(1); // the order in which colliders get their force only rounds
        }
        for (auto& j : s.joints) j.p0 = P{ref::v2(j.p0 + P{40.0 * g, 0})}, j.p1 = P{ref::v2(j.p1 + P{40.0 * g, 0})};
        // hang it on the shared bodies: indices from 1000
        for (int k = r.i(1, 2); k > 0; --k)
        {
            JointSpec j;
            int a = r.i(0, int(s.bodies.size()) - 1), b = 1000 + r.i(0, ns - 1);
            j.a = a;
            j.b = b;
            if (r.chance(0.5)) std::swap(j.a, j.b);
            P pa = s.bodies[size_t(a)].pos, pb = shared.bodies[size_t(b - 1000)].pos;
            j.kind = JointSpec::distance;
            j.p0 = P{ref::v2(j.a == a ? pa : pb)};
            j.p1 = P{ref::v2(j.a == a ? pb : pa)};
            double d = ref::norm(j.p1 - j.p0);
            int kind = d < 0.3 ? 3 : r.i(0, 3);
            if (kind == 0) j.lo = j.hi = float(d);
            else if (kind == 1) j.hi = float(d + r.d(-.05, .2));
            else if (kind == 2) j.lo = float(d - r.d(-.05, .2));
            else j.kind = JointSpec::rotation;
            s.joints.push_back(j);
        }
        groups.push_back(s);
    }
    // order of creation: interleaved in the crowd, same relative order as alone
    struct Item { int g, what, k; };
    std::vector<std::vector<Item>> lists;
    for (int g = 0; g < nGroups; ++g)
    {
        std::vector<Item> v;
        for (size_t k = 0; k < groups[size_t(g)].bodies.size(); ++k) v.push_back({g, 0, int(k)});
        for (size_t k = 0; k < groups[size_t(g)].joints.size(); ++k) v.push_back({g, 1, int(k)});
        lists.push_back(v);
    }
    auto build = [&](World& w, std::vector<Item> items, std::vector<std::vector<Body*>>& out, std::vector<Body*>& sh) {
        w.updateSettings(set);
        for (P g : gravities) w.makeForceField<Gravity>(ref::v2(g));
        for (auto& b : shared.bodies) sh.push_back(addBody(w, b));
        out.assign(size_t(nGroups), {});
        for (auto& it : items)
        {
            Scene& s = groups[size_t(it.g)];
            if (it.what == 0) out[size_t(it.g)].push_back(addBody(w, s.bodies[size_t(it.k)]));
            else
            {
                JointSpec j = s.joints[size_t(it.k)];
                std::vector<Body*> bs = out[size_t(it.g)];
                size_t own = bs.size();
                bs.insert(bs.end(), sh.begin(), sh.end());
                if (j.a >= 1000) j.a = int(own) + j.a - 1000;
                if (j.b >= 1000) j.b = int(own) + j.b - 1000;
                makeJoint(w, bs, j);
            }
        }
    };
    std::vector<Item> mixed;
    {
        std::vector<size_t> at(size_t(nGroups), 0);
        size_t total = 0;
        for (auto& l : lists) total += l.size();
        while (mixed.size() < total)
        {
            size_t g = size_t(r.i(0, nGroups - 1));
            if (at[g] < lists[g].size()) mixed.push_back(lists[g][at[g]++]);
        }
    }
    World crowd;
    std::vector<std::vector<Body*>> crowdBodies;
    std::vector<Body*> crowdShared;
    build(crowd, mixed, crowdBodies, crowdShared);
    std::vector<std::unique_ptr<World>> alone;
    std::vector<std::vector<std::vector<Body*>>> aloneBodies(static_cast<size_t>(nGroups));
    for (int g = 0; g < nGroups; ++g)
    {
        alone.push_back(std::make_unique<World>());
        std::vector<Body*> sh;
        build(*alone.back(), lists[size_t(g)], aloneBodies[size_t(g)], sh);
    }
    int steps = r.i(10, ctx.thorough ? 80 : 30);
    for (int s = 0; s < steps; ++s)
    {
        crowd.step(1 / 60.f);
        // groups that meet would touch each other
        if (crowd.contacts().begin() != crowd.contacts().end()) { ctx.count("met"); return; }
        for (int g = 0; g < nGroups; ++g)
        {
            alone[size_t(g)]->step(1 / 60.f);
            for (size_t k = 0; k < crowdBodies[size_t(g)].size(); ++k)
            {
                Body *a = aloneBodies[size_t(g)][size_t(g)][k], *b = crowdBodies[size_t(g)][k];
                bool same_ = Snap{a} == Snap{b};
                ctx.count(same_ ? "bit_identical" : "rounded");
                VF_CHECK(ctx, same_ || (ref::norm(P{a->position()} - P{b->position()}) < 1e-4 && std::abs(a->orientation() - b->orientation()) < 1e-4f), "groups-interact", "step %d: body %zu of group %d (of %d) is at (%.9g %.9g %.9g; v %.9g %.9g %.9g) alone and at (%.9g %.9g %.9g; v %.9g %.9g %.9g) among the others", s, k, g, nGroups, double(a->position()[0]), double(a->position()[1]), double(a->orientation()),
                         double(a->velocity()[0]), double(a->velocity()[1]), double(a->angularVelocity()), double(b->position()[0]), double(b->position()[1]), double(b->orientation()), double(b->velocity()[0]), double(b->velocity()[1]), double(b->angularVelocity()));
                ctx.count("compared");
            }
        }
    }
    Hash h;
    for (auto& g : crowdBodies)
        for (Body* b : g) h.add(b->position()[0]);
    ctx.state(h);
    ctx.sample("%d groups on %d structural bodies, %d steps, bit-identical to each alone", nGroups, ns, steps);
}

// boxes dropped on one shared floor
void dropsApart(Ctx& ctx)
{
    Rng& r = ctx.rng;
    int n = r.i(2, 5);
    std::vector<BodySpec> drops;
    BodySpec floor;
    floor.dominance = 0;
    floor.cols = {ColSpec{ref::boxPoly(60, 1, P{}, 0)}};
    for (int k = 0; k < n; ++k)
    {
        BodySpec b;
        double size = r.d(0.5, 1.5);
        b.pos = P{-24 + 12.0 * k + r.d(-2, 2), 0.5 + size + r.d(0, 0.5)};
        b.cols = {ColSpec{shape(r, size)}};
        b.vel = P{r.d(-1, 1), r.d(-2, 0)};
        b.w = r.d(-1, 1);
        b.cols[0].mat.friction.value = r.f(0, 1);
        drops.push_back(b);
    }
    std::vector<BodySpec> order = drops;
    World crowd;
    crowd.makeForceField<Gravity>(Vec2{0, -10});
    std::vector<Body*> together;
    int at = r.i(0, n);
    for (int k = 0; k < n; ++k)
    {
        if (k == at) addBody(crowd, floor);
        together.push_back(addBody(crowd, drops[size_t(k)]));
    }
    if (at == n) addBody(crowd, floor);
    std::vector<std::unique_ptr<World>> ws;
    std::vector<Body*> alone;
    for (int k = 0; k < n; ++k)
    {
        ws.push_back(std::make_unique<World>());
        World& w = *ws.back();
        w.makeForceField<Gravity>(Vec2{0, -10});
        if (at <= k) addBody(w, floor);
        alone.push_back(addBody(w, drops[size_t(k)]));
        if (at > k) addBody(w, floor);
    }
    std::vector<int> since(size_t(n), -1);
    for (int s = 0; s < 40; ++s)
    {
        crowd.step(1 / 60.f);
        for (int k = 0; k < n; ++k)
        {
            ws[size_t(k)]->step(1 / 60.f);
            Body *a = alone[size_t(k)], *b = together[size_t(k)];
            if (since[size_t(k)] < 0 && a->contacts().size() > 0) since[size_t(k)] = s;
            if (since[size_t(k)] >= 0 && s > since[size_t(k)] + 12) continue; // roundings may have grown
            double d = ref::norm(P{a->position()} - P{b->position()});
            ctx.max("worst_shared_floor", d);
            VF_CHECK(ctx, d < 0.03, "groups-interact", "step %d: body %d on a floor shared with %d others is off by %g from the same alone", s, k, n - 1, d);
            if (since[size_t(k)] >= 0) ctx.count("compared_in_contact");
        }
    }
}

VF_PROPERTY(W06)
{
    int what = ctx.rng.i(0, 9);
    if (what < 6) groupsTogether(ctx);
    else if (what < 9) groupsApart(ctx);
    else dropsApart(ctx);
}
} // namespace

// ---------------------------------------------------------------------------
// W07
#include <malloc.h>
namespace
{
__attribute__((noinline)) void soilStack(unsigned char with)
{
    volatile unsigned char junk[20000];
    for (size_t k = 0; k < sizeof junk; ++k) junk[k] = with;
}
void soilHeap(Rng& r, unsigned char with)
{
    std::vector<void*> v;
    for (int k = 0; k < 60; ++k)
    {
        size_t n = size_t(1) << r.i(4, 15);
        v.push_back(malloc(n));
        memset(v.back(), with, n);
    }
    for (void* p : v) free(p);
}

struct Moment // one step of a history
{
    std::vector<float> state; // of all bodies
    std::vector<int> contacts;
    bool operator==(const Moment& o) const
    {
        return contacts == o.contacts && state.size() == o.state.size() && (state.empty() || memcmp(state.data(), o.state.data(), state.size() * sizeof(float)) == 0);
    }
};

struct Tagged : Body
{
    int tag;
    Tagged(const BodyDescriptor& d, int t) : Body{d}, tag{t} {}
};

// the same sequence of calls for the same seed
std::vector<Moment> play(Ctx& ctx, World& w, uint64_t seed, bool contacts, bool thorough, const std::function<void(int)>& between)
{
    Rng r{seed};
    std::vector<Moment> out;
    std::map<int, Body*> bodies;
    std::map<int, Constraint*> cons;
    std::vector<int> fieldsOf;
    std::vector<ForceField*> fields;
    int tag = 0, nextCon = 0;
    double arena = contacts ? r.d(1.5, 4) : 0;
    World::Settings set{};
    set.enableWarmstarting = r.chance(0.8);
    w.updateSettings(set);
    auto body = [&] {
        BodySpec b;
        b.pos = contacts ? P{r.d(-arena, arena), r.d(-arena, arena)} : P{3.0 * (tag % 6) + r.d(-.3, .3), 3.0 * (tag / 6) + r.d(-.3, .3)};
        b.angle = r.d(-3, 3);
        b.dominance = r.chance(0.2) ? 0.f : 1.f;
        if (b.dominance != 0) b.vel = P{r.d(-1, 1), r.d(-1, 1)}, b.w = r.d(-1, 1);
        for (int k = r.i(1, 2); k > 0; --k)
        {
            ColSpec c{shape(r, r.d(0.5, 1.2), P{r.d(-.3, .3), r.d(-.3, .3)})};
            c.mat.friction.value = r.f(0, 1);
            c.mat.bounciness.value = r.f(0, 1);
            b.cols.push_back(c);
        }
        bodies[tag] = addBody<Tagged>(w, b, tag);
        ++tag;
    };
    auto pickBody = [&]() -> Body* {
        if (bodies.empty()) return nullptr;
        auto it = bodies.begin();
        std::advance(it, r.i(0, int(bodies.size()) - 1));
        return it->second;
    };
    auto joint = [&] {
        Body *a = pickBody(), *b = pickBody();
        if (a == nullptr) return;
        int kind = r.i(0, 5);
        float x = r.f(0.2, 3), y = r.f(-1, 1);
        if (a == b)
        {
            if (kind < 3) cons[nextCon++] = w.makeConstraint<RotationMotor>(Bodies::singleBody(a), RotationMotor::Specs::fromTorque(x, 1 + x));
            else
            {
                auto* m = w.makeConstraint<TranslationMotor>(Bodies::singleBody(a), TranslationMotor::Specs::fromForce(x, 5 * x));
                m->direction(Vec2{x, y});
                m->throttle(0.7f);
                cons[nextCon++] = m;
            }
            return;
        }
        if (a->isStructural() && b->isStructural()) return;
        Bodies bs{a, b};
        bool off = r.chance(0.7);
        P ca{a->centroid()}, cb{b->centroid()};
        std::array<Vec2, 2> at{ref::v2(ca), ref::v2(cb)};
        float d = float(ref::norm(ca - cb));
        switch (kind)
        {
            case 0: cons[nextCon++] = w.makeConstraint<RotationConstraint>(bs, off); break;
            case 1: cons[nextCon++] = w.makeConstraint<HingeConstraint>(bs, ref::v2((ca + cb) * 0.5), off); break;
            case 2: cons[nextCon++] = w.makeConstraint<WeldConstraint>(bs, off); break;
            case 3: if (d > 0.1f) cons[nextCon++] = w.makeConstraint<DistanceConstraint>(bs, at, off); break;
            case 4: if (d > 0.1f) cons[nextCon++] = w.makeConstraint<DistanceConstraint>(bs, at, std::optional<float>{}, std::optional<float>{d + 0.05f * x}, off); break;
            default: if (d > 0.1f) cons[nextCon++] = w.makeConstraint<DistanceConstraint>(bs, at, std::optional<float>{0.9f * d}, std::optional<float>{1.1f * d}, off);
        }
    };
    for (int k = r.i(2, 7); k > 0; --k) body();
    for (int k = r.i(0, 5); k > 0; --k) joint();
    if (r.chance(0.6)) fields.push_back(w.makeForceField<Gravity>(Vec2{r.f(-3, 3), r.f(-10, 0)}));
    int steps = r.i(10, thorough ? 80 : 30);
    for (int s = 0; s < steps; ++s)
    {
        between(s);
        while (r.chance(0.35))
        {
            switch (r.i(0, 8))
            {
                case 0: if (tag < 16) body(); break;
                case 1: if (nextCon < 14) joint(); break;
                case 2: if (auto* b = pickBody()) if (contacts || r.chance(0.5)) addCol(b, ColSpec{shape(r, r.d(0.4, 1), P{r.d(-.3, .3), r.d(-.3, .3)})}); break;
                case 3:
                    if (auto* b = pickBody())
                    {
                        std::vector<Collider*> cs;
                        for (auto& c : b->colliders()) cs.push_back(const_cast<Collider*>(&c));
                        if (cs.size() > 1) b->removeCollider(r.pick(cs));
                    }
                    break;
                case 4:
                    if (r.chance(0.4) && bodies.size() > 2)
                    {
                        auto it = bodies.begin();
                        std::advance(it, r.i(0, int(bodies.size()) - 1));
                        Body* b = it->second;
                        for (auto c = cons.begin(); c != cons.end();)
                            c = c->second->bodies()[0] == b || c->second->bodies()[1] == b ? cons.erase(c) : std::next(c);
                        b->kill();
                        bodies.erase(it);
                    }
                    break;
                case 5:
                    if (!cons.empty())
                    {
                        auto it = cons.begin();
                        std::advance(it, r.i(0, int(cons.size()) - 1));
                        it->second->kill();
                        cons.erase(it);
                    }
                    break;
                case 6:
                    if (!fields.empty()) fields.back()->kill(), fields.pop_back();
                    else fields.push_back(w.makeForceField<LinearField>(Vec2{r.f(-3, 3), r.f(-3, 3)}, r.chance(0.5) ? ForceField::global() : ForceField::region(Vec2{-2, -2}, Vec2{4, 4})));
                    break;
                case 7:
                    if (auto* b = pickBody()) if (!b->isStructural()) b->applyImpulse(Vec2{r.f(-1, 1), r.f(-1, 1)} * b->mass(), Vec2{r.f(-.2, .2), 0});
                    break;
                default:
                    set.enableWarmstarting = r.chance(0.7);
                    set.nVelocityIterations = unsigned(r.i(1, 10));
                    w.updateSettings(set);
            }
        }
        float dt = r.chance(0.8) ? 1 / 60.f : r.chance(0.3) ? 0.f : r.f(0.002, 0.05);
        w.step(dt);
        Moment m;
        for (auto& [t, b] : bodies)
        {
            for (float f : {b->position()[0], b->position()[1], b->orientation(), b->velocity()[0], b->velocity()[1], b->angularVelocity()}) m.state.push_back(f);
            if (!(std::abs(b->velocity()[0]) < 300 && std::abs(b->velocity()[1]) < 300 && std::abs(b->angularVelocity()) < 300 && ref::norm(P{b->position()}) < 300))
            {
                m.contacts.push_back(-1);
                out.push_back(m);
                ctx.count("stopped_wild");
                return out;
            }
        }
        std::vector<std::array<int, 3>> cs;
        for (ContactConstraint& c : w.contacts())
            if (!c.isDead()) cs.push_back({static_cast<Tagged*>(c.bodies()[0])->tag, static_cast<Tagged*>(c.bodies()[1])->tag, int(c.contactInfo().nContacts)});
        std::sort(cs.begin(), cs.end());
        for (auto& c : cs) m.contacts.insert(m.contacts.end(), c.begin(), c.end());
        out.push_back(m);
    }
    return out;
}

VF_PROPERTY(W07)
{
    Rng& r = ctx.rng;
    bool contacts = r.chance(0.5);
    uint64_t seed = r.next();
    auto nothing = [](int) {};
    std::vector<Moment> first;
    {
        World w;
        first = play(ctx, w, seed, contacts, ctx.thorough, nothing);
    }
    auto compare = [&](const std::vector<Moment>& other, const char* how) {
        VF_CHECK(ctx, first.size() == other.size(), "history-differs", "%zu steps in a fresh world, %zu %s", first.size(), other.size(), how);
        for (size_t s = 0; s < first.size(); ++s)
        {
            size_t at = 0;
            while (at < first[s].state.size() && at < other[s].state.size() && memcmp(&first[s].state[at], &other[s].state[at], 4) == 0) ++at;
            VF_CHECK(ctx, first[s] == other[s], "history-differs", "step %zu: %s, value %zu (of body %zu) is %.9g instead of %.9g; %zu/%zu contact entries", s, how, at % 6, at / 6, at < other[s].state.size() ? double(other[s].state[at]) : 0,
                     at < first[s].state.size() ? double(first[s].state[at]) : 0, other[s].contacts.size(), first[s].contacts.size());
            ctx.count("steps_compared");
            if (!first[s].contacts.empty()) ctx.count("contact_steps_compared");
        }
    };
    // again, in memory with other leftovers
    for (int k = 0; k < 2; ++k)
    {
        unsigned char with = static_cast<unsigned char>(r.pick(std::vector<int>{0, 0xff, 0x7f, 0x3f, 0x41, r.i(1, 255)}));
        mallopt(M_PERTURB, with);
        soilHeap(r, with);
        alignas(World) static unsigned char room[sizeof(World)];
        memset(room, with, sizeof room);
        World* w = new (room) World;
        std::vector<Moment> again;
        try
        {
            again = play(ctx, *w, seed, contacts, ctx.thorough, [&](int) { soilStack(with); });
        }
        catch (...)
        {
            w->~World();
            throw;
        }
        w->~World();
        compare(again, "in memory filled with other leftovers");
    }
    // next to another world
    {
        World w, other;
        Rng q{r.next()};
        for (int k = 0; k < 4; ++k)
        {
            BodySpec b;
            b.pos = P{q.d(-1, 1), q.d(-1, 1)};
            b.cols = {ColSpec{shape(q, 1)}};
            b.vel = P{q.d(-1, 1), q.d(-1, 1)};
            addBody(other, b);
        }
        other.makeForceField<Gravity>();
        compare(play(ctx, w, seed, contacts, ctx.thorough,
                     [&](int) {
                         if (q.chance(0.5)) other.step(1 / 60.f);
                         if (q.chance(0.1))
                         {
                             BodySpec b;
                             b.cols = {ColSpec{shape(q, 1)}};
                             addBody(other, b);
                         }
                     }),
                "next to another world");
    }
    // in a world that was used and cleared
    {
        World w;
        for (int k = r.i(1, 2); k > 0; --k)
        {
            auto used = play(ctx, w, r.next(), r.chance(0.5), false, nothing);
            w.clear();
            ctx.count("cleared");
        }
        compare(play(ctx, w, seed, contacts, ctx.thorough, nothing), "in a cleared world");
    }
    Hash h;
    if (!first.empty())
        for (float f : first.back().state) h.add(f);
    ctx.state(h);
    ctx.count(contacts ? "histories_with_contacts" : "histories_of_joints");
    if (!first.empty() && !first.back().contacts.empty()) ctx.sample("%zu steps, %zu bodies, %zu contacts at the end: identical in 4 replays", first.size(), first.back().state.size() / 6, first.back().contacts.size() / 3);
}
} // namespace

// ---------------------------------------------------------------------------
// W08
namespace
{
struct Motion // x -> turn(mirror(x)) + shift, with an added velocity
{
    bool mirror = false;
    double turn = 0;
    P shift, boost;
    bool swapNames = false, reverse = false; // joints name their bodies the other way; bodies are created the other way
    P dir(P a) const { return rot(mirror ? P{-a.x, a.y} : a, turn); }
    P at(P a) const { return dir(a) + shift; }
    double spin(double w) const { return mirror ? -w : w; }
    double angle(double t) const { return spin(t) + turn; }
};
Scene moved(const Scene& s, const Motion& m, const std::vector<P>& centroids)
{
    Scene o = s;
    for (size_t k = 0; k < s.bodies.size(); ++k)
    {
        const BodySpec& b = s.bodies[k];
        BodySpec& n = o.bodies[k];
        for (auto& c : n.cols)
            if (m.mirror)
                for (auto& p : c.poly) p.x = -p.x;
        P c = centroids[k], c2 = m.mirror ? P{-c.x, c.y} : c;
        n.pos = m.at(b.pos + c) - c2;
        n.angle = m.angle(b.angle);
        n.vel = m.dir(b.vel) + m.boost;
        n.w = m.spin(b.w);
    }
    for (auto& j : o.joints)
    {
        j.p0 = P{ref::v2(m.at(j.p0))};
        j.p1 = P{ref::v2(m.at(j.p1))};
        if (j.kind == JointSpec::rotMotor) j.dir.x = m.spin(j.dir.x);
        else j.dir = m.dir(j.dir);
        if (m.swapNames && j.a != j.b && j.kind != JointSpec::hinge)
        {
            std::swap(j.a, j.b);
            std::swap(j.p0, j.p1);
            if (j.dom) std::swap((*j.dom)[0], (*j.dom)[1]);
        }
        else if (m.swapNames && j.a != j.b)
        {
            std::swap(j.a, j.b);
            if (j.dom) std::swap((*j.dom)[0], (*j.dom)[1]);
        }
    }
    for (P& g : o.gravities) g = m.dir(g);
    if (m.reverse)
    {
        std::reverse(o.bodies.begin(), o.bodies.end());
        int n = int(o.bodies.size()) - 1;
        for (auto& j : o.joints) j.a = n - j.a, j.b = n - j.b;
    }
    return o;
}
struct Deviation
{
    double worst = 0;
    int step = -1;
    size_t body = 0;
    bool touched = false, wild = false, choice = false;
};
// a limit that is about to act, or just stopped acting: a rounding decides
bool undecided(const Built& a)
{
    for (auto& j : a.joints)
    {
        if (j.spec.kind != JointSpec::distance || (j.spec.lo && j.spec.hi && *j.spec.lo == *j.spec.hi)) continue;
        double d = ref::norm(a.anchor(j, 1) - a.anchor(j, 0));
        if ((j.spec.lo && std::abs(d - *j.spec.lo) < 1e-4) || (j.spec.hi && std::abs(d - *j.spec.hi) < 1e-4)) return true;
    }
    return false;
}
// contacts for which a rounding chose other points, and those whose points are rubbed one after
// the other, in the order their shapes name them
int otherChoice(Built& a, Built& b, const Motion& m, bool frictionless)
{
    struct C
    {
        P n;
        unsigned k;
    };
    auto found = [](Built& w, auto dir) {
        std::map<std::pair<size_t, size_t>, C> out;
        for (ContactConstraint& c : w.w.contacts())
        {
            auto i = c.contactInfo();
            if (i.nContacts == 0) continue;
            auto at = [&](int k) { return size_t(std::find(w.bodies.begin(), w.bodies.end(), c.colliders()[size_t(k)]->body()) - w.bodies.begin()); };
            size_t x = at(0), y = at(1);
            P n = dir(P{i.normal});
            if (x > y) std::swap(x, y), n = n * -1;
            out[{x, y}] = C{n, unsigned(i.nContacts)};
        }
        return out;
    };
    auto x = found(a, [&](P n) { return m.dir(n); }), y = found(b, [](P n) { return n; });
    if (x.size() != y.size()) return 2;
    for (auto& [key, c] : x)
    {
        auto o = y.find(key);
        if (o == y.end() || o->second.k != c.k || ref::norm(o->second.n - c.n) > 1e-2) return 2;
        if (c.k == 2 && !frictionless && (m.mirror || m.swapNames || m.reverse)) return 1;
    }
    return 0;
}
Deviation deviation(Ctx& ctx, const Scene& s, const Motion& m, int steps, float dt)
{
    Deviation d;
    Built a{s};
    std::vector<P> centroids;
    for (Body* b : a.bodies) centroids.push_back(P{b->localCentroid()});
    Built b{moved(s, m, centroids)};
    if (m.reverse) std::reverse(b.bodies.begin(), b.bodies.end());
    int since = -1;
    P drift;
    bool frictionless = true;
    for (auto& k : s.bodies)
        for (auto& c : k.cols) frictionless = frictionless && c.mat.friction.value == 0;
    for (int k = 0; k < steps; ++k)
    {
        if (undecided(a)) break;
        a.w.step(dt);
        b.w.step(dt);
        drift = drift + m.boost * double(dt);
        if (!tame(a, 300, 100) || !tame(b, 300, 100)) { d.wild = true; return d; }
        for (ContactConstraint& c : a.w.contacts())
            if (c.contactInfo().nContacts > 0) d.touched = true;
        int other = otherChoice(a, b, m, frictionless);
        if (other) { d.choice = other == 2; break; }
        if (d.touched && since < 0) since = k;
        if (since >= 0 && k > since + 12) break;
        for (size_t i = 0; i < a.bodies.size(); ++i)
        {
            Body *x = a.bodies[i], *y = b.bodies[i];
            P v = m.dir(P{x->velocity()}) + m.boost;
            double w = m.spin(x->angularVelocity());
            double e = ref::norm(m.at(P{x->centroid()}) + drift - P{y->centroid()}) + 0.3 * std::abs(m.angle(double(x->orientation())) - double(y->orientation()));
            double ev = 0.2 * (ref::norm(v - P{y->velocity()}) + 0.3 * std::abs(w - double(y->angularVelocity())));
            if (ctx.verbose) ctx.log("step %d body %zu: original (%g %g) %g, moved back differs by %g, velocity (%g %g) %g by %g", k, i, double(x->centroid()[0]), double(x->centroid()[1]), double(x->orientation()), e, v.x, v.y, w, ev);
            e = std::max(e, ev);
            if (e > d.worst) d.worst = e, d.step = k, d.body = i;
            // differences do not feed on themselves
            y->setVelocity(ref::v2(v));
            y->setAngularVelocity(float(w));
        }
        if (d.worst > 0.2) break;
    }
    return d;
}

double difference(const Scene& s, const Scene& t, int steps, float dt)
{
    Built a{s}, b{t};
    double worst = 0;
    for (int k = 0; k < steps; ++k)
    {
        a.w.step(dt);
        b.w.step(dt);
        for (size_t i = 0; i < a.bodies.size(); ++i)
            worst = std::max(worst, ref::norm(P{a.bodies[i]->centroid()} - P{b.bodies[i]->centroid()}));
        if (!(worst < 1)) return 1;
    }
    return worst;
}

Scene impactScene(Rng& r)
{
    Scene s;
    int n = r.chance(0.7) ? 2 : 3;
    bool smooth = r.chance(0.4);
    double reach = r.d(1.2, 2.2);
    P dir = rot(P{1, 0}, r.d(-3.14, 3.14));
    P mid{r.d(-3, 3), r.d(-3, 3)};
    for (int k = 0; k < n; ++k)
    {
        BodySpec b;
        double at = k - (n - 1) / 2.0;
        b.pos = mid + dir * (at * reach) + P{r.d(-.2, .2), r.d(-.2, .2)};
        b.angle = r.d(-3, 3);
        b.vel = dir * (-at * r.d(1, 4)) + P{r.d(-.5, .5), r.d(-.5, .5)};
        b.w = r.d(-2, 2);
        ColSpec c{shape(r, r.d(0.8, 1.5))};
        c.mat.density = r.f(0.5, 4);
        c.mat.friction.value = smooth ? 0 : r.f(0, 1);
        c.mat.bounciness.value = r.chance(0.4) ? 0 : r.f(0, 1);
        b.cols = {c};
        s.bodies.push_back(b);
    }
    if (r.chance(0.3)) s.gravities.push_back(P{r.d(-5, 5), r.d(-5, 5)});
    return s;
}

VF_PROPERTY(W08)
{
    Rng& r = ctx.rng;
    bool impact = r.chance(0.4);
    Motion m;
    int kind = r.i(0, 5);
    const char* names[] = {"moved", "turned", "mirrored", "carried along", "with names swapped", "with a bit of everything"};
    if (kind == 0 || kind == 5) m.shift = P{r.d(-20, 20), r.d(-20, 20)};
    if (kind == 1 || kind == 5) m.turn = r.chance(0.5) ? PI / 2 * r.i(-2, 2) : r.d(-3.1, 3.1);
    if (kind == 2 || kind == 5) m.mirror = kind == 2 || r.chance(0.5);
    if (kind == 3 || kind == 5) m.boost = P{r.d(-4, 4), r.d(-4, 4)};
    if (kind == 4 || kind == 5) m.swapNames = true, m.reverse = r.chance(0.5);
    bool boosted = ref::norm(m.boost) > 0;
    Scene s;
    if (impact) s = impactScene(r);
    else
    {
        SceneOptions o;
        o.maxBodies = 5;
        o.loops = r.chance(0.3);
        o.motors = !boosted && r.chance(0.3);
        o.structural = r.chance(0.4);
        o.dominances = r.chance(0.3);
        o.speed = r.d(0, 1.5);
        s = jointedScene(r, o);
        if (r.chance(0.5) && !(boosted && o.structural)) s.gravities.push_back(P{r.d(-5, 5), r.d(-10, 0)});
        // contacts of several bodies solve in the order the index finds them
        for (auto& j : s.joints) j.noContacts = true;
    }
    // creating bodies the other way, or having resting structural bodies move, also changes the
    // order in which several joints are solved
    if (s.joints.size() > 1 || s.bodies.size() > 2) m.reverse = false;
    if (boosted && s.joints.size() > 1)
        for (auto& b : s.bodies) b.dominance = b.dominance == 0 ? 1 : b.dominance;
    // whether friction is carried over to the next step depends on roundings
    s.settings.enableWarmstarting = !impact && r.chance(0.8);
    float dt = r.chance(0.7) ? 1 / 60.f : r.f(0.005, 0.03);
    int steps = r.i(8, ctx.thorough ? 40 : 25);
    auto d = deviation(ctx, s, m, steps, dt);
    if (d.wild) { ctx.count("wild"); return; }
    double tol = d.touched ? 0.05 : 0.015;
    // what a rounding becomes in this world by itself
    {
        Scene t = s;
        for (auto& b : t.bodies) b.pos = b.pos + P{r.d(-1, 1), r.d(-1, 1)} * 1e-5, b.angle += r.d(-1, 1) * 1e-5;
        auto e = difference(s, t, steps, dt);
        if (!(e < 1e-3)) { ctx.count("too_sensitive"); return; }
    }
    ctx.max(d.touched ? "worst_contact" : "worst_joint", d.worst);
    ctx.count(names[kind]);
    if (d.choice) ctx.count("chose_otherwise");
    ctx.count(d.touched ? "with_contact" : "without_contact");
    ctx.state(Hash{}.add(d.worst).add(uint64_t(kind)).add(s.bodies[0].pos.x));
    ctx.eval();
    if (d.worst <= tol) return;
    // an edge may have been chosen differently by a rounding: only what stays is an asymmetry
    int confirmed = 0, tried = 0;
    for (int k = 0; k < 6; ++k)
    {
        Scene t = s;
        for (auto& b : t.bodies)
        {
            b.pos = b.pos + P{r.d(-1, 1), r.d(-1, 1)} * 2e-3;
            b.vel = b.vel + (b.dominance == 0 ? P{} : P{r.d(-1, 1), r.d(-1, 1)} * 2e-2);
            b.angle += r.d(-1, 1) * 2e-3;
        }
        auto e = deviation(ctx, t, m, steps, dt);
        if (e.wild) continue;
        ++tried;
        confirmed += e.worst > tol;
    }
    ctx.count("rounded_cases");
    VF_CHECK(ctx, tried < 3 || confirmed * 3 < tried * 2, "preferred-frame", "the same world %s (turn %g, mirror %d, shift %g %g, boost %g %g, swap %d, reverse %d) has body %zu off by %g at step %d of %g s, and in %d of %d variations", names[kind], m.turn,
             int(m.mirror), m.shift.x, m.shift.y, m.boost.x, m.boost.y, int(m.swapNames), int(m.reverse), d.body, d.worst, d.step, double(dt), confirmed, tried);
}
} // namespace
