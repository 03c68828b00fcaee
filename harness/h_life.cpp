// Whole histories of a world against a model of which objects exist:
// contacts (W01), removal and ownership (W02), callbacks (W03), memory (W04).
#include "world_kit.hpp"
#include <algorithm>

namespace
{
using namespace wk;

enum Kind { kBody, kCon, kContact, kField };
enum Ev { eCtor, eConstructed, eKill, eDestroyed, eDtor, ePre, ePost, eActive, eInit, eWarm, eVel, ePos, eApply, nEv };
const char* kindName[] = {"body", "constraint", "contact", "field"};
const char* evName[] = {"ctor", "onConstruction", "onKill", "onDestruction", "dtor", "preStep", "postStep",
                        "isActive", "initSolve", "warmstart", "solveVelocities", "solvePositions", "apply"};

struct Event
{
    Ev e;
    int id;
    bool flag; // isActive's answer
};

struct Life;

enum Act { aKillOther, aKillSelf, aMakeBody, aMakeField, aMakeCon, aAddCol, aRemoveCol, nAct };
struct Script
{
    Ev on;
    int countdown;
    Act act;
};

struct Obj
{
    int id = -1;
    Kind kind = kBody;
    PhysicsObject* p = nullptr;
    Body* body = nullptr;
    Constraint* con = nullptr;
    ContactConstraint* contact = nullptr;
    std::array<int, 2> on{-1, -1}; // bodies of a constraint or contact
    bool exists = false;           // constructed and not yet destructed
    bool killed = false;           // by the driver
    bool doomed = false;           // own death condition
    int diesWith = -1;             // dies when that one is dead
    int kills = 0, killEvents = 0, constructed = 0, destroyed = 0, dtors = 0;
    bool active = true, noContacts = false;
    bool createdInStep = false;
    std::vector<Script> scripts;
};

struct Life
{
    Ctx& ctx;
    Rng& r;
    std::unique_ptr<World> own;
    World* w = nullptr;
    std::vector<std::unique_ptr<Obj>> objs;
    std::vector<Event> trace;
    bool inStep = false, scripting = true, inSolve = false, inCollide = false;
    bool allowLateGeometry = true;   // scripts of the end callbacks may create or change geometry
    bool allowRemoveInStep = true;
    bool realJoints = true;
    int budget = 40;                 // objects still to create
    double arena = 4, sizeLo = 0.6, sizeHi = 1.6, speed = 2, still = 0.1;
    World::Settings settings{};
    long factoryCalls = 0;
    int factoryKind = 0;
    std::set<std::pair<const Collider*, const Collider*>> made; // pairs the factory was asked for during this step

    Life(Ctx& c, Rng& rr) : ctx{c}, r{rr} { open(); }
    ~Life()
    {
        scripting = false;
        own.reset();
    }
    void open()
    {
        own = std::make_unique<World>(factory(0));
        w = own.get();
    }
    World::ContactFactory factory(int kind);

    Obj& fresh(Kind k)
    {
        objs.push_back(std::make_unique<Obj>());
        Obj& o = *objs.back();
        o.id = int(objs.size()) - 1;
        o.kind = k;
        o.createdInStep = inStep;
        return o;
    }
    bool isContactEvent(Ev e) const { return e == ePre || e == ePost; }

    void addScripts(Obj& o)
    {
        while (r.chance(0.25))
        {
            Script s{};
            static const std::vector<Ev> anyEv{eConstructed, eKill, eDestroyed, ePre, ePost, eInit, eWarm, eVel, ePos, eApply, ePre, ePost, eKill};
            s.on = r.pick(anyEv);
            s.countdown = r.i(1, 5);
            s.act = Act(r.i(0, nAct - 1));
            if (s.on == eKill && s.act != aKillOther && r.chance(0.8)) s.act = aKillOther;
            o.scripts.push_back(s);
        }
    }

    void event(int id, Ev e, bool flag = false)
    {
        trace.push_back({e, id, flag});
        Obj& o = *objs[size_t(id)];
        if (e == eKill) ++o.killEvents;
        if (e == eConstructed) ++o.constructed;
        if (e == eDestroyed) ++o.destroyed;
        if (e == eDtor) { ++o.dtors; o.exists = false; }
        if (ctx.verbose && e != eVel && e != ePos) ctx.log("    %s %d %s", kindName[o.kind], id, evName[e]);
        if (!scripting) return;
        for (size_t k = 0; k < o.scripts.size(); ++k)
            if (o.scripts[k].on == e && --o.scripts[k].countdown <= 0)
            {
                Script s = o.scripts[k];
                o.scripts.erase(o.scripts.begin() + long(k));
                perform(o, s, e);
                break;
            }
    }

    std::vector<Obj*> existing(int kind = -1)
    {
        std::vector<Obj*> v;
        for (auto& o : objs)
            if (o->exists && (kind < 0 || o->kind == kind)) v.push_back(o.get());
        return v;
    }
    Obj* some(int kind = -1)
    {
        auto v = existing(kind);
        return v.empty() ? nullptr : r.pick(v);
    }

    void kill(Obj& o)
    {
        o.killed = true;
        ++o.kills;
        ctx.count("kills");
        o.p->kill();
    }

    void perform(Obj& o, const Script& s, Ev e)
    {
        bool solver = e == eInit || e == eWarm || e == eVel || e == ePos || e == eApply;
        bool creates = s.act != aKillOther && s.act != aKillSelf;
        if (creates && (solver || e == eKill || inCollide)) return;
        if (o.kind == kContact && e == eConstructed && creates) return;
        if (e == ePost && !allowLateGeometry && creates) return;
        // those that are being built or taken down are only talked to, not extended
        if (creates && budget <= 0) return;
        ctx.count("scripted_actions");
        ctx.log("    -> %s %d does %d in %s", kindName[o.kind], o.id, s.act, evName[e]);
        switch (s.act)
        {
            case aKillOther:
                if (Obj* t = some()) if (t != &o || e != eKill) kill(*t);
                break;
            case aKillSelf:
                if (o.exists && e != eKill) kill(o);
                break;
            case aMakeBody: makeBody(); break;
            case aMakeField: if (!(o.kind == kField && e == eConstructed)) makeField(); break;
            case aMakeCon: if (!(o.kind == kCon && e == eConstructed)) makeCon(); break;
            case aAddCol:
                if (o.kind == kBody && e != eDestroyed) addCollider(o);
                break;
            case aRemoveCol:
                if (o.kind == kBody && e != eDestroyed && allowRemoveInStep) removeCollider(o);
                break;
            default: break;
        }
        if (creates) ctx.count("scripted_changes");
    }

    bool dead(const Obj& o) const
    {
        if (o.killed || o.doomed) return true;
        if (o.diesWith >= 0 && dead(*objs[size_t(o.diesWith)])) return true;
        if (o.kind == kCon || o.kind == kContact)
            for (int b : o.on)
                if (dead(*objs[size_t(b)])) return true;
        return false;
    }
    // what the object itself says, from inside shouldDie
    bool condition(int id) const
    {
        const Obj& o = *objs[size_t(id)];
        if (o.doomed) return true;
        if (o.diesWith < 0) return false;
        const Obj& t = *objs[size_t(o.diesWith)];
        return !t.exists || t.p->isDead();
    }

    // ---- operations
    void makeBody();
    void makeField();
    bool makeCon(bool forceNoContacts = false);
    void addCollider(Obj& o)
    {
        ColSpec c{shape(r, r.d(sizeLo, sizeHi), P{r.d(-.4, .4), r.d(-.4, .4)}, r.i(0, 4))};
        c.mat.friction.value = r.f(0, 1);
        c.mat.bounciness.value = r.chance(0.5) ? 0 : r.f(0, 1);
        addCol(o.body, c);
        ctx.count("colliders_added");
    }
    void removeCollider(Obj& o)
    {
        std::vector<Collider*> cs;
        for (auto& c : o.body->colliders()) cs.push_back(const_cast<Collider*>(&c));
        if (cs.empty() || (cs.size() == 1 && !o.body->constraints().empty())) return;
        o.body->removeCollider(r.pick(cs));
        ctx.count("colliders_removed");
        if (inStep) ctx.count("colliders_removed_in_step");
    }
    void clear()
    {
        ctx.log("clear");
        scripting = false;
        w->clear();
        scripting = true;
        ctx.count("clears");
    }
    void replaceFactory()
    {
        ctx.log("new factory");
        scripting = false;
        ++factoryKind;
        w->setContactFactory(factory(factoryKind));
        scripting = true;
        ctx.count("factories");
    }
    void step(float dt)
    {
        ctx.log("step %g", double(dt));
        for (auto& o : objs) o->createdInStep = false;
        made.clear();
        trace.clear();
        inStep = true;
        w->step(dt);
        inStep = false;
        ctx.count("steps");
    }
};

struct LBody : Body
{
    Life* l;
    int id;
    LBody(const BodyDescriptor& d, Life* l_, Obj& o) : Body{d}, l{l_}, id{o.id}
    {
        o.p = this;
        o.body = this;
        o.exists = true;
        l->event(id, eCtor);
    }
    ~LBody() override { l->event(id, eDtor); }
    void onConstruction(World& w) override { Body::onConstruction(w); l->event(id, eConstructed); }
    void onDestruction(World& w) override { Body::onDestruction(w); l->event(id, eDestroyed); }
    void onKill() override { Body::onKill(); l->event(id, eKill); }
    bool shouldDie() const override { return Body::shouldDie() || l->condition(id); }
    void preStep() override { Body::preStep(); l->event(id, ePre); }
    void postStep() override { Body::postStep(); l->event(id, ePost); }
};

template <class Base>
struct LField : Base
{
    Life* l;
    int id;
    template <class... A>
    LField(Life* l_, Obj& o, A&&... a) : Base(std::forward<A>(a)...), l{l_}, id{o.id}
    {
        o.p = this;
        o.exists = true;
        l->event(id, eCtor);
    }
    ~LField() override { l->event(id, eDtor); }
    void onConstruction(World& w) override { Base::onConstruction(w); l->event(id, eConstructed); }
    void onDestruction(World& w) override { Base::onDestruction(w); l->event(id, eDestroyed); }
    void onKill() override { Base::onKill(); l->event(id, eKill); }
    bool shouldDie() const override { return Base::shouldDie() || l->condition(id); }
    void preStep() override { Base::preStep(); l->event(id, ePre); }
    void postStep() override { Base::postStep(); l->event(id, ePost); }
    void apply(Collider& c, float dt) const override { Base::apply(c, dt); l->event(id, eApply); }
};

struct NullCon : Constraint
{
    NullCon(const Bodies& b, bool noContacts) : Constraint{b, noContacts} {}
    bool isActive(const Proxies&) override { return true; }
    void initSolve(const Proxies&) override {}
    void warmstart(Proxies&, float) override {}
    void solveVelocities(Proxies&, float) override {}
    void solvePositions(Proxies&) override {}
};

template <class Base>
struct LCon : Base
{
    Life* l;
    int id;
    template <class... A>
    LCon(Life* l_, Obj& o, A&&... a) : Base(std::forward<A>(a)...), l{l_}, id{o.id}
    {
        o.p = this;
        o.con = this;
        o.exists = true;
        l->event(id, eCtor);
    }
    ~LCon() override { l->event(id, eDtor); }
    void onConstruction(World& w) override { Base::onConstruction(w); l->event(id, eConstructed); }
    void onDestruction(World& w) override { Base::onDestruction(w); l->event(id, eDestroyed); }
    void onKill() override { Base::onKill(); l->event(id, eKill); }
    bool shouldDie() const override { return Base::shouldDie() || l->condition(id); }
    void preStep() override { Base::preStep(); l->event(id, ePre); }
    void postStep() override { Base::postStep(); l->event(id, ePost); }
    bool isActive(const Proxies& p) override
    {
        bool a = Base::isActive(p) && l->objs[size_t(id)]->active;
        l->event(id, eActive, a);
        return a;
    }
    void initSolve(const Proxies& p) override { Base::initSolve(p); l->event(id, eInit); }
    void warmstart(Proxies& p, float dt) override { Base::warmstart(p, dt); l->event(id, eWarm); }
    void solveVelocities(Proxies& p, float dt) override { Base::solveVelocities(p, dt); l->event(id, eVel); }
    void solvePositions(Proxies& p) override { Base::solvePositions(p); l->event(id, ePos); }
};

struct LContact : ContactConstraint
{
    Life* l;
    int id, made;
    LContact(Collider& a, Collider& b, Life* l_, Obj& o, int factory) : ContactConstraint{a, b}, l{l_}, id{o.id}, made{factory}
    {
        o.p = this;
        o.contact = this;
        o.exists = true;
        for (unsigned k = 0; k < 2; ++k) o.on[k] = static_cast<LBody*>(bodies()[k])->id;
        l->event(id, eCtor);
    }
    ~LContact() override { l->event(id, eDtor); }
    void onConstruction(World& w) override { ContactConstraint::onConstruction(w); l->event(id, eConstructed); }
    void onDestruction(World& w) override { ContactConstraint::onDestruction(w); l->event(id, eDestroyed); }
    void onKill() override { ContactConstraint::onKill(); l->event(id, eKill); }
    bool shouldDie() const override { return ContactConstraint::shouldDie() || l->condition(id); }
    void preStep() override { ContactConstraint::preStep(); l->event(id, ePre); }
    void postStep() override { ContactConstraint::postStep(); l->event(id, ePost); }
};

World::ContactFactory Life::factory(int kind)
{
    return [this, kind](Collider& a, Collider& b, const World::ContactAlloc& al) -> UniquePtr<ContactConstraint> {
        ++factoryCalls;
        inCollide = true;
        Obj& o = fresh(kContact);
        if (r.chance(0.3)) addScripts(o);
        made.insert(std::minmax<const Collider*>(&a, &b));
        auto c = makeUnique<LContact>(al, a, b, this, o, kind);
        inCollide = false;
        ctx.count("contacts_made");
        return c;
    };
}

void Life::makeBody()
{
    --budget;
    BodyDescriptor d{};
    d.position = Vec2{r.f(-arena, arena), r.f(-arena, arena)};
    d.orientation = r.f(-3, 3);
    d.dominance = r.chance(0.2) ? 0.f : 1.f;
    Obj& o = fresh(kBody);
    addScripts(o);
    bool still_ = d.dominance == 0 && r.chance(0.7);
    double sp = r.chance(still) ? 0 : speed;
    Body* b = w->makeBody<LBody>(d, this, o);
    if (!o.exists) return;
    for (int k = r.i(0, 9) == 0 ? 0 : r.i(1, 2); k > 0; --k) addCollider(o);
    if (!still_)
    {
        b->setVelocity(Vec2{r.f(-sp, sp), r.f(-sp, sp)});
        b->setAngularVelocity(r.f(-sp, sp));
    }
    if (r.chance(0.1) && o.id > 0)
    {
        auto v = existing();
        std::vector<int> older;
        for (Obj* t : v)
            if (t->id < o.id && t->kind != kContact && t->kind != kCon) older.push_back(t->id);
        if (!older.empty()) o.diesWith = r.pick(older);
    }
    ctx.count("bodies_made");
}
void Life::makeField()
{
    --budget;
    Obj& o = fresh(kField);
    addScripts(o);
    if (r.chance(0.5)) w->makeForceField<LField<Gravity>>(this, o, Vec2{r.f(-5, 5), r.f(-5, 5)});
    else if (r.chance(0.5)) w->makeForceField<LField<LinearField>>(this, o, Vec2{r.f(-5, 5), r.f(-5, 5)});
    else w->makeForceField<LField<LinearField>>(this, o, Vec2{r.f(-5, 5), r.f(-5, 5)}, ForceField::region(Vec2{r.f(-5, 0), r.f(-5, 0)}, Vec2{r.f(0, 5), r.f(0, 5)}));
    if (r.chance(0.15))
    {
        std::vector<int> older;
        for (Obj* t : existing())
            if (t->id < o.id && t->kind != kContact) older.push_back(t->id);
        if (!older.empty()) o.diesWith = r.pick(older);
    }
    ctx.count("fields_made");
}
bool Life::makeCon(bool forceNoContacts)
{
    // a body that is being removed cannot be joined any more
    auto bs = existing(kBody);
    if (inStep) std::erase_if(bs, [&](Obj* o) { return dead(*o); });
    if (bs.empty()) return false;
    Obj *a = r.pick(bs), *b = r.chance(0.1) ? a : r.pick(bs);
    bool single = a == b;
    auto hasCols = [](Obj* x) { return !x->body->colliders().empty(); };
    Bodies bodies = single ? Bodies::singleBody(a->body) : Bodies{a->body, b->body};
    if (single && a->body->isStructural()) return false;
    if (!single && a->body->isStructural() && b->body->isStructural())
    {
        // refused, and nothing of it stays
        size_t before = a->body->constraints().size();
        Obj& o = fresh(kCon);
        bool threw = false;
        try { w->makeConstraint<LCon<NullCon>>(this, o, bodies, false); }
        catch (const simu::Exception&) { threw = true; }
        o.exists = false;
        VF_CHECK(ctx, threw && a->body->constraints().size() == before, "impossible-constraint-accepted", "a constraint between two structural bodies left something behind");
        ctx.count("refused_constraints");
        return false;
    }
    --budget;
    Obj& o = fresh(kCon);
    o.on = {a->id, b->id};
    o.noContacts = forceNoContacts || r.chance(0.5);
    addScripts(o);
    int kind = realJoints && hasCols(a) && hasCols(b) && !single ? r.i(0, 4) : 0;
    switch (kind)
    {
        case 1: w->makeConstraint<LCon<HingeConstraint>>(this, o, bodies, (a->body->centroid() + b->body->centroid()) / 2.f, o.noContacts); break;
        case 2: w->makeConstraint<LCon<RotationConstraint>>(this, o, bodies, o.noContacts); break;
        case 3: w->makeConstraint<LCon<WeldConstraint>>(this, o, bodies, o.noContacts); break;
        case 4:
            w->makeConstraint<LCon<DistanceConstraint>>(this, o, bodies, std::array<Vec2, 2>{a->body->centroid(), b->body->centroid()},
                                                        std::optional<float>{}, std::optional<float>{norm(a->body->centroid() - b->body->centroid()) + 0.5f}, o.noContacts);
            break;
        default: w->makeConstraint<LCon<NullCon>>(this, o, bodies, o.noContacts);
    }
    if (r.chance(0.15)) o.active = false;
    if (r.chance(0.1))
    {
        std::vector<int> older;
        for (Obj* t : existing())
            if (t->id < o.id && t->kind != kContact) older.push_back(t->id);
        if (!older.empty()) o.diesWith = r.pick(older);
    }
    ctx.count("constraints_made");
    if (single) ctx.count("single_body_constraints");
    return true;
}

// one operation between steps; false if the world should step instead
bool operate(Life& l, bool contactsFocus)
{
    Rng& r = l.r;
    int op = r.i(0, 99);
    if (op < 30) return false;
    if (op < 45) { if (l.budget > 0) l.makeBody(); }
    else if (op < 55) { if (l.budget > 0) l.makeCon(contactsFocus && r.chance(0.5)); }
    else if (op < 58) { if (l.budget > 0 && l.existing(kField).size() < 3) l.makeField(); }
    else if (op < 64) { if (Obj* b = l.some(kBody)) l.addCollider(*b); }
    else if (op < 70) { if (Obj* b = l.some(kBody)) l.removeCollider(*b); }
    else if (op < 82) { if (Obj* o = l.some(r.i(0, 3))) l.kill(*o); }
    else if (op < 86) { if (Obj* o = l.some(r.i(0, 3))) { o->doomed = true; l.ctx.count("doomed"); } }
    else if (op < 90) { if (Obj* o = l.some(kBody)) { o->body->setVelocity(Vec2{r.f(-2, 2), r.f(-2, 2)}); } }
    else if (op < 92) { if (Obj* o = l.some(kCon)) o->active = !o->active; }
    else if (op < 94)
    {
        l.settings.enableWarmstarting = r.chance(0.6);
        l.settings.nVelocityIterations = unsigned(r.i(0, 4));
        l.settings.nPositionIterations = unsigned(r.i(0, 3));
        l.w->updateSettings(l.settings);
    }
    else if (op < 95) l.replaceFactory();
    else if (op == 95 && r.chance(0.3)) l.clear();
    else { if (l.budget > 0) l.makeBody(); }
    return true;
}
float someDt(Rng& r)
{
    if (r.chance(0.1)) return r.chance(0.5) ? 0.f : -0.01f;
    return r.chance(0.8) ? 1 / 60.f : r.f(0.001, 0.2);
}

// ---------------------------------------------------------------------------
typedef std::pair<const Collider*, const Collider*> Pair;
struct Found
{
    int id;
    bool dead;
};

VF_PROPERTY(W01)
{
    Rng& r = ctx.rng;
    Life l{ctx, r};
    l.allowLateGeometry = false;
    l.allowRemoveInStep = false;
    l.arena = r.d(1.5, 5);
    l.still = r.d(0, 0.6);
    l.speed = r.d(0.5, 6);
    l.budget = r.i(10, ctx.thorough ? 80 : 40);
    for (int k = r.i(2, 8); k > 0; --k) l.makeBody();
    std::map<Pair, int> before; // live contacts at the end of the previous step
    int steps = r.i(20, ctx.thorough ? 120 : 50);
    for (int s = 0; s < steps; ++s)
    {
        while (operate(l, true)) {}
        std::set<int> deadNow; // these go at the start of the step
        for (Obj* o : l.existing(kContact))
            if (o->contact->isDead()) deadNow.insert(o->id);
        float dt = someDt(r);
        long calls = l.factoryCalls;
        l.step(dt);

        std::map<Pair, Found> found;
        for (ContactConstraint& c : l.w->contacts())
        {
            auto p = std::minmax(c.colliders()[0], c.colliders()[1]);
            auto& lc = static_cast<LContact&>(c);
            VF_CHECK(ctx, found.count(p) == 0, "two-contacts-for-a-pair", "step %d: two contacts for the same two colliders", s);
            VF_CHECK(ctx, lc.made == l.factoryKind, "contact-of-old-factory", "step %d: contact %d was made by factory %d, current is %d", s, lc.id, lc.made, l.factoryKind);
            found[p] = {lc.id, c.isDead()};
        }
        if (!(dt > 0))
        {
            VF_CHECK(ctx, calls == l.factoryCalls, "contact-without-time", "a step of length %g made contacts", double(dt));
            for (auto& [p, id] : before)
                if (!deadNow.count(id) && l.objs[size_t(id)]->exists)
                    VF_CHECK(ctx, found.count(p) && found[p].id == id, "contact-lost-without-time", "contact %d vanished in a step of length %g", id, double(dt));
            for (auto& [p, f] : found) VF_CHECK(ctx, !deadNow.count(f.id), "dead-contact-kept", "step %d: contact %d was dead before the step", s, f.id);
            before.clear();
            for (auto& [p, f] : found)
                if (!f.dead) before[p] = f.id;
            continue;
        }
        struct Col
        {
            const Collider* c;
            Obj* o;
        };
        std::vector<Col> cols;
        for (Obj* o : l.existing(kBody))
            for (auto& c : o->body->colliders()) cols.push_back({&c, o});
        std::map<Pair, int> now;
        std::set<Pair> expected;
        Hash h;
        for (size_t a = 0; a < cols.size(); ++a)
            for (size_t b = a + 1; b < cols.size(); ++b)
            {
                Obj *oa = cols[a].o, *ob = cols[b].o;
                if (oa == ob || (oa->body->isStructural() && ob->body->isStructural())) continue;
                if (!boxesTouch(cols[a].c->boundingBox(), cols[b].c->boundingBox())) continue;
                bool off = false;
                for (Obj* c : l.existing(kCon))
                    if (c->noContacts && ((c->on[0] == oa->id && c->on[1] == ob->id) || (c->on[1] == oa->id && c->on[0] == ob->id))) off = true;
                if (off)
                {
                    ctx.count("pairs_disabled");
                    continue;
                }
                Pair p = std::minmax(cols[a].c, cols[b].c);
                expected.insert(p);
                auto f = found.find(p);
                VF_CHECK(ctx, f != found.end(), "touching-pair-without-contact", "step %d: colliders of bodies %d and %d touch but have no contact", s, oa->id, ob->id);
                Obj& c = *l.objs[size_t(f->second.id)];
                bool excused = c.killed || c.doomed || l.dead(*oa) || l.dead(*ob);
                VF_CHECK(ctx, !f->second.dead || excused, "touching-pair-with-dead-contact", "step %d: the contact %d of bodies %d and %d is dead while they touch", s, c.id, oa->id, ob->id);
                VF_CHECK(ctx, !deadNow.count(c.id), "dead-contact-kept", "step %d: contact %d was dead before the step and is still there", s, c.id);
                auto old = before.find(p);
                if (old != before.end() && l.objs[size_t(old->second)]->exists)
                {
                    VF_CHECK(ctx, old->second == c.id, "contact-replaced", "step %d: a pair that stayed in touch had contact %d and now %d", s, old->second, c.id);
                    VF_CHECK(ctx, !l.made.count(p), "contact-made-again", "step %d: the factory was asked again for a pair that has a contact", s);
                    ctx.count("contacts_kept");
                }
                else if (old == before.end())
                    ctx.count("contacts_new");
                if (!f->second.dead) now[p] = c.id;
                h.add(uint64_t(oa->id)).add(uint64_t(ob->id));
            }
        for (auto& [p, f] : found)
            if (!expected.count(p))
            {
                VF_CHECK(ctx, f.dead, "contact-without-touch", "step %d: contact %d is alive but its colliders do not touch, or contacts are disabled", s, f.id);
                ctx.count("contacts_expired");
                VF_CHECK(ctx, !deadNow.count(f.id), "dead-contact-kept", "step %d: contact %d was dead before the step and is still there", s, f.id);
            }
        for (auto& p : l.made) VF_CHECK(ctx, expected.count(p), "contact-made-without-touch", "step %d: the factory was asked for a pair that does not touch", s);
        before = now;
        ctx.count("pairs_judged", double(expected.size()));
        if (expected.size() > 3) ctx.sample("after step %d of %g s: %zu colliders, %zu touching pairs, %zu contacts listed, %zu asked of factory %d", s, double(dt), cols.size(), expected.size(), found.size(), l.made.size(), l.factoryKind);
        if (!expected.empty()) ctx.state(h);
    }
}

// ---------------------------------------------------------------------------
// the world's own lists against the model
void judgeLists(Ctx& ctx, Life& l)
{
    std::vector<int> bodies, cons, fields, contacts;
    for (Body& b : l.w->bodies()) bodies.push_back(static_cast<LBody&>(b).id);
    std::map<const void*, int> conIds;
    for (Obj* o : l.existing(kCon)) conIds[o->con] = o->id;
    for (Constraint& c : l.w->constraints())
    {
        auto it = conIds.find(&c);
        VF_CHECK(ctx, it != conIds.end(), "unknown-constraint-listed", "the world lists a constraint that was destroyed");
        cons.push_back(it->second);
    }
    std::map<const void*, int> fieldIds;
    for (Obj* o : l.existing(kField)) fieldIds[o->p] = o->id;
    for (ForceField& f : l.w->forceFields())
    {
        auto it = fieldIds.find(static_cast<PhysicsObject*>(&f));
        VF_CHECK(ctx, it != fieldIds.end(), "unknown-field-listed", "the world lists a field that was destroyed");
        fields.push_back(it->second);
    }
    for (ContactConstraint& c : l.w->contacts()) contacts.push_back(static_cast<LContact&>(c).id);
    auto ids = [&](int k) {
        std::vector<int> v;
        for (Obj* o : l.existing(k)) v.push_back(o->id);
        return v;
    };
    VF_CHECK(ctx, bodies == ids(kBody), "body-list", "the view over bodies lists %zu, %zu exist, or another order", bodies.size(), ids(kBody).size());
    VF_CHECK(ctx, cons == ids(kCon), "constraint-list", "the view over constraints lists %zu, %zu exist, or another order", cons.size(), ids(kCon).size());
    VF_CHECK(ctx, fields == ids(kField), "field-list", "the view over fields lists %zu, %zu exist, or another order", fields.size(), ids(kField).size());
    std::sort(contacts.begin(), contacts.end());
    VF_CHECK(ctx, contacts == ids(kContact), "contact-list", "the view over contacts lists %zu, %zu exist", contacts.size(), ids(kContact).size());
    for (Obj* o : l.existing(kBody))
    {
        std::vector<const void*> have, want;
        for (Constraint* c : o->body->constraints()) have.push_back(c);
        for (Obj* c : l.existing(kCon))
            if (c->on[0] == o->id || c->on[1] == o->id) want.push_back(c->con);
        std::sort(have.begin(), have.end());
        std::sort(want.begin(), want.end());
        VF_CHECK(ctx, have == want, "body-constraints", "body %d lists %zu constraints, %zu of its own exist", o->id, have.size(), want.size());
        have.clear();
        want.clear();
        // a contact that was killed may already have left the bodies' lists
        for (ContactConstraint* c : o->body->contacts()) have.push_back(c);
        std::sort(have.begin(), have.end());
        VF_CHECK(ctx, std::adjacent_find(have.begin(), have.end()) == have.end(), "body-contact-twice", "body %d lists a contact twice", o->id);
        for (Obj* c : l.existing(kContact))
            if (c->on[0] == o->id || c->on[1] == o->id)
            {
                want.push_back(c->contact);
                if (!c->contact->isDead())
                    VF_CHECK(ctx, std::binary_search(have.begin(), have.end(), (const void*)c->contact), "body-contacts", "body %d does not list its contact %d", o->id, c->id);
            }
        for (const void* c : have) VF_CHECK(ctx, std::find(want.begin(), want.end(), c) != want.end(), "body-contacts-foreign", "body %d lists a contact that is not its own or was destroyed", o->id);
        ctx.count("body_lists");
    }
}

// dead objects of each kind just before a step
std::set<int> deadSet(Life& l)
{
    std::set<int> d;
    for (Obj* o : l.existing())
    {
        if (o->kind == kContact) { if (o->contact->isDead()) d.insert(o->id); } // may have expired
        else if (l.dead(*o)) d.insert(o->id);
    }
    return d;
}

VF_PROPERTY(W02)
{
    Rng& r = ctx.rng;
    {
        Life l{ctx, r};
        l.arena = r.d(1.5, 5);
        l.budget = r.i(10, ctx.thorough ? 80 : 40);
        for (int k = r.i(2, 8); k > 0; --k) l.makeBody();
        judgeLists(ctx, l);
        int steps = r.i(15, ctx.thorough ? 80 : 30);
        for (int s = 0; s < steps; ++s)
        {
            while (true)
            {
                double clears = vf::stats().counters["clears"], facts = vf::stats().counters["factories"];
                std::set<int> there;
                for (Obj* o : l.existing()) there.insert(o->id);
                if (!operate(l, false)) break;
                bool cleared = vf::stats().counters["clears"] > clears, swapped = vf::stats().counters["factories"] > facts;
                if (cleared)
                {
                    VF_CHECK(ctx, l.existing().empty(), "survived-clear", "%zu objects survived clear()", l.existing().size());
                    long seen = 0;
                    l.w->forEachIn(BoundingBox{Vec2{-1e6f, -1e6f}, Vec2{1e6f, 1e6f}}, [&](Body*) { ++seen; });
                    VF_CHECK(ctx, seen == 0, "found-after-clear", "a cleared world still finds %ld colliders", seen);
                }
                else
                    for (int id : there)
                    {
                        Obj& o = *l.objs[size_t(id)];
                        if (swapped && o.kind == kContact) VF_CHECK(ctx, !o.exists, "contact-survived-factory", "contact %d of the old factory survived", id);
                        else VF_CHECK(ctx, o.exists, "removed-between-steps", "%s %d vanished between steps", kindName[o.kind], id);
                    }
                judgeLists(ctx, l);
            }
            auto dead = deadSet(l);
            std::set<int> alive;
            for (Obj* o : l.existing())
                if (!dead.count(o->id)) alive.insert(o->id);
            Hash h;
            int kinds[4] = {0, 0, 0, 0};
            for (int id : dead) ++kinds[l.objs[size_t(id)]->kind], h.add(uint64_t(id));
            l.step(someDt(r));
            for (int id : dead)
            {
                Obj& o = *l.objs[size_t(id)];
                VF_CHECK(ctx, !o.exists, "dead-object-kept", "%s %d was dead before the step and is still there", kindName[o.kind], id);
            }
            for (int id : alive)
            {
                Obj& o = *l.objs[size_t(id)];
                VF_CHECK(ctx, o.exists, "live-object-removed", "%s %d was alive and was removed by the step", kindName[o.kind], id);
            }
            judgeLists(ctx, l);
            if (!dead.empty())
            {
                ctx.count("died", double(dead.size()));
                if (dead.size() > 3) ctx.sample("step %d: %d bodies, %d constraints, %d contacts, %d fields died, %zu objects lived on", s, kinds[0], kinds[1], kinds[2], kinds[3], alive.size());
                ctx.state(h);
                if (kinds[0] > 1) ctx.count("several_bodies_at_once");
                if (kinds[0] && kinds[1] && kinds[2]) ctx.count("all_kinds_at_once");
            }
        }
        size_t left = l.existing().size();
        l.scripting = false;
        l.own.reset();
        for (auto& o : l.objs)
            if (o->constructed) VF_CHECK(ctx, !o->exists && o->dtors == 1, "not-destroyed-once", "%s %d was destructed %d times over the life of its world", kindName[o->kind], o->id, o->dtors);
        ctx.count("left_at_end", double(left));
    }
}

// ---------------------------------------------------------------------------
VF_PROPERTY(W03)
{
    Rng& r = ctx.rng;
    Life l{ctx, r};
    l.arena = r.d(1.5, 5);
    l.budget = r.i(10, ctx.thorough ? 80 : 40);
    for (int k = r.i(2, 8); k > 0; --k) l.makeBody();
    int steps = r.i(15, ctx.thorough ? 80 : 30);
    size_t seen = 0;
    for (int s = 0; s < steps; ++s)
    {
        while (operate(l, false)) {}
        // creation and kill callbacks
        for (; seen < l.objs.size(); ++seen)
        {
            Obj& o = *l.objs[seen];
            if (o.p == nullptr || (o.kind == kCon && o.on[0] < 0)) continue;
            VF_CHECK(ctx, o.constructed == 1, "construction-callback", "%s %d got %d construction callbacks", kindName[o.kind], o.id, o.constructed);
        }
        for (auto& o : l.objs)
        {
            if (o->kind == kContact) VF_CHECK(ctx, o->killEvents >= o->kills, "kill-callback", "contact %d killed %d times, %d callbacks", o->id, o->kills, o->killEvents);
            else VF_CHECK(ctx, o->killEvents == o->kills, "kill-callback", "%s %d killed %d times, %d callbacks", kindName[o->kind], o->id, o->kills, o->killEvents);
        }
        auto dead = deadSet(l);
        std::set<int> alive;
        for (Obj* o : l.existing())
            if (!dead.count(o->id)) alive.insert(o->id);
        auto set = l.settings;
        std::map<int, bool> structural;
        for (Obj* o : l.existing(kBody)) structural[o->id] = o->body->isStructural();
        float dt = someDt(r);
        l.step(dt);

        // ---- the trace of the step
        std::map<int, int> pre, post;
        std::map<int, std::vector<Ev>> solver;
        std::map<int, bool> said;
        std::set<int> destroyed, gone;
        int phase = 0; // 0 cleanup, 1 start callbacks, 2 solving, 3 end callbacks
        int rank = 0;
        auto rankOf = [](Kind k) { return k == kBody ? 0 : k == kField ? 2 : 1; };
        std::set<int> killedInStep;
        long order = 0;
        std::map<int, std::map<std::pair<Ev, int>, long>> when;
        std::map<int, std::map<Ev, int>> nth;
        for (auto& e : l.trace)
        {
            Obj& o = *l.objs[size_t(e.id)];
            const char* k = kindName[o.kind];
            ++order;
            switch (e.e)
            {
                case eKill: killedInStep.insert(e.id); break;
                case eDestroyed:
                    VF_CHECK(ctx, phase == 0, "destruction-late", "%s %d got its destruction callback after the start callbacks", k, e.id);
                    VF_CHECK(ctx, dead.count(e.id), "destruction-of-the-living", "%s %d got a destruction callback but was not dead", k, e.id);
                    VF_CHECK(ctx, destroyed.insert(e.id).second, "destruction-twice", "%s %d got two destruction callbacks", k, e.id);
                    VF_CHECK(ctx, gone.empty(), "released-before-callbacks", "%s %d got its destruction callback after another dead object was released", k, e.id);
                    break;
                case eDtor:
                    VF_CHECK(ctx, phase == 0, "release-late", "%s %d was released after the start callbacks", k, e.id);
                    VF_CHECK(ctx, dead.count(e.id), "release-of-the-living", "%s %d was released but was not dead", k, e.id);
                    VF_CHECK(ctx, gone.insert(e.id).second, "release-twice", "%s %d was released twice", k, e.id);
                    VF_CHECK(ctx, destroyed.count(e.id), "release-without-callback", "%s %d was released without its destruction callback", k, e.id);
                    break;
                case ePre:
                    VF_CHECK(ctx, phase <= 1, "start-callback-late", "%s %d got its start callback in phase %d", k, e.id, phase);
                    phase = 1;
                    if (o.kind != kContact)
                    {
                        VF_CHECK(ctx, rankOf(o.kind) >= rank, "start-callback-order", "%s %d got its start callback after a later kind", k, e.id);
                        rank = rankOf(o.kind);
                    }
                    ++pre[e.id];
                    break;
                case eApply: case eActive: case eInit: case eWarm: case eVel: case ePos:
                    VF_CHECK(ctx, phase == 1 || phase == 2, "solving-out-of-phase", "%s of %s %d outside of the solving phase", evName[e.e], k, e.id);
                    VF_CHECK(ctx, dt > 0, "solving-without-time", "%s of %s %d in a step of length %g", evName[e.e], k, e.id, double(dt));
                    phase = 2;
                    if (e.e == eApply) { ctx.count("applies"); break; }
                    solver[e.id].push_back(e.e);
                    if (e.e == eActive) said[e.id] = e.flag;
                    when[e.id][{e.e, nth[e.id][e.e]++}] = order;
                    break;
                case ePost:
                    if (phase != 3) rank = 0;
                    VF_CHECK(ctx, phase >= 1, "end-callback-early", "%s %d got its end callback in phase %d", k, e.id, phase);
                    phase = 3;
                    if (o.kind != kContact)
                    {
                        VF_CHECK(ctx, rankOf(o.kind) >= rank, "end-callback-order", "%s %d got its end callback after a later kind", k, e.id);
                        rank = rankOf(o.kind);
                    }
                    ++post[e.id];
                    break;
                default: break;
            }
        }
        for (int id : dead)
            VF_CHECK(ctx, destroyed.count(id) && gone.count(id), "death-incomplete", "%s %d was dead: %zu callbacks, %zu releases", kindName[l.objs[size_t(id)]->kind], id, destroyed.count(id), gone.count(id));
        ctx.count("deaths_judged", double(dead.size()));
        if (dead.size() > 1) ctx.count("joint_deaths");
        for (int id : alive)
        {
            Obj& o = *l.objs[size_t(id)];
            // contacts that were killed by an earlier callback of the same step may be left alone
            bool excused = o.kind == kContact && killedInStep.count(id);
            VF_CHECK(ctx, pre[id] == 1 || (excused && pre[id] == 0), "start-callback-count", "%s %d got %d start callbacks in a step", kindName[o.kind], id, pre[id]);
            VF_CHECK(ctx, post[id] == 1 || (excused && post[id] == 0), "end-callback-count", "%s %d got %d end callbacks in a step", kindName[o.kind], id, post[id]);
            ctx.count("survivors_judged");
        }
        for (auto& [id, n] : pre) VF_CHECK(ctx, n <= 1 && !dead.count(id), "start-callback-count", "%s %d got %d start callbacks", kindName[l.objs[size_t(id)]->kind], id, n);
        for (auto& [id, n] : post) VF_CHECK(ctx, n <= 1 && !dead.count(id), "end-callback-count", "%s %d got %d end callbacks", kindName[l.objs[size_t(id)]->kind], id, n);
        if (!(dt > 0)) { ctx.count("empty_steps"); continue; }
        std::vector<int> ran;
        for (Obj* o : l.existing(kCon))
        {
            int id = o->id;
            auto& v = solver[id];
            bool must = alive.count(id) && !killedInStep.count(id) && !l.dead(*o);
            if (v.empty())
            {
                VF_CHECK(ctx, !must, "constraint-not-asked", "constraint %d was not driven by the solver", id);
                continue;
            }
            std::vector<Ev> want{eActive};
            if (said[id])
            {
                want.push_back(eInit);
                if (set.enableWarmstarting) want.push_back(eWarm);
                for (unsigned k = 0; k < set.nVelocityIterations; ++k) want.push_back(eVel);
                for (unsigned k = 0; k < set.nPositionIterations; ++k) want.push_back(ePos);
                ran.push_back(id);
                ctx.count("driven");
            }
            else
                ctx.count("idle");
            std::string got;
            for (Ev e : v) got += std::string(" ") + evName[e];
            VF_CHECK(ctx, v == want, "solver-sequence", "constraint %d (active %d, warm starting %d, %u velocity and %u position iterations) was driven by:%s", id, int(said[id]),
                     int(set.enableWarmstarting), set.nVelocityIterations, set.nPositionIterations, got.c_str());
        }
        // phases of constraints of one group
        for (size_t a = 0; a < ran.size(); ++a)
            for (size_t b = a + 1; b < ran.size(); ++b)
            {
                Obj &oa = *l.objs[size_t(ran[a])], &ob = *l.objs[size_t(ran[b])];
                bool shared = false;
                for (int x : oa.on)
                    for (int y : ob.on)
                        if (x == y && structural.count(x) && !structural[x]) shared = true;
                if (!shared) continue;
                ctx.count("sharing_pairs");
                auto first = [&](int id, std::pair<Ev, int> k) { auto it = when[id].find(k); return it == when[id].end() ? -1L : it->second; };
                std::vector<std::pair<Ev, int>> seq{{eActive, 0}, {eInit, 0}};
                if (set.enableWarmstarting) seq.push_back({eWarm, 0});
                for (unsigned k = 0; k < set.nVelocityIterations; ++k) seq.push_back({eVel, int(k)});
                for (unsigned k = 0; k < set.nPositionIterations; ++k) seq.push_back({ePos, int(k)});
                for (size_t k = 0; k + 1 < seq.size(); ++k)
                    for (int swap = 0; swap < 2; ++swap)
                    {
                        int x = swap ? ran[b] : ran[a], y = swap ? ran[a] : ran[b];
                        long t0 = first(x, seq[k]), t1 = first(y, seq[k + 1]);
                        VF_CHECK(ctx, t0 < t1, "solver-phases", "%s (%d) of constraint %d came before %s (%d) of constraint %d, which shares a body", evName[seq[k + 1].first], seq[k + 1].second, y, evName[seq[k].first], seq[k].second, x);
                    }
            }
        Hash h;
        for (auto& e : l.trace) h.add(uint64_t(e.e) * 1000 + uint64_t(l.objs[size_t(e.id)]->kind));
        ctx.state(h);
        if (ran.size() > 1) ctx.sample("step %d: %zu events, %zu deaths, %zu survivors, %zu constraints driven", s, l.trace.size(), dead.size(), alive.size(), ran.size());
    }
}

// ---------------------------------------------------------------------------
// every public call in any order, on several worlds; the sanitizers judge
VF_PROPERTY(W04)
{
    Rng& r = ctx.rng;
    std::vector<std::unique_ptr<Life>> worlds;
    int nw = r.chance(0.6) ? 1 : r.i(2, 3);
    for (int k = 0; k < nw; ++k)
    {
        worlds.push_back(std::make_unique<Life>(ctx, r));
        Life& l = *worlds.back();
        if (r.chance(0.1)) l.settings.enableSleeping = true, l.settings.inactivitySleepDelay = 0.05f;
        l.w->updateSettings(l.settings);
        l.arena = r.d(1, 4);
        l.budget = r.i(10, ctx.thorough ? 100 : 50);
        for (int n = r.i(1, 6); n > 0; --n) l.makeBody();
    }
    int steps = r.i(20, ctx.thorough ? 150 : 50);
    double sink = 0;
    for (int s = 0; s < steps && !worlds.empty(); ++s)
    {
        Life& l = *worlds[size_t(r.i(0, int(worlds.size()) - 1))];
        World& w = *l.w;
        while (operate(l, false))
        {
            if (r.chance(0.1))
            {
                P a{r.d(-4, 4), r.d(-4, 4)};
                w.forEachIn(BoundingBox{ref::v2(a), ref::v2(a + P{r.d(0, 4), r.d(0, 4)})}, [&](Body* b) { sink += b->mass() + double(b->orientation()); });
                w.forEachAt(ref::v2(a), [&](Body* b) { sink += b->inertia(); b->applyImpulse(Vec2{0.1f, 0}); });
                ctx.count("queries");
            }
        }
        l.step(someDt(r));
        // everything the world hands out is readable
        for (Body& b : w.bodies())
        {
            sink += double(b.position()[0]) + double(b.velocity()[0]) + double(b.orientation());
            for (auto& c : b.colliders())
            {
                for (const auto& v : c.vertexView()) sink += double(v[0]);
                sink += double(c.boundingBox().min()[0]) + double(c.material().density) + double(c.properties().m);
                VF_CHECK(ctx, c.body() == &b, "collider-of-another-body", "a body's collider names another body");
            }
            for (Constraint* c : b.constraints()) sink += double(c->bodies()[0]->mass()) + double(c->disablesContacts());
            for (ContactConstraint* c : b.contacts()) sink += double(c->bodies()[1]->mass());
            sink += double(b.interactsAsStructural());
            ctx.count("bodies_read");
        }
        for (ContactConstraint& c : w.contacts())
        {
            if (c.isDead()) continue;
            auto info = c.contactInfo();
            if (info.nContacts > 2) ctx.fail("contact-count", "a contact with %u points", info.nContacts);
            for (unsigned k = 0; k < info.nContacts; ++k) sink += double(info.refContacts[k][0]) + double(info.incContacts[k][1]);
            if (info.nContacts) sink += double(info.normal[0]);
            for (const Collider* col : c.colliders()) sink += double(col->boundingBox().max()[1]) + double(col->body()->mass());
            ctx.count("contacts_read");
        }
        sink += double(w.settings().nVelocityIterations);
        for (ForceField& f : w.forceFields()) sink += double(int(f.domain().type));
        Hash h;
        for (auto& e : l.trace) h.add(uint64_t(e.e) * 1000 + uint64_t(l.objs[size_t(e.id)]->kind));
        ctx.state(h);
        if (w.contacts().begin() != w.contacts().end()) ctx.sample("step %d of one of %zu worlds: %zu bodies, %zu events", s, worlds.size(), l.existing(kBody).size(), l.trace.size());
        if (worlds.size() > 1 && r.chance(0.02))
        {
            worlds.erase(worlds.begin() + r.i(0, int(worlds.size()) - 1));
            ctx.count("worlds_destroyed");
        }
    }
    volatile bool odd = sink > 0; // decides on every value read
    (void)odd;
    r.shuffle(worlds);
    while (!worlds.empty()) worlds.pop_back(), ctx.count("worlds_destroyed");
}
} // namespace
