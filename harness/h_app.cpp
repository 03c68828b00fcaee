// The application layer, run headless: camera (S01), drawing (S02), dragging (S03), controls (S04) and the demos (S05).
// GLFW, OpenGL and Dear ImGui are replaced by stand-ins that script the user and record what is drawn.
#include "common.hpp"
#include "geo_oracle.hpp"
#include "world_kit.hpp"
#include "Simu/app.hpp"
#include "Demos.hpp"
#include "GLFW/glfw3.h"
#include "imgui.h"

using namespace vf;
using namespace wk;
using namespace simu;
typedef std::array<uint8_t, 4> Color;

namespace
{
Rgba rgba(Color c) { return Rgba{c[0], c[1], c[2], c[3]}; }

// one application with a scripted user
struct Theatre
{
    std::unique_ptr<Application> app;
    bool closed = false; // the last frame asked to close
    std::vector<standin::DrawCall> draws;
    unsigned clears = 0;
    std::function<void()> onScreen;
    Theatre()
    {
        standin::resetAll();
        app = std::make_unique<Application>();
        // what the user left open in an earlier run of the program
        for (const char* m : {"Exit", "Settings", "Controls"}) standin::gui.menus[m] = false;
        standin::gui.menus["Options"] = false;
        standin::gui.menus["Profiler"] = true;
        standin::gui.menus["Select Scene"] = true;
        standin::gui.menus["Select"] = true;
    }
    ~Theatre()
    {
        app.reset();
    }
    void frame(double dt, std::function<void()> user = {})
    {
        closed = false;
        standin::glfw.shouldClose = false;
        bool shown = false;
        standin::glfw.onPoll = [&] {
            standin::glfw.time = dt;
            if (user) user();
        };
        standin::glfw.onSwap = [&] {
            shown = true;
            closed = standin::glfw.shouldClose;
            draws = standin::gl.draws;
            clears = standin::gl.clears;
            if (onScreen) onScreen();
            standin::glfw.shouldClose = true;
        };
        app->run();
        if (!shown) throw CaseFail{"no-frame", "run() did not show a frame"};
    }
    // what the user does, inside of frame()
    void key(int k, int action) { standin::callbacks.key(&standin::window, k, 0, action, 0); }
    void tap(Keyboard::Key k)
    {
        key(int(k), GLFW_PRESS);
        key(int(k), GLFW_RELEASE);
    }
    void move(double x, double y)
    {
        standin::glfw.x = x, standin::glfw.y = y;
        standin::callbacks.pos(&standin::window, x, y);
    }
    void button(int b, int action) { standin::callbacks.button(&standin::window, b, action, 0); }
    void scroll(double x, double y) { standin::callbacks.scroll(&standin::window, x, y); }
    void resize(int w, int h)
    {
        standin::glfw.w = w, standin::glfw.h = h;
        standin::callbacks.framebuffer(&standin::window, w, h);
        standin::callbacks.size(&standin::window, w, h);
    }
};

// the camera as documented, in doubles
struct Eye
{
    P center;
    double zoom = 1, w = 2, h = 2, pixel = 0.1;
    P ndc(P q) const { return P{(q.x - center.x) * 2 * zoom / w, (q.y - center.y) * 2 * zoom / h}; }
    P scene(P n) const { return P{center.x + n.x * w / 2 / zoom, center.y + n.y * h / 2 / zoom}; }
    static Eye of(const Camera& c)
    {
        return Eye{P{c.center()}, c.zoom(), c.viewDimensions()[0], c.viewDimensions()[1], c.pixelSize()};
    }
};
P pixelOf(const Eye& e, P scene)
{
    P n = e.ndc(scene);
    return P{(n.x + 1) / 2 * standin::glfw.w, (1 - n.y) / 2 * standin::glfw.h};
}
P mul(const float* m, P q)
{
    double z = m[6] * q.x + m[7] * q.y + m[8];
    return P{(m[0] * q.x + m[1] * q.y + m[2]) / z, (m[3] * q.x + m[4] * q.y + m[5]) / z};
}

struct Stage : public simu::Scene
{
    struct Hooks
    {
        std::function<void(Stage&, Renderer&)> init;
        std::function<void(Stage&, float)> pre, post;
        std::vector<Mouse::Input> presses;
        std::vector<Vec2> moves;
        std::vector<Keyboard::Input> keys;
        int inits = 0;
        bool tools = true;
    };
    std::shared_ptr<Hooks> hooks;
    Grabber* grabber = nullptr;
    BoxSpawner* spawner = nullptr;
    Stage(std::shared_ptr<Hooks> h) : hooks{h}
    {
        grabber = registerTool<Grabber>(*this);
        spawner = registerTool<BoxSpawner>(*this);
    }
    using simu::Scene::currentTool;
    using simu::Scene::getRenderer;
    using simu::Scene::useTool;
    void init(Renderer& r) override
    {
        ++hooks->inits;
        if (hooks->init) hooks->init(*this, r);
    }
    void preStep(float dt) override
    {
        if (hooks->pre) hooks->pre(*this, dt);
    }
    void postStep(float dt) override
    {
        if (hooks->post) hooks->post(*this, dt);
    }
    bool onMousePress(Mouse::Input i) override { return hooks->presses.push_back(i), simu::Scene::onMousePress(i); }
    bool onMouseMove(Vec2 p) override { return hooks->moves.push_back(p), simu::Scene::onMouseMove(p); }
    bool onKeypress(Keyboard::Input i) override { return hooks->keys.push_back(i), simu::Scene::onKeypress(i); }
};
Stage& stage(Theatre& t) { return *static_cast<Stage*>(t.app->scene()); }

bool near(P a, P b, double tol) { return ref::norm(a - b) <= tol; }

// ---------------------------------------------------------------- S01
void cameraAlone(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Camera c;
    Eye e;
    for (int k = r.i(1, 25); k > 0; --k)
    {
        switch (r.i(0, 8))
        {
            case 0: { float z = r.logf_(1e-2, 1e2); c.setZoom(z), e.zoom = z; break; }
            case 1: c.setZoom(-r.f(0, 2)); break;
            case 2: c.zoomIn(), e.zoom *= 1.25; break;
            case 3: c.zoomOut(), e.zoom *= 0.8; break;
            case 4: { Vec2 o{r.f(-50, 50), r.f(-50, 50)}; c.pan(o), e.center = e.center + P{o}; break; }
            case 5: { Vec2 o{r.f(-50, 50), r.f(-50, 50)}; c.panTo(o), e.center = P{o}; break; }
            case 6: { Vec2 d{r.logf_(0.1, 500), r.logf_(0.1, 500)}; c.setViewDimensions(d), e.w = d[0], e.h = d[1]; break; }
            case 7: { Vec2 d{r.f(-5, 5), -r.f(0, 5)}; c.setViewDimensions(d); break; }
            default:
            {
                float p = r.logf_(0.01, 1);
                c.setPixelSize(p), e.pixel = p;
                Vec2 d{float(r.i(1, 3000)), float(r.i(1, 3000))};
                c.setDimensionsFromScreenCoordinates(d);
                e.w = d[0] * e.pixel, e.h = d[1] * e.pixel;
            }
        }
        double rel = 1e-4;
        VF_CHECK(ctx, std::abs(c.zoom() - e.zoom) <= rel * e.zoom, "zoom", "zoom %g instead of %g", c.zoom(), e.zoom);
        VF_CHECK(ctx, near(P{c.center()}, e.center, 1e-3), "center", "looks at %g %g instead of %g %g", c.center()[0], c.center()[1], e.center.x, e.center.y);
        VF_CHECK(ctx, std::abs(c.viewDimensions()[0] - e.w) <= rel * e.w && std::abs(c.viewDimensions()[1] - e.h) <= rel * e.h, "dimensions", "shows %g x %g instead of %g x %g", c.viewDimensions()[0], c.viewDimensions()[1], e.w, e.h);
        Mat3 t = c.transform(), inv = c.invTransform();
        for (int i = 0; i < 5; ++i)
        {
            P n{i == 4 ? r.d(-2, 2) : i & 1 ? 1 : -1, i == 4 ? r.d(-2, 2) : i & 2 ? 1 : -1};
            P s = e.scene(n);
            double scale = 1 + (std::abs(e.center.x) + std::abs(e.center.y)) * 2 * e.zoom / std::min(e.w, e.h);
            P got = mul(t.data, s), back = mul(inv.data, n);
            double tol = 1e-5 * scale + 1e-4;
            ctx.count("mapped");
            VF_CHECK(ctx, near(got, n, tol), "maps-elsewhere", "scene point %g %g is shown at %g %g instead of %g %g", s.x, s.y, got.x, got.y, n.x, n.y);
            VF_CHECK(ctx, near(back, s, tol * std::max(e.w, e.h) / e.zoom), "unmaps-elsewhere", "screen point %g %g is taken for %g %g instead of %g %g", n.x, n.y, back.x, back.y, s.x, s.y);
        }
    }
    Hash h;
    h.add(e.zoom), h.add(e.center.x), h.add(e.w);
    ctx.state(h);
}
void cameraInApp(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Theatre t;
    auto hooks = std::make_shared<Stage::Hooks>();
    t.app->registerScene<Stage>("stage", hooks);
    Stage& s = stage(t);
    Camera& c = s.camera();
    VF_CHECK(ctx, c.viewDimensions()[0] == 640 * c.pixelSize() && c.viewDimensions()[1] == 480 * c.pixelSize(), "window", "a new scene shows %g x %g in a window of 640 x 480", c.viewDimensions()[0], c.viewDimensions()[1]);
    P marker;
    hooks->post = [&](Stage& st, float) {
        Vec2 m = ref::v2(marker);
        std::array<const Vec2, 3> v{m + Vec2{-1, -1} * 0.01f, m + Vec2{1, -1} * 0.01f, m + Vec2{0, 1} * 0.01f};
        st.getRenderer()->drawPolygon(m, makeView(v.data(), v.data() + 3), Rgba{1, 2, 3, 255});
    };
    Hash h;
    for (int k = r.i(3, 20); k > 0; --k)
    {
        Eye e = Eye::of(c);
        float dt = r.f(0.001, 0.05);
        P pan;
        int what = r.i(0, 5);
        standin::glfw.keys.clear();
        switch (what)
        {
            case 0:
            {
                int w = r.i(30, 3000), hh = r.i(30, 3000);
                t.frame(dt, [&] { t.resize(w, hh); });
                e.w = w * e.pixel, e.h = hh * e.pixel;
                VF_CHECK(ctx, standin::gl.viewport[0] == 0 && standin::gl.viewport[1] == 0 && standin::gl.viewport[2] == w && standin::gl.viewport[3] == hh, "viewport", "the viewport is %d x %d in a window of %d x %d", standin::gl.viewport[2], standin::gl.viewport[3], w, hh);
                break;
            }
            case 1:
            {
                int x = r.i(-1, 1), y = r.i(-1, 1);
                auto down = [&](Keyboard::Key key) { standin::glfw.keys.insert(int(key)); };
                if (x < 0) down(Keyboard::Key::left);
                if (x > 0) down(Keyboard::Key::right);
                if (y < 0) down(Keyboard::Key::down);
                if (y > 0) down(Keyboard::Key::up);
                if (r.chance(0.1) && x != 0) down(Keyboard::Key::left), down(Keyboard::Key::right), x = 0;
                t.frame(dt);
                double len = std::hypot(x, y), speed = 500 * e.pixel / e.zoom * std::min(dt, 1 / 60.f);
                if (len > 0) e.center = e.center + P{x / len * speed, y / len * speed};
                ctx.count("panned");
                break;
            }
            case 2:
            {
                double sc = r.chance(0.5) ? (r.chance(0.5) ? 1 : -1) : r.d(-3, 3);
                if (r.chance(0.1)) sc = 0;
                double before = c.zoom();
                t.frame(dt, [&] { t.scroll(r.d(-1, 1), sc); });
                ctx.count("scrolled");
                double now = c.zoom();
                VF_CHECK(ctx, sc == 0 ? now == before : sc > 0 ? now >= before : now <= before, "scroll", "scrolling by %g changes the zoom from %g to %g", sc, before, now);
                if (std::abs(sc) == 1) VF_CHECK(ctx, std::abs(now / before - (sc > 0 ? 1.25 : 0.8)) < 1e-4, "scroll-step", "one notch of %g changes the zoom from %g to %g", sc, before, now);
                VF_CHECK(ctx, now / before < std::pow(1.26, std::abs(sc) + 1e-3) && before / now < std::pow(1.26, std::abs(sc) + 1e-3), "scroll-far", "scrolling by %g changes the zoom from %g to %g", sc, before, now);
                if (now < 1e-2 || now > 1e2) c.setZoom(1);
                e.zoom = c.zoom();
                break;
            }
            case 3: { Vec2 o{r.f(-30, 30), r.f(-30, 30)}; c.panTo(o), e.center = P{o}; t.frame(dt); break; }
            case 4: { float z = r.logf_(0.05, 20); c.setZoom(z), e.zoom = z; t.frame(dt); break; }
            default: t.frame(dt);
        }
        Eye now = Eye::of(c);
        double span = std::max(e.w, e.h) / e.zoom, tol = 1e-4 * (span + ref::norm(e.center) + 1);
        VF_CHECK(ctx, near(now.center, e.center, tol) && std::abs(now.zoom - e.zoom) < 1e-4 * e.zoom && std::abs(now.w - e.w) < 1e-3 * e.w && std::abs(now.h - e.h) < 1e-3 * e.h, "camera-moves", "after action %d the camera is at %g %g zoom %g of %g x %g instead of %g %g zoom %g of %g x %g", what, now.center.x, now.center.y, now.zoom, now.w, now.h, e.center.x, e.center.y, e.zoom, e.w, e.h);
        e = now;
        // a marker somewhere in view; the user then points at where it is seen
        standin::glfw.keys.clear();
        marker = e.scene(P{r.d(-0.95, 0.95), r.d(-0.95, 0.95)});
        t.frame(dt);
        const standin::DrawCall* call = nullptr;
        P seen;
        for (auto& d : t.draws)
            for (auto& v : d.vertices)
                if (v.color[0] == 1 && v.color[1] == 2 && v.color[2] == 3 && call == nullptr) call = &d, seen = mul(d.camera, P{v.x, v.y});
        VF_CHECK(ctx, call != nullptr, "not-drawn", "a polygon drawn by the scene does not reach the screen");
        P px{(seen.x + 1) / 2 * standin::glfw.w, (1 - seen.y) / 2 * standin::glfw.h};
        int button = r.i(0, 2), action = r.chance(0.5) ? GLFW_PRESS : GLFW_RELEASE;
        bool captured = r.chance(0.15);
        t.frame(dt, [&] {
            standin::gui.wantMouse = captured;
            t.move(px.x, px.y);
            size_t n = hooks->presses.size();
            t.button(button, action);
            standin::gui.wantMouse = false;
            if (captured)
            {
                ctx.count("captured");
                VF_CHECK(ctx, hooks->presses.size() == n, "gui-click", "a click on the user interface reaches the scene");
                return;
            }
            VF_CHECK(ctx, hooks->presses.size() == n + 1, "click-lost", "%zu clicks reach the scene for one", hooks->presses.size() - n);
            auto& in = hooks->presses.back();
            VF_CHECK(ctx, int(in.button) == button && int(in.action) == action, "click-changed", "button %d action %d arrive as %d and %d", button, action, int(in.button), int(in.action));
            double off = ref::norm(P{in.pos} - marker), mv = ref::norm(P{hooks->moves.back()} - marker);
            ctx.max("pointer_error", off / span);
            VF_CHECK(ctx, off < 0.012 + 2e-5 * span * 10 + tol, "points-elsewhere", "pointing at what is shown at %g %g selects %g %g", marker.x, marker.y, in.pos[0], in.pos[1]);
            VF_CHECK(ctx, mv < 0.012 + 2e-5 * span * 10 + tol, "moves-elsewhere", "moving to what is shown at %g %g moves to %g %g", marker.x, marker.y, hooks->moves.back()[0], hooks->moves.back()[1]);
            ctx.count("pointed");
        });
        h.add(px.x), h.add(px.y);
    }
    ctx.state(h);
}
} // namespace
VF_PROPERTY(S01)
{
    if (ctx.rng.chance(0.5)) cameraAlone(ctx);
    else cameraInApp(ctx);
}

// ---------------------------------------------------------------- S02
namespace
{
struct Ink
{
    Poly poly;
    Color color;
};
struct Canvas
{
    std::vector<Ink> tris; // what was drawn, in scene coordinates
    Canvas(const std::vector<standin::DrawCall>& draws)
    {
        for (auto& d : draws)
            for (size_t k = 0; k + 2 < d.indices.size(); k += 3)
            {
                Ink t;
                for (int i = 0; i < 3; ++i)
                {
                    auto& v = d.vertices[d.indices[k + i]];
                    t.poly.push_back(P{v.x, v.y});
                    if (i == 0) std::copy(v.color, v.color + 4, t.color.begin());
                    else if (memcmp(v.color, t.color.data(), 4) != 0) t.color = Color{0, 0, 0, 1};
                }
                if (ref::cross(t.poly[1] - t.poly[0], t.poly[2] - t.poly[0]) < 0) std::swap(t.poly[1], t.poly[2]);
                tris.push_back(t);
            }
    }
};
double edgeDistance(const Poly& p, P q)
{
    double d = 1e300;
    for (size_t k = 0; k < p.size(); ++k) d = std::min(d, ref::norm(ref::closestOnSegment(p[k], p[(k + 1) % p.size()], q) - q));
    return d;
}
bool inside(const Poly& p, P q)
{
    for (size_t k = 0; k < p.size(); ++k)
        if (ref::cross(p[(k + 1) % p.size()] - p[k], q - p[k]) < 0) return false;
    return true;
}
std::string names(const std::vector<Color>& cs)
{
    std::string s;
    for (auto& c : cs)
    {
        char b[40];
        snprintf(b, sizeof b, "(%d %d %d %d)", c[0], c[1], c[2], c[3]);
        s += b;
    }
    return s.empty() ? "nothing" : s;
}
// the layers of colour at sample points, whatever the order and the triangles they are made of
void compareInk(Ctx& ctx, const std::vector<Ink>& expected, const std::vector<Poly>& unsure, const Canvas& c, int samples, double eps)
{
    Rng& r = ctx.rng;
    P lo{1e9, 1e9}, hi{-1e9, -1e9};
    for (auto& e : expected)
        for (P q : e.poly) lo = P{std::min(lo.x, q.x), std::min(lo.y, q.y)}, hi = P{std::max(hi.x, q.x), std::max(hi.y, q.y)};
    for (auto& e : c.tris)
        for (P q : e.poly)
        {
            VF_CHECK(ctx, std::isfinite(q.x) && std::isfinite(q.y), "nan-drawn", "a vertex is drawn at %g %g", q.x, q.y);
            if (expected.empty()) lo = P{std::min(lo.x, q.x), std::min(lo.y, q.y)}, hi = P{std::max(hi.x, q.x), std::max(hi.y, q.y)};
        }
    for (int k = 0; k < samples; ++k)
    {
        P q;
        int from = r.i(0, 2);
        if (from == 0 && !expected.empty())
        {
            const Poly& p = expected[size_t(r.i(0, int(expected.size()) - 1))].poly;
            double s = 0;
            for (P v : p)
            {
                double w = -std::log(r.d(1e-9, 1));
                q = q + v * w, s += w;
            }
            q = q * (1 / s);
        }
        else if (from == 1 && !c.tris.empty())
        {
            const Poly& p = c.tris[size_t(r.i(0, int(c.tris.size()) - 1))].poly;
            double a = r.d(0, 1), b = r.d(0, 1);
            if (a + b > 1) a = 1 - a, b = 1 - b;
            q = p[0] + (p[1] - p[0]) * a + (p[2] - p[0]) * b;
        }
        else q = P{r.d(lo.x - 1, hi.x + 1), r.d(lo.y - 1, hi.y + 1)};
        bool skip = false;
        std::vector<Color> want, got;
        for (auto& e : expected)
        {
            if (edgeDistance(e.poly, q) < eps) { skip = true; break; }
            if (inside(e.poly, q)) want.push_back(e.color);
        }
        for (auto& u : unsure) skip = skip || inside(u, q) || edgeDistance(u, q) < eps;
        if (skip) continue;
        for (auto& t : c.tris)
        {
            if (edgeDistance(t.poly, q) < eps) { skip = true; break; }
            if (inside(t.poly, q)) got.push_back(t.color);
        }
        if (skip) continue;
        std::sort(want.begin(), want.end());
        std::sort(got.begin(), got.end());
        ctx.count("pixels");
        if (!want.empty()) ctx.count("inked_pixels");
        VF_CHECK(ctx, want == got, "ink", "at %g %g: %s is drawn where %s is", q.x, q.y, names(got).c_str(), names(want).c_str());
    }
}
Poly linePoly(P a, P b, double width)
{
    P d = b - a;
    P n = P{-d.y, d.x} * (width / 2 / ref::norm(d));
    return {a - n, b - n, b + n, a + n};
}
Poly pointPoly(P c, double radius, unsigned n)
{
    Poly p;
    for (unsigned k = 0; k < n; ++k) p.push_back(P{c.x + radius * std::cos(2 * PI * k / n), c.y + radius * std::sin(2 * PI * k / n)});
    return p;
}
void primitives(Ctx& ctx)
{
    Rng& r = ctx.rng;
    standin::resetAll();
    std::vector<Ink> want;
    std::vector<Poly> unsure;
    int n = 0;
    {
        OpenGlRenderer g;
        float wide = r.logf_(0.05, 1), radius = r.logf_(0.05, 1);
        unsigned precision = r.chance(0.15) ? unsigned(r.i(100, 900)) : unsigned(r.i(3, 30));
        g.setLineWidth(wide);
        if (r.chance(0.5)) g.setPointRadius(radius), g.setPointPrecision(precision);
        else g.setPointPrecision(precision), g.setPointRadius(radius);
        g.setPointPrecision(unsigned(r.i(0, 2))); // ignored
        VF_CHECK(ctx, g.getPointPrecision() == precision && g.getPointRadius() == radius && g.getLineWidth() == wide, "pen", "the pen forgets what it was set to");
        float view[9] = {r.f(0.1, 1), 0, r.f(-1, 1), 0, r.f(0.1, 1), r.f(-1, 1), 0, 0, 1};
        Mat3 m;
        std::copy(view, view + 9, m.data);
        g.setCameraTransform(m);
        n = r.chance(0.1) ? r.i(150, 500) : r.i(1, 25);
        double field = std::sqrt(double(n)) * 2;
        for (int k = 0; k < n; ++k)
        {
            Color col{uint8_t(r.i(0, 255)), uint8_t(r.i(0, 255)), uint8_t(r.i(0, 255)), uint8_t(r.i(1, 255))};
            P at{r.d(-field, field), r.d(-field, field)};
            Poly p;
            switch (r.i(0, 5))
            {
                case 0:
                case 1:
                {
                    p = shape(r, r.d(0.3, 3), at);
                    if (r.chance(0.05)) // rounder than a buffer
                    {
                        p.clear();
                        int m = r.i(900, 2500);
                        for (int i = 0; i < m; ++i) p.push_back(P{at.x + std::cos(2 * PI * i / m), at.y + std::sin(2 * PI * i / m)});
                        ctx.count("huge_polygons");
                    }
                    std::vector<Vec2> v;
                    P c;
                    for (P& q : p) v.push_back(ref::v2(q)), q = P{v.back()}, c = c + q * (1.0 / p.size());
                    const auto& cv = v;
                    Renderer::Poly view = makeView(cv.data(), cv.data() + cv.size());
                    if (r.chance(0.2) && v.size() < 100)
                    {
                        Color rim{uint8_t(r.i(0, 255)), 0, 7, 255};
                        double w = r.d(0.05, 0.3);
                        g.drawContouredPolygon(ref::v2(c), view, rgba(col), rgba(rim), float(w));
                        Poly out; // as far as the rim may go
                        for (size_t i = 0; i < p.size(); ++i)
                            for (int a = 0; a < 24; ++a) out.push_back(p[i] + P{std::cos(a * PI / 12), std::sin(a * PI / 12)} * (2.05 * w));
                        // between the shape and there the rim may or may not be
                        Poly hull = ref::hull(out);
                        for (size_t i = 0; i < p.size(); ++i)
                        {
                            P a = p[i], b = p[(i + 1) % p.size()], d = (b - a) * (1 / ref::norm(b - a)), o{d.y, -d.x};
                            unsure.push_back({a - o * 1e-6 - d * (2.05 * w), a + o * (2.05 * w) - d * (2.05 * w), b + o * (2.05 * w) + d * (2.05 * w), b - o * 1e-6 + d * (2.05 * w)});
                        }
                        want.push_back({p, rim});
                        ctx.count("contours");
                    }
                    else g.drawPolygon(ref::v2(c), view, rgba(col));
                    break;
                }
                case 2:
                {
                    Vec2 a = ref::v2(at), b = a + Vec2{r.f(0.3, 2), r.f(-0.3, 1)}, c = a + Vec2{r.f(-1, 0.1), r.f(1.1, 2)};
                    if (r.chance(0.5)) std::swap(b, c);
                    g.drawTriangle(a, b, c, rgba(col));
                    p = {P{a}, P{b}, P{c}};
                    if (ref::area(p) < 0) std::swap(p[1], p[2]);
                    if (ref::cross(p[1] - p[0], p[2] - p[0]) < 0) std::swap(p[1], p[2]);
                    break;
                }
                case 3:
                {
                    P to = at + P{r.d(-4, 4), r.d(-4, 4)};
                    g.drawLine(ref::v2(at), ref::v2(to), rgba(col));
                    p = linePoly(at, to, wide);
                    break;
                }
                default:
                    g.drawPoint(ref::v2(at), rgba(col));
                    p = pointPoly(at, radius, precision);
            }
            want.push_back({p, col});
        }
        g.flush();
        for (auto& d : standin::gl.draws)
            VF_CHECK(ctx, memcmp(d.camera, view, sizeof view) == 0, "camera-of-draw", "polygons are drawn with another camera");
        Canvas c{standin::gl.draws};
        ctx.count("primitives", n);
        ctx.count("draw_calls", double(standin::gl.draws.size()));
        if (standin::gl.draws.size() > 1) ctx.count("flushed_early");
        compareInk(ctx, want, unsure, c, 60, 2e-4 + 2e-6 * field);
        size_t before = c.tris.size();
        g.flush();
        VF_CHECK(ctx, Canvas{standin::gl.draws}.tris.size() == before, "drawn-again", "what was drawn is drawn again by the next flush");
        g.fillScreen(Rgba{255, 51, 0, 102});
        VF_CHECK(ctx, std::abs(standin::gl.clear[0] - 1) < 1e-6 && std::abs(standin::gl.clear[1] - 0.2f) < 1e-6 && standin::gl.clear[2] == 0 && std::abs(standin::gl.clear[3] - 0.4f) < 1e-6, "fill", "fills with %g %g %g %g", standin::gl.clear[0], standin::gl.clear[1], standin::gl.clear[2], standin::gl.clear[3]);
    }
    VF_CHECK(ctx, standin::gl.buffers.empty() && standin::gl.arrays.empty() && standin::gl.programs.empty(), "gl-leak", "a destroyed renderer leaves %zu buffers, %zu arrays and %zu programs", standin::gl.buffers.size(), standin::gl.arrays.size(), standin::gl.programs.size());
    // the failures a driver may report become exceptions
    for (int which = 0; which < 2; ++which)
    {
        standin::resetAll();
        (which ? standin::gl.failLink : standin::gl.failCompile) = true;
        bool threw = false;
        try { OpenGlRenderer g; } catch (const simu::Exception&) { threw = true; }
        VF_CHECK(ctx, threw, "bad-shader", "a shader that does not %s goes unnoticed", which ? "link" : "compile");
    }
    Hash h;
    h.add(uint64_t(n)), h.add(want.empty() ? 0.0 : want[0].poly[0].x);
    ctx.state(h);
}
void sceneInk(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Theatre t;
    auto hooks = std::make_shared<Stage::Hooks>();
    std::map<Body*, Color> colors;
    uint64_t seed = r.next();
    float lw = r.f(0.02, 0.2), pr = r.f(0.05, 0.3);
    unsigned prec = unsigned(r.i(3, 12));
    struct Rope
    {
        DistanceConstraint* c;
        Body *a, *b;
        P la, lb;
    };
    std::vector<Rope> ropes;
    hooks->init = [&](Stage& s, Renderer& g) {
        Rng q{seed};
        colors.clear();
        ropes.clear();
        g.setLineWidth(lw), g.setPointRadius(pr), g.setPointPrecision(prec);
        std::vector<Body*> all;
        for (int k = q.i(1, 10); k > 0; --k)
        {
            BodySpec b;
            b.pos = P{q.d(-5, 5), q.d(-5, 5)};
            b.angle = q.d(-3, 3);
            b.dominance = q.chance(0.25) ? 0.f : 1.f;
            if (b.dominance != 0) b.vel = P{q.d(-1, 1), q.d(-1, 1)}, b.w = q.d(-1, 1);
            for (int c = q.i(0, 2); c > 0; --c) b.cols.push_back({shape(q, q.d(0.5, 2), P{q.d(-.8, .8), q.d(-.8, .8)})});
            if (b.cols.empty() && b.dominance != 0) b.cols.push_back({shape(q, q.d(0.5, 2))});
            Color c{uint8_t(q.i(0, 250)), uint8_t(q.i(0, 250)), uint8_t(10 * k), 255};
            Body* y = addBody<VisibleBody>(s.world(), b, rgba(c), &g);
            colors[y] = c;
            all.push_back(y);
        }
        for (int k = q.i(0, 4); k > 0 && all.size() > 1; --k)
        {
            Body *a = q.pick(all), *b = q.pick(all);
            if (a == b || (a->isStructural() && b->isStructural())) continue;
            P pa = P{a->centroid()}, pb = q.chance(0.1) ? pa : P{b->centroid()} + P{q.d(-.3, .3), q.d(-.3, .3)};
            double len = ref::norm(pa - pb);
            std::array<Vec2, 2> at{ref::v2(pa), ref::v2(pb)};
            VisibleDistanceConstraint* c;
            if (len > 0.2 && q.chance(0.5)) c = s.world().makeConstraint<VisibleDistanceConstraint>(Bodies{a, b}, at, &g);
            else c = s.world().makeConstraint<VisibleDistanceConstraint>(Bodies{a, b}, at, std::optional<float>{}, std::optional<float>{float(len) + 0.5f}, &g);
            auto local = [](Body* y, P w) { P c{y->centroid()}; return P{y->localCentroid()} + rot(w - c, -double(y->orientation())); };
            ropes.push_back({c, a, b, local(a, pa), local(b, pb)});
            if (len < 1e-6) ctx.count("slack_at_a_point");
        }
        if (q.chance(0.5)) s.world().makeForceField<Gravity>(Vec2{0, -5});
    };
    t.app->registerScene<Stage>("stage", hooks);
    Stage& s = stage(t);
    bool paused = r.chance(0.2);
    if (paused) s.pause();
    int frames = r.i(2, 12);
    bool mouse = r.chance(0.4);
    Hash h;
    for (int k = 0; k < frames; ++k)
    {
        P held, pointer;
        t.frame(r.d(0.002, 0.02), [&] {
            if (mouse && k == 1)
            {
                s.useTool<Grabber>();
                for (auto& [b, c] : colors)
                    if (!b->isStructural())
                    {
                        P px = pixelOf(Eye::of(s.camera()), P{b->centroid()});
                        t.move(px.x, px.y);
                        t.button(0, GLFW_PRESS);
                        t.move(px.x + r.d(-60, 60), px.y + r.d(-60, 60));
                        break;
                    }
            }
            if (r.chance(0.1) && colors.size() > 1)
            {
                auto it = colors.begin();
                std::advance(it, r.i(0, int(colors.size()) - 1));
                Body* gone = it->first;
                colors.erase(it);
                for (size_t i = 0; i < ropes.size();)
                    if (ropes[i].a == gone || ropes[i].b == gone) ropes.erase(ropes.begin() + long(i));
                    else ++i;
                gone->kill();
            }
        });
        std::vector<Ink> want;
        std::vector<Poly> unsure;
        bool wild = false;
        for (Body& b : s.world().bodies())
        {
            VF_CHECK(ctx, colors.count(&b), "unknown-body", "an unexpected body");
            Color c = colors[&b];
            for (const Collider& k2 : b.colliders())
            {
                BoundingBox x = k2.boundingBox();
                want.push_back({{P{x.min()}, P{Vec2{x.max()[0], x.min()[1]}}, P{x.max()}, P{Vec2{x.min()[0], x.max()[1]}}}, Color{c[0], c[1], c[2], 80}});
                want.push_back({worldPoly(k2), c});
                ctx.count("colliders_drawn");
            }
            wild = wild || ref::norm(P{b.velocity()}) > 60;
        }
        if (wild) break;
        Color white{255, 255, 255, 255};
        for (ContactConstraint& c : s.world().contacts())
        {
            std::vector<Ink> own;
            auto info = c.contactInfo();
            for (unsigned i = 0; i < info.nContacts; ++i)
            {
                P a{info.refContacts[i]}, b{info.incContacts[i]}, n{info.normal};
                own.push_back({pointPoly(a, pr, prec), white});
                own.push_back({linePoly(a, a + n * (lw * 10.0), lw), white});
                own.push_back({pointPoly(b, pr, prec), white});
            }
            if (info.nContacts == 0)
                for (Body* b : c.bodies()) own.push_back({pointPoly(P{b->centroid()}, pr, prec), Color{255, 0, 0, 255}});
            for (auto& o : own)
                if (c.isDead()) unsure.push_back(o.poly);
                else want.push_back(o);
            ctx.count(c.isDead() ? "dead_contacts" : info.nContacts ? "contacts_drawn" : "near_contacts_drawn");
        }
        for (auto& c : s.world().constraints())
            if (auto* m = dynamic_cast<MouseConstraint*>(&c))
            {
                P a{m->bodyPos()}, b{m->mousePos()};
                if (ref::norm(a - b) > 1e-3) want.push_back({linePoly(a, b, lw), Color{235, 50, 235, 255}}), ctx.count("pulls_drawn");
                else unsure.push_back(pointPoly(a, lw * 1.5, 12));
            }
        for (auto& o : ropes)
        {
            P a = worldOf(o.a, o.la), b = worldOf(o.b, o.lb);
            if (ref::norm(a - b) > 1e-3) want.push_back({linePoly(a, b, lw), Color{50, 235, 235, 255}}), ctx.count("ropes_drawn");
            else unsure.push_back(pointPoly(a, lw * 1.5, 12));
        }
        VF_CHECK(ctx, t.clears == 1, "background", "the background is drawn %u times after the first polygon", t.clears);
        Mat3 cam = s.camera().transform();
        for (auto& d : t.draws) VF_CHECK(ctx, d.indices.empty() || memcmp(d.camera, cam.data, sizeof d.camera) == 0, "camera-of-frame", "polygons of a frame are drawn with another camera");
        ctx.count("frames");
        Canvas c{t.draws};
        compareInk(ctx, want, unsure, c, 60, 2e-3);
        h.add(uint64_t(want.size()));
        if (!want.empty()) h.add(want[0].poly[0].x);
    }
    ctx.state(h);
}
} // namespace
VF_PROPERTY(S02)
{
    if (ctx.rng.chance(0.5)) primitives(ctx);
    else sceneInk(ctx);
}

// ---------------------------------------------------------------- S03
namespace
{
P localOf(const Body* b, P w) { return P{b->localCentroid()} + rot(w - P{b->centroid()}, -double(b->orientation())); }
struct Pull
{
    MouseConstraint* c = nullptr;
    int live = 0;
};
Pull pullIn(World& w)
{
    Pull p;
    for (auto& c : w.constraints())
        if (auto* m = dynamic_cast<MouseConstraint*>(&c))
            if (!m->isDead()) p.c = m, ++p.live;
    return p;
}
void drag(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Theatre t;
    auto hooks = std::make_shared<Stage::Hooks>();
    uint64_t seed = r.next();
    bool heavy = r.chance(0.5), crowded = r.chance(0.3);
    hooks->init = [&](Stage& s, Renderer& g) {
        Rng q{seed};
        for (int k = q.i(1, 8); k > 0; --k)
        {
            BodySpec b;
            double field = crowded ? 2 : 12;
            b.pos = P{q.d(-field, field), q.d(-field, field)};
            b.angle = q.d(-3, 3);
            b.dominance = q.chance(0.25) ? 0.f : 1.f;
            if (b.dominance != 0) b.vel = P{q.d(-1, 1), q.d(-1, 1)}, b.w = q.d(-1, 1);
            for (int c = q.i(1, 2); c > 0; --c) b.cols.push_back({shape(q, q.d(0.5, 3), P{q.d(-.8, .8), q.d(-.8, .8)})});
            addBody<VisibleBody>(s.world(), b, rgba(Color{9, 9, 9, 255}), &g);
        }
        if (heavy) s.world().makeForceField<Gravity>(Vec2{0, -5});
    };
    t.app->registerScene<Stage>("stage", hooks);
    Stage& s = stage(t);
    s.useTool<Grabber>();
    Body* held = nullptr;
    P local, pointer;
    Hash h;
    auto check = [&](const char* when) {
        Pull p = pullIn(s.world());
        VF_CHECK(ctx, p.live == (held != nullptr), "pulls", "%s: %d bodies are pulled instead of %d", when, p.live, held != nullptr);
        if (held == nullptr) return;
        VF_CHECK(ctx, p.c->bodies()[0] == held, "other-body", "%s: another body is pulled", when);
        double tol = 2e-4 * (1 + ref::norm(pointer) + ref::norm(P{held->position()}));
        VF_CHECK(ctx, near(P{p.c->mousePos()}, pointer, tol), "pulled-elsewhere", "%s: pulled to %g %g instead of %g %g", when, p.c->mousePos()[0], p.c->mousePos()[1], pointer.x, pointer.y);
        P a = worldOf(held, local);
        VF_CHECK(ctx, near(P{p.c->bodyPos()}, a, tol * 5), "pulled-by", "%s: pulled by %g %g instead of %g %g", when, p.c->bodyPos()[0], p.c->bodyPos()[1], a.x, a.y);
        ctx.count("held");
    };
    for (int k = r.i(4, 40); k > 0; --k)
    {
        t.frame(r.d(0.001, 0.02), [&] {
            Eye e = Eye::of(s.camera());
            bool killed = false;
            auto point = [&](P at) {
                P px = pixelOf(e, at);
                // the pointer is reported in single precision
                px.x = float(px.x), px.y = float(px.y);
                pointer = e.scene(P{px.x / standin::glfw.w * 2 - 1, 1 - px.y / standin::glfw.h * 2});
                t.move(px.x, px.y);
            };
            std::vector<Body*> all;
            for (Body& b : s.world().bodies())
                if (!b.isDead()) all.push_back(&b);
            for (int n = r.i(0, 3); n > 0; --n)
            {
                int what = r.i(0, 11);
                if (what <= 3)
                {
                    if (killed) continue; // what is under the pointer is settled at the end of the frame
                    P at{r.d(-12, 12), r.d(-12, 12)};
                    if (what < 3 && !all.empty())
                    {
                        Body* b = r.pick(all);
                        auto it = b->colliders().begin();
                        if (it != b->colliders().end())
                        {
                            Poly p = worldPoly(*it);
                            at = p[0] + (p[1] - p[0]) * r.d(0, 1) + (p[2] - p[0]) * r.d(-0.2, 0.8);
                        }
                    }
                    if (r.chance(0.15)) at = P{float(at.x), float(at.y)};
                    point(at);
                    double eps = 1e-3;
                    bool unclear = false;
                    std::vector<Body*> under;
                    for (Body* b : all)
                    {
                        if (b->isStructural()) continue;
                        bool in = false;
                        for (const Collider& c : b->colliders())
                        {
                            BoundingBox x = c.boundingBox();
                            double m = std::min(std::min(pointer.x - x.min()[0], x.max()[0] - pointer.x), std::min(pointer.y - x.min()[1], x.max()[1] - pointer.y));
                            if (std::abs(m) < eps) unclear = true;
                            if (m > 0) in = true;
                        }
                        if (in) under.push_back(b);
                    }
                    if (unclear) continue;
                    if (held) ctx.count(under.empty() ? "pressed_again_on_nothing" : "pressed_again");
                    t.button(0, GLFW_PRESS);
                    if (!under.empty())
                    {
                        Pull p = pullIn(s.world());
                        VF_CHECK(ctx, p.live == 1, "not-grabbed", "pressing on %zu bodies leaves %d pulled", under.size(), p.live);
                        held = p.c->bodies()[0];
                        VF_CHECK(ctx, std::find(under.begin(), under.end(), held) != under.end(), "grabs-another", "pressing grabs a body which is not there");
                        local = localOf(held, pointer);
                        ctx.count("grabbed");
                        if (under.size() > 1) ctx.count("grabbed_of_many");
                    }
                    else ctx.count("pressed_on_nothing");
                    check("press");
                }
                else if (what <= 5)
                {
                    if (held) ctx.count("released");
                    t.button(0, GLFW_RELEASE);
                    held = nullptr;
                    check("release");
                }
                else if (what <= 8)
                {
                    point(held && r.chance(0.7) ? pointer + P{r.d(-2, 2), r.d(-2, 2)} : P{r.d(-12, 12), r.d(-12, 12)});
                    check("move");
                }
                else if (what == 9)
                {
                    t.button(r.chance(0.5) ? 1 : 2, r.chance(0.5) ? GLFW_PRESS : GLFW_RELEASE);
                    check("other button");
                }
                else if (what == 10 && r.chance(0.5))
                {
                    if (held) ctx.count("restarted_while_holding");
                    t.tap(Keyboard::Key::R);
                    held = nullptr;
                    killed = true;
                    check("restart");
                    break;
                }
                else if (!all.empty() && r.chance(0.6))
                {
                    Body* b = held && r.chance(0.5) ? held : r.pick(all);
                    b->kill();
                    all.erase(std::find(all.begin(), all.end(), b));
                    killed = true;
                    if (b == held)
                    {
                        // until the body is gone at the end of the frame, the pull on it may remain
                        held = nullptr;
                        ctx.count("held_body_killed");
                        if (r.chance(0.5)) t.button(0, GLFW_RELEASE);
                        if (r.chance(0.5)) point(P{r.d(-12, 12), r.d(-12, 12)});
                        break;
                    }
                }
                else if (r.chance(0.3)) t.tap(Keyboard::Key::P);
            }
        });
        // once the frame is over
        bool wild = false;
        for (Body& b : s.world().bodies()) wild = wild || ref::norm(P{b.velocity()}) > 1e3 || ref::norm(P{b.position()}) > 1e3;
        if (wild) return;
        check("frame");
        h.add(uint64_t(held != nullptr)), h.add(pointer.x);
    }
    ctx.state(h);
}
// a body which is held comes to the pointer and stays there; the others do not notice
void bring(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Theatre t;
    auto hooks = std::make_shared<Stage::Hooks>();
    Body *b = nullptr, *other = nullptr;
    uint64_t seed = r.next();
    hooks->init = [&](Stage& s, Renderer& g) {
        Rng q{seed};
        BodySpec d;
        d.pos = P{q.d(-2, 2), q.d(-2, 2)};
        d.angle = q.d(-3, 3);
        Material m{};
        m.density = float(q.logf_(0.05, 8));
        d.cols.push_back({shape(q, q.d(0.5, 3)), m});
        b = addBody<VisibleBody>(s.world(), d, rgba(Color{9, 9, 9, 255}), &g);
        d.pos = P{60 + q.d(0, 10), 60};
        d.vel = P{0.5, q.d(-1, 1)}, d.w = q.d(-1, 1);
        other = addBody<VisibleBody>(s.world(), d, rgba(Color{9, 9, 9, 255}), &g);
    };
    t.app->registerScene<Stage>("stage", hooks);
    Stage& s = stage(t);
    s.useTool<Grabber>();
    Eye e = Eye::of(s.camera());
    Poly p = worldPoly(*b->colliders().begin());
    double x = r.d(0.05, 0.9), y = r.d(0.05, 0.9 - 0.5 * x);
    if (x + y > 0.95) x *= 0.5, y *= 0.5;
    P at = p[0] + (p[1] - p[0]) * x + (p[2] - p[0]) * y;
    auto move = [&](P q) { P px = pixelOf(e, q); t.move(px.x, px.y); };
    Vec2 v0 = other->velocity();
    float w0 = other->angularVelocity();
    t.frame(1 / 60., [&] {
        move(at);
        t.button(0, GLFW_PRESS);
    });
    Pull pull = pullIn(s.world());
    VF_CHECK(ctx, pull.live == 1 && pull.c->bodies()[0] == b, "not-grabbed", "pressing inside of a body does not grab it");
    P to = at + P{r.d(-10, 10), r.d(-10, 10)};
    double reach = ref::norm(to - at), worst = 0;
    int frames = 240;
    for (int k = 0; k < frames; ++k)
    {
        t.frame(1 / 60., [&] { if (k == 0) move(to); });
        double d = ref::norm(P{pull.c->bodyPos()} - to);
        worst = std::max(worst, d);
        if (k == 60) ctx.max("left_after_a_second", d / (reach + 0.1));
    }
    double left = ref::norm(P{pull.c->bodyPos()} - to), mass = b->mass();
    ctx.max("left", left / (reach + 0.1)), ctx.max("overshoot", worst / (reach + 0.1)), ctx.max("mass", mass);
    ctx.count("brought");
    ctx.log("mass %g reach %g left %g worst %g", mass, reach, left, worst);
    VF_CHECK(ctx, left < 0.15 + 0.15 * reach, "not-brought", "held for %d frames at %g from where it was grabbed, a body of mass %g is still %g away", frames, reach, mass, left);
    VF_CHECK(ctx, worst < 0.05 + 1.1 * reach, "flung", "a body pulled by %g swings out to %g", reach, worst);
    VF_CHECK(ctx, all(other->velocity() == v0) && other->angularVelocity() == w0, "others", "another body changes its motion");
    // and when it is let go, it moves on freely
    t.frame(1 / 60., [&] { t.button(0, GLFW_RELEASE); });
    Vec2 v = b->velocity();
    float w = b->angularVelocity();
    t.frame(1 / 60., [&] { move(at); });
    VF_CHECK(ctx, all(b->velocity() == v) && b->angularVelocity() == w && pullIn(s.world()).live == 0, "not-released", "a body is still pulled after it is let go");
    Hash h;
    h.add(reach), h.add(mass);
    ctx.state(h);
}
} // namespace
VF_PROPERTY(S03)
{
    if (ctx.rng.chance(0.75)) drag(ctx);
    else bring(ctx);
}

// ---------------------------------------------------------------- S04
namespace
{
struct Shot
{
    std::vector<std::array<double, 6>> bodies;
    size_t constraints = 0, fields = 0;
    static Shot of(World& w)
    {
        Shot s;
        for (Body& b : w.bodies()) s.bodies.push_back({b.position()[0], b.position()[1], b.orientation(), b.velocity()[0], b.velocity()[1], b.angularVelocity()});
        for (auto& c : w.constraints()) (void)c, ++s.constraints;
        for (auto& f : w.forceFields()) (void)f, ++s.fields;
        return s;
    }
    bool operator==(const Shot& o) const { return bodies == o.bodies && constraints == o.constraints && fields == o.fields; }
};
struct Actor // what a scene should be
{
    std::shared_ptr<Stage::Hooks> hooks = std::make_shared<Stage::Hooks>();
    Stage* scene = nullptr;
    bool paused = false, visited = false;
    double speed = 1, flown = 0;
    int inits = 0;
    std::vector<double> want, got; // the steps of this frame
    Shot fresh;
    Body* comet = nullptr;
    P from, vel;
    std::string tool = "No Tool";
    bool settings = false;
    int vIter = 0, pIter = 0;
    bool warm = false;
    // the options of the box spawner
    float dims[2]{2, 2}, density = 1, friction = 0.5f, bounce = 0, degrees = 0, rgb[3]{225, 150, 240};
};
void controls(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Theatre t;
    int n = r.i(1, 3);
    std::vector<Actor> cast(static_cast<size_t>(n));
    static const char* names[] = {"A", "B", "C"};
    for (int k = 0; k < n; ++k)
    {
        Actor& a = cast[size_t(k)];
        uint64_t seed = r.next();
        Actor* pa = &a;
        a.hooks->init = [pa, seed](Stage& s, Renderer& g) {
            Rng q{seed};
            BodySpec d;
            d.pos = pa->from = P{q.d(-5, 5), q.d(-5, 5)};
            d.vel = pa->vel = P{q.d(-1, 1), q.d(-1, 1)};
            d.cols.push_back({shape(q, 1)});
            pa->comet = addBody<VisibleBody>(s.world(), d, rgba(Color{9, 9, 9, 255}), &g);
            pa->from = P{pa->comet->position()}, pa->vel = P{pa->comet->velocity()};
            for (int m = q.i(0, 3); m > 0; --m)
            {
                d.pos = P{1000 + 10.0 * m, 1000};
                d.angle = q.d(-3, 3), d.w = q.d(-1, 1);
                addBody<VisibleBody>(s.world(), d, rgba(Color{9, 9, 9, 255}), &g);
            }
            pa->flown = 0;
            if (pa->scene == nullptr) pa->fresh = Shot::of(s.world());
            pa->scene = &s;
        };
        a.hooks->pre = [pa](Stage&, float dt) { pa->got.push_back(dt); };
        t.app->registerScene<Stage>(names[k], a.hooks);
        if (k == 0) a.visited = true, a.inits = 1;
    }
    int cur = 0;
    Hash h;
    auto enter = [&](int k) {
        cast[size_t(cur)].visited = false; // it restarts when it is shown again
        cur = k;
        ++cast[size_t(k)].inits;
        cast[size_t(k)].visited = true;
    };
    auto stepOf = [&](Actor& a, double dt, bool running) {
        double d = std::min(dt, 1. / 60) * a.speed * running;
        a.want.push_back(d);
        a.flown += d;
    };
    for (int k = r.i(3, 30); k > 0; --k)
    {
        bool closes = false;
        for (auto& a : cast) a.want.clear(), a.got.clear();
        Actor* a = &cast[size_t(cur)];
        double dt = r.chance(0.3) ? r.d(0.02, 0.3) : r.logf_(1e-4, 0.0166);
        bool wantControls = r.chance(0.6);
        standin::gui.menus["Controls"] = wantControls;
        standin::gui.menus["Settings"] = false;
        bool options = r.chance(0.5);
        standin::gui.menus["Options"] = options;
        // with the settings window open, all settings are set
        bool settings = r.chance(0.25);
        int sv = r.i(0, 50), sp = r.i(0, 50);
        bool sw = r.chance(0.5);
        int enterTo = -1;
        std::string pick;
        std::vector<std::string> clicks;
        t.frame(dt, [&] {
            bool keyboard = standin::gui.wantKeyboard = r.chance(0.1);
            for (int m = r.chance(0.6) ? r.i(1, 3) : 0; m > 0; --m)
            {
                ctx.count("keys");
                switch (r.i(0, 9))
                {
                    case 0:
                        t.tap(Keyboard::Key::P);
                        if (!keyboard) a->paused = !a->paused;
                        break;
                    case 1:
                        t.tap(Keyboard::Key::minus);
                        if (!keyboard && a->speed > 0.01) a->speed /= 2;
                        else if (!keyboard) a->speed /= 2;
                        break;
                    case 2:
                        if (a->speed > 50) break;
                        t.tap(Keyboard::Key::equal);
                        if (!keyboard) a->speed *= 2;
                        break;
                    case 3:
                        t.tap(Keyboard::Key::R);
                        if (!keyboard)
                        {
                            ++a->inits;
                            VF_CHECK(ctx, Shot::of(a->scene->world()) == a->fresh, "restart", "restarting leaves something of the earlier run");
                            ctx.count("restarts");
                        }
                        break;
                    case 4:
                        t.tap(Keyboard::Key::escape);
                        if (!keyboard) closes = true;
                        break;
                    case 5:
                        t.key(int(Keyboard::Key::P), GLFW_RELEASE);
                        t.key(int(Keyboard::Key::R), GLFW_RELEASE);
                        t.key(int(Keyboard::Key::S), GLFW_RELEASE);
                        break;
                    case 6: t.tap(r.chance(0.5) ? Keyboard::Key::A : Keyboard::Key::D); break;
                    case 7: t.key(int(Keyboard::Key::P), GLFW_REPEAT), t.key(int(Keyboard::Key::minus), GLFW_REPEAT); break;
                    default:
                    {
                        t.key(int(Keyboard::Key::S), GLFW_PRESS);
                        int held = r.i(0, 2);
                        for (int q = 0; q < held; ++q) t.key(int(Keyboard::Key::S), GLFW_REPEAT);
                        t.key(int(Keyboard::Key::S), GLFW_RELEASE);
                        if (!keyboard)
                            for (int q = 0; q <= held; ++q) stepOf(*a, 1. / 60, true), ctx.count(a->paused ? "single_steps_paused" : "single_steps");
                        break;
                    }
                }
            }
            standin::gui.wantKeyboard = false;
            // a new box, as described
            if (a->tool == "Box Spawner" && r.chance(0.3))
            {
                auto& w = a->scene->world();
                std::set<Body*> before;
                for (Body& b : w.bodies()) before.insert(&b);
                Eye e = Eye::of(a->scene->camera());
                P at = e.scene(P{r.d(0.6, 0.95), r.d(0.6, 0.95)});
                P px = pixelOf(e, at);
                t.move(px.x, px.y);
                t.button(0, GLFW_PRESS);
                Body* made = nullptr;
                int more = 0;
                for (Body& b : w.bodies())
                    if (!before.count(&b)) made = &b, ++more;
                VF_CHECK(ctx, more == 1, "not-spawned", "%d boxes appear for one click", more);
                t.button(0, GLFW_RELEASE), t.button(1, GLFW_PRESS), t.button(1, GLFW_RELEASE);
                for (Body& b : w.bodies()) more -= !before.count(&b);
                VF_CHECK(ctx, more == 0, "spawned-again", "other buttons make boxes");
                const Collider& c = *made->colliders().begin();
                double turned = std::remainder(made->orientation() * 180 / PI - a->degrees, 180);
                VF_CHECK(ctx, std::abs(turned) < 1, "spawn-turned", "a box set to %g degrees appears at %g", a->degrees, made->orientation() * 180 / PI);
                VF_CHECK(ctx, std::abs(double(made->mass()) - double(a->dims[0]) * a->dims[1] * a->density) < 1e-3 * made->mass(), "spawn-mass", "a box of %g x %g and density %g has mass %g", a->dims[0], a->dims[1], a->density, made->mass());
                VF_CHECK(ctx, c.material().density == a->density && c.material().friction.value == a->friction && c.material().bounciness.value == a->bounce, "spawn-material", "a box of density %g friction %g bounciness %g appears with %g %g %g", a->density, a->friction, a->bounce, c.material().density, c.material().friction.value, c.material().bounciness.value);
                Poly p = worldPoly(c);
                std::array<double, 2> sides{ref::norm(p[1] - p[0]), ref::norm(p[2] - p[1])}, want{a->dims[0], a->dims[1]};
                std::sort(sides.begin(), sides.end()), std::sort(want.begin(), want.end());
                VF_CHECK(ctx, p.size() == 4 && std::abs(sides[0] - want[0]) < 1e-3 * (1 + want[1]) && std::abs(sides[1] - want[1]) < 1e-3 * (1 + want[1]), "spawn-shape", "a box of %g x %g appears as %g x %g", a->dims[0], a->dims[1], sides[0], sides[1]);
                VF_CHECK(ctx, near(P{made->centroid()}, at, 0.05), "spawn-place", "a box appears at %g %g instead of %g %g", made->centroid()[0], made->centroid()[1], at.x, at.y);
                made->kill();
                ctx.count("spawned");
            }
            // what is clicked in the windows of this frame
            if (settings)
            {
                standin::gui.menus["Settings"] = true;
                standin::gui.moved["Velocity iterations"] = {float(sv)};
                standin::gui.moved["Position iterations"] = {float(sp)};
                standin::gui.moved["Warmstarting"] = {float(sw)};
            }
            if (n > 1 && r.chance(0.15))
            {
                int to = r.i(0, n - 1);
                standin::gui.selected.insert(names[to]);
                if (to != cur) enterTo = to;
            }
            if (r.chance(0.2))
            {
                pick = r.pick(std::vector<std::string>{"No Tool", "Grabber", "Box Spawner"});
                standin::gui.selected.insert(pick);
            }
            if (enterTo < 0 && wantControls && r.chance(0.5)) clicks.push_back(r.pick(std::vector<std::string>{"-", "+", "Restart (R)", "Pause (P)", "Play (P)"}));
            if (!clicks.empty() && clicks[0] == "+" && a->speed > 50) clicks.clear();
            for (auto& c : clicks) standin::gui.clicked.insert(c);
            if (enterTo < 0 && options && a->tool == "Box Spawner" && pick.empty() && r.chance(0.5))
            {
                auto& m = standin::gui.moved;
                if (r.chance(0.4)) a->dims[0] = r.f(0.1, 5), a->dims[1] = r.f(0.1, 5), m["Dimensions"] = {a->dims[0], a->dims[1]};
                if (r.chance(0.4)) a->density = r.f(0.1, 100), m["Density"] = {a->density};
                if (r.chance(0.4)) a->friction = r.f(0, 1), m["Friction"] = {a->friction};
                if (r.chance(0.4)) a->bounce = r.f(0, 1), m["Bounciness"] = {a->bounce};
                if (r.chance(0.5)) a->degrees = float(r.i(-180, 180)), m["Orientation"] = {a->degrees};
                if (r.chance(0.4))
                {
                    for (float& c : a->rgb) c = float(r.i(0, 255));
                    m["Color"] = {a->rgb[0] / 255, a->rgb[1] / 255, a->rgb[2] / 255};
                }
                ctx.count("options_moved");
            }
        });
        if (enterTo >= 0) enter(enterTo), ctx.count("scenes_changed");
        a = &cast[size_t(cur)];
        if (settings) a->settings = true, a->vIter = sv, a->pIter = sp, a->warm = sw;
        bool wasPaused = a->paused;
        auto& shown = standin::gui.buttons;
        auto offered = [&](const char* b) { return std::find(shown.begin(), shown.end(), b) != shown.end(); };
        if (wantControls)
        {
            VF_CHECK(ctx, offered(wasPaused ? "Play (P)" : "Pause (P)") && !offered(wasPaused ? "Pause (P)" : "Play (P)"), "pause-label", "the controls of a scene which is %s do not offer to %s", wasPaused ? "paused" : "playing", wasPaused ? "play" : "pause");
            ctx.count(wasPaused ? "play_offered" : "pause_offered");
        }
        else VF_CHECK(ctx, !offered("+"), "hidden-controls", "a closed window shows");
        for (auto& c : clicks)
        {
            if (!offered(c.c_str())) continue;
            ctx.count("clicks");
            if (c == "-") a->speed /= 2;
            else if (c == "+") a->speed *= 2;
            else if (c == "Restart (R)") ++a->inits;
            else a->paused = !a->paused;
        }
        if (!pick.empty()) a->tool = pick;
        // the step of the frame is the last one
        stepOf(*a, float(dt), !a->paused);
        for (int q = 0; q < n; ++q)
        {
            Actor& x = cast[size_t(q)];
            VF_CHECK(ctx, x.hooks->inits == x.inits, "inits", "scene %s was started %d times instead of %d", names[q], x.hooks->inits, x.inits);
            VF_CHECK(ctx, x.want.size() == x.got.size(), "steps", "scene %s makes %zu steps in a frame instead of %zu", names[q], x.got.size(), x.want.size());
            for (size_t i = 0; i < x.want.size(); ++i)
                VF_CHECK(ctx, std::abs(x.want[i] - x.got[i]) <= 1e-5 * (x.want[i] + 1e-9), "step-length", "a frame of %g at speed %g %s advances %g instead of %g", dt, x.speed, x.paused ? "paused" : "playing", x.got[i], x.want[i]);
            ctx.count("steps", double(x.want.size()));
            if (x.scene == nullptr || !x.visited) continue;
            VF_CHECK(ctx, x.scene->isPaused() == x.paused && std::abs(x.scene->playSpeed() - x.speed) <= 1e-5 * x.speed, "state", "scene %s is %s at speed %g instead of %s at %g", names[q], x.scene->isPaused() ? "paused" : "playing", x.scene->playSpeed(), x.paused ? "paused" : "playing", x.speed);
            VF_CHECK(ctx, x.scene->currentTool()->getName() == x.tool, "tool", "the tool is %s instead of %s", x.scene->currentTool()->getName(), x.tool.c_str());
            P is{x.comet->position()}, should = x.from + x.vel * x.flown;
            VF_CHECK(ctx, near(is, should, 1e-3 + 1e-4 * x.flown), "flown", "after %g s a body with velocity %g %g is %g %g away from where it should be", x.flown, x.vel.x, x.vel.y, is.x - should.x, is.y - should.y);
            auto s = x.scene->world().settings();
            if (x.settings)
            {
                ctx.count("settings");
                VF_CHECK(ctx, int(s.nVelocityIterations) == x.vIter && int(s.nPositionIterations) == x.pIter && s.enableWarmstarting == x.warm, "settings", "the settings are %d %d %d instead of %d %d %d", int(s.nVelocityIterations), int(s.nPositionIterations), s.enableWarmstarting, x.vIter, x.pIter, x.warm);
            }
            BoxSpawner& b = *x.scene->spawner;
            VF_CHECK(ctx, b.dims[0] == x.dims[0] && b.dims[1] == x.dims[1] && b.density == x.density && b.friction == x.friction && b.bounciness == x.bounce, "options", "the options of the spawner are not the chosen ones");
            double off = std::abs(std::remainder(b.orientation * 180 / PI - x.degrees, 180));
            VF_CHECK(ctx, off < 1, "orientation", "the orientation is %g degrees instead of %g", b.orientation * 180 / PI, x.degrees);
            for (int i = 0; i < 3; ++i) VF_CHECK(ctx, std::abs(double(b.color[size_t(i)]) - x.rgb[i]) <= 1, "color", "colour %d is %d instead of %g", i, int(b.color[size_t(i)]), x.rgb[i]);
        }
        // the settings window is shared: what it says also goes to the next scene it is opened for
        if (settings)
            for (auto& x : cast)
                if (&x != a) x.settings = false;
        VF_CHECK(ctx, t.closed == closes, "closes", "the window %s", closes ? "stays open after Escape" : "closes");
        if (closes) ctx.count("closed");
        Eye e = Eye::of(t.app->scene()->camera());
        VF_CHECK(ctx, std::abs(e.w - standin::glfw.w * e.pixel) < 1e-3 * e.w && std::abs(e.h - standin::glfw.h * e.pixel) < 1e-3 * e.h, "fits-window", "a scene shows %g x %g in a window of %d x %d", e.w, e.h, standin::glfw.w, standin::glfw.h);
        VF_CHECK(ctx, t.app->scene() == cast[size_t(cur)].scene, "scene", "another scene is shown");
        if (r.chance(0.1))
        {
            int w = r.i(50, 2000), hh = r.i(50, 2000);
            for (auto& x : cast) x.want.clear(), x.got.clear();
            standin::gui.menus["Settings"] = false;
            t.frame(0.001, [&] { t.resize(w, hh); });
            stepOf(*a, 0.001f, !a->paused);
            ctx.count("resized");
        }
        h.add(a->flown), h.add(uint64_t(cur));
        
    }
    ctx.state(h);
}
} // namespace
VF_PROPERTY(S04) { controls(ctx); }

// ---------------------------------------------------------------- S05
namespace
{
struct Demo
{
    const char* name;
    std::map<std::string, std::vector<float>> options;
};
bool finite(World& w)
{
    for (Body& b : w.bodies())
        if (!(std::isfinite(b.position()[0]) && std::isfinite(b.position()[1]) && std::isfinite(b.orientation()) && std::isfinite(b.velocity()[0]) && std::isfinite(b.velocity()[1]) && std::isfinite(b.angularVelocity()))) return false;
    return true;
}
void registerDemos(Application& a, int first)
{
    for (int k = 0; k < 5; ++k)
        switch ((k + first) % 5)
        {
            case 0: a.registerScene<BoxStacks>("Box stacks"); break;
            case 1: a.registerScene<NewtonPendulum>("Newton's Pendulum"); break;
            case 2: a.registerScene<Pyramid>("Pyramid"); break;
            case 3: a.registerScene<Tower>("Tower"); break;
            default: a.registerScene<Tumbler>("Tumbler");
        }
}
// set the options of the current demo and start it again
void choose(Theatre& t, const std::map<std::string, std::vector<float>>& options)
{
    standin::gui.menus["Options"] = true;
    t.frame(0, [&] { for (auto& [k, v] : options) standin::gui.moved[k] = v; });
    for (auto& [k, v] : options)
        if (standin::gui.shown.count(k) == 0) throw CaseFail{"no-option", std::string{"a demo does not offer "} + k};
    t.frame(0, [&] { t.tap(Keyboard::Key::R); });
    standin::gui.menus["Options"] = false;
}
std::vector<Body*> bodiesOf(World& w, bool moving)
{
    std::vector<Body*> v;
    for (Body& b : w.bodies())
        if (b.isStructural() != moving) v.push_back(&b);
    return v;
}
double energyOf(const std::vector<Body*>& bs, double g)
{
    double e = 0;
    for (Body* b : bs) e += b->mass() * (g * b->centroid()[1] + ref::dot(P{b->velocity()}, P{b->velocity()}) / 2) + double(b->inertia()) * b->angularVelocity() * b->angularVelocity() / 2;
    return e;
}
void watch(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Theatre t;
    int which = r.i(0, 4);
    registerDemos(*t.app, which);
    World& w = t.app->scene()->world();
    const double dt = 1 / 60.;
    Hash h;
    h.add(uint64_t(which));
    switch (which)
    {
        case 0:
        {
            int stacks = r.i(1, 4), height = r.i(1, 8);
            choose(t, {{"Number of stacks", {float(stacks)}}, {"Stack height", {float(height)}}});
            auto all = bodiesOf(w, true);
            VF_CHECK(ctx, int(all.size()) == stacks * height, "boxes", "%d stacks of %d are made of %zu boxes", stacks, height, all.size());
            std::vector<P> from;
            for (Body* b : all) from.push_back(P{b->centroid()});
            for (int k = 0; k < 240; ++k)
            {
                t.frame(dt);
                for (size_t i = 0; i < all.size(); ++i)
                {
                    P c{all[i]->centroid()};
                    ctx.max("stack_shift", std::abs(c.x - from[i].x)), ctx.max("stack_sink", std::abs(c.y - from[i].y) / height);
                    VF_CHECK(ctx, std::abs(c.x - from[i].x) < 0.2 && std::abs(c.y - from[i].y) < 0.05 + 0.05 * height && std::abs(all[i]->orientation()) < 0.1, "stack-moves", "after %d frames a box of a stack of %d is moved by %g %g and turned by %g", k, height, c.x - from[i].x, c.y - from[i].y, all[i]->orientation());
                }
            }
            ctx.count("stacks_watched");
            h.add(uint64_t(stacks * 100 + height));
            break;
        }
        case 1:
        {
            int n = r.i(1, 8), push = r.i(0, n);
            float radius = r.f(0.5, 2), length = r.f(2, 12);
            int precision = r.i(8, 60);
            choose(t, {{"Number of circles", {float(n)}}, {"Radius", {radius}}, {"String length", {length}}, {"Circle precision", {float(precision)}}, {"Push how many?", {float(push)}}});
            auto all = bodiesOf(w, true);
            VF_CHECK(ctx, int(all.size()) == n, "circles", "%zu circles instead of %d", all.size(), n);
            double top = radius + length;
            std::vector<P> hang;
            for (Body* b : all) hang.push_back(P{b->centroid()[0], top});
            double e0 = energyOf(all, 10), m = 0, dissipated = 0;
            for (Body* b : all) m += b->mass();
            double scale = m * 100; // the energy of a push
            for (int k = 0; k < 180; ++k)
            {
                t.frame(dt);
                VF_CHECK(ctx, finite(w), "not-finite", "a circle has no place");
                for (size_t i = 0; i < all.size(); ++i)
                {
                    double lt = ref::norm(worldOf(all[i], P{0, radius}) - hang[i]);
                    ctx.max("string_stretch", (lt - length) / (length + 1));
                    VF_CHECK(ctx, lt < length * 1.1 + 0.2, "string", "a string of %g is %g long after %d frames", length, lt, k);
                }
                double e = energyOf(all, 10);
                ctx.max("pendulum_gain", (e - e0) / scale);
                dissipated = (e0 - e) / scale;
                VF_CHECK(ctx, e < e0 + 0.1 * scale, "pendulum-energy", "after %d frames the pendulum has gained %g of %g", k, e - e0, scale);
            }
            ctx.max("pendulum_loss", dissipated);
            ctx.count("pendulums_watched");
            h.add(uint64_t(n * 100 + push)), h.add(length);
            break;
        }
        case 2:
        {
            int height = r.i(1, 8);
            float spacing = r.f(0, 1);
            choose(t, {{"Height", {float(height)}}, {"Spacing", {spacing}}});
            auto all = bodiesOf(w, true);
            VF_CHECK(ctx, int(all.size()) == height * (height + 1) / 2, "pyramid", "a pyramid of %d has %zu boxes", height, all.size());
            double lo = 1e9, hi = -1e9, up = 0;
            for (Body* b : all) lo = std::min(lo, double(b->centroid()[0])), hi = std::max(hi, double(b->centroid()[0])), up = std::max(up, double(b->centroid()[1]));
            for (int k = 0; k < 240; ++k)
            {
                t.frame(dt);
                VF_CHECK(ctx, finite(w), "not-finite", "a box has no place");
                for (Body* b : all)
                {
                    P c{b->centroid()};
                    ctx.max("pyramid_below", -c.y), ctx.max("pyramid_spread", std::max(lo - c.x, c.x - hi)), ctx.max("pyramid_up", c.y - up);
                    VF_CHECK(ctx, c.y > -0.3 && c.y < up + 0.2 && c.x > lo - 1 && c.x < hi + 1, "pyramid-falls", "after %d frames a box of a pyramid of %d is at %g %g", k, height, c.x, c.y);
                }
            }
            ctx.count("pyramids_watched");
            h.add(uint64_t(height)), h.add(spacing);
            break;
        }
        case 3:
        {
            int height = r.i(1, 6);
            choose(t, {{"Height", {float(height)}}});
            auto all = bodiesOf(w, true);
            VF_CHECK(ctx, int(all.size()) == 3 * height, "slabs", "a tower of %d has %zu slabs", height, all.size());
            std::vector<P> from;
            std::vector<double> turn;
            for (Body* b : all) from.push_back(P{b->centroid()}), turn.push_back(b->orientation());
            for (int k = 0; k < 240; ++k)
            {
                t.frame(dt);
                for (size_t i = 0; i < all.size(); ++i)
                {
                    P c{all[i]->centroid()};
                    double off = ref::norm(c - from[i]), turned = std::abs(all[i]->orientation() - turn[i]);
                    ctx.max("tower_shift", off), ctx.max("tower_turn", turned);
                    VF_CHECK(ctx, off < 0.1 + 0.05 * height && turned < 0.1, "tower-moves", "after %d frames a slab of a tower of %d is moved by %g and turned by %g", k, height, off, turned);
                }
            }
            ctx.count("towers_watched");
            h.add(uint64_t(height));
            break;
        }
        default:
        {
            int most = r.i(1, 250), frames = r.i(100, 300);
            choose(t, {{"Max boxes", {float(most)}}});
            Body* drum = bodiesOf(w, false).at(0);
            size_t before = bodiesOf(w, true).size();
            double a0 = drum->orientation();
            for (int k = 0; k < frames; ++k)
            {
                t.frame(dt);
                VF_CHECK(ctx, finite(w), "not-finite", "a box has no place");
                auto all = bodiesOf(w, true);
                VF_CHECK(ctx, all.size() == std::min(before + size_t(k) + 1, size_t(most)), "tumbler-boxes", "after %d frames there are %zu boxes of at most %d", k + 1, all.size(), most);
                for (Body* b : all)
                {
                    P c{b->centroid()};
                    P l = rot(c - P{drum->centroid()}, -double(drum->orientation()));
                    double out = std::max(std::abs(l.x), std::abs(l.y));
                    ctx.max("tumbler_reach", out);
                    VF_CHECK(ctx, out < 10, "tumbler-leaks", "after %d frames a box is at %g %g of the drum", k, l.x, l.y);
                }
            }
            double turned = drum->orientation() - a0, want = -0.05 * PI * frames * dt;
            ctx.max("tumbler_turn_error", std::abs(turned / want - 1));
            VF_CHECK(ctx, std::abs(turned - want) < 0.05 * std::abs(want) + 0.02, "tumbler-turns", "after %d frames the drum is turned by %g instead of %g", frames, turned, want);
            VF_CHECK(ctx, near(P{drum->position()}, P{}, 1e-3), "tumbler-moves", "the drum moves to %g %g", drum->position()[0], drum->position()[1]);
            ctx.count("tumblers_watched"), ctx.count("boxes_tumbled", double(most));
            h.add(uint64_t(most * 1000 + frames));
        }
    }
    VF_CHECK(ctx, finite(w), "not-finite", "a body has no place");
    ctx.state(h);
}
void play(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Theatre t;
    registerDemos(*t.app, r.i(0, 4));
    static const char* names[] = {"Box stacks", "Newton's Pendulum", "Pyramid", "Tower", "Tumbler"};
    std::map<std::string, std::vector<float>> small{{"Number of stacks", {2}}, {"Stack height", {4}}, {"Number of circles", {4}}, {"Height", {4}}, {"Max boxes", {60}}};
    standin::gui.menus["Options"] = standin::gui.menus["Controls"] = true;
    t.frame(0, [&] { standin::gui.moved = small; });
    t.frame(0, [&] { t.tap(Keyboard::Key::R); });
    double x = 320, y = 240;
    Hash h;
    for (int k = r.i(20, 150); k > 0; --k)
    {
        bool restart = false;
        t.frame(r.chance(0.9) ? 1 / 60. : r.d(0, 0.1), [&] {
            if (r.chance(0.5))
            {
                x += r.d(-40, 40), y += r.d(-40, 40);
                if (r.chance(0.1)) x = r.d(0, 640), y = r.d(0, 480);
                if (r.chance(0.3))
                {
                    // at one of the bodies
                    std::vector<Body*> all = bodiesOf(t.app->scene()->world(), true);
                    if (!all.empty())
                    {
                        P px = pixelOf(Eye::of(t.app->scene()->camera()), P{r.pick(all)->centroid()});
                        x = px.x, y = px.y;
                    }
                }
                t.move(x, y);
            }
            if (r.chance(0.15)) t.button(r.chance(0.9) ? 0 : 1, GLFW_PRESS), ctx.count("presses");
            if (r.chance(0.1)) t.button(0, GLFW_RELEASE);
            if (r.chance(0.05)) t.scroll(0, r.chance(0.5) ? 1 : -1);
            if (r.chance(0.03)) t.tap(r.pick(std::vector<Keyboard::Key>{Keyboard::Key::P, Keyboard::Key::S, Keyboard::Key::R, Keyboard::Key::minus}));
            if (r.chance(0.02)) standin::gui.selected.insert(names[r.i(0, 4)]), restart = true, ctx.count("scene_changes");
            if (r.chance(0.05)) standin::gui.selected.insert(r.pick(std::vector<std::string>{"No Tool", "Grabber", "Box Spawner"}));
            if (r.chance(0.05)) standin::gui.moved = small, standin::gui.moved["Dimensions"] = {r.f(0.1, 5), r.f(0.1, 5)}, standin::gui.moved["Density"] = {r.f(0.1, 100)};
            if (r.chance(0.01)) standin::gui.clicked.insert("Reset profiler");
        });
        World& w = t.app->scene()->world();
        VF_CHECK(ctx, finite(w), "not-finite", "a body has no place");
        size_t n = 0;
        for (Body& b : w.bodies()) (void)b, ++n;
        VF_CHECK(ctx, n > 0, "empty", "the scene is empty");
        ctx.count("frames"), ctx.max("bodies", double(n));
        for (auto& d : t.draws)
            for (auto& v : d.vertices) VF_CHECK(ctx, std::isfinite(v.x) && std::isfinite(v.y), "draws-nothing", "something is drawn at no place");
        h.add(uint64_t(n)), h.add(x);
        if (restart)
        {
            // the new scene, made small
            t.frame(0, [&] { standin::gui.moved = small; });
            t.frame(0, [&] { t.tap(Keyboard::Key::R); });
        }
    }
    ctx.state(h);
}
} // namespace
VF_PROPERTY(S05)
{
    if (ctx.rng.chance(0.6)) watch(ctx);
    else play(ctx);
}

// ---------------------------------------------------------------- S06
namespace
{
typedef std::chrono::steady_clock Watch;
void busy(double seconds)
{
    auto until = Watch::now() + std::chrono::duration<double>(seconds);
    while (Watch::now() < until) {}
}
struct Slow
{
    double velocity = 0, position = 0, narrow = 0, tree = 0, outside = 0;
};
struct SlowRope : public DistanceConstraint
{
    Slow& slow;
    SlowRope(const Bodies& b, const std::array<Vec2, 2>& at, Slow& s) : DistanceConstraint{b, at}, slow{s} {}
    void preStep() override
    {
        if (slow.outside > 0) busy(slow.outside);
        DistanceConstraint::preStep();
    }
    void solveVelocities(Proxies& p, float dt) override
    {
        if (slow.velocity > 0) busy(slow.velocity);
        DistanceConstraint::solveVelocities(p, dt);
    }
    void solvePositions(Proxies& p) override
    {
        if (slow.position > 0) busy(slow.position);
        DistanceConstraint::solvePositions(p);
    }
};
struct SlowContact : public ContactConstraint
{
    Slow& slow;
    SlowContact(Collider& a, Collider& b, Slow& s) : ContactConstraint{a, b}, slow{s} { if (slow.tree > 0) busy(slow.tree); }
    void preStep() override
    {
        if (slow.narrow > 0) busy(slow.narrow);
        ContactConstraint::preStep();
    }
};
void figures(Ctx& ctx)
{
    Rng& r = ctx.rng;
    Theatre t;
    auto hooks = std::make_shared<Stage::Hooks>();
    Slow slow;
    int nBodies = r.i(2, 25);
    uint64_t seed = r.next();
    size_t colliders = 0;
    hooks->init = [&](Stage& s, Renderer&) {
        Rng q{seed};
        colliders = 0;
        s.world().setContactFactory([&](Collider& a, Collider& b, const World::ContactAlloc& al) { return makeUnique<SlowContact>(al, a, b, slow); });
        std::vector<Body*> all;
        for (int k = 0; k < nBodies; ++k)
        {
            BodySpec b;
            // the first two meet in every step
            b.pos = k < 2 ? P{0.3 * k, 0} : P{5 + 3.0 * k, q.d(-3, 3)};
            b.cols.push_back({shape(q, k < 2 ? 2 : 1)});
            all.push_back(addBody(s.world(), b));
            ++colliders;
        }
        BodySpec a;
        a.pos = P{-50, 0}, a.cols.push_back({shape(q, 1)});
        Body* x = addBody(s.world(), a);
        a.pos = P{-40, 0};
        Body* y = addBody(s.world(), a);
        colliders += 2;
        s.world().makeConstraint<SlowRope>(Bodies{x, y}, std::array<Vec2, 2>{x->centroid(), y->centroid()}, slow);
    };
    t.app->registerScene<Stage>("stage", hooks);
    Stage& s = stage(t);
    struct Book
    {
        long n = 0;
        double sum = 0, most = 0;
    };
    Profiler& p = s.world().profiler();
    std::array<const TimeEntry*, 5> rows{&p.islandConstruction, &p.solveVelocities, &p.solvePositions, &p.treeUpdateAndCollision, &p.narrowPhaseCollision};
    static const char* names[] = {"Island construction", "Solve velocities", "Solve Positions", "Tree update and collision", "Narrow phase collision"};
    std::array<Book, 5> book;
    Watch::time_point began;
    hooks->pre = [&](Stage&, float) { began = Watch::now(); };
    Hash h;
    bool stepped = false;
    hooks->post = [&](Stage&, float dt) {
        double wall = std::chrono::duration<double>(Watch::now() - began).count(), total = 0;
        for (int k = 0; k < 5; ++k)
        {
            const TimeEntry& e = *rows[size_t(k)];
            Book& b = book[size_t(k)];
            bool measured = dt > 0 || k == 4;
            if (measured)
            {
                ++b.n;
                b.sum += e.last(), b.most = std::max(b.most, e.last());
                total += e.last();
                ctx.count("measured");
            }
            VF_CHECK(ctx, e.nMeasures() == b.n, "measures", "%s was measured %ld times in %ld steps", names[k], long(e.nMeasures()), b.n);
            VF_CHECK(ctx, !measured || (e.last() >= 0 && e.last() <= wall), "lasts", "%s took %g of a step of %g", names[k], e.last(), wall);
            VF_CHECK(ctx, e.max() == b.most, "max", "%s took %g at most instead of %g", names[k], e.max(), b.most);
            double mean = b.n ? b.sum / double(b.n) : 0;
            VF_CHECK(ctx, std::abs(e.average() - mean) <= 1e-9 * mean + 1e-15, "average", "%s took %g on average instead of %g", names[k], e.average(), mean);
        }
        VF_CHECK(ctx, total <= wall * (1 + 1e-9), "parts", "the parts of a step took %g and the step %g", total, wall);
        if (dt > 0)
        {
            auto st = s.world().settings();
            VF_CHECK(ctx, rows[1]->last() >= slow.velocity * st.nVelocityIterations, "slow-velocities", "%g s spent on velocities are reported as %g", slow.velocity * st.nVelocityIterations, rows[1]->last());
            if (slow.velocity > 0) ctx.count("slow_velocities");
            if (st.nPositionIterations == 0) ctx.count("no_positions");
            if (slow.position > 0 && st.nPositionIterations > 0)
            {
                ctx.count("slow_positions");
                VF_CHECK(ctx, rows[2]->last() >= slow.position, "slow-positions", "at least %g s spent on positions are reported as %g", slow.position, rows[2]->last());
            }
            // a tree of n leaves is at least that high, and this one is balanced
            unsigned height = p.treeHeight;
            double low = std::log2(double(colliders));
            VF_CHECK(ctx, height + 1e-9 >= low && height < 3 * low + 3, "height", "a tree of %zu colliders has height %u", colliders, height);
        }
        if (slow.narrow > 0 && stepped)
        {
            VF_CHECK(ctx, rows[4]->last() >= slow.narrow, "slow-contacts", "%g s spent on contacts are reported as %g", slow.narrow, rows[4]->last());
            ctx.count("slow_contacts");
        }
        if (slow.tree > 0 && dt > 0 && !stepped)
        {
            VF_CHECK(ctx, rows[3]->last() >= slow.tree, "slow-tree", "%g s spent on finding contacts are reported as %g", slow.tree, rows[3]->last());
            ctx.count("slow_tree");
        }
        stepped = stepped || dt > 0;
    };
    for (int k = r.i(2, 10); k > 0; --k)
    {
        slow = Slow{};
        if (r.chance(0.4)) (r.chance(0.5) ? slow.velocity : slow.position) = r.d(1e-5, 2e-4);
        if (r.chance(0.3)) slow.narrow = r.d(1e-5, 2e-4);
        if (r.chance(0.3)) slow.tree = r.d(1e-5, 2e-4);
        if (r.chance(0.2)) slow.outside = r.d(1e-5, 2e-4);
        if (r.chance(0.1)) t.frame(0, [&] { t.tap(Keyboard::Key::R); stepped = false; });
        if (r.chance(0.2))
        {
            auto st = s.world().settings();
            st.nVelocityIterations = unsigned(r.i(0, 10)), st.nPositionIterations = unsigned(r.chance(0.5) ? 0 : r.i(0, 4));
            s.world().updateSettings(st);
        }
        std::array<std::array<double, 3>, 5> shown;
        double dt = r.d(0.001, 0.1);
        t.frame(dt, [&] {
            if (r.chance(0.1)) t.tap(Keyboard::Key::P);
            for (size_t i = 0; i < 5; ++i) shown[i] = {rows[i]->last(), rows[i]->average(), rows[i]->max()};
            if (r.chance(0.1))
            {
                standin::gui.clicked.insert("Reset profiler");
                for (Book& b : book) b = Book{};
                ctx.count("profiler_resets");
            }
        });
        // what the window said at the start of the frame
        auto& texts = standin::gui.texts;
        char text[100];
        float fdt = float(dt);
        snprintf(text, sizeof text, "%.3f ms/frame (%.1f FPS)", double(1000.0f * fdt), double(1.f / fdt));
        VF_CHECK(ctx, std::find(texts.begin(), texts.end(), text) != texts.end(), "frame-rate", "the window does not say %s", text);
        for (size_t i = 0; i < 5; ++i)
        {
            auto at = std::find(texts.begin(), texts.end(), names[i]);
            VF_CHECK(ctx, at != texts.end() && texts.end() - at > 3, "row", "there is no row %s", names[i]);
            for (int c = 0; c < 3; ++c)
            {
                snprintf(text, sizeof text, "%.3f", shown[i][size_t(c)] * 1000);
                VF_CHECK(ctx, at[1 + c] == text, "shown", "the window says %s for %s which is %s", at[1 + c].c_str(), names[i], text);
                ctx.count("shown");
            }
        }
        h.add(dt);
    }
    ctx.state(h);
}
} // namespace
VF_PROPERTY(S06) { figures(ctx); }
