#pragma once
#include "standin.hpp"
#include <cstdarg>
#include <cstdio>
struct ImVec2 { float x = 0, y = 0; float& operator[](size_t i) { return i == 0 ? x : y; } ImVec2() = default; ImVec2(float a, float b) : x{a}, y{b} {} };
struct ImVec4 { float x = 0, y = 0, z = 0, w = 0; };
typedef unsigned ImGuiID;
typedef int ImGuiDir;
enum { ImGuiDir_Left = 0, ImGuiDir_Right, ImGuiDir_Up, ImGuiDir_Down };
enum { ImGuiDockNodeFlags_PassthruCentralNode = 8, ImGuiDockNodeFlags_DockSpace = 1024 };
enum { ImGuiConfigFlags_NavEnableKeyboard = 1, ImGuiConfigFlags_DockingEnable = 64, ImGuiConfigFlags_ViewportsEnable = 1024 };
enum { ImGuiWindowFlags_AlwaysAutoResize = 64 };
enum { ImGuiTableFlags_Borders = 1920 };
enum { ImGuiCol_WindowBg = 2, ImGuiCol_COUNT = 60 };
#define IMGUI_CHECKVERSION() (void)0
struct ImGuiIO { int ConfigFlags = 0; bool WantCaptureKeyboard = false, WantCaptureMouse = false; };
struct ImGuiStyle { ImVec4 Colors[ImGuiCol_COUNT]; };
struct ImGuiViewport { ImVec2 WorkSize{640, 480}; };
struct ImDrawData {};
namespace ImGui
{
#define SU standin::gui
inline ImGuiIO io;
inline ImGuiStyle style;
inline ImGuiViewport viewport;
inline ImDrawData drawData;
inline void inFrame() { standin::expect(SU.contexts == 1 && SU.frame, "a widget outside of a frame"); }
inline void close(const char* what)
{
    inFrame();
    standin::expect(!SU.open.empty() && SU.open.back() == what, "an ImGui scope is not closed in order");
    SU.open.pop_back();
}
inline void CreateContext() { ++SU.contexts; io = {}; }
inline void DestroyContext() { standin::expect(SU.contexts == 1, "no context"), --SU.contexts; }
inline ImGuiIO& GetIO()
{
    standin::expect(SU.contexts == 1, "no context");
    io.WantCaptureKeyboard = SU.wantKeyboard, io.WantCaptureMouse = SU.wantMouse;
    return io;
}
inline ImGuiStyle& GetStyle() { return style; }
inline void StyleColorsDark() {}
inline ImGuiViewport* GetMainViewport() { return &viewport; }
inline ImGuiID DockSpaceOverViewport(ImGuiID, ImGuiViewport*, int) { return inFrame(), 1; }
inline void NewFrame()
{
    standin::expect(SU.contexts == 1 && !SU.frame, "a frame in a frame");
    SU.frame = true;
    ++SU.frames;
    SU.shown.clear(), SU.items.clear(), SU.buttons.clear(), SU.texts.clear(), SU.selectables.clear();
}
inline void Render()
{
    inFrame();
    standin::expect(SU.open.empty(), "an ImGui scope was left open");
    SU.frame = false, SU.rendered = true;
    SU.clicked.clear(), SU.selected.clear(), SU.moved.clear();
}
inline ImDrawData* GetDrawData() { return standin::expect(SU.rendered, "nothing rendered"), &drawData; }
inline void UpdatePlatformWindows() {}
inline void RenderPlatformWindowsDefault() {}
inline bool BeginMainMenuBar() { return inFrame(), SU.open.push_back("bar"), true; }
inline void EndMainMenuBar() { close("bar"); }
inline bool BeginMenu(const char*) { return inFrame(), SU.open.push_back("menu"), true; }
inline void EndMenu() { close("menu"); }
inline bool MenuItem(const char* label, const char*, bool* p)
{
    inFrame();
    SU.items[label] = *p;
    auto it = SU.menus.find(label);
    if (it == SU.menus.end() || *p == it->second) return false;
    *p = it->second;
    return true;
}
inline bool Begin(const char* name, bool* = nullptr, int = 0) { return inFrame(), SU.open.push_back(std::string{"window"}), true; }
inline void End() { close("window"); }
inline bool Selectable(const char* label, bool* p)
{
    inFrame();
    SU.selectables.push_back(label);
    if (!SU.selected.count(label)) return false;
    *p = !*p;
    return true;
}
inline void Text(const char* fmt, ...)
{
    inFrame();
    char b[256];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    SU.texts.push_back(b);
}
inline bool BeginTable(const char*, int, int) { return inFrame(), SU.open.push_back("table"), true; }
inline void EndTable() { close("table"); }
inline void TableSetupColumn(const char*) { inFrame(); }
inline void TableHeadersRow() { inFrame(); }
inline void TableNextRow() { inFrame(); }
inline bool TableNextColumn() { return inFrame(), true; }
inline void Separator() { inFrame(); }
inline void SameLine() { inFrame(); }
inline void PushItemWidth(float) { inFrame(); }
inline bool Button(const char* label) { return inFrame(), SU.buttons.push_back(label), SU.clicked.count(label) != 0; }
inline bool Checkbox(const char* label, bool* p)
{
    inFrame();
    SU.shown[label] = {float(*p)};
    auto it = SU.moved.find(label);
    if (it == SU.moved.end()) return false;
    *p = it->second[0] != 0;
    return true;
}
inline bool SliderInt(const char* label, int* p, int lo, int hi)
{
    inFrame();
    SU.shown[label] = {float(*p)};
    auto it = SU.moved.find(label);
    if (it == SU.moved.end()) return false;
    int v = int(it->second[0]);
    *p = v < lo ? lo : v > hi ? hi : v;
    return true;
}
inline bool sliderN(const char* label, float* p, int n, float lo, float hi)
{
    inFrame();
    SU.shown[label].assign(p, p + n);
    auto it = SU.moved.find(label);
    if (it == SU.moved.end()) return false;
    for (int k = 0; k < n && size_t(k) < it->second.size(); ++k) p[k] = it->second[k] < lo ? lo : it->second[k] > hi ? hi : it->second[k];
    return true;
}
inline bool SliderFloat(const char* label, float* p, float lo, float hi) { return sliderN(label, p, 1, lo, hi); }
inline bool SliderFloat2(const char* label, float* p, float lo, float hi) { return sliderN(label, p, 2, lo, hi); }
inline bool ColorEdit3(const char* label, float* p) { return sliderN(label, p, 3, 0, 1); }
// the rest of the interface that such a program may as well use
inline bool Button(const char* label, ImVec2) { return Button(label); }
inline bool SmallButton(const char* label) { return Button(label); }
inline bool Selectable(const char* label, bool selected = false) { return Selectable(label, &selected); }
inline bool MenuItem(const char* label, const char* shortcut = nullptr, bool selected = false)
{
    bool p = selected;
    return MenuItem(label, shortcut, &p);
}
inline void TextUnformatted(const char* t, const char* = nullptr) { inFrame(), SU.texts.push_back(t); }
inline void Spacing() { inFrame(); }
inline void NewLine() { inFrame(); }
inline void Dummy(ImVec2) { inFrame(); }
inline void Indent(float = 0) { inFrame(); }
inline void Unindent(float = 0) { inFrame(); }
inline void PopItemWidth() { inFrame(); }
inline void SetNextItemWidth(float) { inFrame(); }
inline bool TableSetColumnIndex(int) { return inFrame(), true; }
inline void BeginDisabled(bool = true) { inFrame(), SU.open.push_back("disabled"); }
inline void EndDisabled() { close("disabled"); }
inline void BeginGroup() { inFrame(), SU.open.push_back("group"); }
inline void EndGroup() { close("group"); }
inline bool DragFloat(const char* label, float* p, float = 1, float lo = -1e30f, float hi = 1e30f) { return sliderN(label, p, 1, lo, hi); }
inline bool InputFloat(const char* label, float* p) { return sliderN(label, p, 1, -1e30f, 1e30f); }
inline bool InputInt(const char* label, int* p) { return SliderInt(label, p, -2000000000, 2000000000); }
inline bool SliderFloat3(const char* label, float* p, float lo, float hi) { return sliderN(label, p, 3, lo, hi); }
inline bool SliderFloat4(const char* label, float* p, float lo, float hi) { return sliderN(label, p, 4, lo, hi); }
inline bool ColorEdit4(const char* label, float* p) { return sliderN(label, p, 4, 0, 1); }
#undef SU
} // namespace ImGui
