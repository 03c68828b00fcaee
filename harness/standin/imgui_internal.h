#pragma once
#include "imgui.h"
struct ImGuiWindow
{
    const char* Name = "window";
    struct { ImVec2 CursorMaxPos{120, 80}, CursorStartPos{0, 0}; } DC;
};
namespace ImGui
{
inline ImGuiWindow anyWindow;
inline ImGuiWindow* FindWindowByName(const char*) { return &anyWindow; }
inline ImGuiWindow* GetCurrentWindow() { return inFrame(), &anyWindow; }
inline void DockBuilderRemoveNode(ImGuiID) {}
inline ImGuiID DockBuilderAddNode(ImGuiID i, int) { return i; }
inline void DockBuilderSetNodeSize(ImGuiID, ImVec2) {}
inline ImGuiID DockBuilderSplitNode(ImGuiID, ImGuiDir, float, ImGuiID* a, ImGuiID* b)
{
    if (a) *a = 2;
    if (b) *b = 3;
    return 2;
}
inline void DockBuilderDockWindow(const char*, ImGuiID) {}
inline void DockBuilderFinish(ImGuiID) {}
} // namespace ImGui
