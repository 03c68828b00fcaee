#pragma once
struct ImDrawData;
inline bool ImGui_ImplOpenGL3_Init(const char*) { return true; }
inline void ImGui_ImplOpenGL3_Shutdown() {}
inline void ImGui_ImplOpenGL3_NewFrame() {}
inline void ImGui_ImplOpenGL3_RenderDrawData(ImDrawData*) {}
