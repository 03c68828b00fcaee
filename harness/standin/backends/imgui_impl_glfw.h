#pragma once
#include "GLFW/glfw3.h"
inline bool ImGui_ImplGlfw_InitForOpenGL(GLFWwindow* w, bool) { return live(w), true; }
inline void ImGui_ImplGlfw_Shutdown() {}
inline void ImGui_ImplGlfw_NewFrame() {}
