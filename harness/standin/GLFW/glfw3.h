#pragma once
#include "standin.hpp"
struct GLFWwindow
{
    int dummy = 0;
};
#define GLFW_RELEASE 0
#define GLFW_PRESS 1
#define GLFW_REPEAT 2
typedef void (*GLFWproc)();
typedef void (*GLFWerrorfun)(int, const char*);
typedef void (*GLFWsizefun)(GLFWwindow*, int, int);
typedef void (*GLFWkeyfun)(GLFWwindow*, int, int, int, int);
typedef void (*GLFWposfun)(GLFWwindow*, double, double);
typedef void (*GLFWbuttonfun)(GLFWwindow*, int, int, int);
namespace standin
{
struct Callbacks
{
    GLFWerrorfun error = nullptr;
    GLFWsizefun framebuffer = nullptr, size = nullptr;
    GLFWkeyfun key = nullptr;
    GLFWposfun pos = nullptr, scroll = nullptr;
    GLFWbuttonfun button = nullptr;
};
inline Callbacks callbacks;
inline GLFWwindow window;
} // namespace standin
inline int glfwInit() { return standin::glfw.failInit ? 0 : (standin::glfw.inited = true, 1); }
inline void glfwTerminate()
{
    standin::expect(standin::glfw.inited, "terminated twice");
    standin::glfw.inited = false;
    standin::callbacks = {};
}
inline void glfwSetErrorCallback(GLFWerrorfun f) { standin::callbacks.error = f; }
inline GLFWwindow* glfwCreateWindow(int w, int h, const char* t, void*, void*)
{
    standin::glfw.w = w, standin::glfw.h = h, standin::glfw.title = t;
    ++standin::glfw.windows;
    return &standin::window;
}
inline void glfwDestroyWindow(GLFWwindow* w)
{
    standin::expect(w == &standin::window && standin::glfw.windows == 1, "window destroyed twice");
    --standin::glfw.windows;
}
inline void live(GLFWwindow* w) { standin::expect(w == &standin::window && standin::glfw.windows == 1, "no such window"); }
inline void glfwSetWindowUserPointer(GLFWwindow* w, void* p) { live(w), standin::glfw.user = p; }
inline void* glfwGetWindowUserPointer(GLFWwindow* w) { return live(w), standin::glfw.user; }
inline void glfwSetFramebufferSizeCallback(GLFWwindow*, GLFWsizefun f) { standin::callbacks.framebuffer = f; }
inline void glfwSetWindowSizeCallback(GLFWwindow*, GLFWsizefun f) { standin::callbacks.size = f; }
inline void glfwSetKeyCallback(GLFWwindow*, GLFWkeyfun f) { standin::callbacks.key = f; }
inline void glfwSetCursorPosCallback(GLFWwindow*, GLFWposfun f) { standin::callbacks.pos = f; }
inline void glfwSetMouseButtonCallback(GLFWwindow*, GLFWbuttonfun f) { standin::callbacks.button = f; }
inline void glfwSetScrollCallback(GLFWwindow*, GLFWposfun f) { standin::callbacks.scroll = f; }
inline void glfwMakeContextCurrent(GLFWwindow* w) { live(w); }
inline GLFWproc glfwGetProcAddress(const char*) { return nullptr; }
inline void glfwGetWindowSize(GLFWwindow* w, int* x, int* y) { live(w), *x = standin::glfw.w, *y = standin::glfw.h; }
inline void glfwGetFramebufferSize(GLFWwindow* w, int* x, int* y) { glfwGetWindowSize(w, x, y); }
inline void glfwGetCursorPos(GLFWwindow* w, double* x, double* y) { live(w), *x = standin::glfw.x, *y = standin::glfw.y; }
inline void glfwSetWindowTitle(GLFWwindow* w, const char* t) { live(w), standin::glfw.title = t; }
inline void glfwSetTime(double t) { standin::glfw.time = t; }
inline double glfwGetTime() { return standin::glfw.time; }
inline int glfwWindowShouldClose(GLFWwindow* w) { return live(w), standin::glfw.shouldClose; }
inline void glfwSetWindowShouldClose(GLFWwindow* w, int v) { live(w), standin::glfw.shouldClose = v; }
inline void glfwPollEvents()
{
    if (standin::glfw.onPoll) standin::glfw.onPoll();
}
inline int glfwGetKey(GLFWwindow* w, int k) { return live(w), standin::glfw.keys.count(k) ? GLFW_PRESS : GLFW_RELEASE; }
inline void glfwSwapBuffers(GLFWwindow* w)
{
    live(w);
    standin::expect(standin::gui.open.empty(), "an ImGui scope was left open");
    ++standin::glfw.swaps;
    if (standin::glfw.onSwap) standin::glfw.onSwap();
    standin::gl.draws.clear();
    standin::gl.clears = 0;
}
inline void glfwSwapInterval(int) {}
