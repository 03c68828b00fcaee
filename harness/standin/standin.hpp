// Headless stand-ins for GLFW, OpenGL and Dear ImGui: they script what a user does and record what is drawn.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace standin
{
struct Misuse : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
inline void expect(bool ok, const char* what)
{
    if (!ok) throw Misuse{std::string{"misuse of the display: "} + what};
}

// ---- OpenGL
struct DrawCall
{
    struct Vertex
    {
        float x, y;
        uint8_t color[4];
    };
    std::vector<Vertex> vertices;
    std::vector<unsigned> indices;
    float camera[9]; // row major
};
struct Gl
{
    std::map<unsigned, std::vector<unsigned char>> buffers;
    std::set<unsigned> arrays, programs, shaders;
    unsigned next = 1, boundVao = 0, boundVbo = 0, boundEbo = 0, vaoEbo = 0, program = 0;
    struct Attribute
    {
        bool enabled = false;
        int size = 0, stride = 0;
        unsigned type = 0, buffer = 0;
        bool normalised = false;
        size_t offset = 0;
    };
    std::map<unsigned, std::map<unsigned, Attribute>> attributes; // of each array
    float uniform[9]{};
    bool failCompile = false, failLink = false;
    std::vector<DrawCall> draws; // since the last swap
    int viewport[4]{};
    float clear[4]{};
    unsigned clears = 0, polygonsLimit = 4000000;
};
inline Gl gl;

// ---- GLFW
struct Glfw
{
    bool inited = false, failInit = false;
    bool shouldClose = false;
    int w = 640, h = 480;
    double x = 0, y = 0, time = 0;
    std::set<int> keys;
    std::function<void()> onPoll; // what the user does in this frame
    std::function<void()> onSwap; // the frame is on screen
    void* user = nullptr;
    unsigned windows = 0, swaps = 0;
    std::string title;
};
inline Glfw glfw;

// ---- Dear ImGui
struct Gui
{
    std::set<std::string> clicked;              // buttons pressed in this frame
    std::map<std::string, bool> menus;          // state forced on a menu item
    std::map<std::string, std::vector<float>> moved; // sliders moved in this frame
    std::set<std::string> selected;
    std::map<std::string, std::vector<float>> shown; // what the sliders show
    std::map<std::string, bool> items;          // what the menu items show
    std::vector<std::string> buttons, texts, selectables; // offered in this frame
    std::vector<std::string> open;              // Begin without End
    bool wantKeyboard = false, wantMouse = false, frame = false, rendered = false;
    unsigned contexts = 0, frames = 0;
};
inline Gui gui;

inline void resetAll()
{
    gl = Gl{};
    glfw = Glfw{};
    gui = Gui{};
}
} // namespace standin
