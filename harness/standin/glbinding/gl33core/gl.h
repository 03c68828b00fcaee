#pragma once
#include "standin.hpp"
namespace gl
{
typedef unsigned GLuint;
typedef int GLint;
typedef int GLsizei;
typedef long GLsizeiptr;
typedef char GLchar;
typedef float GLfloat;
enum GLboolean : unsigned char { GL_FALSE = 0, GL_TRUE = 1 };
enum GLenum : unsigned
{
    GL_TRIANGLES = 4,
    GL_SRC_ALPHA = 0x302, GL_ONE_MINUS_SRC_ALPHA = 0x303, GL_BLEND = 0xBE2,
    GL_UNSIGNED_BYTE = 0x1401, GL_UNSIGNED_SHORT = 0x1403, GL_UNSIGNED_INT = 0x1405, GL_FLOAT = 0x1406,
    GL_ARRAY_BUFFER = 0x8892, GL_ELEMENT_ARRAY_BUFFER = 0x8893,
    GL_STREAM_DRAW = 0x88E0, GL_STATIC_DRAW = 0x88E4, GL_DYNAMIC_DRAW = 0x88E8,
    GL_FRAGMENT_SHADER = 0x8B30, GL_VERTEX_SHADER = 0x8B31,
    GL_COMPILE_STATUS = 0x8B81, GL_LINK_STATUS = 0x8B82, GL_INFO_LOG_LENGTH = 0x8B84
};
enum ClearBufferMask : unsigned { GL_COLOR_BUFFER_BIT = 0x4000 };
using standin::expect;
#define SG standin::gl
inline void glEnable(GLenum) {}
inline void glDisable(GLenum) {}
inline void glBlendFunc(GLenum, GLenum) {}
inline GLuint glCreateShader(GLenum) { SG.shaders.insert(SG.next); return SG.next++; }
inline void glShaderSource(GLuint s, GLsizei n, const GLchar* const* src, const GLint* len)
{
    expect(SG.shaders.count(s) && n == 1 && size_t(*len) == strlen(*src), "shader source");
}
inline void glCompileShader(GLuint s) { expect(SG.shaders.count(s), "compiles no shader"); }
inline void glGetShaderiv(GLuint, GLenum what, GLint* out) { *out = what == GL_INFO_LOG_LENGTH ? 6 : !SG.failCompile; }
inline void glGetShaderInfoLog(GLuint, GLsizei n, GLsizei* out, GLchar* to) { strncpy(to, "error", size_t(n)), *out = 5; }
inline void glDeleteShader(GLuint s) { SG.shaders.erase(s); }
inline GLuint glCreateProgram() { SG.programs.insert(SG.next); return SG.next++; }
inline void glAttachShader(GLuint p, GLuint s) { expect(SG.programs.count(p) && SG.shaders.count(s), "attach"); }
inline void glDetachShader(GLuint p, GLuint s) { expect(SG.programs.count(p) && SG.shaders.count(s), "detach"); }
inline void glLinkProgram(GLuint p) { expect(SG.programs.count(p), "link"); }
inline void glGetProgramiv(GLuint, GLenum what, GLint* out) { *out = what == GL_INFO_LOG_LENGTH ? 6 : !SG.failLink; }
inline void glGetProgramInfoLog(GLuint, GLsizei n, GLsizei* out, GLchar* to) { strncpy(to, "error", size_t(n)), *out = 5; }
inline void glDeleteProgram(GLuint p) { SG.programs.erase(p); }
inline GLint glGetUniformLocation(GLuint p, const GLchar* n) { expect(SG.programs.count(p), "uniform of no program"); return strcmp(n, "cameraTransform") == 0 ? 7 : -1; }
inline void glUseProgram(GLuint p) { expect(p == 0 || SG.programs.count(p), "uses no program"); SG.program = p; }
inline void glUniformMatrix3fv(GLint loc, GLsizei n, GLboolean transposed, const GLfloat* m)
{
    expect(loc == 7 && n == 1 && SG.program != 0, "uniform");
    for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 3; ++c) SG.uniform[3 * r + c] = transposed ? m[3 * r + c] : m[3 * c + r];
}
inline void glGenVertexArrays(GLsizei n, GLuint* out) { while (n--) SG.arrays.insert(*out++ = SG.next++); }
inline void glGenBuffers(GLsizei n, GLuint* out) { while (n--) SG.buffers[*out++ = SG.next++]; }
inline void glDeleteVertexArrays(GLsizei n, const GLuint* v) { while (n--) SG.arrays.erase(*v++); }
inline void glDeleteBuffers(GLsizei n, const GLuint* v) { while (n--) SG.buffers.erase(*v++); }
inline void glBindVertexArray(GLuint v)
{
    expect(v == 0 || SG.arrays.count(v), "binds no array");
    SG.boundVao = v;
    SG.boundEbo = v ? SG.vaoEbo : 0;
}
inline void glBindBuffer(GLenum t, GLuint b)
{
    expect(b == 0 || SG.buffers.count(b), "binds no buffer");
    if (t == GL_ARRAY_BUFFER) SG.boundVbo = b;
    else
    {
        SG.boundEbo = b;
        if (SG.boundVao) SG.vaoEbo = b;
    }
}
inline void glBufferData(GLenum t, GLsizeiptr n, const void* data, GLenum)
{
    unsigned b = t == GL_ARRAY_BUFFER ? SG.boundVbo : SG.boundEbo;
    expect(SG.buffers.count(b), "data for no buffer");
    const unsigned char* p = static_cast<const unsigned char*>(data);
    SG.buffers[b].assign(p, p + n);
}
inline void glBufferSubData(GLenum t, long at, GLsizeiptr n, const void* data)
{
    auto& b = SG.buffers[t == GL_ARRAY_BUFFER ? SG.boundVbo : SG.boundEbo];
    expect(size_t(at + n) <= b.size(), "data beyond the buffer");
    memcpy(b.data() + at, data, size_t(n));
}
inline void glVertexAttribPointer(GLuint i, GLint size, GLenum type, GLboolean norm, GLsizei stride, const void* offset)
{
    expect(SG.boundVao != 0 && SG.boundVbo != 0, "attribute of nothing");
    auto& a = SG.attributes[SG.boundVao][i];
    a.size = size, a.type = type, a.normalised = norm, a.stride = stride, a.offset = size_t(offset), a.buffer = SG.boundVbo;
}
inline void glEnableVertexAttribArray(GLuint i) { SG.attributes[SG.boundVao][i].enabled = true; }
inline void glDrawElements(GLenum mode, GLsizei n, GLenum type, const void* at)
{
    expect(mode == GL_TRIANGLES && (type == GL_UNSIGNED_SHORT || type == GL_UNSIGNED_INT) && at == nullptr && SG.program && SG.boundVao && SG.boundEbo, "draws nothing");
    auto& pos = SG.attributes[SG.boundVao][0];
    auto& col = SG.attributes[SG.boundVao][1];
    expect(pos.enabled && pos.size == 2 && pos.type == GL_FLOAT && col.enabled && col.size == 4 && col.type == GL_UNSIGNED_BYTE && col.normalised, "layout of the vertices");
    standin::DrawCall d;
    const auto& vb = SG.buffers[pos.buffer];
    const auto& cb = SG.buffers[col.buffer];
    const auto& ib = SG.buffers[SG.boundEbo];
    const size_t wide = type == GL_UNSIGNED_SHORT ? 2 : 4;
    expect(n >= 0 && n % 3 == 0 && size_t(n) * wide <= ib.size(), "indices beyond the buffer");
    for (size_t k = 0; pos.offset + k * pos.stride + 8 <= vb.size() && col.offset + k * col.stride + 4 <= cb.size(); ++k)
    {
        standin::DrawCall::Vertex v;
        memcpy(&v.x, vb.data() + pos.offset + k * pos.stride, 4);
        memcpy(&v.y, vb.data() + pos.offset + k * pos.stride + 4, 4);
        memcpy(v.color, cb.data() + col.offset + k * col.stride, 4);
        d.vertices.push_back(v);
    }
    for (int k = 0; k < n; ++k)
    {
        uint32_t i = 0; // little endian
        memcpy(&i, ib.data() + wide * size_t(k), wide);
        expect(i < d.vertices.size(), "a vertex beyond the buffer");
        d.indices.push_back(i);
    }
    memcpy(d.camera, SG.uniform, sizeof d.camera);
    SG.draws.push_back(std::move(d));
}
inline void glClearColor(float r, float g, float b, float a) { SG.clear[0] = r, SG.clear[1] = g, SG.clear[2] = b, SG.clear[3] = a; }
inline void glClear(ClearBufferMask) { ++SG.clears, SG.draws.clear(); }
inline void glViewport(GLint x, GLint y, GLsizei w, GLsizei h) { SG.viewport[0] = x, SG.viewport[1] = y, SG.viewport[2] = w, SG.viewport[3] = h; }
#undef SG
} // namespace gl
