// Stand-in for pybind11: records what a module binds under which name.
#pragma once
#include <any>
#include <map>
#include <string>
#include <vector>
struct PyObject { void* p = nullptr; };
inline void* PyCapsule_GetPointer(PyObject* c, const char*) { return c ? c->p : nullptr; }
inline PyObject* PyCapsule_New(void* p, const char*, void*) { auto* o = new PyObject; o->p = p; return o; }
namespace pybind11 {
struct object {
    PyObject* o = nullptr;
    object attr(const char*) const { return *this; }
    template <class... A> object operator()(A...) const { return *this; }
    PyObject* ptr() const { return o; }
};
struct bool_ { bool b; explicit bool_(bool x) : b(x) {} };
template <class T> T reinterpret_borrow(PyObject* p) { T t; t.o = p; return t; }
struct module_ : object {
    std::map<std::string, std::any> fns;
    template <class F, class... X> module_& def(const char* n, F f, X...) { fns[n] = f; return *this; }
    static object import(const char*) { return object(); }
};
using module = module_;
}
#define PYBIND11_MODULE(name, m) void pybind11_init_##name(pybind11::module_& m)
