// The Python module inside an embedded interpreter.  PBT_NEEDS_PY in the including file.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "model.hh"
extern "C" PyObject *PyInit_bpak(void);

namespace py {
using namespace pbt;
// owned reference
struct Ref {
    PyObject *o = nullptr;
    Ref() {}
    explicit Ref(PyObject *p) : o(p) {}
    Ref(const Ref &r) : o(r.o) { Py_XINCREF(o); }
    Ref(Ref &&r) : o(r.o) { r.o = nullptr; }
    Ref &operator=(Ref r)
    {
        std::swap(o, r.o);
        return *this;
    }
    ~Ref() { Py_XDECREF(o); }
    explicit operator bool() const { return o != nullptr; }
};
static inline Ref borrow(PyObject *o)
{
    Py_XINCREF(o);
    return Ref(o);
}
static PyObject *mod = nullptr, *globals = nullptr;

struct Res {
    Ref v;
    std::string exc, msg; // exception type and text
    bool ok() const { return exc.empty(); }
    std::string str() const { return ok() ? "success" : exc + ": " + msg; }
};
static inline std::string text(PyObject *o)
{
    PyObject *s = o ? PyObject_Str(o) : nullptr;
    const char *c = s ? PyUnicode_AsUTF8(s) : nullptr;
    std::string r = c ? c : "?";
    Py_XDECREF(s);
    PyErr_Clear();
    return r;
}
static inline Res finish(const char *what, bool success, PyObject *v)
{
    Res r;
    r.v = Ref(v);
    PyObject *e = PyErr_GetRaisedException();
    if (e) {
        r.exc = Py_TYPE(e)->tp_name;
        r.msg = text(e);
        Py_DECREF(e);
    }
    if (success)
        CHECK(r.exc.empty(), "%s succeeded with a pending exception: %s: %s", what, r.exc.c_str(), r.msg.c_str());
    else {
        CHECK(!r.exc.empty(), "%s failed without an exception", what);
        // the interpreter itself complains like this about functions which break its calling convention
        CHECK(!(r.exc == "SystemError" && r.msg.find("exception set") != std::string::npos), "%s: SystemError: %s", what, r.msg.c_str());
    }
    return r;
}
static inline Res get(PyObject *o, const char *name)
{
    PyObject *v = PyObject_GetAttrString(o, name);
    return finish(name, v != nullptr, v);
}
static inline Res set(PyObject *o, const char *name, PyObject *val) // null: del
{
    int rc = val ? PyObject_SetAttrString(o, name, val) : PyObject_DelAttrString(o, name);
    return finish(name, rc == 0, nullptr);
}
typedef std::vector<Ref> Args;
typedef std::vector<std::pair<std::string, Ref>> Kw;
static inline Res call(PyObject *o, const char *name, const Args &a, const Kw &kw = {})
{
    Res f;
    if (name) {
        f = get(o, name);
        if (!f.ok())
            return f;
    } else
        f.v = borrow(o);
    PyObject *t = PyTuple_New((Py_ssize_t)a.size());
    for (size_t i = 0; i < a.size(); i++) {
        Py_INCREF(a[i].o);
        PyTuple_SET_ITEM(t, (Py_ssize_t)i, a[i].o);
    }
    PyObject *d = nullptr;
    if (!kw.empty()) {
        d = PyDict_New();
        for (auto &k : kw)
            PyDict_SetItemString(d, k.first.c_str(), k.second.o);
    }
    PyObject *v = PyObject_Call(f.v.o, t, d);
    Py_DECREF(t);
    Py_XDECREF(d);
    return finish(name ? name : "call", v != nullptr, v);
}
static inline Ref num(unsigned long long v) { return Ref(PyLong_FromUnsignedLongLong(v)); }
static inline Ref inum(long long v) { return Ref(PyLong_FromLongLong(v)); }
static inline Ref str(const std::string &s) { return Ref(PyUnicode_FromStringAndSize(s.data(), (Py_ssize_t)s.size())); }
static inline Ref bytes(const Bytes &b) { return Ref(PyBytes_FromStringAndSize((const char *)b.data(), (Py_ssize_t)b.size())); }
static inline Ref none() { return borrow(Py_None); }
static inline Ref boolean(bool b) { return borrow(b ? Py_True : Py_False); }
static inline Ref global(const char *n) { return borrow(PyDict_GetItemString(globals, n)); }
static inline Ref eval(const std::string &src)
{
    PyObject *v = PyRun_String(src.c_str(), Py_eval_input, globals, globals);
    if (!v) {
        PyErr_Print();
        FAILF("harness: cannot evaluate %s", src.c_str());
    }
    return Ref(v);
}
static inline bool is_num(PyObject *o, unsigned long long &v)
{
    if (!o || !PyLong_Check(o))
        return false;
    v = PyLong_AsUnsignedLongLong(o);
    bool bad = PyErr_Occurred() != nullptr;
    PyErr_Clear();
    return !bad;
}
static inline bool is_bytes(PyObject *o, Bytes &b)
{
    if (!o || !PyBytes_Check(o))
        return false;
    uint8_t *p = (uint8_t *)PyBytes_AS_STRING(o);
    b.assign(p, p + PyBytes_GET_SIZE(o));
    return true;
}
static inline void run_source(const char *src)
{
    PyObject *v = PyRun_String(src, Py_file_input, globals, globals);
    if (!v) {
        PyErr_Print();
        FAILF("harness: python source failed");
    }
    Py_DECREF(v);
}
static inline void start()
{
    if (mod)
        return;
    setenv("PYTHONMALLOC", "malloc", 1); // every block is known to the address sanitizer
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    PyImport_AppendInittab("bpak", PyInit_bpak);
    PyConfig cfg;
    PyConfig_InitPythonConfig(&cfg);
    cfg.site_import = 0;
    cfg.parse_argv = 0;
    cfg.install_signal_handlers = 0;
    PyConfig_SetString(&cfg, &cfg.program_name, L"/usr/bin/python3");
    PyStatus st = Py_InitializeFromConfig(&cfg);
    PyConfig_Clear(&cfg);
    if (PyStatus_Exception(st))
        FAILF("harness: cannot start the interpreter: %s", st.err_msg ? st.err_msg : "?");
    globals = PyDict_New();
    PyDict_SetItemString(globals, "__builtins__", PyEval_GetBuiltins());
    mod = PyImport_ImportModule("bpak");
    if (!mod) {
        PyErr_Print();
        FAILF("cannot import the module");
    }
    PyDict_SetItemString(globals, "bpak", mod);
    run_source("import uuid, pathlib, gc, sys\n");
}
} // namespace py
