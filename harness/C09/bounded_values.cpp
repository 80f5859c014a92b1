// Dates, times, date-times and decimals of the real interpreter, stored and loaded again: edge and random values.
#include <nb.hpp>
#include <optional>
#include <Python.h>
#include <datetime.h>
#include <dbzero/bindings/python/types/ByteUtils.cpp>
#include <dbzero/bindings/python/types/DateTime.cpp>
#include <dbzero/bindings/python/types/PyDecimal.cpp>
using namespace db0::python;
static PyObject *g_decimal, *g_globals;
static void start() {
    if (Py_IsInitialized()) return;
    Py_InitializeEx(0); PyDateTime_IMPORT; g_globals = PyDict_New(); PyDict_SetItemString(g_globals, "__builtins__", PyEval_GetBuiltins());
    PyObject *r = PyRun_String("import datetime, decimal", Py_file_input, g_globals, g_globals); if (!r) { printf("no interpreter\n"); exit(3); }
    g_decimal = PyRun_String("decimal.Decimal", Py_eval_input, g_globals, g_globals);
}
static std::string text(PyObject *o) { if (!o) { PyErr_Clear(); return "null"; } PyObject *s = PyObject_Repr(o); std::string r = s ? PyUnicode_AsUTF8(s) : "?"; Py_XDECREF(s); return r; }
struct Ref { PyObject *p; Ref(PyObject *p) : p(p) {} Ref(const Ref &) = delete; ~Ref() { Py_XDECREF(p); } operator PyObject *() const { return p; } };
static PyObject *eval(const std::string &e) { PyObject *r = PyRun_String(e.c_str(), Py_eval_input, g_globals, g_globals); if (!r) { PyErr_Print(); nb::fail("harness: " + e); } return r; }
static int edge(nb::Rng &r, int a, int b) { switch (r.below(5)) { case 0: return a; case 1: return b; default: return (int)r.range(a, b); } }
static int DAYS[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
struct F { int y, mo, d, h, mi, s, us; };
static F fields(nb::Rng &r) {
    F f; f.y = edge(r, 1, 9999); if (r.chance(1, 4)) f.y = (int)r.range(1895, 2110); f.mo = edge(r, 1, 12); bool leap = f.y % 4 == 0 && (f.y % 100 != 0 || f.y % 400 == 0); f.d = edge(r, 1, DAYS[f.mo - 1] + (leap && f.mo == 2)); f.h = edge(r, 0, 23); f.mi = edge(r, 0, 59); f.s = edge(r, 0, 59); f.us = edge(r, 0, 999999); return f;
}
// a neighbour differing in one field: order and distinctness are decided by single fields
static F near(nb::Rng &r, F f) { F e = fields(r); switch (r.below(9)) { case 0: f.y = e.y; if (f.d > 28) f.d = 28; break; case 1: f.mo = e.mo; if (f.d > 28) f.d = 28; break; case 2: f.d = (int)r.range(1, 28); break; case 3: f.h = e.h; break; case 4: f.mi = e.mi; break; case 5: f.s = e.s; break; case 6: f.us = e.us; break; case 7: return f; default: return e; } return f; }
static bool same(PyObject *a, PyObject *b) { // equal values of equal type with equal offset
    if (!a || !b || Py_TYPE(a) != Py_TYPE(b)) return false; int e = PyObject_RichCompareBool(a, b, Py_EQ); if (e != 1) { PyErr_Clear(); return false; }
    if (PyDateTime_Check(a) || PyTime_Check(a)) { Ref x(PyObject_CallMethod(a, "utcoffset", nullptr)), y(PyObject_CallMethod(b, "utcoffset", nullptr)); if (PyObject_RichCompareBool(x, y, Py_EQ) != 1) return false; Ref p(PyObject_Repr(a)), q(PyObject_Repr(b)); (void)p; (void)q; }
    return true;
}
static void ordered(uint64_t a, uint64_t b, PyObject *x, PyObject *y) { int lt = PyObject_RichCompareBool(x, y, Py_LT), eq = PyObject_RichCompareBool(x, y, Py_EQ); if ((a < b) != (lt == 1)) nb::fail("stored forms are not in the order of the values"); if ((a == b) != (eq == 1)) nb::fail("stored forms are equal for different values or the other way round"); }
static std::string args(const F &f, int kind) { char b[128]; if (kind == 0) snprintf(b, 128, "%d,%d,%d", f.y, f.mo, f.d); else if (kind == 1) snprintf(b, 128, "%d,%d,%d,%d", f.h, f.mi, f.s, f.us); else snprintf(b, 128, "%d,%d,%d,%d,%d,%d,%d", f.y, f.mo, f.d, f.h, f.mi, f.s, f.us); return b; }
NB_SECTION(plain, "dates, times and date-times without zone: loaded as stored, in order") {
    start(); nb::loop(60000, rng, [](nb::Rng &r, uint64_t) {
        F f = fields(r), e = near(r, f); unsigned k = r.below(3); const char *cls[] = {"datetime.date", "datetime.time", "datetime.datetime"}; std::string a = std::string(cls[k]) + "(" + args(f, k) + ")", b = std::string(cls[k]) + "(" + args(e, k) + ")"; nb::current = a + " and " + b; nb::note(std::hash<std::string>()(nb::current)); Ref x(eval(a)), y(eval(b));
        if (k != 0) NB_CHECK(!isDatatimeWithTZ(x));
        uint64_t u = k == 0 ? pyDateToUint64(x) : k == 1 ? pyTimeToUint64(x) : pyDateTimeToToUint64(x), v = k == 0 ? pyDateToUint64(y) : k == 1 ? pyTimeToUint64(y) : pyDateTimeToToUint64(y); ordered(u, v, x, y);
        Ref z(k == 0 ? uint64ToPyDate(u) : k == 1 ? uint64ToPyTime(u) : uint64ToPyDatetime(u)); if (!same(x, z)) nb::fail("loaded as " + text(z)); });
}
NB_SECTION(zone, "times and date-times with a zone of whole hours: loaded as stored, distinct") {
    start(); nb::loop(60000, rng, [](nb::Rng &r, uint64_t) {
        F f = fields(r), e = near(r, f); bool dt = r.chance(1, 2); if (dt) { f.us = f.us / 1000 * 1000; e.us = e.us / 1000 * 1000; } int w = edge(r, -23, 23), w2 = r.chance(1, 2) ? w : edge(r, -23, 23); auto zone = [](int h) { return ",tzinfo=datetime.timezone(datetime.timedelta(hours=" + std::to_string(h) + "))"; };
        std::string c = dt ? "datetime.datetime(" : "datetime.time(", a = c + args(f, dt ? 2 : 1) + zone(w) + ")", b = c + args(e, dt ? 2 : 1) + zone(w2) + ")"; nb::current = a + " and " + b; nb::note(std::hash<std::string>()(nb::current)); Ref x(eval(a)), y(eval(b)); NB_CHECK(isDatatimeWithTZ(x));
        uint64_t u = dt ? pyDateTimeWithTzToUint64(x) : pyTimeWithTzToUint64(x), v = dt ? pyDateTimeWithTzToUint64(y) : pyTimeWithTzToUint64(y); bool eq = args(f, dt ? 2 : 1) == args(e, dt ? 2 : 1) && w == w2; if ((u == v) != eq) nb::fail("stored forms are equal for different values or the other way round");
        Ref z(dt ? uint64ToPyDatetimeWithTZ(u) : uint64ToPyTimeWithTz(u)); if (!same(x, z)) nb::fail("loaded as " + text(z)); Ref p(PyObject_Repr(x)), q(PyObject_Repr(z)); if (PyUnicode_Compare(p, q) != 0) nb::fail("loaded as " + text(z)); });
}
NB_SECTION(decimal, "decimals: exact to 17 digits, cut off beyond, refused where they cannot be represented") {
    start(); nb::loop(60000, rng, [](nb::Rng &r, uint64_t i) {
        std::string e; bool fits = true; std::string want; 
        if (i % 64 == 5) { const char *n[] = {"'NaN'", "'-NaN'", "'sNaN'", "'Infinity'", "'-Infinity'"}; e = std::string("decimal.Decimal(") + n[r.below(5)] + ")"; fits = false; }
        else {
            unsigned len = r.chance(1, 4) ? 17 + r.below(12) : 1 + r.below(18); std::string d; bool zero = r.chance(1, 12); if (zero) { d = "0"; len = 1; } else { d = (char)('1' + r.below(9)); bool nines = r.chance(1, 5), zeros = r.chance(1, 6); while (d.size() < len) d += nines ? '9' : zeros ? '0' : (char)('0' + r.below(10)); }
            int ex = r.chance(1, 4) ? (int)r.below(19) : -(int)(r.chance(1, 4) ? 60 + r.below(8) : r.below(64)); bool neg = r.chance(1, 2);
            auto make = [&](const std::string &d, int ex) { std::string t = "decimal.Decimal((" + std::string(neg ? "1" : "0") + ",("; for (char c : d) t += std::string(1, c) + ","; return t + ")," + std::to_string(ex) + "))"; };
            e = make(d, ex); unsigned cut = len > 17 ? len - 17 : 0;
            if (ex <= 0) fits = -ex <= 63 && -ex >= (int)cut; else fits = len <= 17 && (zero || len + ex <= 17);
            want = ex <= 0 ? make(d.substr(0, 17), ex + (int)cut) : e; }
        nb::current = e; nb::note(std::hash<std::string>()(e)); Ref x(eval(e)); uint64_t u = 0; bool threw = false; try { u = pyDecimalToUint64(x); } catch (std::exception &) { threw = true; } PyErr_Clear();
        if (threw != !fits) nb::fail(fits ? "refused" : "accepted"); if (threw) return; Ref w(eval(want)), z(uint64ToPyDecimal(u)); if (!z.p || PyObject_RichCompareBool(w, z, Py_EQ) != 1) nb::fail("loaded as " + text(z)); });
}
NB_MAIN
