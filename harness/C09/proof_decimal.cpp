// Contracts on the stored form of decimals: sign, digits and exponent as Python's as_tuple gives them, every combination.
#include <v.h>
#include <vrt.hpp>
#include <dbzero/bindings/python/types/ByteUtils.cpp>
#include <dbzero/bindings/python/types/PyDecimal.cpp>
using namespace db0::python;
static PyTypeObject t_tuple, t_any; static PyObject o_tuple, o_digits, o_sign, o_exp, o_iter, o_num, o_cls, o_mid, o_result, o_digit;
static long long g_exp; static bool g_expBad, g_err, g_neg; static uint64_t g_len, g_value, g_at; static uint8_t *g_digit; static int g_max; static long long g_num; static long g_scale; static unsigned g_made, g_scaled, g_zero;
static void immortal(PyObject *o, PyTypeObject *t) { o->ob_refcnt = 0xffffffff; o->ob_type = t; }
static PyObject *c_call(PyObject *o, const char *name, const char *fmt, long arg) { if (name[0] == 'a') return &o_tuple; v_require(o == &o_mid, "scaled"); v_require(name[0] == 's', "scaleb"); g_scale = arg; g_scaled++; return &o_result; }
static PyObject *c_item(PyObject *t, Py_ssize_t i) { v_require(t == &o_tuple, "the tuple"); return i == 0 ? &o_sign : i == 1 ? &o_digits : &o_exp; }
static void setup() {
    t_tuple.tp_flags = Py_TPFLAGS_TUPLE_SUBCLASS; t_any.tp_flags = 0; for (auto o : {&o_tuple, &o_digits}) immortal(o, &t_tuple); for (auto o : {&o_sign, &o_exp, &o_iter, &o_num, &o_cls, &o_mid, &o_result, &o_digit}) immortal(o, &t_any); g_err = false; g_at = 0; g_made = g_scaled = g_zero = 0;
    v_replace("PyObject_CallMethod", (void *)c_call); v_replace("PyTuple_GetItem", (void *)c_item); v_replace("PyTuple_Size", (void *)+[](PyObject *) -> Py_ssize_t { return g_len; }); v_replace("PyObject_IsTrue", (void *)+[](PyObject *) -> int { return g_neg; });
    v_replace("PyLong_AsLongLong", (void *)+[](PyObject *o) -> long long { v_require(o == &o_exp, "the exponent"); if (g_expBad) { g_err = true; return -1; } return g_exp; }); v_replace("PyErr_Occurred", (void *)+[]() -> PyObject * { return g_err ? &o_sign : nullptr; }); v_replace("PyErr_Clear", (void *)+[]() { g_err = false; });
}
// the first 17 digits, most significant first
V_UNIT(digits) {
    setup(); g_len = v_in64("length"); v_assume(g_len <= 20); g_len = v_case(g_len, 21); g_digit = (uint8_t *)v_buf("digits", g_len, 1); for (uint64_t i = 0; i < g_len; i++) v_assume(g_digit[i] <= 9);
    v_replace("PyObject_GetIter", (void *)+[](PyObject *) -> PyObject * { return &o_iter; }); v_replace("PyIter_Next", (void *)+[](PyObject *) -> PyObject * { if (g_at == g_len) return nullptr; g_at++; return &o_digit; }); v_replace("PyLong_AsLong", (void *)+[](PyObject *) -> long { return g_digit[g_at - 1]; });
    uint64_t v = decimal_tuple_to_uint64(&o_digits, 17), w = 0; for (uint64_t i = 0; i < g_len && i < 17; i++) w = w * 10 + g_digit[i]; v_cover("read"); V_ASSERT(v == w); V_ASSERT(v < 100000000000000000ull);
}
static const uint64_t P10[18] = {1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull, 100000000000000ull, 1000000000000000ull, 10000000000000000ull, 100000000000000000ull};
static uint64_t store() { v_replace("db0::python::decimal_tuple_to_uint64(_object*, int)", (void *)+[](PyObject *t, int m) -> uint64_t { v_require(t == &o_digits, "the digits"); v_require(m == 17, "at most 17 digits"); return g_value; }); return pyDecimalToUint64(&o_cls); }
static void load(uint64_t a) { decimal_class = &o_cls; v_replace("PyLong_FromLongLong", (void *)+[](long long v) -> PyObject * { g_num = v; g_made++; return &o_num; }); v_replace("PyLong_FromLong", (void *)+[](long v) -> PyObject * { v_require(v == 0, "zero"); g_zero++; g_num = 0; g_scale = 0; return &o_num; }); v_replace("PyObject_CallFunctionObjArgs", (void *)+[](PyObject *f, PyObject *a, void *) -> PyObject * { v_require(f == &o_cls, "Decimal"); v_require(a == &o_num, "of the number"); return g_zero ? &o_result : &o_mid; }); auto r = uint64ToPyDecimal(a); V_ASSERT(r == &o_result); V_ASSERT(g_zero ? g_made == 0 : (g_made == 1) & (g_scaled == 1)); }
static void shape() { setup(); g_neg = v_in8("negative") & 1; g_len = v_in64("length"); v_assume(g_len >= 1); v_assume(g_len < (1u << 20)); g_value = v_in64("digits"); uint64_t k = g_len > 17 ? 17 : g_len; k = v_case(k, 18); v_assume(g_value < P10[k]); v_assume(k == 1 || g_value >= P10[k - 1]); /* no leading zeros */ }
// fractions and integers: exact up to 17 significant digits, further digits are cut off
V_UNIT(fraction) {
    shape(); g_expBad = false; uint64_t e = v_in64("places"); v_assume(e < (1u << 20)); g_exp = -(long long)e; bool fits = (e <= 63) & ((g_len <= 17) | (e + 17 >= g_len)); v_throws(!fits); uint64_t a = store(); v_cover("stored"); V_ASSERT(fits); uint64_t cut = g_len > 17 ? g_len - 17 : 0;
    load(a); v_cover("loaded"); if (g_zero) { V_ASSERT(g_value == 0); V_ASSERT(e == cut); } else { V_ASSERT(g_num == (g_neg ? -(long long)g_value : (long long)g_value)); V_ASSERT(g_scale == -(long)(e - cut)); }
}
// multiples of powers of ten
static void multiple(uint64_t e) {
    g_exp = (long long)e; bool fits = (g_len <= 17) & ((g_value == 0) | (g_len + e <= 17)); v_throws(!fits); uint64_t a = store(); v_cover("stored"); V_ASSERT(fits);
    load(a); v_cover("loaded"); V_ASSERT(g_zero ? g_value == 0 : g_scale == 0); if (e < 18) { uint64_t m = g_value * P10[e]; V_ASSERT((uint64_t)g_num == (g_neg ? -m : m)); } else V_ASSERT(g_num == 0);
}
V_UNIT(multiple) { shape(); g_expBad = false; uint64_t e = v_in64("zeros"); v_assume((e >= 1) & (e < 18)); e = v_case(e, 18); multiple(e); }
V_UNIT(large_multiple) { shape(); g_expBad = false; uint64_t e = v_in64("zeros"); v_assume((e >= 18) & (e < (1u << 20))); multiple(e); }
V_UNIT(not_a_number) { shape(); g_expBad = true; v_throws(1); store(); V_ASSERT(0 && "NaN or infinity stored"); }
// distinct values have distinct stored forms: the form determines sign, digits and exponent
V_UNIT(form) {
    setup(); uint64_t a = v_in64("form"); load(a); v_cover("loaded"); if (g_zero) { V_ASSERT(a == 0); } else { uint64_t m = g_num < 0 ? -(uint64_t)g_num : g_num; V_ASSERT(m == (a & ((1ull << 57) - 1))); V_ASSERT(-g_scale == (long)(a >> 57 & 63)); V_ASSERT((g_num < 0) == ((a >> 63 != 0) & (m != 0))); }
}
