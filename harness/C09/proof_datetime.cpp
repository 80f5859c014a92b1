// Contracts on the stored forms of dates, times and date-times: every calendar value. The Python C API is replaced by its
// contract: field accessors are the real macros over the object layout, constructors record the fields they are given.
#include <v.h>
#include <vrt.hpp>
#include <dbzero/bindings/python/types/ByteUtils.cpp>
#include <dbzero/bindings/python/types/DateTime.cpp>
using namespace db0::python;
struct Made { int kind, y, mo, d, h, mi, s, us; PyObject *tz; PyTypeObject *type; int dd, ds, du; PyObject *off; } g;
static PyTypeObject t_date, t_dt, t_time, t_delta, t_tz; static PyDateTime_CAPI api; static PyObject o_result, o_tz; static PyDateTime_Delta o_delta; static PyDateTime_Delta o_off; static bool g_asked;
static PyObject *f_date(int y, int mo, int d, PyTypeObject *t) { g.kind = 1; g.y = y; g.mo = mo; g.d = d; g.type = t; return &o_result; }
static PyObject *f_dt(int y, int mo, int d, int h, int mi, int s, int us, PyObject *tz, PyTypeObject *t) { g.kind = 2; g.y = y; g.mo = mo; g.d = d; g.h = h; g.mi = mi; g.s = s; g.us = us; g.tz = tz; g.type = t; return &o_result; }
static PyObject *f_time(int h, int mi, int s, int us, PyObject *tz, PyTypeObject *t) { g.kind = 3; g.h = h; g.mi = mi; g.s = s; g.us = us; g.tz = tz; g.type = t; return &o_result; }
static PyObject *f_delta(int d, int s, int us, int, PyTypeObject *) { g.dd = d; g.ds = s; g.du = us; return (PyObject *)&o_delta; }
static PyObject *f_tz(PyObject *off, PyObject *) { g.off = off; return &o_tz; }
// the instance is asked for its offset: a timedelta (days and seconds normalised)
static PyObject *c_call(PyObject *o, const char *, const char *) { g_asked = true; return (PyObject *)&o_off; }
static int c_hasattr(PyObject *, const char *) { return 1; }
static void immortal(PyObject *o, PyTypeObject *t) { o->ob_refcnt = 0xffffffff; o->ob_type = t; }
static void setup() {
    g = Made{}; api = PyDateTime_CAPI{}; api.DateType = &t_date; api.DateTimeType = &t_dt; api.TimeType = &t_time; api.DeltaType = &t_delta; api.TZInfoType = &t_tz; api.Date_FromDate = f_date; api.DateTime_FromDateAndTime = f_dt; api.Time_FromTime = f_time; api.Delta_FromDelta = f_delta; api.TimeZone_FromTimeZone = f_tz; PyDateTimeAPI = &api;
    immortal(&o_result, &t_dt); immortal(&o_tz, &t_tz); immortal((PyObject *)&o_delta, &t_delta); immortal((PyObject *)&o_off, &t_delta); immortal(&_Py_NoneStruct, nullptr); g_asked = false; v_replace("PyObject_CallMethod", (void *)c_call); v_replace("PyObject_HasAttrString", (void *)c_hasattr); v_replace("PyType_IsSubtype", (void *)+[](PyTypeObject *, PyTypeObject *) -> int { return 0; });
}
struct F { int y, mo, d, h, mi, s, us; };
static F fields(const char *a, const char *b, const char *c, const char *e) {
    F f; uint16_t y = v_in16(a); uint32_t md = v_in32(b), hms = v_in32(c), us = v_in32(e); f.y = y; f.mo = md & 255; f.d = md >> 8 & 255; f.h = hms & 255; f.mi = hms >> 8 & 255; f.s = hms >> 16 & 255; f.us = us;
    v_assume((f.y >= 1) & (f.y <= 9999) & (f.mo >= 1) & (f.mo <= 12) & (f.d >= 1) & (f.d <= 31)); v_assume((f.h <= 23) & (f.mi <= 59) & (f.s <= 59)); v_assume(us <= 999999); return f;
}
static void put(PyDateTime_DateTime &o, const F &f, PyObject *tz) { immortal((PyObject *)&o, &t_dt); o.data[0] = f.y >> 8; o.data[1] = f.y; o.data[2] = f.mo; o.data[3] = f.d; o.data[4] = f.h; o.data[5] = f.mi; o.data[6] = f.s; o.data[7] = f.us >> 16; o.data[8] = f.us >> 8; o.data[9] = f.us; o.hastzinfo = tz != nullptr; o.tzinfo = tz; }
static void put(PyDateTime_Time &o, const F &f, PyObject *tz) { immortal((PyObject *)&o, &t_time); o.data[0] = f.h; o.data[1] = f.mi; o.data[2] = f.s; o.data[3] = f.us >> 16; o.data[4] = f.us >> 8; o.data[5] = f.us; o.hastzinfo = tz != nullptr; o.tzinfo = tz; }
static void put(PyDateTime_Date &o, const F &f) { immortal((PyObject *)&o, &t_date); o.data[0] = f.y >> 8; o.data[1] = f.y; o.data[2] = f.mo; o.data[3] = f.d; }
static uint64_t dkey(const F &f) { return (uint64_t)f.y << 16 | f.mo << 8 | f.d; } // order of dates
static uint64_t tkey(const F &f) { return (uint64_t)f.h << 48 | (uint64_t)f.mi << 40 | (uint64_t)f.s << 32 | (uint32_t)f.us; } // order of times
V_UNIT(bit_fields) { // a field set is the field got, the others stay
    uint64_t x = v_in64("number"), x0 = x, v = v_in64("value"), n = v_in64("bits"), at = v_in64("start"); v_assume(n >= 1); v_assume(n <= 57); v_assume(at <= 63); v_assume(n + at <= 64); n = v_case(n, 58); v_cover("field");
    uint64_t m = (~0ull >> (64 - n)); set_bytes(x, (int)at, (int)n, v); V_ASSERT(get_bytes(x, (int)at, (int)n) == (v & m)); V_ASSERT((x & ~(m << at)) == (x0 & ~(m << at)));
}
V_UNIT(date) {
    setup(); F f = fields("y", "md", "hms", "us"), e = fields("y2", "md2", "hms2", "us2"); PyDateTime_Date o{}, p{}; put(o, f); put(p, e); uint64_t a = pyDateToUint64((PyObject *)&o), b = pyDateToUint64((PyObject *)&p); v_cover("stored");
    V_ASSERT((a < b) == (dkey(f) < dkey(e))); V_ASSERT((a == b) == (dkey(f) == dkey(e)));
    auto r = uint64ToPyDate(a); v_cover("loaded"); V_ASSERT(r == &o_result); V_ASSERT(g.kind == 1); V_ASSERT(g.y == f.y); V_ASSERT(g.mo == f.mo); V_ASSERT(g.d == f.d); V_ASSERT(g.type == &t_date);
}
V_UNIT(datetime_plain) {
    setup(); F f = fields("y", "md", "hms", "us"), e = fields("y2", "md2", "hms2", "us2"); PyDateTime_DateTime o{}, p{}; put(o, f, nullptr); put(p, e, nullptr); uint64_t a = pyDateTimeToToUint64((PyObject *)&o), b = pyDateTimeToToUint64((PyObject *)&p); v_cover("stored"); V_ASSERT(!isDatatimeWithTZ((PyObject *)&o));
    uint64_t d = dkey(f), c = dkey(e), t = tkey(f), u = tkey(e); V_ASSERT((a < b) == ((d < c) | ((d == c) & (t < u)))); V_ASSERT((a == b) == ((d == c) & (t == u)));
    auto r = uint64ToPyDatetime(a); v_cover("loaded"); V_ASSERT(r == &o_result); V_ASSERT(g.kind == 2); V_ASSERT(g.y == f.y); V_ASSERT(g.mo == f.mo); V_ASSERT(g.d == f.d); V_ASSERT(g.h == f.h); V_ASSERT(g.mi == f.mi); V_ASSERT(g.s == f.s); V_ASSERT(g.us == f.us); V_ASSERT(g.tz == Py_None); V_ASSERT(g.type == &t_dt);
}
V_UNIT(time_plain) {
    setup(); F f = fields("y", "md", "hms", "us"), e = fields("y2", "md2", "hms2", "us2"); PyDateTime_Time o{}, p{}; put(o, f, nullptr); put(p, e, nullptr); uint64_t a = pyTimeToUint64((PyObject *)&o), b = pyTimeToUint64((PyObject *)&p); v_cover("stored"); V_ASSERT(!isDatatimeWithTZ((PyObject *)&o));
    V_ASSERT((a < b) == (tkey(f) < tkey(e))); V_ASSERT((a == b) == (tkey(f) == tkey(e)));
    auto r = uint64ToPyTime(a); v_cover("loaded"); V_ASSERT(r == &o_result); V_ASSERT(g.kind == 3); V_ASSERT(g.h == f.h); V_ASSERT(g.mi == f.mi); V_ASSERT(g.s == f.s); V_ASSERT(g.us == f.us); V_ASSERT(g.tz == Py_None);
}
// time zone offsets in whole hours, as Python normalises them: hours 0..23 of day 0, or hours 1..23 of day -1
static int offset(const char *n) { uint8_t k = v_in8(n); int hours = k & 31; bool neg = k >> 7; v_assume(hours <= 23); v_assume(!(neg & (hours == 0))); o_off.days = neg ? -1 : 0; o_off.seconds = hours * 3600; o_off.microseconds = 0; return (neg ? -24 : 0) + hours; }
V_UNIT(datetime_zone) {
    setup(); F f = fields("y", "md", "hms", "us"), e = fields("y2", "md2", "hms2", "us2"); uint16_t ms = v_in16("ms"), ns = v_in16("ms2"); v_assume(ms < 1000); v_assume(ns < 1000); f.us = ms * 1000; e.us = ns * 1000; PyDateTime_DateTime o{}, p{}; put(o, f, &o_tz); put(p, e, &o_tz); V_ASSERT(isDatatimeWithTZ((PyObject *)&o));
    int w2 = offset("zone2"); uint64_t b = pyDateTimeWithTzToUint64((PyObject *)&p); int w = offset("zone"); uint64_t a = pyDateTimeWithTzToUint64((PyObject *)&o); V_ASSERT(g_asked); v_cover("stored"); V_ASSERT((a == b) == ((dkey(f) == dkey(e)) & (tkey(f) == tkey(e)) & (w == w2)));
    auto r = uint64ToPyDatetimeWithTZ(a); v_cover("loaded"); V_ASSERT(r == &o_result); V_ASSERT(g.kind == 2); V_ASSERT(g.y == f.y); V_ASSERT(g.mo == f.mo); V_ASSERT(g.d == f.d); V_ASSERT(g.h == f.h); V_ASSERT(g.mi == f.mi); V_ASSERT(g.s == f.s); V_ASSERT(g.us == f.us); V_ASSERT(g.tz == &o_tz); V_ASSERT(g.off == (PyObject *)&o_delta); V_ASSERT(g.dd * 24 * 3600 + g.ds == w * 3600); V_ASSERT(g.du == 0);
}
V_UNIT(time_zone) {
    setup(); F f = fields("y", "md", "hms", "us"), e = fields("y2", "md2", "hms2", "us2"); PyDateTime_Time o{}, p{}; put(o, f, &o_tz); put(p, e, &o_tz); V_ASSERT(isDatatimeWithTZ((PyObject *)&o));
    int w2 = offset("zone2"); uint64_t b = pyTimeWithTzToUint64((PyObject *)&p); int w = offset("zone"); uint64_t a = pyTimeWithTzToUint64((PyObject *)&o); V_ASSERT(g_asked); v_cover("stored"); V_ASSERT((a == b) == ((tkey(f) == tkey(e)) & (w == w2)));
    auto r = uint64ToPyTimeWithTz(a); v_cover("loaded"); V_ASSERT(r == &o_result); V_ASSERT(g.kind == 3); V_ASSERT(g.h == f.h); V_ASSERT(g.mi == f.mi); V_ASSERT(g.s == f.s); V_ASSERT(g.us == f.us); V_ASSERT(g.tz == &o_tz); V_ASSERT(g.off == (PyObject *)&o_delta); V_ASSERT(g.dd * 24 * 3600 + g.ds == w * 3600); V_ASSERT(g.du == 0);
}
// an offset that cannot be stored is refused
V_UNIT(zone_refused) {
    setup(); F f = fields("y", "md", "hms", "us"); PyDateTime_DateTime o{}; put(o, f, &o_tz); int d = (int)v_in32("days"); o_off.days = d; o_off.seconds = 3600; v_throws((d != 0) & (d != -1)); pyDateTimeWithTzToUint64((PyObject *)&o); v_cover("accepted"); V_ASSERT((d == 0) | (d == -1));
}
