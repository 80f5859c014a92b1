// Native meaning of the specification primitives: replays one counterexample against the real code.
// usage: replay <unit> <inputs.txt>      exit 0: no violation, 10: violation shown, 20: inputs do not apply
#include <v.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <deque>
#include <string>
#include <vector>
#include <exception>
#include <csignal>
#include <unistd.h>
#include <dlfcn.h>
struct In { std::string value; std::vector<unsigned char> bytes; uint64_t size = 0; bool buf = false; };
static std::map<std::string, std::deque<In>> g_in;
static bool g_throws = false;
static In take(const char *n) { auto &q = g_in[n]; if (q.empty()) { fprintf(stderr, "no value for input %s\n", n); return In(); } In i = q.front(); q.pop_front(); return i; }
static uint64_t num(const char *n) { In i = take(n); return i.value.empty() ? 0 : strtoull(i.value.c_str(), nullptr, 10); }
extern "C" {
void v_assume(int c) { if (!c) { printf("inputs do not satisfy the precondition\n"); fflush(stdout); _exit(20); } }
void v_assert(int c, const char *n) { if (!c) { printf("REPLAYED: postcondition violated: %s\n", n); fflush(stdout); _exit(10); } }
void v_require(int c, const char *n) { if (!c) { printf("REPLAYED: precondition of callee violated: %s\n", n); fflush(stdout); _exit(10); } }
void v_inv(int) {}
void v_variant(uint64_t) {}
void v_cover(const char *) {}
void v_throws(int c) { g_throws = c; }
uint8_t v_in8(const char *n) { return (uint8_t)num(n); }
uint16_t v_in16(const char *n) { return (uint16_t)num(n); }
uint32_t v_in32(const char *n) { return (uint32_t)num(n); }
uint64_t v_in64(const char *n) { return num(n); }
bool v_inbool(const char *n) { return num(n) != 0; }
void *v_buf(const char *n, uint64_t size, uint64_t) {
    In i = take(n);
    if (size > (1ull << 31)) { printf("buffer too large to replay\n"); fflush(stdout); _exit(20); }
    unsigned char *p = (unsigned char *)malloc(size ? size : 1);   // exact size: ASAN sees overruns
    memset(p, 0, size); memcpy(p, i.bytes.data(), i.bytes.size() < size ? i.bytes.size() : size);
    return p;
}
uint64_t v_case(uint64_t x, uint64_t) { return x; }
void v_havoc(void *, uint64_t) {}
void v_havoc_obj(void *) {}
uint64_t v_fresh64() { return 0; }
// a unit over contracts of callees has no meaning on the real callees: nothing is replayed, except where the contract only names the real function
void v_replace(const char *n, void *) { for (const char *k : {"strlen", "strchr", "strcmp", "db0::checkPoisonedOp"}) if (!strncmp(n, k, strlen(k))) return; printf("the unit stands on the contract of %s: not replayed\n", n); fflush(stdout); _exit(20); }
void v_bounded(const char *) {}
void v_note(const char *) {}
void v_maxpaths(uint64_t) {}
uint64_t v_uf(const char *, uint64_t, uint64_t) { printf("uses an uninterpreted function\n"); fflush(stdout); _exit(20); }
uint64_t v_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int v_and(int a, int b) { return a && b; }
uint64_t v_objsize(void *) { return 0; }
int v_symbolic_mode() { return 0; }
}
static void onsig(int s) { printf("REPLAYED: signal %d\n", s); fflush(stdout); _exit(10); }
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    FILE *f = fopen(argv[2], "r"); if (!f) return 2;
    char name[512], kind[16]; 
    while (fscanf(f, "%511s %15s", name, kind) == 2) {
        In i; static char buf[1 << 18];
        if (!strcmp(kind, "v")) { if (fscanf(f, "%262143s", buf) != 1) break; i.value = buf; }
        else { unsigned long long sz; if (fscanf(f, "%llu %262143s", &sz, buf) != 2) break; i.buf = true; i.size = sz; if (buf[0] != '-') for (size_t k = 0; buf[k] && buf[k + 1]; k += 2) { unsigned b; sscanf(buf + k, "%2x", &b); i.bytes.push_back(b); } }
        g_in[name].push_back(i);
    }
    fclose(f);
    for (int s : {SIGSEGV, SIGABRT, SIGILL, SIGFPE, SIGBUS, SIGTRAP}) signal(s, onsig);
    alarm(60);
    std::string sym = std::string("v_unit_") + argv[1];
    auto fn = (void (*)())dlsym(nullptr, sym.c_str());
    if (!fn) { printf("no unit %s\n", sym.c_str()); return 2; }
    try { fn(); } catch (std::exception &e) { if (!g_throws) { printf("REPLAYED: exception: %s\n", e.what()); fflush(stdout); _exit(10); } printf("exception (permitted): %s\n", e.what()); }
    catch (...) { if (!g_throws) { printf("REPLAYED: exception\n"); fflush(stdout); _exit(10); } }
    printf("no violation on these inputs\n"); fflush(stdout);
    _exit(0);
}
