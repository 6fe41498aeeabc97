// Native replay of a recorded input vector against the real code.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>
static std::vector<std::pair<std::string,u64>> in; static size_t pos; static bool abok, thok; static bool quiet;
static void fin(const char* what, const char* msg, int code) { printf("OUTCOME %s%s%s\n", what, msg ? " " : "", msg ? msg : ""); fflush(nullptr); _exit(code); }
extern "C" void vf_fin(const char* what, const char* msg, int code) { fin(what, msg, code); }
#ifdef VF_THREADS
void vf_trace(u64 v);
#endif
extern "C" {
uint64_t vf_sym(unsigned bits, const char* name) { u64 v = pos < in.size() ? in[pos].second : 0; if (pos < in.size() && in[pos].first != name) fin("DIVERGED", name, 20); pos++; return bits < 64 ? v & ((1ull << bits) - 1) : v; }
void vf_assume(bool b) { if (!b) fin("assumed-away", nullptr, 21); }
void vf_check_(bool b, const char* m) { if (!b) fin("CHECK-FAILED", m, 10); }
void vf_reach(const char* l) { printf("REACHED %s\n", l); }
void vf_observe(const char* n, uint64_t v) { printf("OBS %s 0x%llx\n", n, (unsigned long long)v); }
void vf_abort_ok(bool b) { abok = b; }
void vf_throw_ok(bool b) { thok = b; }
uint64_t vf_conc(uint64_t v) { return v; }
int vf_is_sym(uint64_t) { return 0; }
int vf_engine() { return 0; }
void __wrap_exit(int c) { if (abok) fin("aborted", nullptr, 0); fin("UNEXPECTED-ABORT", nullptr, 11); }
}
int main(int argc, char** argv) {
    if (argc < 3) return 64;
    if (FILE* f = fopen(argv[2], "r")) { char n[256]; unsigned long long v; while (fscanf(f, "%255s %llx", n, &v) == 2) {
        std::string nm = n; if (nm == "sched") continue;
        if (nm == "@") {
#ifdef VF_THREADS
            vf_trace(v);
#endif
            continue; }
        in.push_back({n, v}); } fclose(f); }
    void* p = dlsym(RTLD_DEFAULT, argv[1]); if (!p) { printf("no entry\n"); return 64; }
    u64 a[6] = {0}; for (int i = 3; i < argc && i < 9; i++) a[i-3] = strtoull(argv[i], 0, 0);
    try { ((void(*)(u64,u64,u64,u64,u64,u64))p)(a[0],a[1],a[2],a[3],a[4],a[5]); }
    catch (...) { if (thok) fin("thrown", nullptr, 0); fin("UNEXPECTED-THROW", nullptr, 12); }
    fin("returned", nullptr, 0);
}
