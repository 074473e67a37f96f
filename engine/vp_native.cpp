// Native replay runtime: feeds recorded inputs to a harness compiled against the real code.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <set>
#include <dlfcn.h>
static std::vector<std::string> g_in; static size_t g_pos; static std::vector<uint64_t> g_par;
static std::set<std::string> g_reach;
static long g_live;
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void onm(const volatile void*, size_t) { ++g_live; }
static void onf(const volatile void* p) { if(p) --g_live; }
#endif
extern "C" {
void vp_symbolic(void* p, size_t n, const char* name)
{
    std::string h = g_pos < g_in.size() ? g_in[g_pos++] : std::string();
    auto* b = (unsigned char*)p;
    for(size_t i = 0; i < n; i++) b[i] = 2 * i + 1 < h.size() ? (unsigned char)strtoul(h.substr(2 * i, 2).c_str(), 0, 16) : 0;
    if(getenv("VP_VERBOSE")) { fprintf(stderr, "input %s =", name); for(size_t i = 0; i < n; i++) fprintf(stderr, " %02x", b[i]); fprintf(stderr, "\n"); }
}
void vp_symbolic_num(void* p, size_t n, const char* name) { vp_symbolic(p, n, name); }
void vp_assume(bool c) { if(!c) { printf("ASSUMPTION-FAILED\n"); fflush(stdout); _Exit(77); } }
void vp_assert(bool c, const char* m) { if(!c) { printf("ASSERTION-FAILED %s\n", m); fflush(stdout); _Exit(1); } }
void vp_reach(const char* l) { if(getenv("VP_VERBOSE")) fprintf(stderr, "reach %s\n", l); }
uint64_t vp_param(unsigned i) { return i < g_par.size() ? g_par[i] : 0; }
bool vp_native() { return true; }
long vp_live() { return g_live; }
uint64_t vp_concrete(uint64_t v) { return v; }
void vp_print(const char* l, uint64_t v) { if(getenv("VP_VERBOSE")) fprintf(stderr, "%s = %llu\n", l, (unsigned long long)v); }
bool vp_and(bool a, bool b) { return a & b; }
bool vp_or(bool a, bool b) { return a | b; }
uint64_t vp_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
bool vp_eq_bytes(const void* a, const void* b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
}
int main(int argc, char** argv)
{
    if(argc > 1) {
        FILE* f = fopen(argv[1], "r");
        if(!f) return 3;
        char line[1 << 16];
        while(fgets(line, sizeof line, f)) {
            std::string s = line;
            while(!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
            if(s.compare(0, 6, "param ") == 0) g_par.push_back(strtoull(s.c_str() + 6, 0, 0));
            else if(s.compare(0, 3, "in ") == 0) { auto q = s.rfind(' '); g_in.push_back(s.substr(q + 1)); }
        }
        fclose(f);
    }
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_install_malloc_and_free_hooks(onm, onf);
#endif
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argc > 2 ? argv[2] : "");
    if(!fn) { printf("NO-ENTRY\n"); return 4; }
    fn();
    printf("HELD\n");
    fflush(stdout);
    _Exit(0);
}
