// native replay runtime: inputs come from a file, no symbolic machinery
#include "fs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <unistd.h>
static std::map<std::string, int64_t> inputs;
static std::map<std::string, int> seen;
struct H { const char* n; void (*f)(); H* next; };
static H* hs;
struct FsAbandon {};
extern "C" {
void fs_register_harness(const char* name, void (*fn)()) { hs = new H{name, fn, hs}; }
int64_t fs_int_(const char* name, int64_t lo, int64_t hi, int64_t dflt)
{
    std::string n(name);
    int k = seen[n]++;
    if (k) n += "#" + std::to_string(k);
    auto it = inputs.find(n);
    int64_t v = it == inputs.end() ? dflt : it->second;
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    if (getenv("FS_VERBOSE")) fprintf(stderr, "input %s = %lld\n", n.c_str(), (long long)v);
    return v;
}
void fs_fail_(const char* msg)
{
    printf("REPLAY-FAIL %s\n", msg);
    fflush(stdout);
    _exit(1);
}
void fs_assert_(bool c, const char* msg) { if (!c) fs_fail_(msg); }
void fs_assume_(bool c) { if (!c) { printf("REPLAY-ABANDON\n"); fflush(stdout); _exit(0); } }
void fs_reach_(const char* l) { if (getenv("FS_VERBOSE")) fprintf(stderr, "reach %s\n", l); }
int64_t fs_enum_(int64_t v) { return v; }
void fs_note_double_(const char* n, double v) { fprintf(stderr, "note %s = %.17g\n", n, v); }
void fs_text_lossy(int) {}
void fs_fork_index(int) {}
int fs_thorough() { const char* t = getenv("FS_THOROUGH"); return t && *t == '1'; }
}
int main(int argc, char** argv)
{
    if (argc < 3) return 3;
    std::ifstream in(argv[2]);
    std::string line;
    while (std::getline(in, line)) {
        size_t p = line.rfind('=');
        if (p == std::string::npos) continue;
        inputs[line.substr(0, p)] = strtoll(line.c_str() + p + 1, 0, 10);
    }
    alarm(60);
    for (H* h = hs; h; h = h->next)
        if (!strcmp(h->n, argv[1])) {
            try { h->f(); }
            catch (std::exception& e) { printf("REPLAY-FAIL uncaught exception: %s\n", e.what()); return 1; }
            catch (...) { printf("REPLAY-FAIL uncaught exception\n"); return 1; }
            printf("REPLAY-OK\n");
            return 0;
        }
    return 3;
}
