// Running the command line program (its main, renamed) with fresh variables, its output caught
#pragma once
#include "common.hpp"
#include <csetjmp>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <stdio_ext.h>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" {
int cnd_main(int argc, char** argv);
extern char __start_cli_data[] __attribute__((weak)), __stop_cli_data[] __attribute__((weak)), __start_cli_bss[] __attribute__((weak)), __stop_cli_bss[] __attribute__((weak));
void cnd_exit(int code);
size_t cnd_fread(void* p, size_t size, size_t n, FILE* f);
}
namespace cli {
inline jmp_buf exited; inline int exit_code = 0, memfd = -1;
__attribute__((no_sanitize("address"))) inline void raw_copy(char* to, const char* from, size_t n) { volatile char* t = to; for (size_t i = 0; i < n; i++) t[i] = from[i]; }
__attribute__((no_sanitize("address"))) inline void raw_zero(char* a, char* b) {
    for (; a < b && ((uintptr_t)a & 63); a++) *(volatile char*)a = 0;
    for (; a + 64 <= b; a += 64) { // most of it is never written
        volatile uint64_t* q = (volatile uint64_t*)a;
        if (q[0] | q[1] | q[2] | q[3] | q[4] | q[5] | q[6] | q[7]) for (int i = 0; i < 8; i++) q[i] = 0;
    }
    for (; a < b; a++) *(volatile char*)a = 0;
}
inline int saved_err = -1;
inline void on_death() { // the report of the sanitizer went to the output of the program
    char b[4096]; off_t n = lseek(memfd, 0, SEEK_END); off_t from = n > 4000 ? n - 4000 : 0;
    const char* all = getenv("CLI_DEBUG"); if (all) from = 0;
    ssize_t k = pread(memfd, b, sizeof b, from); if (k > 0 && saved_err >= 0) { if (write(saved_err, b, (size_t)k)) {} }
}
inline void fresh() {
    static string data; static bool have = false;
    size_t n = __start_cli_data ? (size_t)(__stop_cli_data - __start_cli_data) : 0;
    if (!have) { have = true; data.resize(n); raw_copy(&data[0], __start_cli_data, n); return; }
    raw_copy(__start_cli_data, data.data(), n);
    if (__start_cli_bss) raw_zero(__start_cli_bss, __stop_cli_bss);
}
struct Res { int code = -1; string out; };
inline int infd = -1;
inline Res run(Ctx& ctx, const vector<string>& args, bool keep = false, const string* input = nullptr) {
    Res r;
    fresh();
    if (memfd < 0) memfd = memfd_create("out", 0);
    fflush(stdout);
    int save = dup(1), save2 = dup(2);
    lseek(memfd, 0, SEEK_SET); if (ftruncate(memfd, 0)) {}
    dup2(memfd, 1); saved_err = save2;
    static bool cb = false; if (!cb) { cb = true; __sanitizer_set_death_callback(on_death); }
    int nul = open("/dev/null", O_RDWR); dup2(memfd, 2);
    if (input) {
        if (infd < 0) infd = memfd_create("in", 0);
        if (ftruncate(infd, 0)) {}
        for (size_t k = 0; k < input->size();) { ssize_t w = pwrite(infd, input->data() + k, input->size() - k, (off_t)k); if (w <= 0) break; k += (size_t)w; }
        lseek(infd, 0, SEEK_SET); dup2(infd, 0);
    } else dup2(nul, 0);
    close(nul);
    clearerr(stdin); __fpurge(stdin);
    vector<char*> av; vector<string> a = args; string name = "cnd"; av.push_back(&name[0]);
    for (auto& s : a) av.push_back(&s[0]);
    av.push_back(nullptr);
    if (setjmp(exited) == 0) r.code = cnd_main((int)av.size() - 1, av.data());
    else r.code = exit_code;
    r.code &= 0xFF;
    fflush(stdout); fflush(stderr);
    dup2(save, 1); dup2(save2, 2); close(save); close(save2);
    ctx.evals();
    if (keep) { off_t n = lseek(memfd, 0, SEEK_END); r.out.resize((size_t)n); if (n && pread(memfd, &r.out[0], (size_t)n, 0) != n) r.out.clear(); }
    return r;
}
}
extern "C" inline void cnd_exit(int code) { cli::exit_code = code; longjmp(cli::exited, 1); }
extern "C" __attribute__((used)) inline void (*cnd_exit_ref)(int) = cnd_exit;
// What lies behind the end of a file in the memory it was read into must not be read (but for one byte, where a NUL may be put)
extern "C" __attribute__((used)) inline size_t cnd_fread(void* p, size_t size, size_t n, FILE* f) {
    size_t got = fread(p, size, n, f), k = got * size, all = n * size;
    if (got < n && all > k + 1) {
        char name[8]; void* base; size_t len;
        if (!strcmp(__asan_locate_address(p, name, sizeof name, &base, &len), "heap") && (char*)p + all <= (char*)base + len) __asan_poison_memory_region((char*)p + k + 1, all - k - 1);
    }
    return got;
}
extern "C" __attribute__((used)) inline size_t (*cnd_fread_ref)(void*, size_t, size_t, FILE*) = cnd_fread;
