// Generic concrete driver: executes harness functions of the same translation unit on request.
// Protocol (little endian): 'A' n data -> ptr | 'R' ptr n -> data | 'W' ptr n data | 'C' len name argc args -> status ret
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <string>
#include <unistd.h>

static FILE* in;
static FILE* out;
static uint64_t get() { uint64_t v; if (fread(&v, 8, 1, in) != 1) _exit(0); return v; }
static void put(uint64_t v) { fwrite(&v, 8, 1, out); }
extern "C" __attribute__((weak)) uint64_t harness_call(void* fn, const uint64_t* a, uint64_t* status);

typedef uint64_t U;
typedef U (*F)(U, U, U, U, U, U, U, U);

int main() {
    in = fdopen(dup(0), "rb");
    out = fdopen(dup(1), "wb");
    dup2(2, 1);
    for (;;) {
        uint64_t op = get();
        if (op == 'A') {
            uint64_t n = get();
            unsigned char* p = (unsigned char*)malloc(n);
            if (n && fread(p, 1, n, in) != n) _exit(0);
            put((uint64_t)p);
        } else if (op == 'R') {
            const unsigned char* p = (const unsigned char*)get();
            uint64_t n = get();
            std::string copy((const char*)p, n);
            fwrite(copy.data(), 1, n, out);
        } else if (op == 'W') {
            char* p = (char*)get();
            uint64_t n = get();
            std::string copy(n, 0);
            if (n && fread(&copy[0], 1, n, in) != n) _exit(0);
            memcpy(p, copy.data(), n);
        } else if (op == 'C') {
            uint64_t n = get();
            std::string name(n, 0);
            if (n && fread(&name[0], 1, n, in) != n) _exit(0);
            uint64_t argc = get(), a[8] = {0};
            for (uint64_t i = 0; i < argc; ++i) a[i] = get();
            F f = (F)dlsym(RTLD_DEFAULT, name.c_str());
            if (!f) { fprintf(stderr, "no function %s\n", name.c_str()); _exit(3); }
            uint64_t status = 0, r = 0;
            try {
                r = f(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
            } catch (const std::exception& e) {
                status = 1;
            } catch (...) {
                status = 2;
            }
            put(status);
            put(r);
        }
        fflush(out);
    }
}
