#include "module.h"
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
namespace sim {
static std::vector<Module *> g_mods;
void *Module::sym(const char *name) { return dlsym(dl, name); }
// The same file is copied so that each simulated process has its own globals.
void preloadModules(const std::string &dir, const std::string &kind, int n) {
    for (int i = 0; i < n; ++i) {
        std::string src = dir + "/" + kind + ".so", dst = dir + "/" + kind + "." + std::to_string(i) + "." + std::to_string(getpid()) + ".tmp";
        std::string cmd;
        FILE *a = fopen(src.c_str(), "rb"), *b = fopen(dst.c_str(), "wb");
        if (!a || !b) { fprintf(stderr, "cannot copy %s\n", src.c_str()); exit(2); }
        char buf[65536]; size_t k;
        while ((k = fread(buf, 1, sizeof buf, a)) > 0) fwrite(buf, 1, k, b);
        fclose(a); fclose(b);
        Module *m = new Module();
        m->kind = kind;
        m->dl = dlopen(dst.c_str(), RTLD_LAZY | RTLD_LOCAL);
        unlink(dst.c_str());
        if (!m->dl) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(2); }
        g_mods.push_back(m);
    }
}
Module *takeModule(const std::string &kind) {
    for (Module *m : g_mods) if (m->kind == kind && !m->used) { m->used = true; return m; }
    return nullptr;
}
} // namespace sim
