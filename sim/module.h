// Loading copies of the repository code as simulated processes.
#pragma once
#include "kernel.h"
namespace sim {
struct Module {
    std::string kind; void *dl = nullptr; bool used = false;
    void *sym(const char *name);
};
// Preloads n copies of the module (in the parent, before forking).
void preloadModules(const std::string &dir, const std::string &kind, int n);
Module *takeModule(const std::string &kind);
struct ProcExit { int code; };
} // namespace sim
