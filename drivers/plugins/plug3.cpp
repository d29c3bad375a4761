// The same through the entry point of API 3.
#include <dlfcn.h>
struct VSPlugin;
typedef void (*Pub)(const void *, void *, void *, void *, const void *);
typedef void (*Config)(const char *, const char *, const char *, int, int, VSPlugin *);
typedef void (*Reg)(const char *, const char *, Pub, void *, VSPlugin *);
extern "C" __attribute__((visibility("default"))) void VapourSynthPluginInit(Config c, Reg r, VSPlugin *p) {
    auto f = (void (*)(Config, Reg, VSPlugin *))dlsym(RTLD_DEFAULT, "vp_plugin_init3");
    if (f) f(c, r, p);
}
