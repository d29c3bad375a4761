// A plugin whose contents the program loading it decides.
#include "VapourSynth4.h"
#include <dlfcn.h>
extern "C" __attribute__((visibility("default"))) void VS_CC VapourSynthPluginInit2(VSPlugin *plugin, const VSPLUGINAPI *vspapi) {
    auto f = (void (*)(VSPlugin *, const VSPLUGINAPI *))dlsym(RTLD_DEFAULT, "vp_plugin_init");
    if (f) f(plugin, vspapi);
}
