// Nodes made inside nested plugin functions, on several threads, and what inspection says about them.
// usage: graph_driver SEED SESSIONS OPS TRACE
#include "vsdrv.h"
static VSCore *core; static bool insp;
static std::mutex gm;                              // trace order and the tables below
static std::map<const VSNode *, int> idOf; static int nextId, nextThread;
struct H { int id; VSNode *n; bool audio, plain; }; static std::vector<H> hs;
static thread_local int tid = -1; static thread_local Rng *rg; static thread_local int depth;
static uint64_t seedBase;
static VSPlugin *pl[3];                             // two of ours, std
static void here() { if (tid < 0) { std::lock_guard<std::mutex> l(gm); tid = ++nextThread; rg = new Rng(seedBase + tid * 977); } }
static std::string dump(const VSMap *m) {
    std::map<std::string, std::string> kv; int n = vs->mapNumKeys(m), err;
    for (int i = 0; i < n; i++) {
        const char *k = vs->mapGetKey(m, i); int t = vs->mapGetType(m, k), c = vs->mapNumElements(m, k); std::string v = fmt("%d/%d", t, c);
        for (int j = 0; j < c; j++) switch (t) {
            case ptInt: v += fmt(",%lld", (long long)vs->mapGetInt(m, k, j, &err)); break;
            case ptFloat: v += fmt(",%g", vs->mapGetFloat(m, k, j, &err)); break;
            case ptData: v += "," + hexs(vs->mapGetData(m, k, j, &err), vs->mapGetDataSize(m, k, j, &err)); break;
            case ptVideoNode: case ptAudioNode: { VSNode *x = vs->mapGetNode(m, k, j, &err); v += fmt(",%p", (void *)x); vs->freeNode(x); break; }
            case ptFunction: { VSFunction *x = vs->mapGetFunction(m, k, j, &err); v += fmt(",%p", (void *)x); vs->freeFunction(x); break; }
        }
        kv[k] = v;
    }
    std::string s; for (auto &x : kv) s += x.first + "=" + x.second + ";"; return s;
}
static VSVideoInfo vi; static VSAudioInfo ai;
static const VSFrame *VS_CC gf(int n, int act, void *u, void **, VSFrameContext *ctx, VSCore *c, const VSAPI *) { if (act != arInitial) return nullptr; return u ? vs->newAudioFrame(&ai.format, 3072, nullptr, c) : vs->newVideoFrame(&vi.format, 16, 16, nullptr, c); }
static std::string deps(VSNode *n) {
    int c = vs->getNumNodeDependencies(n); std::string s = "[";
    for (int i = 0; i < c; i++) { const VSFilterDependency *d = vs->getNodeDependency(n, i); auto it = d ? idOf.find(d->source) : idOf.end(); s += fmt("%s[%d,%d]", i ? "," : "", it == idOf.end() ? -1 : it->second, d ? d->requestPattern : -1); }
    return s + "]";
}
static VSNode *pickNode(bool audio, bool any = false, bool plain = false) {   // takes a reference; gm held
    std::vector<H *> v; for (auto &h : hs) if ((any || h.audio == audio) && (!plain || h.plain)) v.push_back(&h);
    return v.empty() ? nullptr : vs->addNodeRef(v[rg->below((int)v.size())]->n);
}
static void make() {
    Rng &R = *rg; bool audio = R.chance(25);
    static const char *names[] = { "A", "Filter", "a filter with a longer name: %s \"x\"", "", "std.Trim" };
    std::string nm = fmt("%s%d", names[R.below(5)], R.below(100)); if (R.chance(5)) nm = "";
    int mode = R.below(4);
    std::vector<VSFilterDependency> ds;
    { std::lock_guard<std::mutex> l(gm); for (int k = R.below(5); k > 0; k--) { VSNode *n = !ds.empty() && R.chance(30) ? vs->addNodeRef(ds[R.below((int)ds.size())].source) : pickNode(false, true); if (n) ds.push_back({ n, R.below(4) }); } }
    VSNode *r;
    bool viaMap = R.chance(40); VSMap *out = viaMap ? vs->createMap() : nullptr;
    std::lock_guard<std::mutex> l(gm);     // a freed node's address may come back at once
    if (audio) { if (viaMap) vs->createAudioFilter(out, nm.c_str(), &ai, gf, nullptr, mode, ds.data(), (int)ds.size(), (void *)1, core); else r = vs->createAudioFilter2(nm.c_str(), &ai, gf, nullptr, mode, ds.data(), (int)ds.size(), (void *)1, core); }
    else if (viaMap) vs->createVideoFilter(out, nm.c_str(), &vi, gf, nullptr, mode, ds.data(), (int)ds.size(), nullptr, core); else r = vs->createVideoFilter2(nm.c_str(), &vi, gf, nullptr, mode, ds.data(), (int)ds.size(), nullptr, core);
    if (viaMap) { r = vs->mapGetNode(out, "clip", 0, nullptr); vs->freeMap(out); }
    if (R.chance(20)) vs->setLinearFilter(r); if (R.chance(20)) vs->setCacheMode(r, R.below(3) - 1);
    int id = ++nextId; idOf[r] = id;
    std::string d = "["; for (size_t i = 0; i < ds.size(); i++) d += fmt("%s[%d,%d]", i ? "," : "", idOf[ds[i].source], ds[i].requestPattern);
    emit(fmt("{\"op\":\"node\",\"t\":%d,\"id\":%d,\"name\":%s,\"mode\":%d,\"deps\":%s]}", tid, id, jstr(nm).c_str(), mode, d.c_str()));
    hs.push_back({ id, r, audio, true });
    for (auto &x : ds) vs->freeNode(x.source);
    ds.assign(ds.size(), { nullptr, 7 });
}
static void VS_CC runf(const VSMap *in, VSMap *out, void *u, VSCore *c, const VSAPI *);
static void VS_CC evalf(const VSMap *in, VSMap *out, void *u, VSCore *c, const VSAPI *);
static std::string callj(VSPlugin *p, const char *f, const VSMap *m) { return fmt("[%s,%s,%s,%s]", jstr(f).c_str(), jstr(vs->getPluginID(p)).c_str(), jstr(vs->getPluginNamespace(p)).c_str(), jstr(dump(m)).c_str()); }
static void call() {
    Rng &R = *rg;
    VSMap *m = vs->createMap();
    if (R.chance(8)) {      // refused: no function is entered
        VSMap *r = R.chance(50) ? vs->invoke(pl[R.below(2)], "nosuch", m) : (vs->mapSetInt(m, "bad", 1, maAppend), vs->invoke(pl[R.below(2)], "strict", m));
        vs->freeMap(r); vs->freeMap(m); return;
    }
    int k = R.below(2); const char *f = R.chance(50) ? "run" : R.chance(50) ? "strict" : "other";
    for (int i = R.below(3); i > 0 && strcmp(f, "strict"); i--) {
        std::string key = fmt("k%d", i);
        switch (R.below(4)) {
            case 0: vs->mapSetInt(m, key.c_str(), (int64_t)R.next(), maAppend); break;
            case 1: vs->mapSetFloat(m, key.c_str(), R.below(100) / 8.0, maAppend); break;
            case 2: vs->mapSetData(m, key.c_str(), "data", R.below(5), dtBinary, maAppend); break;
            case 3: { std::lock_guard<std::mutex> l(gm); VSNode *n = pickNode(false, true); if (n) vs->mapConsumeNode(m, key.c_str(), n, maAppend); break; }
        }
    }
    if (!strcmp(f, "strict")) vs->mapSetInt(m, "x", R.below(1000), maReplace);
    emit(fmt("{\"op\":\"call\",\"t\":%d,\"c\":%s}", tid, callj(pl[k], f, m).c_str()));
    VSMap *r = vs->invoke(pl[k], f, m);
    emit(fmt("{\"op\":\"ret\",\"t\":%d}", tid));
    // the caller's map is the caller's: what was recorded must not follow
    if (R.chance(50)) vs->mapSetInt(m, "k1", 7, maReplace); if (R.chance(30)) vs->clearMap(m);
    vs->freeMap(r); vs->freeMap(m);
}
static void lib() {      // a filter of the library
    Rng &R = *rg; VSMap *m = vs->createMap(); std::string f;
    VSNode *a, *b; { std::lock_guard<std::mutex> l(gm); a = pickNode(false); b = pickNode(false); }
    switch (a ? R.below(6) : 0) {
        case 0: f = "BlankClip"; vs->mapSetInt(m, "length", R.range(1, 9), maAppend); vs->mapSetInt(m, "format", pfGray8, maAppend); vs->mapSetInt(m, "width", 16, maAppend); vs->mapSetInt(m, "height", 16, maAppend); break;
        case 1: f = "FlipVertical"; vs->mapSetNode(m, "clip", a, maAppend); break;
        case 2: f = "Reverse"; vs->mapSetNode(m, "clip", a, maAppend); break;
        case 3: f = "Loop"; vs->mapSetNode(m, "clip", a, maAppend); vs->mapSetInt(m, "times", 2, maAppend); break;
        case 4: f = "StackVertical"; vs->mapSetNode(m, "clips", a, maAppend); vs->mapSetNode(m, "clips", b, maAppend); break;
        case 5: f = "FrameEval"; vs->mapSetNode(m, "clip", a, maAppend); vs->mapConsumeFunction(m, "eval", vs->createFunction(evalf, nullptr, nullptr, core), maAppend); break;
    }
    std::unique_lock<std::mutex> l(gm);
    emit(fmt("{\"op\":\"call\",\"t\":%d,\"c\":%s}", tid, callj(pl[2], f.c_str(), m).c_str()));
    VSMap *r = vs->invoke(pl[2], f.c_str(), m);
    int err; VSNode *n = vs->mapGetNode(r, "clip", 0, &err);
    if (n) {
        int id = ++nextId; idOf[n] = id;
        emit(fmt("{\"op\":\"node\",\"t\":%d,\"id\":%d,\"name\":%s,\"mode\":%d,\"deps\":%s}", tid, id, jstr(vs->getNodeName(n)).c_str(), vs->getNodeFilterMode(n), deps(n).c_str()));
        hs.push_back({ id, n, false, false });
    }
    emit(fmt("{\"op\":\"ret\",\"t\":%d}", tid));
    VSNode *ask = n && f == "FrameEval" && R.chance(70) ? vs->addNodeRef(n) : nullptr;
    l.unlock();
    vs->freeMap(r); vs->freeMap(m); vs->freeNode(a); vs->freeNode(b);
    if (ask) { if (depth < 3) { char e[200]; const VSFrame *fr = vs->getFrame(0, ask, e, sizeof e); vs->freeFrame(fr); } vs->freeNode(ask); }
}
static void query(const H &h) {
    VSNode *n = h.n; std::string lv = "["; int past = 0, k = 0;
    for (;; k++) {
        const char *f = vs->getNodeCreationFunctionName(n, k), *p = vs->getNodeCreationPluginID(n, k), *s = vs->getNodeCreationPluginNS(n, k); const VSMap *m = vs->getNodeCreationFunctionArguments(n, k);
        if (!f && !p && !s && !m) break;
        lv += fmt("%s[%s,%s,%s,%s]", k ? "," : "", jstr(f ? f : "null").c_str(), jstr(p ? p : "null").c_str(), jstr(s ? s : "null").c_str(), jstr(m ? dump(m) : "null").c_str());
        if (k > 60) break;
    }
    for (int j = k; j < k + 4; j++) if (vs->getNodeCreationFunctionName(n, j) || vs->getNodeCreationPluginID(n, j) || vs->getNodeCreationPluginNS(n, j) || vs->getNodeCreationFunctionArguments(n, j)) past++;
    int c = vs->getNumNodeDependencies(n); if (vs->getNodeDependency(n, c) || vs->getNodeDependency(n, c + 3)) past++;
    emit(fmt("{\"op\":\"q\",\"id\":%d,\"name\":%s,\"mode\":%d,\"deps\":%s,\"lv\":%s],\"past\":%d}", h.id, jstr(vs->getNodeName(n)).c_str(), vs->getNodeFilterMode(n), deps(n).c_str(), lv.c_str(), past));
}
static void step(bool inside) {
    Rng &R = *rg; int k = R.below(100);
    if (k < 35) make();
    else if (k < 60) { if (depth < 5) call(); }
    else if (k < 70) lib();
    else if (k < 85) { std::lock_guard<std::mutex> l(gm); if (!hs.empty()) query(hs[R.below((int)hs.size())]); }
    else {
        VSNode *n = nullptr; { std::lock_guard<std::mutex> l(gm); if (!hs.empty() && (hs.size() > 20 || R.chance(40))) { int i = R.below((int)hs.size()); n = hs[i].n; hs.erase(hs.begin() + i); } }
        if (n) { std::lock_guard<std::mutex> l(gm); vs->freeNode(n); }
    }
}
static void VS_CC runf(const VSMap *in, VSMap *out, void *, VSCore *, const VSAPI *) {
    here(); depth++;
    for (int k = rg->below(5); k > 0; k--) step(true);
    if (rg->chance(15)) vs->mapSetError(out, "failed");
    depth--;
}
static void VS_CC evalf(const VSMap *, VSMap *out, void *, VSCore *, const VSAPI *) {
    here(); int d = depth; depth = 3;
    for (int k = rg->below(4); k > 0; k--) step(true);
    { std::lock_guard<std::mutex> l(gm); VSNode *n = pickNode(false, false, true); if (n) vs->mapConsumeNode(out, "val", n, maReplace); else vs->mapSetError(out, "none"); }
    depth = d;
}
extern "C" __attribute__((visibility("default"))) void vp_plugin_init(VSPlugin *p, const VSPLUGINAPI *a) {
    a->configPlugin("p", "p", "p", 1, VS_MAKE_VERSION(4, 0), 0, p);
    a->registerFunction("run", "any", "any", runf, nullptr, p); a->registerFunction("other", "any", "any", runf, nullptr, p); a->registerFunction("strict", "x:int;", "any", runf, nullptr, p);
}
static std::string bindir;
static void session(int ops) {
    here(); Rng &R = *rg;
    insp = R.chance(75);
    core = vs->createCore(insp ? ccfEnableGraphInspection : 0);
    vs->setThreadCount(R.range(1, 4), core);
    vs->addLogHandler([](int, const char *, void *) {}, nullptr, nullptr, core);
    vs->queryVideoFormat(&vi.format, cfGray, stInteger, 8, 0, 0, core); vi.width = vi.height = 16; vi.numFrames = 3; vi.fpsNum = 25; vi.fpsDen = 1;
    vs->queryAudioFormat(&ai.format, stInteger, 16, 3, core); ai.numSamples = 6144; ai.sampleRate = 44100; ai.numFrames = 2;
    emit(fmt("{\"op\":\"core\",\"insp\":%d}", insp));
    pl[2] = vs->getPluginByID("com.vapoursynth.std", core);
    for (int i = 0; i < 2; i++) {
        VSMap *m = vs->createMap(); std::string path = bindir + "/plug.so", id = fmt("own.%d", i), ns = fmt("ns%d", i);
        vs->mapSetData(m, "path", path.c_str(), -1, dtUtf8, maReplace); vs->mapSetData(m, "forceid", id.c_str(), -1, dtUtf8, maReplace); vs->mapSetData(m, "forcens", ns.c_str(), -1, dtUtf8, maReplace);
        VSMap *r = vs->invoke(pl[2], "LoadPlugin", m); if (vs->mapGetError(r)) { fprintf(stderr, "%s\n", vs->mapGetError(r)); _exit(3); }
        vs->freeMap(r); vs->freeMap(m); pl[i] = vs->getPluginByID(id.c_str(), core);
    }
    nextId = 0; idOf.clear();
    int nt = R.chance(50) ? 1 : R.range(2, 3);
    std::vector<std::thread> th;
    for (int i = 1; i < nt; i++) th.emplace_back([&] { here(); for (int o = 0; o < ops / nt; o++) step(false); delete rg; });
    for (int o = 0; o < ops / nt; o++) step(false);
    for (auto &t : th) t.join();
    for (auto &h : hs) query(h);
    while (!hs.empty()) { int i = R.below((int)hs.size()); VSNode *n = hs[i].n; hs.erase(hs.begin() + i); vs->freeNode(n); if (R.chance(30) && !hs.empty()) query(hs[R.below((int)hs.size())]); }
    vs->freeCore(core);
}
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    open_trace(argv[4]); watchdog(40);
    seedBase = atoll(argv[1]) * 1000003;
    char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0; bindir = self; bindir = bindir.substr(0, bindir.rfind('/'));
    for (int i = 0; i < atoi(argv[2]); i++) session(atoi(argv[3]));
    close_trace(); _exit(0);
}
