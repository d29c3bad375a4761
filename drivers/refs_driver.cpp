// Random object graphs (filters, functions, maps, frames, log handlers) built, used and torn down.
// usage: refs_driver SEED SESSIONS OPS MODE TRACE     MODE: core (no library filters) | std | long
#include "vsdrv.h"
#include "perturb.h"
enum Kind { KNode, KANode, KFunc, KMap, KFrame, KAFrame, KLog };
struct Obj { Kind k; void *p; int user; };
static VSCore *core;
static std::map<int, Obj> objs;              // objects the driver holds handles of
static std::atomic<int> idc{0};
static std::mutex fm; static std::vector<int> freed; static std::vector<std::string> made;
static bool coreAlive;
static std::mutex gm; static std::condition_variable gcv; static bool gateOpen;
static std::set<int> gatedIds; static bool insp;
static VSVideoInfo gvi, vk[5]; static VSAudioInfo gai; static long long sz[5];     // four formats, the fifth one changes from frame to frame
static int lastInst, lastBytes;

struct FnData { int id; bool nodeFirst; std::vector<VSNode *> nodes; std::vector<VSFunction *> fns; VSMap *m; };
struct NodeData { int id; bool audio; std::vector<VSNode *> deps; std::vector<VSFunction *> fns, attach; VSMap *m; bool gated, nofree; int failMod, kind; };
static void note(int id) { std::lock_guard<std::mutex> l(fm); freed.push_back(id); }

static void VS_CC fnFree(void *u) {
    FnData *d = (FnData *)u; note(d->id);
    for (auto n : d->nodes) vs->freeNode(n);
    for (auto f : d->fns) vs->freeFunction(f);
    vs->freeMap(d->m); delete d;
}
static void VS_CC fnCall(const VSMap *in, VSMap *out, void *u, VSCore *c, const VSAPI *) {
    FnData *d = (FnData *)u; int err;
    if (d->nodeFirst && !d->nodes.empty()) { vs->mapSetNode(out, "val", d->nodes[0], maReplace); return; }
    const VSFrame *f = vs->mapGetFrame(in, "f", 0, &err);
    if (f) { vs->mapConsumeFrame(out, "val", vs->copyFrame(f, c), maReplace); vs->freeFrame(f); return; }
    if (vs->mapNumElements(in, "x") > 0) { vs->mapSetInt(out, "val", vs->mapGetInt(in, "x", 0, &err), maReplace); return; }
    if (!d->nodes.empty()) { vs->mapSetNode(out, "val", d->nodes[0], maReplace); return; }
    vs->mapSetError(out, "no result");
}
static void VS_CC nodeFree(void *u, VSCore *, const VSAPI *) {
    NodeData *d = (NodeData *)u; note(d->id);
    for (auto n : d->deps) vs->freeNode(n);
    for (auto f : d->fns) vs->freeFunction(f);
    vs->freeMap(d->m); delete d;
}
static const VSFrame *VS_CC nodeGet(int n, int act, void *u, void **fd, VSFrameContext *ctx, VSCore *c, const VSAPI *) {
    NodeData *d = (NodeData *)u;
    if (act == arInitial && d->gated) { std::unique_lock<std::mutex> l(gm); gcv.wait(l, [] { return gateOpen; }); }
    if (act == arInitial && !d->deps.empty()) { for (auto x : d->deps) vs->requestFrameFilter(n, x, ctx); return nullptr; }
    if (act != arInitial && act != arAllFramesReady) return nullptr;
    std::vector<const VSFrame *> fs;
    for (auto x : d->deps) fs.push_back(vs->getFrameFilter(n, x, ctx));
    for (auto f : fs) vs->freeFrame(f);
    if (!d->id) { vs->setFilterError("dummy", ctx); return nullptr; }
    if (d->failMod && n % d->failMod == 0) { vs->setFilterError("made to fail", ctx); return nullptr; }
    int kd = d->kind == 4 ? n % 4 : d->kind; const VSVideoInfo &fv = vk[kd];
    VSFrame *f = d->audio ? vs->newAudioFrame(&gai.format, VS_AUDIO_FRAME_SAMPLES, nullptr, c) : vs->newVideoFrame(&fv.format, fv.width, fv.height, nullptr, c);
    for (int p = 0; p < (d->audio ? 2 : fv.format.numPlanes); p++) memset(vs->getWritePtr(f, p), n, d->audio ? 3072 * 2 : vs->getStride(f, p) * vs->getFrameHeight(f, p));

    int id = ++idc;
    VSMap *m = vs->getFramePropertiesRW(f); vs->mapSetInt(m, "_id", id, maReplace); vs->mapSetInt(m, "x", n, maReplace);
    std::string at;
    for (auto a : d->attach) vs->mapSetFunction(m, "fn", a, maAppend);
    { std::lock_guard<std::mutex> l(fm); made.push_back(fmt("[%d,%d,%d,%d]", d->id, n, id, d->audio ? 5 : kd + 1)); }
    return f;
}
struct LogData { int id; };
static void VS_CC logFn(int, const char *msg, void *) { int a; long b; if (sscanf(msg, "Core freed but %ld", &b) == 1) { a = (int)b; if (strstr(msg, "filter instance")) lastInst = a; else if (strstr(msg, "framebuffers")) lastBytes = a; } }
static void VS_CC logFree(void *u) { note(((LogData *)u)->id); delete (LogData *)u; }

static long long used() { if (!coreAlive) return -1; VSCoreInfo i; vs->getCoreInfo(core, &i); return i.usedFramebufferSize; }
static VSNode *dummy;
static bool stdMode;
static void settle() {   // one worker thread: when its next requests are answered it has let go of everything before
    if (!coreAlive) return;
    for (int i = 0; i < 2; i++) { char e[64]; const VSFrame *f = vs->getFrame(i, dummy, e, sizeof e); vs->freeFrame(f); }
}
static std::string tail() {
    long long u = stdMode && !objs.empty() ? -1 : used();
    std::lock_guard<std::mutex> l(fm);
    std::string r = fmt("\"made\":["); for (size_t i = 0; i < made.size(); i++) r += (i ? "," : "") + made[i];
    r += fmt("],\"freed\":%s,\"used\":%lld,\"std\":%d}", jlist(freed).c_str(), u, (int)stdMode); made.clear(); freed.clear();
    return r;
}
static void ev(const std::string &s) { std::string t = tail(); emit("{" + s + "," + t); }
static void freeHandle(int k, void *p) {
    switch (k) {
    case KNode: case KANode: vs->freeNode((VSNode *)p); break;
    case KFunc: vs->freeFunction((VSFunction *)p); break;
    case KMap: vs->freeMap((VSMap *)p); break;
    default: vs->freeFrame((VSFrame *)p);
    }
}
static Rng *R;
static std::vector<int> of(std::initializer_list<Kind> ks) { std::vector<int> v; for (auto &o : objs) for (auto k : ks) if (o.second.k == k) v.push_back(o.first); return v; }
static int pick(std::initializer_list<Kind> ks) { auto v = of(ks); return v.empty() ? -1 : v[R->below((int)v.size())]; }
static std::string entries(const VSMap *m, std::map<void *, int> &);

// ids of what a map holds, kept beside the maps themselves
static std::map<int, std::map<std::string, std::vector<int>>> ent;   // for user maps and user frames
static const char *keyOf(Kind k) { switch (k) { case KNode: return "n"; case KANode: return "an"; case KFunc: return "fn"; case KFrame: return "fr"; default: return "af"; } }
static VSMap *mapOf(int id) { Obj &o = objs[id]; return o.k == KMap ? (VSMap *)o.p : vs->getFramePropertiesRW((VSFrame *)o.p); }
static void drop(int id) { Obj &o = objs[id]; int k = o.k; void *p = o.p; if (--o.user == 0) { objs.erase(id); ent.erase(id); } freeHandle(k, p); }

// library filters: name, arguments.  V/A video/audio node that the result keeps, v/a that it does not, F/f functions
struct SF { const char *fn, *args; };
static const SF sfs[] = {
    {"std.Trim", "clip=V;first=i(_,0,2,9,50);last=i(_,3,-1);length=i(_,3,0)"}, {"std.Reverse", "clip=V"}, {"std.Loop", "clip=V;times=i(_,0,1,2,-1)"},
    {"std.Interleave", "clips=V*2;extend=i(_,1)"}, {"std.Interleave", "clips=V*1"}, {"std.SelectEvery", "clip=V;cycle=i(1,2,0);offsets=i(0,5)"}, {"std.Splice", "clips=V*2"}, {"std.Splice", "clips=V*1"},
    {"std.DuplicateFrames", "clip=V;frames=i(1,20)"}, {"std.DeleteFrames", "clip=V;frames=i(1,20)"}, {"std.FreezeFrames", "clip=V;first=i(1,20);last=i(2);replacement=i(0)"},
    {"std.CropAbs", "clip=V;width=i(8,7,100);height=i(8)"}, {"std.CropRel", "clip=V;left=i(_,2,1,99);top=i(_,2)"}, {"std.AddBorders", "clip=V;left=i(_,2,1);top=i(_,4)"},
    {"std.ShufflePlanes", "clips=V*3;planes=i(0)i(1)i(2);colorfamily=i(3,2,1)"}, {"std.ShufflePlanes", "clips=V*1;planes=i(0,1,9);colorfamily=i(1)"}, {"std.ShufflePlanes", "clips=V*1;planes=i(0);colorfamily=i(1);prop_src=V"},
    {"std.SplitPlanes", "clip=V"}, {"std.SeparateFields", "clip=V;tff=i(_,0,1)"}, {"std.DoubleWeave", "clip=V;tff=i(_,1)"}, {"std.FlipVertical", "clip=V"}, {"std.FlipHorizontal", "clip=V"}, {"std.Turn180", "clip=V"},
    {"std.Turn90", "clip=V"}, {"std.Turn270", "clip=V"}, {"std.Crop", "clip=V;right=i(_,2,99);bottom=i(_,2,1)"}, {"std.Cache", "clip=V"}, {"std.Transpose", "clip=V"}, {"std.StackVertical", "clips=V*2"}, {"std.StackHorizontal", "clips=V*3"}, {"std.StackVertical", "clips=V*1"}, {"std.BlankClip", "clip=v;length=i(5,0)"},
    {"std.AssumeFPS", "clip=V;src=v"}, {"std.AssumeFPS", "clip=V;fpsnum=i(_,24,-1)"}, {"std.FrameEval", "clip=v;eval=F"}, {"std.FrameEval", "clip=v;eval=F;prop_src=V*2"}, {"std.FrameEval", "clip=v;eval=F;prop_src=V*1;clip_src=V*2"},
    {"std.ModifyFrame", "clip=v;clips=V*1;selector=F"}, {"std.ModifyFrame", "clip=v;clips=V*2;selector=F"}, {"std.PEMVerifier", "clip=V;upper=d(255,10)"}, {"std.PlaneStats", "clipa=V;plane=i(0,5)"}, {"std.PlaneStats", "clipa=V;clipb=V;plane=i(0,1)"},
    {"std.ClipToProp", "clip=V;mclip=V"}, {"std.PropToClip", "clip=V;prop=s(none)"}, {"std.SetFrameProp", "clip=V;prop=s(x);intval=i(3)"}, {"std.SetFrameProps", "clip=V;zz=F"}, {"std.SetFrameProps", "clip=V;q=V"}, {"std.RemoveFrameProps", "clip=V;props=s(x)"},
    {"std.SetFieldBased", "clip=V;value=i(0,1,7)"}, {"std.CopyFrameProps", "clip=V;prop_src=V"}, {"std.CopyFrameProps", "clip=V;prop_src=V;props=s(x)"}, {"std.Expr", "clips=V*2;expr=s(x y +|x q|x)"}, {"std.Expr", "clips=V*1;expr=s(x 2 *|)"},
    {"std.Lut", "clip=V;function=f"}, {"std.Lut", "clip=V;lut=i(1)"}, {"std.Lut2", "clipa=V;clipb=V;lut=i(1)"}, {"std.Merge", "clipa=V;clipb=V;weight=d(0.5,0,1,2)"}, {"std.MaskedMerge", "clipa=V;clipb=V;mask=V;first_plane=i(_,1);premultiplied=i(_,1)"},
    {"std.PreMultiply", "clip=V;alpha=V"}, {"std.MakeDiff", "clipa=V;clipb=V"}, {"std.MergeDiff", "clipa=V;clipb=V;planes=i(0,7)"}, {"std.MakeFullDiff", "clipa=V;clipb=V"}, {"std.MergeFullDiff", "clipa=V;clipb=V"},
    {"std.AverageFrames", "clips=V*1;weights=i(1)i(2)i(1)"}, {"std.AverageFrames", "clips=V*2;weights=i(1)i(2);scenechange=i(_,1)"}, {"std.BoxBlur", "clip=V;hradius=i(0,1,2);vradius=i(0,1);hpasses=i(1,2)"},
    {"std.Minimum", "clip=V"}, {"std.Median", "clip=V;planes=i(0,5)"}, {"std.Convolution", "clip=V;matrix=i(1)i(2)i(3)i(4)i(5)i(4)i(3)i(2)i(1)"}, {"std.Convolution", "clip=V;matrix=i(1)"}, {"std.Sobel", "clip=V"}, {"std.Invert", "clip=V;planes=i(0,9)"},
    {"std.Limiter", "clip=V;min=d(1,300)"}, {"std.Binarize", "clip=V"}, {"std.Levels", "clip=V;gamma=d(1,0,2)"}, {"text.Text", "clip=V;text=s(a)"}, {"text.FrameNum", "clip=V"}, {"text.FrameProps", "clip=V"}, {"text.ClipInfo", "clip=V;alignment=i(_,77)"},
    {"std.AudioTrim", "clip=A;first=i(_,10,99999999);length=i(_,100,0)"}, {"std.AudioSplice", "clips=A*2"}, {"std.AudioSplice", "clips=A*1"}, {"std.AudioLoop", "clip=A;times=i(_,0,1,2,-1)"}, {"std.AudioReverse", "clip=A"}, {"std.AudioGain", "clip=A;gain=d(0.5,2)"},
    {"std.AudioMix", "clips=A*1;matrix=d(0.5)d(0.5);channels_out=i(0,99)"}, {"std.ShuffleChannels", "clips=A*2;channels_in=i(0)i(1);channels_out=i(0)i(1)"}, {"std.SplitChannels", "clip=A"}, {"std.AssumeSampleRate", "clip=A;samplerate=i(44100,0)"},
    {"std.AssumeSampleRate", "clip=A;src=a"}, {"std.BlankAudio", "clip=a;length=i(5000,0)"}, {"std.AudioResample", "clip=A;bits=i(16,32);sampletype=i(0,1)"}, {"std.AudioResample", "clip=A;samplerate=i(22050,0)"},
};
static void stdop() {
    const SF &sf = sfs[R->below((int)(sizeof sfs / sizeof *sfs))];
    std::string fn = sf.fn; auto dot = fn.find('.');
    VSPlugin *pl = vs->getPluginByNamespace(fn.substr(0, dot).c_str(), core);
    VSMap *in = vs->createMap(); std::vector<int> held, may, given; bool can = true;
    std::string a = sf.args; size_t i = 0; std::string desc = fn + "(";
    while (i < a.size() && can) {
        size_t e = a.find('=', i); std::string k = a.substr(i, e - i); i = e + 1;
        desc += k + "=";
        while (i < a.size() && a[i] != ';' && can) {
            char t = a[i++];
            if (strchr("VvAaFf", t)) {
                int cnt = 1; if (i < a.size() && a[i] == '*') { cnt = a[i + 1] - '0'; i += 2; }
                for (int c = 0; c < cnt; c++) {
                    Kind kd = (t == 'V' || t == 'v') ? KNode : (t == 'A' || t == 'a') ? KANode : KFunc;
                    if (R->chance(2)) kd = R->chance(50) ? KANode : KFunc;     // wrong type now and then
                    int id = pick({kd}); if (id < 0) { can = false; break; }
                    int bad = kd == KFunc ? vs->mapSetFunction(in, k.c_str(), (VSFunction *)objs[id].p, maAppend) : vs->mapSetNode(in, k.c_str(), (VSNode *)objs[id].p, maAppend); if (bad) continue;
                    desc += fmt("#%d ", id); given.push_back(id); (insp || (t >= 'A' && t <= 'Z') ? held : may).push_back(id);
                }
            } else {
                size_t c = a.find(')', i); std::string l = a.substr(i + 1, c - i - 1); i = c + 1;
                std::vector<std::string> alt; char sep = t == 's' ? '|' : ','; size_t q = 0;
                for (;;) { size_t z = l.find(sep, q); alt.push_back(l.substr(q, z == std::string::npos ? z : z - q)); if (z == std::string::npos) break; q = z + 1; }
                std::string v = R->pick(alt); if (v == "_") continue; desc += v + " ";
                if (t == 'i') vs->mapSetInt(in, k.c_str(), atoi(v.c_str()), maAppend); else if (t == 'd') vs->mapSetFloat(in, k.c_str(), atof(v.c_str()), maAppend); else vs->mapSetData(in, k.c_str(), v.c_str(), -1, dtUtf8, maAppend);
            }
        }
        if (i < a.size() && a[i] == ';') i++;
    }
    if (!can) { vs->freeMap(in); return; }
    VSMap *out = vs->invoke(pl, fn.c_str() + dot + 1, in); vs->freeMap(in);
    bool ok = !vs->mapGetError(out); std::string res = "[";
    if (ok) for (int n = 0; n < vs->mapNumElements(out, "clip"); n++) {
        VSNode *nd = vs->mapGetNode(out, "clip", n, nullptr); int same = -1;
        for (int g : given) if (objs[g].p == nd) same = g;
        if (same >= 0) { objs[same].user++; res += fmt("%s[%d,0]", n ? "," : "", same); }
        else { int id = ++idc; objs[id] = {vs->getNodeType(nd) == mtVideo ? KNode : KANode, nd, 1}; vs->setCacheMode(nd, cmForceDisable); res += fmt("%s[%d,1]", n ? "," : "", id); }
    }
    vs->freeMap(out); settle();
    ev(fmt("\"op\":\"std\",\"d\":%s,\"ok\":%d,\"res\":%s],\"hold\":%s,\"may\":%s", jstr(desc + ")").c_str(), (int)ok, res.c_str(), jlist(held).c_str(), jlist(may).c_str()));
}
static void VS_CC doneCb(void *u, const VSFrame *f, int, VSNode *, const char *) { vs->freeFrame(f); ++*(std::atomic<int> *)u; }

static void session(int ops, bool std_) {
    objs.clear(); ent.clear(); gateOpen = false; idc = 0; bool inflight = false; int reqNode = -1; VSNode *reqP = nullptr; std::atomic<int> done{0}; lastInst = lastBytes = -1;
    insp = R->chance(30); gatedIds.clear();
    stdMode = std_;
    core = vs->createCore(ccfDisableAutoLoading | (insp ? ccfEnableGraphInspection : 0) | (R->chance(20) ? ccfEnableFrameRefDebug : 0)); coreAlive = true;
    vs->setThreadCount(1, core);
    for (int i = 0; i < 4; i++) {
        VSVideoInfo &v = vk[i]; v = {}; vs->queryVideoFormat(&v.format, i == 2 ? cfGray : cfYUV, i == 2 ? stFloat : stInteger, i == 2 ? 32 : i == 3 ? 16 : 8, i < 2, i < 2, core);
        v.width = i == 1 ? 48 : 32; v.height = 16; v.numFrames = i == 3 ? 20 : 10; v.fpsNum = 25; v.fpsDen = 1;
    }
    vk[4] = {}; vk[4].numFrames = 10; gvi = vk[0];
    gai = {}; vs->queryAudioFormat(&gai.format, stInteger, 16, 3, core); gai.sampleRate = 48000; gai.numSamples = 3072 * 10;
    long long u0 = used(); VSFrame *tf;
    for (int i = 0; i < 4; i++) { tf = vs->newVideoFrame(&vk[i].format, vk[i].width, vk[i].height, nullptr, core); sz[i] = used() - u0; vs->freeFrame(tf); }
    tf = vs->newAudioFrame(&gai.format, VS_AUDIO_FRAME_SAMPLES, nullptr, core); sz[4] = used() - u0; vs->freeFrame(tf);
    auto mknode = [&](NodeData *d, const std::vector<VSFilterDependency> &dep, bool cached) {
        VSNode *n;
        if (d->audio) n = vs->createAudioFilter2("an", &gai, nodeGet, d->nofree ? nullptr : nodeFree, fmParallel, dep.data(), (int)dep.size(), d, core);
        else n = vs->createVideoFilter2("vn", &vk[d->kind], nodeGet, d->nofree ? nullptr : nodeFree, fmParallel, dep.data(), (int)dep.size(), d, core);
        vs->setCacheMode(n, cached ? cmForceEnable : cmForceDisable); if (cached) vs->setCacheOptions(n, 1, 100, 0);
        return n;
    };
    { NodeData *d = new NodeData{}; d->id = 0; d->m = vs->createMap(); dummy = mknode(d, {}, false); }
    { char e[64]; const VSFrame *f = vs->getFrame(0, dummy, e, sizeof e); vs->freeFrame(f); settle(); std::lock_guard<std::mutex> l(fm); made.clear(); }
    idc = 0;
    emit(fmt("{\"op\":\"reset\",\"sz\":[%lld,%lld,%lld,%lld,%lld],\"used\":%lld,\"made\":[],\"freed\":[]}", sz[0], sz[1], sz[2], sz[3], sz[4], used()));
    auto idlist = [&](const std::map<std::string, std::vector<int>> &m) { std::string r; for (auto &x : m) for (int y : x.second) r += fmt(",%d", y); return r; };
    auto get = [&](int x) {
            int n = R->below(10); char e[256];
            { std::lock_guard<std::mutex> l(gm); gateOpen = true; }
            const VSFrame *f = vs->getFrame(n, (VSNode *)objs[x].p, e, sizeof e); settle();
            int fid = -1, err; if (f) fid = (int)vs->mapGetInt(vs->getFramePropertiesRO(f), "_id", 0, &err);
            { std::lock_guard<std::mutex> l(gm); gateOpen = false; }
            bool keep = false;
            if (f && !std_) { keep = R->chance(60); if (keep) { if (objs.count(fid)) objs[fid].user++; else objs[fid] = {vs->getFrameType(f) == mtVideo ? KFrame : KAFrame, (void *)f, 1}; } }
            if (!keep) vs->freeFrame(f);
            if (std_) { vs->clearCoreCaches(core); std::string t = tail();  emit("{" + fmt("\"op\":\"get\",\"id\":%d,\"n\":%d,\"keep\":-1", x, n) + "," + t); ev("\"op\":\"cc\",\"id\":-1"); return; }     // automatic caches inside of filters
            ev(fmt("\"op\":\"get\",\"id\":%d,\"n\":%d,\"keep\":%d", x, n, keep ? fid : -1));
    };
    for (int o = 0; o < ops; o++) {
        int k = R->below(100);
        if (objs.size() > 30 && k < 40) k = 60;
        if (k < 14) {            // filter
            NodeData *d = new NodeData{}; d->audio = R->chance(30); d->kind = R->chance(65) ? 0 : R->below(5); d->m = vs->createMap(); std::vector<VSFilterDependency> dep; std::string h; bool own = !R->chance(15);     // without a free function: only the core holds its dependencies
            int nd = R->below(3); bool gatedDep = false;
            for (int i = 0; i < nd; i++) { int x = pick({d->audio ? KANode : KNode}); if (x < 0) continue; VSNode *n = (VSNode *)objs[x].p; if (own) d->deps.push_back(vs->addNodeRef(n)); dep.push_back({n, R->below(4)}); h += fmt(",%d", x); }
            int x = own ? pick({KFunc}) : -1; if (x >= 0 && R->chance(30)) { d->fns.push_back(vs->addFunctionRef((VSFunction *)objs[x].p)); h += fmt(",%d", x); }
            std::string at; x = own ? pick({KFunc}) : -1; if (x >= 0 && R->chance(30)) { VSFunction *f = vs->addFunctionRef((VSFunction *)objs[x].p); d->fns.push_back(f); d->attach.push_back(f); h += fmt(",%d", x); at = std::to_string(x); }
            x = own ? pick({KMap}) : -1; if (x >= 0 && R->chance(30)) { vs->copyMap((VSMap *)objs[x].p, d->m); h += idlist(ent[x]); }
            d->nofree = !own; d->gated = !std_ && R->chance(15); d->failMod = R->chance(20) ? R->range(2, 4) : 0; (void)gatedDep;
            d->id = ++idc; bool c = R->chance(35) && !d->gated; int id = d->id; if (d->gated) gatedIds.insert(id); VSNode *n = mknode(d, dep, c);
            objs[id] = {d->audio ? KANode : KNode, n, 1};
            ev(fmt("\"op\":\"new\",\"id\":%d,\"q\":%d,\"node\":1,\"cached\":%d,\"size\":0,\"hold\":[%s],\"att\":[%s]", id, (int)!own, (int)c, h.empty() ? "" : h.c_str() + 1, at.c_str()));
        } else if (k < 22) {     // function
            FnData *d = new FnData{}; d->nodeFirst = R->chance(50); d->m = vs->createMap(); std::string h; int id = d->id = ++idc;
            int x = pick({KNode}); if (x >= 0 && R->chance(50)) { d->nodes.push_back(vs->addNodeRef((VSNode *)objs[x].p)); h += fmt(",%d", x); }
            x = pick({KFunc}); if (x >= 0 && R->chance(30)) { d->fns.push_back(vs->addFunctionRef((VSFunction *)objs[x].p)); h += fmt(",%d", x); }
            x = pick({KMap}); if (x >= 0 && R->chance(40)) { vs->copyMap((VSMap *)objs[x].p, d->m); h += idlist(ent[x]); }
            objs[id] = {KFunc, vs->createFunction(fnCall, d, fnFree, core), 1};
            ev(fmt("\"op\":\"new\",\"id\":%d,\"q\":0,\"node\":0,\"cached\":0,\"size\":0,\"hold\":[%s],\"att\":[]", id, h.empty() ? "" : h.c_str() + 1));
        } else if (k < 26) { int id = ++idc; objs[id] = {KMap, vs->createMap(), 1}; ent[id]; ev(fmt("\"op\":\"new\",\"id\":%d,\"q\":1,\"node\":0,\"cached\":0,\"size\":0,\"hold\":[],\"att\":[]", id)); }
        else if (k < 30) {
            int id = ++idc; bool au = R->chance(30); int kd = R->below(4); ent[id];
            objs[id] = {au ? KAFrame : KFrame, au ? vs->newAudioFrame(&gai.format, 3072, nullptr, core) : vs->newVideoFrame(&vk[kd].format, vk[kd].width, vk[kd].height, nullptr, core), 1};
            ev(fmt("\"op\":\"new\",\"id\":%d,\"q\":1,\"node\":0,\"cached\":0,\"size\":%lld,\"hold\":[],\"att\":[]", id, au ? sz[4] : sz[kd]));
        } else if (k < 46) {     // store an object in a map or in a frame's properties
            int h = pick({KMap, KMap, KFrame, KAFrame}); int x = pick({KNode, KANode, KFunc, KFrame, KAFrame}); if (h < 0 || x < 0 || !ent.count(h) || (objs[h].k != KMap && x >= h)) continue;
            if (objs[h].k != KMap && objs[h].user > 1) {}   // shared handle: same frame, properties changed in place
            Obj &v = objs[x]; const char *key = R->chance(85) ? keyOf(v.k) : "mix"; bool app = R->chance(60), consume = R->chance(35); VSMap *m = mapOf(h); int r; int mode = app ? maAppend : maReplace; void *p = v.p;
            Kind vk = v.k;
            if (vk == KNode || vk == KANode) r = consume ? vs->mapConsumeNode(m, key, (VSNode *)p, mode) : vs->mapSetNode(m, key, (VSNode *)p, mode);
            else if (vk == KFunc) r = consume ? vs->mapConsumeFunction(m, key, (VSFunction *)p, mode) : vs->mapSetFunction(m, key, (VSFunction *)p, mode);
            else r = consume ? vs->mapConsumeFrame(m, key, (VSFrame *)p, mode) : vs->mapSetFrame(m, key, (VSFrame *)p, mode);
            if (consume && --v.user == 0) { objs.erase(x); ent.erase(x); }
            if (!r) { auto &l = ent[h][key]; if (!app) l.clear(); l.push_back(x); }
            ev(fmt("\"op\":\"put\",\"id\":%d,\"k\":\"%s\",\"x\":%d,\"app\":%d,\"con\":%d,\"r\":%d", h, key, x, (int)app, (int)consume, r));
        } else if (k < 50) {     // take a stored object out again
            int h = pick({KMap, KMap, KFrame}); if (h < 0 || !ent.count(h) || ent[h].empty()) continue;
            auto it = ent[h].begin(); std::advance(it, R->below((int)ent[h].size())); if (it->second.empty()) continue;
            int i = R->below((int)it->second.size()), x = it->second[i]; const VSMap *m = mapOf(h); void *p = nullptr; Kind kd;
            switch (vs->mapGetType(m, it->first.c_str())) {
            case ptVideoNode: p = vs->mapGetNode(m, it->first.c_str(), i, nullptr); kd = KNode; break;
            case ptAudioNode: p = vs->mapGetNode(m, it->first.c_str(), i, nullptr); kd = KANode; break;
            case ptFunction: p = vs->mapGetFunction(m, it->first.c_str(), i, nullptr); kd = KFunc; break;
            case ptVideoFrame: p = (void *)vs->mapGetFrame(m, it->first.c_str(), i, nullptr); kd = KFrame; break;
            default: p = (void *)vs->mapGetFrame(m, it->first.c_str(), i, nullptr); kd = KAFrame;
            }
            if (objs.count(x)) objs[x].user++; else objs[x] = {kd, p, 1};     // frames taken out this way are not written to
            ev(fmt("\"op\":\"ref\",\"id\":%d", x));
        } else if (k < 53) { int h = pick({KMap}); if (h < 0) continue; if (R->chance(50) || ent[h].empty()) { vs->clearMap((VSMap *)objs[h].p); ent[h].clear(); ev(fmt("\"op\":\"clr\",\"id\":%d", h)); }
            else { std::string key = ent[h].begin()->first; vs->mapDeleteKey((VSMap *)objs[h].p, key.c_str()); ent[h].erase(key); ev(fmt("\"op\":\"del\",\"id\":%d,\"k\":\"%s\"", h, key.c_str())); } }
        else if (k < 58) {       // copy a map or properties
            int a = pick({KMap, KFrame}), b = pick({KMap, KFrame}); if (a < 0 || b < 0 || a == b || !ent.count(a) || !ent.count(b)) continue;
            bool fine = true; if (objs[b].k != KMap) for (auto &x : ent[a]) for (int y : x.second) fine &= y < b; if (!fine) continue;
            vs->copyMap(objs[a].k == KMap ? (VSMap *)objs[a].p : vs->getFramePropertiesRO((VSFrame *)objs[a].p), mapOf(b));
            for (auto &x : ent[a]) ent[b][x.first] = x.second;
            ev(fmt("\"op\":\"cpm\",\"src\":%d,\"id\":%d", a, b));
        } else if (k < 70) {     // drop a handle
            int x = pick({KNode, KANode, KFunc, KMap, KFrame, KAFrame}); if (x < 0) continue; drop(x); ev(fmt("\"op\":\"drop\",\"id\":%d", x));
        } else if (k < 73) { int x = pick({KNode, KANode, KFunc, KFrame}); if (x < 0) continue; Obj &v = objs[x]; v.user++; if (v.k == KFunc) vs->addFunctionRef((VSFunction *)v.p); else if (v.k == KFrame) vs->addFrameRef((VSFrame *)v.p); else vs->addNodeRef((VSNode *)v.p); ev(fmt("\"op\":\"ref\",\"id\":%d", x)); }
        else if (k < 76) {       // drop several handles from several threads at once
            std::vector<int> ids; std::vector<std::pair<int, void *>> hs;
            for (int i = 0; i < 6; i++) { int x = pick({KNode, KANode, KFunc, KMap, KFrame, KAFrame}); if (x < 0) break; Obj &v = objs[x]; ids.push_back(x); hs.push_back({v.k, v.p}); if (--v.user == 0) { objs.erase(x); ent.erase(x); } }
            if (ids.empty()) continue;
            std::atomic<int> rdy{0}; std::vector<std::thread> ts; int N = (int)hs.size();
            for (int i = 0; i < N; i++) ts.emplace_back([&, i] { ++rdy; while (rdy < N); freeHandle(hs[i].first, hs[i].second); });
            for (auto &t : ts) t.join();
            ev(fmt("\"op\":\"race\",\"ids\":%s", jlist(ids).c_str()));
        } else if (k < 80) {     // log handlers
            int x = pick({KLog});
            if (x < 0 || R->chance(50)) { int id = ++idc; auto *h = vs->addLogHandler(logFn, logFree, new LogData{id}, core); objs[id] = {KLog, h, 1}; ev(fmt("\"op\":\"new\",\"log\":1,\"id\":%d,\"q\":0,\"node\":0,\"cached\":0,\"size\":0,\"hold\":[],\"att\":[]", id)); }
            else { auto *h = (VSLogHandle *)objs[x].p; int r = vs->removeLogHandler(h, core); objs.erase(x); ev(fmt("\"op\":\"drop\",\"id\":%d,\"r\":%d", x, r)); }
        } else if (k < 90 && !inflight) {     // frames
            int x = pick({KNode, KANode}); if (x < 0) continue; get(x);
        } else if (k < 92) { int x = pick({KNode, KANode}); if (x < 0) continue; if (R->chance(30)) { vs->clearCoreCaches(core); ev("\"op\":\"cc\",\"id\":-1"); } else { vs->clearNodeCache((VSNode *)objs[x].p); ev(fmt("\"op\":\"cc\",\"id\":%d", x)); } }
        else if (std_) stdop();
        else if (k < 98) {
            if (!inflight) { std::vector<int> g; for (int x : of({KNode, KANode})) if (gatedIds.count(x)) g.push_back(x); if (g.empty()) continue; reqNode = R->pick(g); done = 0; inflight = true; reqP = vs->addNodeRef((VSNode *)objs[reqNode].p); vs->getFrameAsync(R->below(10), reqP, doneCb, &done);
                std::this_thread::sleep_for(std::chrono::microseconds(R->below(300)));
                // what is made before the gate opens is reported with the answer
                { std::lock_guard<std::mutex> l(fm); } emit(fmt("{\"op\":\"req\",\"id\":%d,\"made\":[],\"freed\":[],\"used\":-1,\"std\":0}", reqNode)); }
            else { { std::lock_guard<std::mutex> l(gm); gateOpen = true; } gcv.notify_all(); while (!done) std::this_thread::sleep_for(std::chrono::microseconds(50)); settle(); vs->freeNode(reqP); { std::lock_guard<std::mutex> l(gm); gateOpen = false; } inflight = false; ev(fmt("\"op\":\"ans\",\"id\":%d", reqNode)); }
        }
        if (std_ && R->chance(30) && objs.size() < 30) { int id0 = idc; stdop(); int x = idc; if (x > id0 && objs.count(x) && R->chance(60)) for (int i = R->range(1, 3); i > 0; i--) get(x); }
    }
    if (inflight) { { std::lock_guard<std::mutex> l(gm); gateOpen = true; } gcv.notify_all(); while (!done) std::this_thread::sleep_for(std::chrono::microseconds(50)); settle(); vs->freeNode(reqP); ev(fmt("\"op\":\"ans\",\"id\":%d", reqNode)); }
    // tear down: the core goes at a random point
    auto endCore = [&] {
        settle(); vs->freeNode(dummy); { std::lock_guard<std::mutex> l(fm); for (size_t i = 0; i < freed.size(); i++) if (freed[i] == 0) { freed.erase(freed.begin() + i); break; } for (size_t i = 0; i < made.size(); i++) if (made[i].substr(0, 3) == "[0,") { made.erase(made.begin() + i); i--; } }
        bool seen = false; for (auto &x : objs) seen |= x.second.k == KLog;
        coreAlive = false; vs->freeCore(core);
        for (auto it = objs.begin(); it != objs.end();) if (it->second.k == KLog) it = objs.erase(it); else ++it;
        ev(fmt("\"op\":\"core\",\"seen\":%d,\"inst\":%d,\"bytes\":%d", (int)seen, lastInst, lastBytes));
    };
    int at = std_ && R->chance(70) ? 1000000 : R->chance(50) ? 0 : R->below(30); int c = 0;
    for (;;) {
        if (c++ == at) { endCore(); continue; }
        int x = pick({KNode, KANode, KFunc, KMap, KFrame, KAFrame}); if (x < 0) break; drop(x); ev(fmt("\"op\":\"drop\",\"id\":%d", x));
    }
    if (coreAlive) endCore();
}
static void longChain(int n, int mode) {
    objs.clear(); idc = 0; core = vs->createCore(ccfDisableAutoLoading); coreAlive = true; vs->setThreadCount(1, core);
    gvi = {}; vs->queryVideoFormat(&gvi.format, cfGray, stInteger, 8, 0, 0, core); gvi.width = 16; gvi.height = 16; gvi.numFrames = 10;
    VSNode *prev = nullptr;
    for (int i = 0; i < n; i++) {
        NodeData *d = new NodeData{}; d->id = i + 1; d->m = vs->createMap(); std::vector<VSFilterDependency> dep;
        if (prev) {
            if (mode == 0 || (mode == 2 && i % 2)) { d->deps.push_back(prev); dep.push_back({prev, rpStrictSpatial}); }         // as filters do it
            else { vs->mapConsumeNode(d->m, "n", prev, maReplace); }                                                              // kept in a map only
        }
        prev = vs->createVideoFilter2("c", &gvi, nodeGet, d->nofree ? nullptr : nodeFree, fmParallel, dep.data(), (int)dep.size(), d, core);
        if (i % 1000 == 0) progress++;
    }
    bool early = !freed.empty();
    bool coreFirst = mode == 2; if (coreFirst) { coreAlive = false; vs->freeCore(core); }
    vs->freeNode(prev);
    std::set<int> u(freed.begin(), freed.end());
    emit(fmt("{\"op\":\"long\",\"n\":%d,\"freed\":%d,\"distinct\":%d,\"early\":%d}", n, (int)freed.size(), (int)u.size(), (int)early));
    freed.clear(); made.clear(); if (!coreFirst) vs->freeCore(core); coreAlive = false;
}
int main(int argc, char **argv) {
    if (argc < 6) return 3;
    Rng r(atoi(argv[1])); R = &r; int sessions = atoi(argv[2]), ops = atoi(argv[3]); std::string mode = argv[4];
    open_trace(argv[5]); watchdog(25);
    if (mode == "long") for (int i = 0; i < 3; i++) longChain(ops, i);
    else for (int s = 0; s < sessions; s++) session(ops, mode == "std");
    close_trace(); _exit(0);
}
