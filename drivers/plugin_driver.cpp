// Plugins loaded, functions registered, looked up and called.
// usage: plugin_driver SEED SESSIONS OPS MODE TRACE     MODE: rand | sys PART PARTS is encoded in OPS for sys
#include "vsdrv.h"
#include <algorithm>
#include <dlfcn.h>
static VSCore *core; static Rng R(1);
static const VSPLUGINAPI *papi;
struct Reg { std::string n, a, r; int ok; };
struct Load { std::string id, ns, fid, fns, full; int ver, api, apiv, cfg, entry, mod; std::vector<Reg> regs; int err; };
static thread_local Load *cur;
// what the callee saw and gave back
struct Call { bool ran; std::string owner, seen, gave; int kind; uint64_t seed; bool v3; };
static thread_local Call *call;
struct FnId { std::string key; bool v3; };
static std::vector<FnId *> ids; static std::mutex idm;

static std::string dump(const VSMap *m) {
    std::string s; int n = vs->mapNumKeys(m), err;
    if (vs->mapGetError(m)) return std::string("E:") + vs->mapGetError(m);
    std::map<std::string, std::string> kv;
    for (int i = 0; i < n; i++) {
        const char *k = vs->mapGetKey(m, i); int t = vs->mapGetType(m, k), c = vs->mapNumElements(m, k);
        std::string v = fmt("%d/%d", t, c);
        for (int j = 0; j < c; j++) switch (t) {
            case ptInt: v += fmt(",%lld", (long long)vs->mapGetInt(m, k, j, &err)); break;
            case ptFloat: v += fmt(",%a", vs->mapGetFloat(m, k, j, &err)); break;
            case ptData: v += "," + hexs(vs->mapGetData(m, k, j, &err), vs->mapGetDataSize(m, k, j, &err)); break;
            case ptVideoNode: case ptAudioNode: { VSNode *x = vs->mapGetNode(m, k, j, &err); v += fmt(",%p", (void *)x); vs->freeNode(x); break; }
            case ptVideoFrame: case ptAudioFrame: { const VSFrame *x = vs->mapGetFrame(m, k, j, &err); v += fmt(",%p", (void *)x); vs->freeFrame(x); break; }
            case ptFunction: { VSFunction *x = vs->mapGetFunction(m, k, j, &err); v += fmt(",%p", (void *)x); vs->freeFunction(x); break; }
        }
        kv[k] = v;
    }
    for (auto &x : kv) s += x.first + "=" + x.second + ";";
    return s;
}
static VSNode *vn[2], *an[2]; static const VSFrame *vf[2], *af[2]; static VSFunction *fn[2];
static const char *tname[] = { "int", "float", "data", "vnode", "anode", "vframe", "aframe", "func" };
static const int tnum[] = { ptInt, ptFloat, ptData, ptVideoNode, ptAudioNode, ptVideoFrame, ptAudioFrame, ptFunction };
static void put(VSMap *m, const char *k, int t, int n, Rng &r) {
    if (n == 0) { vs->mapSetEmpty(m, k, tnum[t]); return; }
    for (int i = 0; i < n; i++) switch (t) {
        case 0: vs->mapSetInt(m, k, (int64_t)r.next(), maAppend); break;
        case 1: vs->mapSetFloat(m, k, r.below(1000) / 7.0, maAppend); break;
        case 2: { std::string s; for (int j = r.below(5); j > 0; j--) s += (char)r.below(256); vs->mapSetData(m, k, s.data(), (int)s.size(), r.chance(50) ? dtUtf8 : dtBinary, maAppend); break; }
        case 3: vs->mapSetNode(m, k, vn[r.below(2)], maAppend); break;
        case 4: vs->mapSetNode(m, k, an[r.below(2)], maAppend); break;
        case 5: vs->mapSetFrame(m, k, vf[r.below(2)], maAppend); break;
        case 6: vs->mapSetFrame(m, k, af[r.below(2)], maAppend); break;
        case 7: vs->mapSetFunction(m, k, fn[r.below(2)], maAppend); break;
    }
}
static void VS_CC callee(const VSMap *in, VSMap *out, void *u, VSCore *, const VSAPI *) {
    if (!call) return;
    FnId *f = (FnId *)u;
    call->ran = true; call->owner = f->key; call->seen = dump(in);
    Rng r(call->seed);
    int n = r.below(4);
    for (int i = 0; i < n; i++) { int t = r.below(8); if (f->v3 && (t == 4 || t == 6)) t = 0; put(out, fmt("r%d", i).c_str(), t, r.below(3), r); }
    if (r.chance(15)) vs->mapSetError(out, fmt("failed %d 100%%s", r.below(1000)).c_str());
    call->gave = dump(out);
}
static FnId *fnid(const std::string &pl, const std::string &n, bool v3) { std::lock_guard<std::mutex> l(idm); ids.push_back(new FnId{ pl + "/" + n, v3 }); return ids.back(); }

extern "C" __attribute__((visibility("default"))) void vp_plugin_init(VSPlugin *p, const VSPLUGINAPI *a) {
    papi = a; Load *L = cur; if (!L) return;
    if (!L->cfg) return;
    a->configPlugin(L->id.c_str(), L->ns.c_str(), L->full.c_str(), L->ver, L->apiv, L->mod ? pcModifiable : 0, p);
    std::string id = L->fid.empty() ? L->id : L->fid;
    for (auto &r : L->regs) r.ok = a->registerFunction(r.n.c_str(), r.a.c_str(), r.r.c_str(), callee, fnid(id, r.n, L->api == 3), p);
}
typedef void (*Pub3)(const void *, void *, void *, void *, const void *);
extern "C" __attribute__((visibility("default"))) void vp_plugin_init3(void (*c)(const char *, const char *, const char *, int, int, VSPlugin *), void (*rf)(const char *, const char *, Pub3, void *, VSPlugin *), VSPlugin *p) {
    Load *L = cur; if (!L) return;
    if (!L->cfg) return;
    c(L->id.c_str(), L->ns.c_str(), L->full.c_str(), L->apiv, !L->mod, p);
    std::string id = L->fid.empty() ? L->id : L->fid;
    for (auto &r : L->regs) { r.ok = -1; r.r = "any"; rf(r.n.c_str(), r.a.c_str(), (Pub3)callee, fnid(id, r.n, true), p); }
}

static std::vector<std::string> cut(const std::string &s, char d) { std::vector<std::string> v; std::string c; for (char x : s) if (x == d) { if (!c.empty()) v.push_back(c); c.clear(); } else c += x; if (!c.empty()) v.push_back(c); return v; }
static std::vector<std::string> an_ = { "a", "b", "c", "clip", "x1", "Foo_9", "A" };
static std::string sig(bool v3, bool allowAny) {
    std::string s; std::vector<std::string> nm = an_;
    int n = R.below(4);
    static std::vector<std::string> t4 = { "int", "float", "data", "vnode", "anode", "vframe", "aframe", "func" }, t3 = { "int", "float", "data", "clip", "frame", "func" };
    for (int i = 0; i < n; i++) {
        int k = R.below((int)nm.size()); std::string a = nm[k]; nm.erase(nm.begin() + k);
        std::string t = R.pick(v3 ? t3 : t4); bool arr = R.chance(40);
        s += a + ":" + t; if (arr) s += "[]";
        bool o = R.chance(40), e = arr && R.chance(50);
        if (o && e && R.chance(50)) s += ":empty:opt"; else { if (o) s += ":opt"; if (e) s += ":empty"; }
        s += ";";
    }
    if (allowAny && !v3 && R.chance(15)) s += "any;";
    if (R.chance(10) && !s.empty()) s.pop_back();
    return s;
}
static std::string spoil(std::string s, bool v3) {
    static const std::string ch = ":;[]_ aZ09-.\t\"\\";
    static std::vector<std::string> tok = { ":opt", ":empty", ":opt:opt", ":empty:empty", ";", ":", "::", ";;", "[]", "any;", "clip", "vnode", "anode", "frame", ":int", "[][]", "1", "_q", "a:int;", "opt", " ", "OPT", "node" };
    for (int k = R.range(1, 2); k > 0; k--) {
        int p = R.below((int)s.size() + 1);
        switch (R.below(4)) {
            case 0: if (p < (int)s.size()) s.erase(p, 1); break;
            case 1: s.insert(p, 1, ch[R.below((int)ch.size())]); break;
            case 2: s.insert(p, R.pick(tok)); break;
            case 3: if (p < (int)s.size()) s[p] = ch[R.below((int)ch.size())]; break;
        }
    }
    return s;
}
static bool usable(const std::string &s, bool v3) {     // no argument named twice; API 3 does not know "any"
    std::set<std::string> seen;
    for (auto &a : cut(s, ';')) { auto p = cut(a, ':'); if (p.size() == 1 && p[0] == "any") { if (v3) return false; continue; } if (!p.empty() && !seen.insert(p[0]).second) return false; }
    return true;
}
static std::string anysig(bool v3) { for (;;) { std::string s = sig(v3, true); if (R.chance(35)) s = spoil(s, v3); if (usable(s, v3)) return s; } }
static std::string fname() {
    static std::vector<std::string> good = { "f", "g", "Func", "f_1", "zZ9", "Trim", "long_function_name_0123456789" }, bad = { "", "1f", "_f", "f-g", "f g", "f.", "f:", "9", "[]", "f;" };
    return R.chance(15) ? R.pick(bad) : R.pick(good);
}
static Reg areg(bool v3) {
    Reg r; r.n = fname(); r.a = anysig(v3); r.ok = 0;
    r.r = v3 || R.chance(30) ? "any" : R.chance(30) ? "" : R.chance(30) ? "clip:vnode;" : anysig(false);
    return r;
}
static std::string regj(const Reg &r) { return fmt("{\"n\":%s,\"a\":%s,\"r\":%s,\"ok\":%d}", jstr(r.n).c_str(), jstr(r.a).c_str(), jstr(r.r).c_str(), r.ok); }
static std::string regsj(const std::vector<Reg> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + regj(v[i]); return s + "]"; }
static std::string plugins() {
    std::string s = "["; bool first = true;
    for (VSPlugin *p = vs->getNextPlugin(nullptr, core); p; p = vs->getNextPlugin(p, core)) {
        s += fmt("%s{\"id\":%s,\"ns\":%s,\"full\":%s,\"ver\":%d,\"fns\":[", first ? "" : ",", jstr(vs->getPluginID(p)).c_str(), jstr(vs->getPluginNamespace(p)).c_str(), jstr(vs->getPluginName(p)).c_str(), vs->getPluginVersion(p)); first = false;
        bool ff = true;
        for (VSPluginFunction *f = vs->getNextPluginFunction(nullptr, p); f; f = vs->getNextPluginFunction(f, p)) {
            s += fmt("%s[%s,%s,%s]", ff ? "" : ",", jstr(vs->getPluginFunctionName(f)).c_str(), jstr(vs->getPluginFunctionArguments(f)).c_str(), jstr(vs->getPluginFunctionReturnType(f)).c_str()); ff = false;
        }
        s += "]}";
    }
    return s + "]";
}
static std::string bindir;
static VSMap *doload(Load &L) {
    VSPlugin *std_ = vs->getPluginByID("com.vapoursynth.std", core);
    VSMap *m = vs->createMap();
    std::string path = bindir + (L.entry == 0 ? "/plug0.so" : L.api == 3 ? "/plug3.so" : "/plug.so");
    vs->mapSetData(m, "path", path.c_str(), -1, dtUtf8, maReplace);
    if (!L.fid.empty()) vs->mapSetData(m, "forceid", L.fid.c_str(), -1, dtUtf8, maReplace);
    if (!L.fns.empty()) vs->mapSetData(m, "forcens", L.fns.c_str(), -1, dtUtf8, maReplace);
    cur = &L; VSMap *r = vs->invoke(std_, "LoadPlugin", m); cur = nullptr;
    L.err = vs->mapGetError(r) ? 1 : 0;
    vs->freeMap(m);
    return r;
}
static std::string loadj(const Load &L) {
    return fmt("{\"op\":\"load\",\"id\":%s,\"ns\":%s,\"fid\":%s,\"fns\":%s,\"full\":%s,\"ver\":%d,\"api\":%d,\"cfg\":%d,\"entry\":%d,\"mod\":%d,\"err\":%d,\"regs\":%s}",
        jstr(L.id).c_str(), jstr(L.ns).c_str(), jstr(L.fid).c_str(), jstr(L.fns).c_str(), jstr(L.full).c_str(), L.api == 3 ? -1 : L.ver, L.api, L.cfg, L.entry, L.mod, L.err, regsj(L.regs).c_str());
}
struct P { std::string id; bool v3; std::vector<std::pair<std::string, std::string>> fns; };
static std::map<std::string, P> mine;
static Load aload() {
    static std::vector<std::string> idp = { "p.one", "p.two", "p.three", "p.four", "com.vapoursynth.std", "com.vapoursynth.text" }, nsp = { "one", "two", "three", "four", "std", "text", "One" };
    Load L; L.id = R.pick(idp); L.ns = R.pick(nsp); L.fid = R.chance(20) ? R.pick(idp) : ""; L.fns = R.chance(20) ? R.pick(nsp) : "";
    L.full = fmt("Plugin %d", R.below(100)); L.ver = R.below(1 << 20);
    L.api = R.chance(25) ? 3 : R.chance(8) ? 0 : 4; L.cfg = R.chance(93); L.entry = R.chance(93); L.mod = R.chance(60); L.err = 0;
    L.apiv = L.api == 3 ? (R.chance(50) ? 3 : (3 << 16) | R.below(7)) : L.api == 4 ? VS_MAKE_VERSION(4, R.below(VAPOURSYNTH_API_MINOR + 1)) : R.pick(std::vector<int>{ VS_MAKE_VERSION(4, VAPOURSYNTH_API_MINOR + 1), VS_MAKE_VERSION(5, 0), VS_MAKE_VERSION(4, 99), VS_MAKE_VERSION(2, 0) });
    for (int k = R.below(6); k > 0; k--) L.regs.push_back(areg(L.api == 3));
    if (!L.cfg || !L.entry || !L.api) L.regs.clear();
    return L;
}
static void learn(const Load &L) {
    std::string id = L.fid.empty() ? L.id : L.fid;
    P p; p.id = id; p.v3 = L.api == 3;
    for (auto &r : L.regs) if (r.ok) p.fns.push_back({ r.n, r.a });
    mine[id] = p;
}
static std::string argj(const std::vector<std::tuple<std::string, int, int>> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += fmt("%s[%s,\"%s\",%d]", i ? "," : "", jstr(std::get<0>(v[i])).c_str(), tname[std::get<1>(v[i])], std::get<2>(v[i])); return s + "]"; }
static void inv(const std::string &pl, const std::string &f, std::vector<std::tuple<std::string, int, int>> args, bool builtin = false) {
    VSPlugin *p = vs->getPluginByID(pl.c_str(), core);
    VSMap *m = vs->createMap();
    for (auto &a : args) put(m, std::get<0>(a).c_str(), std::get<1>(a), std::get<2>(a), R);
    // a key no map accepts was not passed
    args.erase(std::remove_if(args.begin(), args.end(), [&](const auto &a) { return vs->mapNumElements(m, std::get<0>(a).c_str()) < 0; }), args.end());
    std::string given = dump(m);
    Call c{ false, "", "", "", 0, R.next(), false }; call = &c;
    VSMap *r = vs->invoke(p, f.c_str(), m);
    call = nullptr;
    bool same = dump(m) == given;       // nor may the caller's map change
    int err = vs->mapGetError(r) ? 1 : 0;
    int out = c.ran ? dump(r) == c.gave : 1;
    emit(fmt("{\"op\":\"inv\",\"pl\":%s,\"fn\":%s,\"args\":%s,\"ran\":%d,\"err\":%d,\"seen\":%d,\"out\":%d,\"lib\":%d}", jstr(pl).c_str(), jstr(f).c_str(), argj(args).c_str(), c.ran ? 1 : 0, err,
        c.ran && c.seen == given && same && c.owner == pl + "/" + f, out, builtin ? 1 : 0));
    vs->freeMap(r); vs->freeMap(m);
}
static std::vector<std::tuple<std::string, int, int>> argsFor(const std::string &s, bool v3) {
    std::vector<std::tuple<std::string, int, int>> v;
    auto count = [](bool arr, bool empty) { return arr ? (empty ? R.below(3) : R.range(1, 3)) : 1; };
    for (auto &a : cut(s, ';')) {
        auto p = cut(a, ':'); if (p.size() < 2) continue;
        bool arr = p[1].size() > 2 && p[1].substr(p[1].size() - 2) == "[]"; std::string t = arr ? p[1].substr(0, p[1].size() - 2) : p[1];
        bool opt = false, emp = false; for (size_t i = 2; i < p.size(); i++) { if (p[i] == "opt") opt = true; else emp = true; }
        if (opt && R.chance(40)) continue;
        if (t == "clip") t = "vnode"; if (t == "frame") t = "vframe";
        for (int k = 0; k < 8; k++) if (t == tname[k]) { v.push_back({ p[0], k, count(arr, emp) }); break; }
    }
    if (s.find("any") != std::string::npos) for (int k = R.below(3); k > 0; k--) v.push_back({ fmt("extra%d", k), R.below(8), R.below(3) });
    return v;
}
static bool vkey(const std::string &k) { if (k.empty() || !(isalpha((unsigned char)k[0]) || k[0] == '_')) return false; for (char c : k) if (!isalnum((unsigned char)c) && c != '_') return false; return true; }
static void spoilArgs(std::vector<std::tuple<std::string, int, int>> &v) {
    int i = v.empty() ? -1 : R.below((int)v.size());
    switch (R.below(5)) {
        case 0: if (i >= 0) v.erase(v.begin() + i); break;
        case 1: if (i >= 0) std::get<1>(v[i]) = R.below(8); break;
        case 2: if (i >= 0) std::get<2>(v[i]) = R.below(4); break;
        case 3: v.push_back({ R.pick(std::vector<std::string>{ "a", "b", "c", "clip", "zz", "A", "foo_9", "_error" }), R.below(8), R.range(0, 2) }); break;
        case 4: if (i >= 0) { std::string &k = std::get<0>(v[i]); k = R.chance(50) ? k + "x" : k.substr(0, k.size() - 1); } break;
    }
    std::set<std::string> s; std::vector<std::tuple<std::string, int, int>> w;
    for (auto &a : v) if (vkey(std::get<0>(a)) && s.insert(std::get<0>(a)).second) w.push_back(a);
    v = w;
}
static void VS_CC fnc(const VSMap *, VSMap *, void *, VSCore *, const VSAPI *) {}
static const VSFrame *VS_CC gf(int, int, void *, void **, VSFrameContext *, VSCore *, const VSAPI *) { return nullptr; }
static void setup() {
    core = vs->createCore(R.chance(50) ? ccfEnableGraphInspection : 0);
    vs->addLogHandler([](int, const char *, void *) {}, nullptr, nullptr, core);
    VSVideoInfo vi{}; vs->queryVideoFormat(&vi.format, cfGray, stInteger, 8, 0, 0, core); vi.width = vi.height = 16; vi.numFrames = 3; vi.fpsNum = 25; vi.fpsDen = 1;
    VSAudioInfo ai{}; vs->queryAudioFormat(&ai.format, stInteger, 16, 3, core); ai.numSamples = 5000; ai.sampleRate = 44100; ai.numFrames = 2;
    for (int i = 0; i < 2; i++) {
        vn[i] = vs->createVideoFilter2("v", &vi, gf, nullptr, fmParallel, nullptr, 0, nullptr, core);
        an[i] = vs->createAudioFilter2("a", &ai, gf, nullptr, fmParallel, nullptr, 0, nullptr, core);
        vf[i] = vs->newVideoFrame(&vi.format, 16, 16, nullptr, core);
        af[i] = vs->newAudioFrame(&ai.format, 3072, nullptr, core);
        fn[i] = vs->createFunction(fnc, nullptr, nullptr, core);
    }
    mine.clear();
    emit(fmt("{\"op\":\"reset\",\"plugins\":%s}", plugins().c_str()));
}
static void teardown() {
    for (int i = 0; i < 2; i++) { vs->freeNode(vn[i]); vs->freeNode(an[i]); vs->freeFrame(vf[i]); vs->freeFrame(af[i]); vs->freeFunction(fn[i]); }
    vs->freeCore(core);
    for (auto x : ids) delete x; ids.clear();
}
static void look(const char *kind, const std::string &x, const std::string &pl = "") {
    std::string f;
    if (!strcmp(kind, "id")) { VSPlugin *p = vs->getPluginByID(x.c_str(), core); if (p) f = vs->getPluginID(p); }
    else if (!strcmp(kind, "ns")) { VSPlugin *p = vs->getPluginByNamespace(x.c_str(), core); if (p) f = vs->getPluginID(p); }
    else { VSPluginFunction *p = vs->getPluginFunctionByName(x.c_str(), vs->getPluginByID(pl.c_str(), core)); if (p) f = vs->getPluginFunctionName(p); }
    emit(fmt("{\"op\":\"look\",\"kind\":\"%s\",\"x\":%s,\"pl\":%s,\"found\":%s}", kind, jstr(x).c_str(), jstr(pl).c_str(), jstr(f).c_str()));
}
static void builtins() {    // calls that must be refused
    struct B { std::string pl, f, a; }; std::vector<B> bs;
    for (VSPlugin *p = vs->getNextPlugin(nullptr, core); p; p = vs->getNextPlugin(p, core))
        if (!mine.count(vs->getPluginID(p)))
            for (VSPluginFunction *f = vs->getNextPluginFunction(nullptr, p); f; f = vs->getNextPluginFunction(f, p)) bs.push_back({ vs->getPluginID(p), vs->getPluginFunctionName(f), vs->getPluginFunctionArguments(f) });
    for (auto &b : bs) {
        auto as = cut(b.a, ';'); bool any = b.a.find("any") != std::string::npos && cut(as.back(), ':').size() == 1;
        std::vector<std::tuple<std::string, int, int>> v; int req = -1;
        for (auto &a : as) {
            auto p = cut(a, ':'); if (p.size() < 2) continue;
            std::string t = p[1].size() > 2 && p[1].back() == ']' ? p[1].substr(0, p[1].size() - 2) : p[1];
            for (int k = 0; k < 8; k++) if (t == tname[k]) v.push_back({ p[0], k, 1 });
            if (a.find(":opt") == std::string::npos) req = (int)v.size() - 1;
        }
        if (v.empty() || (req < 0 && any)) continue;
        auto w = v;
        if (!any && R.chance(50)) w.push_back({ "undeclared", R.below(8), 1 });
        else if (req >= 0 && R.chance(50)) w.erase(w.begin() + req);
        else { int i = R.below((int)w.size()); int &t = std::get<1>(w[i]); t = (t + R.range(1, 7)) % 8; }
        inv(b.pl, b.f, w, true);
    }
}
static void session(int ops) {
    setup();
    if (R.chance(30)) builtins();
    for (int o = 0; o < ops; o++) {
        int k = R.below(100);
        if (mine.empty() || k < 6) {
            Load L = aload(); vs->freeMap(doload(L)); emit(loadj(L)); if (!L.err) learn(L);
        } else if (k < 8) {       // several threads load the same thing
            int n = R.range(2, 4); std::vector<Load> Ls; Load b = aload(); b.api = 4; b.apiv = VS_MAKE_VERSION(4, 0); b.cfg = b.entry = 1; b.fid = b.fns = ""; bool byId = R.chance(50);
            for (int i = 0; i < n; i++) { Load L = b; if (byId) L.ns = fmt("race%d_%d", o, i); else L.id = fmt("race.%d.%d", o, i); L.regs.clear(); for (int j = R.range(0, 3); j > 0; j--) L.regs.push_back(areg(false)); Ls.push_back(L); }
            std::vector<std::thread> th; std::atomic<int> go{ 0 };
            for (int i = 0; i < n; i++) th.emplace_back([&, i] { go++; while (go < n) ; vs->freeMap(doload(Ls[i])); });
            for (auto &t : th) t.join();
            std::string s = "["; for (int i = 0; i < n; i++) { s += (i ? "," : "") + loadj(Ls[i]); if (!Ls[i].err) learn(Ls[i]); }
            emit("{\"op\":\"rload\",\"loads\":" + s + "]}");
        } else if (k < 26) {
            std::string pl; bool v3 = false;
            if (R.chance(8)) pl = "com.vapoursynth.std"; else { auto it = mine.begin(); std::advance(it, R.below((int)mine.size())); pl = it->first; v3 = it->second.v3; }
            Reg r = areg(v3); if (v3 && R.chance(50)) r.r = "any";
            if (v3 && !usable(r.r, true)) r.r = "any";
            if (!papi) { Load t; continue; }
            if (R.chance(30)) r.n += std::to_string(R.below(50));
            r.ok = papi->registerFunction(r.n.c_str(), r.a.c_str(), r.r.c_str(), callee, fnid(pl, r.n, v3), vs->getPluginByID(pl.c_str(), core));
            emit(fmt("{\"op\":\"reg\",\"pl\":%s,%s", jstr(pl).c_str(), regj(r).substr(1).c_str()));
            if (r.ok && mine.count(pl)) mine[pl].fns.push_back({ r.n, r.a });
        } else if (k < 29) {
            auto it = mine.begin(); std::advance(it, R.below((int)mine.size()));
            if (!papi || it->second.v3) continue;
            int n = R.range(2, 4), c = R.range(1, 4); std::vector<Reg> base;
            for (int i = 0; i < c; i++) { Reg r = areg(false); if (R.chance(70)) r.n = fmt("race%d_%d", o, i); bool dup = false; for (auto &b : base) dup |= b.n == r.n; if (!dup) base.push_back(r); }
            std::vector<std::vector<Reg>> all(n, base); std::vector<std::thread> th; std::atomic<int> go{ 0 };
            VSPlugin *p = vs->getPluginByID(it->first.c_str(), core);
            for (int i = 0; i < n; i++) th.emplace_back([&, i] { go++; while (go < n) ; for (auto &r : all[i]) r.ok = papi->registerFunction(r.n.c_str(), r.a.c_str(), r.r.c_str(), callee, fnid(it->first, r.n, false), p); });
            for (auto &t : th) t.join();
            std::vector<Reg> flat; for (auto &a : all) for (auto &r : a) { flat.push_back(r); if (r.ok) it->second.fns.push_back({ r.n, r.a }); }
            emit(fmt("{\"op\":\"race\",\"pl\":%s,\"regs\":%s}", jstr(it->first).c_str(), regsj(flat).c_str()));
        } else if (k < 31) emit(fmt("{\"op\":\"enum\",\"plugins\":%s}", plugins().c_str()));
        else if (k < 45) {
            static std::vector<std::string> idp = { "p.one", "p.two", "p.three", "p.four", "com.vapoursynth.std", "", "P.one", "com" }, nsp = { "one", "two", "three", "four", "std", "text", "", "One", "race" };
            int w = R.below(3);
            if (w == 0) look("id", R.pick(idp)); else if (w == 1) look("ns", R.pick(nsp));
            else { auto it = mine.begin(); std::advance(it, R.below((int)mine.size())); auto &f = it->second.fns; look("fn", f.empty() || R.chance(40) ? fname() : f[R.below((int)f.size())].first, it->first); }
        } else {
            auto it = mine.begin(); std::advance(it, R.below((int)mine.size()));
            auto &f = it->second.fns;
            if (f.empty() || R.chance(4)) { inv(it->first, R.chance(50) ? fname() + "zzz" : fname(), {}); continue; }
            auto &x = f[R.below((int)f.size())];
            auto v = argsFor(x.second, it->second.v3);
            if (R.chance(50)) spoilArgs(v);
            inv(it->first, x.first, v);
        }
    }
    emit(fmt("{\"op\":\"enum\",\"plugins\":%s}", plugins().c_str()));
    teardown();
}
// every signature of up to four tokens; every kind of argument against every kind of value
static void sys(int part, int parts) {
    setup();
    Load L{ "p.sys", "sys", "", "", "x", 1, 4, VS_MAKE_VERSION(4, 0), 1, 1, 1, {}, 0 };
    vs->freeMap(doload(L)); emit(loadj(L));
    VSPlugin *p = vs->getPluginByID("p.sys", core);
    std::vector<std::string> tok = { "a", "b1", "1a", "any", ":", ";", "int", "int[]", "vnode", "clip", "opt", "empty", "[]" };
    int T = (int)tok.size(); long n = 0;
    auto one = [&](const std::string &s, int where) {
        if (n++ % parts != part || !usable(s, false)) return;
        std::string nm = fmt("s%ld", n); static FnId id{ "x", false };
        int ok = papi->registerFunction(nm.c_str(), where ? "" : s.c_str(), where ? s.c_str() : "any", callee, &id, p);
        VSPluginFunction *f = vs->getPluginFunctionByName(nm.c_str(), p);
        emit(fmt("{\"op\":\"sig\",\"s\":%s,\"ok\":%d,\"there\":%d,\"any\":%d}", jstr(s).c_str(), ok, f && (where ? vs->getPluginFunctionReturnType(f) : vs->getPluginFunctionArguments(f)) == s, where && s == "any"));
    };
    for (int l = 1; l <= 4; l++) { long m = 1; for (int i = 0; i < l; i++) m *= T; for (long c = 0; c < m; c++) { std::string s; long x = c; for (int i = 0; i < l; i++) { s += tok[x % T]; x /= T; } one(s, 0); if (l < 3) one(s, 1); } }
    // "a:" TYPE modifiers, longer ones
    std::vector<std::string> mods = { ":opt", ":empty", "[]", ";", "b:data", ":", "any" };
    for (int c = 0; c < 7 * 7 * 7 * 7; c++) one("a:int" + mods[c % 7] + mods[c / 7 % 7] + mods[c / 49 % 7] + mods[c / 343], 0);
    int k = 0;
    for (int t = 0; t < 8; t++) for (int md = 0; md < 6; md++) {
        if (k++ % parts != part) continue;
        bool arr = md >= 2, opt = md % 2, emp = md >= 4;
        Reg r{ fmt("k%d", k), std::string("a:") + tname[t] + (arr ? "[]" : "") + (opt ? ":opt" : "") + (emp ? ":empty" : "") + ";", "any", 0 };
        r.ok = papi->registerFunction(r.n.c_str(), r.a.c_str(), r.r.c_str(), callee, fnid("p.sys", r.n, false), p);
        emit("{\"op\":\"reg\",\"pl\":\"p.sys\"," + regj(r).substr(1));
        inv("p.sys", r.n, {});
        for (int u = 0; u < 8; u++) for (int c = 0; c < 3; c++) inv("p.sys", r.n, { { "a", u, c } });
        inv("p.sys", r.n, { { "b", t, 1 } }); inv("p.sys", r.n, { { "a", t, 1 }, { "b", t, 1 } });
    }
    teardown();
}
int main(int argc, char **argv) {
    if (argc < 6) return 2;
    open_trace(argv[5]); watchdog(40);
    R = Rng(atoll(argv[1]));
    char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0; bindir = self; bindir = bindir.substr(0, bindir.rfind('/'));
    if (std::string(argv[4]) == "sys") sys(atoi(argv[1]), atoi(argv[2]));
    else for (int i = 0; i < atoi(argv[2]); i++) session(atoi(argv[3]));
    close_trace();
    _exit(0);
}
