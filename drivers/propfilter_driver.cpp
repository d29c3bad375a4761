// C16: random chains of property filters, FrameEval and ModifyFrame over sources whose frames are kept.
#include "vsdrv.h"
#include <cmath>
#include <atomic>
static void perturb_point() { static std::atomic<unsigned> c{1}; unsigned x = c++ * 2654435761u; x ^= x >> 13; if (x % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(x % 300)); }
static VSCore *core; static VSPlugin *std_;
struct Clip { int id; VSNode *node; int depth; bool fe; bool src; VSVideoInfo vi; std::vector<int> ins; };
static std::vector<Clip> clips; static std::map<int, std::string> tallKey; static std::vector<VSNode *> all;      // all[i]: node of id i+1
static std::map<int, std::vector<const VSFrame *>> held; static const VSFrame *audioFrame; static VSNode *audioNode, *keyNode;
static std::vector<VSFunction *> funcs;
static std::string fname(const VSVideoFormat &f) { char b[32]; if (f.colorFamily == cfUndefined) return "none"; vs->getVideoFormatName(&f, b); return b; }
static int bitsOf(const VSVideoFormat &f) { return f.sampleType == stFloat ? f.bitsPerSample + (f.bitsPerSample == 16 ? 17 : 0) : f.bitsPerSample == 32 ? 99 : f.bitsPerSample; }
static std::string frameJson(const VSFrame *f);
static std::string propsJson(const VSMap *m) {
    std::string r = "{";
    for (int i = 0; i < vs->mapNumKeys(m); i++) {
        const char *k = vs->mapGetKey(m, i); int n = vs->mapNumElements(m, k), t = vs->mapGetType(m, k); std::string v, ty;
        for (int j = 0; j < n; j++) {
            if (j) v += ",";
            switch (t) {
            case ptInt: v += fmt("\"%lld\"", (long long)vs->mapGetInt(m, k, j, nullptr)); break;
            case ptFloat: { double d = vs->mapGetFloat(m, k, j, nullptr); v += (d == d && std::abs(d) < 2000) ? fmt("%lld", (long long)std::floor(d * 1048576.0)) : std::string("0"); break; }
            case ptData: v += fmt("[%d,\"", vs->mapGetDataTypeHint(m, k, j, nullptr)) + hexs(vs->mapGetData(m, k, j, nullptr), vs->mapGetDataSize(m, k, j, nullptr)) + "\"]"; break;
            case ptVideoFrame: { const VSFrame *x = vs->mapGetFrame(m, k, j, nullptr); v += frameJson(x); vs->freeFrame(x); break; }
            case ptAudioFrame: v += "\"audio\""; break;
            case ptFunction: { VSFunction *x = vs->mapGetFunction(m, k, j, nullptr); int id = -1; for (size_t q = 0; q < funcs.size(); q++) if (funcs[q] == x) id = (int)q; v += std::to_string(id); vs->freeFunction(x); break; }
            case ptVideoNode: { VSNode *x = vs->mapGetNode(m, k, j, nullptr); v += x == keyNode ? "1" : "-1"; vs->freeNode(x); break; }
            default: v += "0";
            }
        }
        ty = t == ptInt ? "i" : t == ptFloat ? "f" : t == ptData ? "d" : t == ptVideoFrame ? "v" : t == ptAudioFrame ? "a" : t == ptFunction ? "u" : t == ptVideoNode ? "o" : "?";
        r += (i ? "," : "") + jstr(k) + ":[\"" + ty + "\",[" + v + "]]";
    }
    return r + "}";
}
static std::string pixHash(const VSFrame *f) {
    const VSVideoFormat *vf = vs->getVideoFrameFormat(f); uint64_t h = 1469598103934665603ull + vf->bitsPerSample * 1000003ull + vf->sampleType * 7ull + vf->numPlanes * 31ull + vf->subSamplingW * 101ull + vf->subSamplingH * 1009ull + vs->getFrameWidth(f, 0) * 65537ull;
    for (int p = 0; p < vf->numPlanes; p++) for (int y = 0; y < vs->getFrameHeight(f, p); y++) {
        const uint8_t *s = vs->getReadPtr(f, p) + y * vs->getStride(f, p);
        for (int x = 0; x < vs->getFrameWidth(f, p) * vf->bytesPerSample; x++) { h ^= s[x]; h *= 1099511628211ull; }
    }
    return fmt("%016llx", (unsigned long long)h);
}
static std::string frameJson(const VSFrame *f) {
    return fmt("{\"fmt\":\"%s\",\"w\":%d,\"h\":%d,\"px\":\"%s\",\"pr\":", fname(*vs->getVideoFrameFormat(f)).c_str(), vs->getFrameWidth(f, 0), vs->getFrameHeight(f, 0), pixHash(f).c_str()) + propsJson(vs->getFramePropertiesRO(f)) + "}";
}
static std::string samples(const VSFrame *f) {       // planes as lists of samples (floats in 1/256)
    const VSVideoFormat *vf = vs->getVideoFrameFormat(f); std::string r = "[";
    for (int p = 0; p < vf->numPlanes; p++) {
        r += p ? ",[" : "[";
        bool first = true;
        for (int y = 0; y < vs->getFrameHeight(f, p); y++) for (int x = 0; x < vs->getFrameWidth(f, p); x++) {
            const uint8_t *s = vs->getReadPtr(f, p) + y * vs->getStride(f, p); long v;
            if (vf->sampleType == stFloat) { float q; if (vf->bytesPerSample == 2) { _Float16 hh; memcpy(&hh, s + 2 * x, 2); q = (float)hh; } else memcpy(&q, s + 4 * x, 4); v = (long)std::lround(q * 256); }
            else v = vf->bytesPerSample == 1 ? s[x] : vf->bytesPerSample == 2 ? ((const uint16_t *)s)[x] : 0;
            r += (first ? "" : ",") + std::to_string(v); first = false;
        }
        r += "]";
    }
    return r + "]";
}
static std::string infoJson(const VSVideoInfo &v) {
    return fmt("{\"w\":%d,\"h\":%d,\"fmt\":\"%s\",\"num\":%lld,\"den\":%lld,\"len\":%d,\"bits\":%d,\"planes\":%d}", v.width, v.height, fname(v.format).c_str(), (long long)v.fpsNum, (long long)v.fpsDen, v.numFrames, bitsOf(v.format), v.format.numPlanes);
}
struct Src { int id; };
static const VSFrame *VS_CC srcGet(int n, int ar, void *inst, void **, VSFrameContext *, VSCore *, const VSAPI *) { return ar == arInitial ? vs->addFrameRef(held[((Src *)inst)->id][n]) : nullptr; }
static void VS_CC srcFree(void *inst, VSCore *, const VSAPI *) { delete (Src *)inst; }
static const std::vector<std::string> KEYS = {"a", "ab", "abc", "a_b", "b", "B1", "_Field", "_FieldBased", "_DurationNum", "_DurationDen", "_Alpha", "PlaneStatsMin", "PlaneStatsDiff", "xMax", "x", "made", "clip_", "zz9"};
static const std::vector<std::string> GLOBS = {"*", "?", "a*", "*b", "a?", "a??", "?b*", "_*", "a*c", "*_*", "", "PlaneStats*", "a.c", "a.*", "[ab]", "a|b", "^a", "b$", "(a)", "a+", "\\w*", "*a*b*", "**", "??*", "_Field", "zz9", "ab", "A", "{1}", "B1"};
static void setAny(Rng &r, VSMap *m, const char *k, bool frames) {
    int n = r.range(1, 3), t = r.below(frames ? 6 : 5);
    for (int i = 0; i < n; i++) switch (t) {
    case 0: vs->mapSetInt(m, k, r.chance(30) ? (int64_t)(r.next()) : r.range(-9, 9), i ? maAppend : maReplace); break;
    case 1: vs->mapSetFloat(m, k, r.range(-4000, 4000) / 4.0, i ? maAppend : maReplace); break;
    case 2: { std::string s; for (int j = r.below(4); j > 0; j--) s += (char)(r.chance(25) ? 0 : r.below(256)); vs->mapSetData(m, k, s.data(), (int)s.size(), r.range(-1, 1), i ? maAppend : maReplace); break; }
    case 3: vs->mapSetFunction(m, k, r.pick(funcs), i ? maAppend : maReplace); break;
    case 4: vs->mapSetNode(m, k, keyNode, i ? maAppend : maReplace); break;
    case 5: { if (held.empty()) { vs->mapSetInt(m, k, 1, maReplace); return; } auto it = held.begin(); std::advance(it, r.below((int)held.size())); vs->mapSetFrame(m, k, r.pick(it->second), i ? maAppend : maReplace); break; }
    }
}
static void makeSource(Rng &r, int id) {
    static const std::vector<int> ids = {pfGray8, pfGray16, pfGray32, pfGrayS, pfGrayH, pfYUV420P8, pfYUV444P10, pfYUV422P16, pfRGB24, pfRGB48, pfRGBS, pfYUV444PS, pfYUV420PH, pfGray10, pfGray12, pfYUV420P8, pfGray8};
    VSVideoInfo vi = {}; vs->getVideoFormatByID(&vi.format, r.pick(ids), core);
    vi.width = r.range(1, 10) * 4; vi.height = r.range(1, 4) * 4; if (vi.format.colorFamily != cfYUV && r.chance(60)) { vi.width = r.range(1, 40); vi.height = r.range(1, 9); }
    if (r.chance(35)) { vs->getVideoFormatByID(&vi.format, pfYUV420P8, core); vi.width = 8; vi.height = 4; }  // make mixing likely
    vi.numFrames = r.range(1, 5); if (r.chance(70)) { vi.fpsNum = r.range(1, 60); vi.fpsDen = 1; if (r.chance(40)) { vi.fpsNum = 30000; vi.fpsDen = 1001; } }
    int var = r.below(8);        // 0: variable dimensions, 1: variable format
    std::string m, pix;
    std::vector<const VSFrame *> fs;
    for (int n = 0; n < vi.numFrames; n++) {
        VSVideoFormat f = vi.format; int w = vi.width, h = vi.height;
        if (var == 0 && n) { w = r.range(1, 8) * 4; h = 4; }
        if (var == 1 && n) vs->getVideoFormatByID(&f, r.pick(ids), core);
        if (var == 1 && n && f.subSamplingW) { w = (w + 3) & ~3; h = (h + 3) & ~3; }
        VSFrame *fr = vs->newVideoFrame(&f, w, h, nullptr, core);
        int style = r.below(4), base = r.below(60000);
        for (int p = 0; p < f.numPlanes; p++) for (int y = 0; y < vs->getFrameHeight(fr, p); y++) for (int x = 0; x < vs->getFrameWidth(fr, p); x++) {
            uint8_t *s = vs->getWritePtr(fr, p) + y * vs->getStride(fr, p);
            if (f.sampleType == stFloat) { float q = ((f.colorFamily == cfYUV && p) ? r.range(-128, 128) : style == 0 ? 256 : style == 1 ? 10 : r.range(0, 256)) / 256.f; if (f.bytesPerSample == 2) { _Float16 hh = (_Float16)q; memcpy(s + 2 * x, &hh, 2); } else memcpy(s + 4 * x, &q, 4); }
            else { int mx = f.bitsPerSample >= 16 ? 65535 : (1 << f.bitsPerSample) - 1; int v = style == 0 ? mx : style == 1 ? base % (mx + 1) : style == 2 ? (base % (mx + 1)) ^ (r.chance(5) ? 1 : 0) : r.range(0, mx); if (f.bytesPerSample == 1) s[x] = (uint8_t)v; else if (f.bytesPerSample == 2) { uint16_t q = (uint16_t)v; memcpy(s + 2 * x, &q, 2); } else { uint32_t q = (uint32_t)v; memcpy(s + 4 * x, &q, 4); } }
        }
        VSMap *pr = vs->getFramePropertiesRW(fr);
        for (int k = r.below(9); k > 0; k--) setAny(r, pr, r.pick(KEYS).c_str(), true);
        fs.push_back(fr);
        m += (n ? "," : "") + frameJson(fr); pix += (n ? "," : "") + samples(fr);
    }
    if (var == 0) vi.width = vi.height = 0;
    if (var == 1) { vi.format = {}; if (r.chance(50)) vi.width = vi.height = 0; else if (true) { for (auto f : fs) if (vs->getFrameWidth(f, 0) != vi.width || vs->getFrameHeight(f, 0) != vi.height) { vi.width = vi.height = 0; break; } } }
    held[id] = fs;
    VSNode *node = vs->createVideoFilter2("S", &vi, srcGet, srcFree, fmParallel, nullptr, 0, new Src{id}, core);
    vs->setCacheMode(node, 1);
    emit("{\"op\":\"src\",\"id\":" + std::to_string(id) + ",\"info\":" + infoJson(vi) + ",\"m\":[" + m + "],\"pix\":[" + pix + "]}");
    clips.push_back({id, node, 0, false, true, vi, {}}); all.push_back(node);
}
struct Fn { int id, f; std::vector<std::vector<std::string>> b; std::atomic<int> calls{0}; Rng r; std::mutex m; bool modify; };
static std::vector<Fn *> fns;
static void VS_CC fnCall(const VSMap *in, VSMap *out, void *ud, VSCore *, const VSAPI *) {
    Fn *fn = (Fn *)ud; fn->calls++; int e;
    perturb_point();
    int64_t n = vs->mapGetInt(in, "n", 0, &e); if (e) n = -1;
    std::string keys, fr; int nf = vs->mapNumElements(in, "f"); std::vector<const VSFrame *> f;
    for (int i = 0; i < nf; i++) { const VSFrame *x = vs->mapGetFrame(in, "f", i, &e); f.push_back(x); fr += (i ? "," : "") + frameJson(x); }
    for (int i = 0; i < vs->mapNumKeys(in); i++) keys += fmt("%s\"%s\"", i ? "," : "", vs->mapGetKey(in, i));
    if (vs->mapNumElements(in, "n") != 1) n = -2;
    emit(fmt("{\"op\":\"fn\",\"id\":%d,\"n\":%lld,\"keys\":[%s],\"f\":[%s]}", fn->id, (long long)n, keys.c_str(), fr.c_str()));
    perturb_point();
    if (n >= 0 && n < (int)fn->b.size()) {
        auto &b = fn->b[n]; std::string k = b[0];
        auto num = [&](int i) { return atoi(b[i].c_str()); };
        if (k == "clip") vs->mapSetNode(out, "val", all[num(1) - 1], maReplace);
        else if (k == "make") { VSMap *a = vs->createMap(); vs->mapSetNode(a, "clip", all[num(1) - 1], maReplace); vs->mapSetInt(a, "made", num(2), maReplace); VSMap *o = vs->invoke(std_, "SetFrameProps", a); vs->mapConsumeNode(out, "val", vs->mapGetNode(o, "clip", 0, nullptr), maReplace); vs->freeMap(a); vs->freeMap(o); }
        else if (k == "given") vs->mapSetFrame(out, "val", f[num(1) - 1], maReplace);
        else if (k == "edit") { VSFrame *c = vs->copyFrame(f[num(1) - 1], core); vs->mapSetInt(vs->getFramePropertiesRW(c), "edited", n, maReplace); vs->mapConsumeFrame(out, "val", c, maReplace); }
        else if (k == "frame") { auto &h = held[num(1)]; int q = num(2); vs->mapSetFrame(out, "val", h[std::min<size_t>(q, h.size()) - 1], maReplace); }
        else if (k == "error") vs->mapSetError(out, b[1].c_str());
        else if (k == "int") vs->mapSetInt(out, "val", 3, maReplace);
        else if (k == "wrongkey") { vs->mapSetNode(out, "clip", all[0], maReplace); }
        else if (k == "other") { if (fn->modify) vs->mapSetNode(out, "val", all[0], maReplace); else vs->mapSetFrame(out, "val", held.begin()->second[0], maReplace); }
        else if (k == "audio") { if (fn->modify) vs->mapSetFrame(out, "val", audioFrame, maReplace); else vs->mapSetNode(out, "val", audioNode, maReplace); }
    }
    perturb_point();
    for (auto x : f) vs->freeFrame(x);
}
struct Wait { std::mutex m; std::condition_variable c; int left; std::map<int, std::pair<const VSFrame *, std::string>> got; };
static void VS_CC done(void *ud, const VSFrame *f, int n, VSNode *, const char *err) { Wait *w = (Wait *)ud; std::lock_guard<std::mutex> l(w->m); w->got[n] = {f, err ? err : ""}; if (--w->left == 0) w->c.notify_all(); }
static std::string row(int n, const VSFrame *f, const std::string &err, int calls) { std::string s = fmt("{\"n\":%d,\"ok\":%d,\"calls\":%d,\"err\":%s", n, f ? 1 : 0, calls, jstr(err).c_str()); if (f) s += ",\"fr\":" + frameJson(f); vs->freeFrame(f); return s + "}"; }
static void get(Rng &r, Clip &c) {
    std::string rows; int len = c.vi.numFrames;
    if (r.chance(50)) {
        for (int k = r.range(1, 4); k > 0; k--) {
            int n = r.below(len); char err[1024] = ""; int before = 0, after = 0; Fn *fn = nullptr; bool count = false;
            if (c.fe) for (auto x : fns) if (x->id == c.id) { fn = x; vs->setCacheMode(c.node, 0); before = fn->calls; count = true; }
            const VSFrame *f = vs->getFrame(n, c.node, err, sizeof err); if (fn) after = fn->calls;
            if (!f && c.ins.size() > 1) count = false;       // an input may have failed before the call
            rows += (rows.empty() ? "" : ",") + row(n, f, err, count ? after - before : -1);
        }
    } else {
        Wait w; std::set<int> ns; for (int k = r.range(2, 6); k > 0; k--) ns.insert(r.below(len)); w.left = (int)ns.size();
        if (c.fe) vs->setCacheMode(c.node, r.below(2));
        for (int n : ns) vs->getFrameAsync(n, c.node, done, &w);
        std::unique_lock<std::mutex> l(w.m); w.c.wait(l, [&] { return w.left == 0; });
        for (auto &g : w.got) rows += (rows.empty() ? "" : ",") + row(g.first, g.second.first, g.second.second, -1);
    }
    emit(fmt("{\"op\":\"get\",\"id\":%d,\"rows\":[", c.id) + rows + "]}");
}
static std::string opt(bool has, const std::string &v) { return has ? "[" + v + "]" : "[]"; }
static std::string jstrs(const std::vector<std::string> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + jstr(v[i]); return r + "]"; }
int main(int argc, char **argv) {
    open_trace(argv[3]); Rng r(atoi(argv[1])); int steps = atoi(argv[2]);
    watchdog(60);
    core = vs->createCore(0); vs->setThreadCount(r.range(1, 5), core); std_ = vs->getPluginByID(VSH_STD_PLUGIN_ID, core);
    for (int i = 0; i < 3; i++) funcs.push_back(vs->createFunction([](const VSMap *, VSMap *, void *, VSCore *, const VSAPI *) {}, nullptr, nullptr, core));
    { VSMap *a = vs->createMap(), *o = vs->invoke(std_, "BlankAudio", a); audioNode = vs->mapGetNode(o, "clip", 0, nullptr); vs->freeMap(o); o = vs->invoke(std_, "BlankClip", a); keyNode = vs->mapGetNode(o, "clip", 0, nullptr); vs->freeMap(o); vs->freeMap(a); audioFrame = vs->getFrame(0, audioNode, nullptr, 0); }
    for (int i = 0; i < 5; i++) makeSource(r, (int)all.size() + 1);
    for (int st = 0; st < steps; st++) {
        int what = r.below(100);
        if (what < 6) { makeSource(r, (int)all.size() + 1); continue; }
        if (what < 45) { get(r, clips[r.chance(40) ? clips.size() - 1 : r.below((int)clips.size())]); continue; }
        Clip c = r.pick(clips), d = r.pick(clips); if (r.chance(40)) for (int i = 0; i < 8 && (d.vi.width != c.vi.width || fname(d.vi.format) != fname(c.vi.format) || d.vi.height != c.vi.height); i++) d = r.pick(clips);
        if (c.depth > 6 || d.depth > 6) continue;
        VSMap *a = vs->createMap(); std::string f, args; std::vector<int> ins = {c.id}; std::vector<int> insd = {c.depth}; Fn *fn = nullptr; bool tall = false; std::string newKey;
        vs->mapSetNode(a, "clip", c.node, maReplace);
        auto second = [&](const char *k) { vs->mapSetNode(a, k, d.node, maReplace); ins.push_back(d.id); insd.push_back(d.depth); };
        auto setstr = [&](const char *k, const std::string &s, int mode = maReplace) { vs->mapSetData(a, k, s.data(), (int)s.size(), dtUtf8, mode); };
        int id = (int)all.size() + 1;
        switch (r.below(11)) {
        case 0: { f = "SetFrameProp"; std::string p = r.chance(5) ? "" : r.pick(KEYS); setstr("prop", p); int mask = r.chance(80) ? 1 << r.below(3) : r.below(8); std::string is, fs, ds; int n = r.range(1, 3);
            for (int i = 0; i < n; i++) {
                if (mask & 1) { int64_t v = r.chance(30) ? (int64_t)r.next() : r.range(-5, 5); vs->mapSetInt(a, "intval", v, maAppend); is += fmt("%s\"%lld\"", i ? "," : "", (long long)v); }
                if (mask & 2) { int v = r.range(-4000, 4000); vs->mapSetFloat(a, "floatval", v / 4.0, maAppend); fs += fmt("%s%d", i ? "," : "", v * 262144); }
                if (mask & 4) { std::string s; for (int j = r.below(4); j > 0; j--) s += (char)(r.chance(25) ? 0 : r.below(256)); int h = r.range(-1, 1); vs->mapSetData(a, "data", s.data(), (int)s.size(), h, maAppend); ds += fmt("%s[%d,\"%s\"]", i ? "," : "", h, hexs(s).c_str()); }
            }
            args = "\"prop\":" + jstr(p) + ",\"ints\":" + opt(mask & 1, "[" + is + "]") + ",\"floats\":" + opt(mask & 2, "[" + fs + "]") + ",\"data\":" + opt(mask & 4, "[" + ds + "]"); break; }
        case 1: { f = "SetFrameProps"; VSMap *x = vs->createMap(); for (int i = r.below(4); i > 0; i--) setAny(r, x, r.pick(KEYS).c_str(), true); vs->copyMap(x, a); args = "\"pr\":" + propsJson(x); vs->freeMap(x); break; }
        case 2: { f = "RemoveFrameProps"; std::vector<std::string> p; bool has = r.chance(85); if (has) for (int i = r.range(1, 3); i > 0; i--) { p.push_back(r.pick(r.chance(30) ? KEYS : GLOBS)); setstr("props", p.back(), maAppend); } args = "\"props\":" + opt(has, jstrs(p)); break; }
        case 3: { f = "SetFieldBased"; int v = r.chance(80) ? r.below(3) : r.range(-2, 5); vs->mapSetInt(a, "value", v, maReplace); args = fmt("\"value\":%d", v); break; }
        case 4: { f = "CopyFrameProps"; second("prop_src"); std::vector<std::string> p; bool has = r.chance(60); if (has) for (int i = r.range(1, 4); i > 0; i--) { p.push_back(r.pick(KEYS)); setstr("props", p.back(), maAppend); } args = "\"props\":" + opt(has, jstrs(p)); break; }
        case 5: { f = "ClipToProp"; if (d.depth > 2) { vs->freeMap(a); continue; } second("mclip"); tall = true; bool has = r.chance(50); std::string p = r.pick(KEYS); if (has) setstr("prop", p); newKey = has ? p : "_Alpha"; args = "\"prop\":" + opt(has, jstr(p)); break; }
        case 6: { f = "PropToClip"; bool has = r.chance(40), hi = r.chance(30); std::string p = r.chance(5) ? "" : r.pick(KEYS); int ix = r.range(-1, 2); std::vector<Clip> cs; for (auto &x : clips) if (tallKey.count(x.id) && x.depth < 7) cs.push_back(x); if (r.chance(60) && !cs.empty()) { c = r.pick(cs); p = tallKey[c.id]; has = p != "_Alpha"; if (r.chance(70)) ix = 0; ins = {c.id}; insd = {c.depth}; vs->mapSetNode(a, "clip", c.node, maReplace); } if (has) setstr("prop", p); if (hi) vs->mapSetInt(a, "index", ix, maReplace); args = "\"prop\":" + opt(has, jstr(p)) + ",\"index\":" + opt(hi, std::to_string(ix)); break; }
        case 7: { f = "AssumeFPS"; bool hs = r.chance(40), hn = hs ? r.chance(10) : r.chance(92), hd = r.chance(50); if (hs) second("src"); static const int64_t K[] = {1, 1LL << 31, 3486784401LL, 1}; int64_t k = K[r.below(4)]; if (!hd) k = 1; int n = r.chance(90) ? r.range(1, 3000) : r.range(-2, 0), q = r.chance(90) ? r.range(1, 1200) : r.range(-2, 0); if (hn) vs->mapSetInt(a, "fpsnum", n * k, maReplace); if (hd) vs->mapSetInt(a, "fpsden", q * k, maReplace); args = fmt("\"src\":%d,\"num\":%s,\"den\":%s", hs, opt(hn, std::to_string(n)).c_str(), opt(hd, std::to_string(q)).c_str()); break; }
        case 8: { f = "PlaneStats"; vs->mapDeleteKey(a, "clip"); vs->mapSetNode(a, "clipa", c.node, maReplace); if (r.chance(60)) second("clipb"); bool hp = r.chance(60), hs = r.chance(40); int p = r.chance(90) ? r.below(3) : r.range(-1, 4); std::string s = r.pick(std::vector<std::string>{"x", "PlaneStats", "a", "q"}); if (hp) vs->mapSetInt(a, "plane", p, maReplace); if (hs) setstr("prop", s); args = "\"plane\":" + opt(hp, std::to_string(p)) + ",\"prop\":" + opt(hs, jstr(s)); break; }
        default: {
            bool mod = r.chance(50); f = mod ? "ModifyFrame" : "FrameEval"; fn = new Fn{id, 0, {}, {0}, Rng(r.next()), {}, mod};
            if (mod) { vs->mapSetNode(a, "clips", c.node, maAppend); ins.push_back(c.id); for (int i = r.below(3); i > 0; i--) { Clip x = r.pick(clips); if (x.depth > 6) continue; vs->mapSetNode(a, "clips", x.node, maAppend); ins.push_back(x.id); insd.push_back(x.depth); } }
            else { for (int i = r.below(3); i > 0; i--) { Clip x = r.pick(clips); if (x.depth > 6) continue; vs->mapSetNode(a, "prop_src", x.node, maAppend); ins.push_back(x.id); insd.push_back(x.depth); } if (r.chance(20)) vs->mapSetNode(a, "clip_src", d.node, maAppend); }
            std::vector<int> same; for (auto &x : clips) if (x.vi.width == c.vi.width && x.vi.height == c.vi.height && fname(x.vi.format) == fname(c.vi.format) && x.depth < 7) same.push_back(x.id);
            std::string b;
            for (int n = 0; n < c.vi.numFrames; n++) {
                std::vector<std::string> q; int k = r.below(20); bool good = r.chance(85); int pc = good ? r.pick(same) : r.range(1, (int)all.size()); int dep = 0; for (auto &x : clips) if (x.id == pc) dep = x.depth; if (!dep) {} 
                auto S = [](int v) { return std::to_string(v); };
                if (!mod) { if (k < 10) { q = {"clip", S(pc)}; insd.push_back(dep); } else if (k < 16) { q = {"make", S(pc), S(n * 7)}; insd.push_back(dep); } else if (k == 16) q = {"error", fmt("E %d of %d", n, id)}; else if (k == 17) q = {"other"}; else if (k == 18) q = {r.chance(50) ? "int" : "none"}; else q = {r.chance(50) ? "audio" : "wrongkey"}; }
                else { int gi = good ? 1 : r.range(1, (int)ins.size() - 1); std::vector<int> hs; for (auto &h : held) hs.push_back(h.first); if (k < 8) q = {"edit", S(gi)}; else if (k < 13) q = {"given", S(gi)}; else if (k < 16) q = {"frame", S(r.pick(hs)), S(r.range(1, 3))}; else if (k == 16) q = {"error", fmt("E %d of %d", n, id)}; else if (k == 17) q = {"other"}; else if (k == 18) q = {r.chance(50) ? "int" : "none"}; else q = {r.chance(50) ? "audio" : "wrongkey"}; }
                fn->b.push_back(q); b += n ? ",[" : "["; for (size_t i = 0; i < q.size(); i++) b += (i ? "," : "") + (i && q[0] != "error" ? q[i] : jstr(q[i])); b += "]";
            }
            args = "\"b\":[" + b + "]";
            VSFunction *vf = vs->createFunction(fnCall, fn, [](void *) {}, core); vs->mapConsumeFunction(a, mod ? "selector" : "eval", vf, maReplace); fns.push_back(fn); break; }
        }
        VSMap *o = vs->invoke(std_, f.c_str(), a); const char *err = vs->mapGetError(o); VSNode *node = err ? nullptr : vs->mapGetNode(o, "clip", 0, nullptr);
        std::string e = fmt("{\"op\":\"call\",\"f\":\"%s\",\"id\":%d,\"ins\":%s,\"a\":{%s},\"ok\":%d", f.c_str(), id, jlist(ins).c_str(), args.c_str(), node ? 1 : 0);
        if (node) { VSVideoInfo vi = *vs->getVideoInfo(node); emit(e + ",\"info\":" + infoJson(vi) + "}"); int dep = 0; for (int x : insd) dep = std::max(dep, x); clips.push_back({id, node, dep + (tall ? 2 : 1), fn != nullptr, false, vi, ins}); all.push_back(node); if (tall) tallKey[id] = newKey; if (r.chance(50)) vs->setCacheMode(node, r.below(2)); }
        else { emit(e + ",\"err\":" + jstr(err) + "}"); }
        vs->freeMap(o); vs->freeMap(a);
        if (clips.size() > 40) clips.erase(clips.begin() + r.below(20));
    }
    for (auto &h : held) { std::string m; for (auto f : h.second) m += (m.empty() ? "" : ",") + frameJson(f); emit(fmt("{\"op\":\"still\",\"id\":%d,\"m\":[%s]}", h.first, m.c_str())); }
    close_trace(); _exit(0);
}
