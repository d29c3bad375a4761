// Random chains of the filters that move pixels, over sources with random content.
// usage: geo_driver SEED STEPS TRACE
#include "vsdrv.h"
#include <climits>
#include <cmath>
static VSCore *core; static VSPlugin *stdp;
static const int FT[][5] = { { 1, 0, 8, 0, 0 }, { 3, 0, 8, 1, 1 }, { 3, 0, 16, 1, 0 }, { 2, 1, 32, 0, 0 }, { 3, 0, 10, 0, 1 }, { 3, 0, 8, 2, 0 }, { 1, 0, 16, 0, 0 }, { 2, 0, 8, 0, 0 }, { 3, 1, 32, 1, 1 }, { 1, 0, 32, 0, 0 }, { 3, 1, 16, 0, 0 }, { 3, 0, 8, 0, 0 }, { 3, 0, 9, 2, 2 }, { 2, 0, 12, 0, 0 }, { 3, 0, 32, 3, 1 }, { 1, 1, 32, 0, 0 }, { 3, 0, 16, 0, 0 }, { 1, 1, 16, 0, 0 } };
static const int NF = sizeof FT / sizeof *FT;
static VSVideoFormat vf(int i) { VSVideoFormat f; if (!vs->queryVideoFormat(&f, FT[i][0], FT[i][1], FT[i][2], FT[i][3], FT[i][4], core)) _exit(6); return f; }
static uint64_t mix(uint64_t v) { v *= 0x9E3779B97F4A7C15ull; v ^= v >> 29; v *= 0xBF58476D1CE4E5B9ull; return v ^ v >> 32; }
struct Src { int id, w, h; VSVideoFormat f; bool varSize, varFmt; int fb, fl, dm; };
static void shape(const Src &s, int n, VSVideoFormat &f, int &w, int &h) {
    f = s.f; w = s.w; h = s.h;
    if (s.varFmt) f = vf((int)(mix(n * 77 + s.id) % NF));
    if (s.varSize || s.varFmt) { w = 8 * (1 + (int)(mix(n * 3 + s.id) % 3)); h = 8 * (1 + (int)(mix(n * 5 + s.id) % 2)); }
}
static std::map<int, Src> srcs;
static const VSFrame *VS_CC srcGet(int n, int ar, void *inst, void **, VSFrameContext *ctx, VSCore *c, const VSAPI *) {
    if (ar != arInitial) return nullptr;
    const Src &s = *(Src *)inst; VSVideoFormat f; int w, h; shape(s, n, f, w, h);
    VSFrame *r = vs->newVideoFrame(&f, w, h, nullptr, c);
    for (int p = 0; p < f.numPlanes; p++) {
        uint8_t *d = vs->getWritePtr(r, p); ptrdiff_t st = vs->getStride(r, p);
        for (int y = 0; y < vs->getFrameHeight(r, p); y++) for (int x = 0; x < vs->getFrameWidth(r, p); x++) {
            uint64_t v = mix(((((uint64_t)s.id * 131 + n) * 7 + p) * 4099 + y) * 4099 + x);
            if (f.bytesPerSample == 1) d[y * st + x] = (uint8_t)v;
            else if (f.bytesPerSample == 2) ((uint16_t *)(d + y * st))[x] = (uint16_t)(f.sampleType == stFloat ? v & 0x3bff : v & ((1u << f.bitsPerSample) - 1));
            else ((uint32_t *)(d + y * st))[x] = f.sampleType == stFloat ? 0x3f000000u | (uint32_t)(v & 0x807fffff) : (uint32_t)v;
        }
    }
    VSMap *m = vs->getFramePropertiesRW(r); uint64_t v = mix(n * 991 + s.id * 13);
    vs->mapSetInt(m, "_Id", s.id, maReplace); vs->mapSetInt(m, "_N", n, maReplace);
    if (s.fb >= 0) vs->mapSetInt(m, "_FieldBased", s.fb == 9 ? (int)(v % 5) - 1 : s.fb, maReplace);
    if (s.fl >= 0) vs->mapSetInt(m, "_Field", s.fl == 9 ? (int)(v / 5 % 4) - 1 : s.fl == 8 ? n & 1 : 1 - (n & 1), maReplace);
    if (s.dm & 1) vs->mapSetInt(m, "_DurationNum", (int)(v / 20 % 9), maReplace);
    if (s.dm & 2) vs->mapSetInt(m, "_DurationDen", v % 3 ? 24 : (int)(v / 180 % 50), maReplace);
    return r;
}
static std::string fm(const VSVideoFormat &f) { return fmt("[%d,%d,%d,%d,%d]", f.colorFamily, f.colorFamily ? f.sampleType : 0, f.colorFamily ? f.bitsPerSample : 0, f.subSamplingW, f.subSamplingH); }
static std::string info(const VSVideoInfo *v) { return fmt("[%s,%d,%d,%d,%lld,%lld]", fm(v->format).c_str(), v->width, v->height, v->numFrames, (long long)v->fpsNum, (long long)v->fpsDen); }
static void num(std::string &s, int64_t v) { char b[24]; int k = 24; bool neg = v < 0; if (neg) v = -v; do b[--k] = '0' + v % 10; while (v /= 10); if (neg) b[--k] = '-'; s.append(b + k, 24 - k); }
static std::string frame(VSNode *node, int n) {
    char e[300]; const VSFrame *f = vs->getFrame(n, node, e, 300);
    if (!f) return fmt("{\"n\":%d,\"err\":1,\"f\":[],\"w\":0,\"h\":0,\"pl\":[],\"pr\":{\"none\":0}}", n);
    const VSVideoFormat *F = vs->getVideoFrameFormat(f);
    std::string s = fmt("{\"n\":%d,\"err\":0,\"f\":%s,\"w\":%d,\"h\":%d,\"pl\":[", n, fm(*F).c_str(), vs->getFrameWidth(f, 0), vs->getFrameHeight(f, 0));
    for (int p = 0; p < F->numPlanes; p++) {
        s += p ? ",[" : "["; const uint8_t *d = vs->getReadPtr(f, p); ptrdiff_t st = vs->getStride(f, p); bool first = true;
        for (int y = 0; y < vs->getFrameHeight(f, p); y++) for (int x = 0; x < vs->getFrameWidth(f, p); x++) { if (!first) s += ','; first = false; num(s, F->bytesPerSample == 1 ? d[y * st + x] : F->bytesPerSample == 2 ? ((const uint16_t *)(d + y * st))[x] : ((const int32_t *)(d + y * st))[x]); }
        s += "]";
    }
    s += "],\"pr\":{"; const VSMap *m = vs->getFramePropertiesRO(f);
    for (int i = 0; i < vs->mapNumKeys(m); i++) { const char *k = vs->mapGetKey(m, i); int er; s += (i ? "," : "") + jstr(k) + ":"; int64_t v = vs->mapGetInt(m, k, 0, &er); num(s, er || vs->mapNumElements(m, k) != 1 ? -777 : std::max<int64_t>(-INT_MAX, std::min<int64_t>(v, INT_MAX))); }
    if (!vs->mapNumKeys(m)) s += "\"none\":0";
    vs->freeFrame(f); return s + "}}";
}
struct Clip { int id; VSNode *n; int depth; };
static std::vector<Clip> pool; static int nextId = 1;
static int dim(Rng &R) { return R.chance(60) ? 8 * R.range(1, 3) : R.range(1, 36); }
static void addSrc(Rng &R) {
    Src s; s.id = nextId++; s.f = vf(R.chance(50) ? R.below(4) : R.below(NF)); int q = R.below(100); s.varSize = q < 8; s.varFmt = q >= 8 && q < 12;
    s.w = dim(R); s.h = dim(R); int a = 1 << s.f.subSamplingW, b = 1 << s.f.subSamplingH; s.w = (s.w + a - 1) / a * a; s.h = (s.h + b - 1) / b * b;
    if (R.chance(4)) { s.w = a * (R.chance(50) ? 1 : 32); s.h = b * (R.chance(50) ? 1 : 32); }
    s.fb = R.chance(40) ? 9 : R.range(-1, 2); s.fl = R.chance(30) ? 9 : R.chance(30) ? 8 : R.chance(30) ? 7 : R.range(-1, 1); s.dm = R.below(4);
    srcs[s.id] = s; VSVideoInfo v{}; v.format = s.f; if (s.varFmt) memset(&v.format, 0, sizeof v.format);
    if (!s.varSize && !s.varFmt) { v.width = s.w; v.height = s.h; }
    static const int fps[][2] = { { 24, 1 }, { 30000, 1001 }, { 0, 0 }, { 0, 1 }, { 25, 2 }, { 1, 6 } }; int k = R.below(6); v.fpsNum = fps[k][0]; v.fpsDen = fps[k][1];
    v.numFrames = R.chance(10) ? (R.chance(50) ? INT_MAX : INT_MAX / 2 + R.below(2)) : R.range(1, 6);
    VSNode *n = vs->createVideoFilter2("src", &v, srcGet, nullptr, fmParallel, nullptr, 0, &srcs[s.id], core); if (!n) _exit(5);
    pool.push_back({ s.id, n, 0 });
}
int main(int argc, char **argv) {
    if (argc < 4) return 2;
    open_trace(argv[3]); watchdog(60);
    Rng R(atoll(argv[1])); int steps = atoi(argv[2]);
    core = vs->createCore(0); vs->setThreadCount(R.chance(50) ? 1 : 3, core); stdp = vs->getPluginByID("com.vapoursynth.std", core);
    for (int i = 0; i < 10; i++) addSrc(R);
    for (int step = 0; step < steps; step++) {
        if (R.chance(20)) addSrc(R);
        while (pool.size() > 24) { int k = R.below((int)pool.size()); vs->freeNode(pool[k].n); pool.erase(pool.begin() + k); }
        if (R.chance(10)) { static const char *C[] = { "none", "sse2", "avx2", "" }; VSMap *m = vs->createMap(); vs->mapSetData(m, "cpu", C[R.below(4)], -1, dtUtf8, maReplace); vs->freeMap(vs->invoke(stdp, "SetMaxCPU", m)); vs->freeMap(m); }
        Clip c = R.pick(pool); const VSVideoInfo *vi = vs->getVideoInfo(c.n); bool con = vi->format.colorFamily && vi->width;
        VSMap *m = vs->createMap(); std::string f, inv, a, key = "clip"; std::vector<Clip> ins = { c }; int nclips = 1;
        int W = vi->width ? vi->width : 8, H = vi->height ? vi->height : 8, aw = 1 << vi->format.subSamplingW, ah = 1 << vi->format.subSamplingH;
        auto nm = [&](const char *k) { a += fmt("%s\"%s\":", a.empty() ? "" : ",", k); };
        auto opti = [&](const char *k, const char *jk, int pct, int64_t v) { nm(jk); if (R.chance(pct)) { vs->mapSetInt(m, k, v, maReplace); a += fmt("[%lld]", (long long)std::max<int64_t>(INT_MIN, std::min<int64_t>(INT_MAX, v))); } else a += "[]"; };
        auto wild = [&](int64_t v, int al) -> int64_t { static const int64_t X[] = { -1, INT_MAX, INT_MIN, INT64_MAX, INT64_MIN, INT_MAX - 1, -2 }; int q = R.below(100); return q < 4 ? X[R.below(7)] : q < 90 ? v / al * al : v; };
        auto partner = [&](int what) { Clip x = R.pick(pool); if (R.chance(92)) for (int t = 0; t < 60; t++) { const VSVideoInfo *p = vs->getVideoInfo(x.n); if (p->width && (what == 3 ? p->format.bitsPerSample == vi->format.bitsPerSample && p->format.sampleType == vi->format.sampleType : !memcmp(&p->format, &vi->format, sizeof p->format)) && (what == 1 ? p->width == vi->width : what == 2 ? p->height == vi->height : true)) break; x = R.pick(pool); } return x; };
        switch (R.below(17)) {
            case 0: f = "CropAbs"; { int x = R.below(W), y = R.below(H); opti(R.chance(50) ? "left" : "x", "left", 85, wild(x, aw)); { int64_t v = wild(y, ah); opti(R.chance(50) ? "top" : "y", "top", 85, v); } a += ",\"x\":[],\"y\":[]";
                int64_t w = wild(std::max(R.chance(95) ? 1 : 0, W - x - (R.chance(30) ? 0 : R.below(W - x + 1)) + (R.chance(4) ? aw : 0)), aw), h = wild(std::max(R.chance(95) ? 1 : 0, H - y - (R.chance(30) ? 0 : R.below(H - y + 1))), ah);
                if (R.chance(8)) { int64_t v = R.below(W); vs->mapSetInt(m, "x", v, maReplace); vs->mapSetInt(m, "left", x / aw * aw, maReplace); a = a.substr(a.find(",\"top\"")); a = fmt("\"left\":[%d]", x / aw * aw) + a; }
                vs->mapSetInt(m, "width", w, maReplace); vs->mapSetInt(m, "height", h, maReplace); auto cl = [](int64_t v) { return (long long)std::max<int64_t>(INT_MIN, std::min<int64_t>(INT_MAX, v)); }; a += fmt(",\"width\":%lld,\"height\":%lld", cl(w), cl(h)); } break;
            case 1: case 2: f = "Crop"; inv = R.chance(50) ? "Crop" : "CropRel"; { bool big = R.chance(3); opti("left", "left", 60, big ? INT_MAX - R.below(2) : wild(R.below(W / 2 + 1), aw)); opti("right", "right", 60, big ? INT_MAX - R.below(2) : wild(R.below(W / 2 + 1), aw)); opti("top", "top", 60, wild(R.below(H / 2 + 1), ah)); opti("bottom", "bottom", 60, wild(R.below(H / 2 + 1), ah)); } break;
            case 3: case 4: f = "AddBorders"; { auto wild0 = wild; auto wild = [&](int64_t v, int al) { v = wild0(v, al); return v == INT_MAX - 1 ? int64_t(INT_MAX) : v; }; int k = R.chance(70) ? 6 : 14; bool big = R.chance(2); opti("left", "left", 60, big ? INT_MAX : wild(R.below(k), aw)); opti("right", "right", 60, big ? INT_MAX : wild(R.below(k), aw)); opti("top", "top", 60, wild(R.below(k), ah)); opti("bottom", "bottom", 60, wild(R.below(k), ah));
                std::vector<double> col; std::vector<int> q; int np = R.chance(50) ? 0 : R.chance(92) ? vi->format.numPlanes : R.range(1, 4);
                for (int i = 0; i < np; i++) { int x; if (R.chance(4)) { x = 999999; col.push_back(R.chance(50) ? INFINITY : NAN); } else { static const int FQ[] = { 0, 2, 4, 8, 16, -2, 560000 }; if (vi->format.sampleType == stFloat) x = FQ[R.chance(95) ? R.below(6) : 6]; else { int mx = vi->format.bitsPerSample > 16 ? 1 << 28 : (1 << vi->format.bitsPerSample); x = R.chance(4) ? -R.range(1, 9) : R.chance(10) ? (int)std::min<int64_t>(1 << 30, (int64_t)mx * 8 - R.below(12)) : R.below(mx >= 1 << 27 ? 1 << 30 : mx * 8); } col.push_back(x / 8.0); } q.push_back(x); }
                if (np) vs->mapSetFloatArray(m, "color", col.data(), np);
                a += ",\"color\":" + jlist(q); } break;
            case 5: f = "FlipVertical"; break;
            case 6: f = "FlipHorizontal"; break;
            case 7: f = "Turn180"; break;
            case 8: f = "Transpose"; break;
            case 9: f = R.chance(50) ? "Turn90" : "Turn270"; break;
            case 10: case 11: { bool v = R.chance(50); f = v ? "StackVertical" : "StackHorizontal"; key = "clips"; int k = R.chance(8) ? 1 : R.range(2, 4); for (int i = 1; i < k; i++) ins.push_back(partner(v ? 1 : 2)); nclips = (int)ins.size(); } break;
            case 12: case 13: { f = "ShufflePlanes"; key = "clips"; static const int CF[] = { 1, 3, 3, 2, 1000000, 3000000, 4000000, 2000000, 0, 5, 1, 3, 2 }; int cf = CF[R.below(R.chance(95) ? 8 : 13)]; int fam = cf > 9 ? (cf == 1000000 ? 1 : cf == 2000000 ? 2 : 3) : cf, np = fam == 1 ? 1 : 3;
                while (!con) { c = R.pick(pool); vi = vs->getVideoInfo(c.n); con = vi->format.colorFamily && vi->width; } ins = { c };
                int k = R.chance(4) ? 4 : R.range(1, np); for (int i = 1; i < k; i++) { Clip x = c; for (int t = 0; t < 40; t++) { x = partner(3); const VSVideoInfo *p = vs->getVideoInfo(x.n); if (p->width && p->format.colorFamily) break; x = c; } ins.push_back(x); } nclips = (int)ins.size();
                vs->mapSetInt(m, "colorfamily", cf, maReplace); std::vector<int> pl; int kp = R.chance(4) ? R.range(1, 4) : np;
                for (int i = 0; i < kp; i++) { int pn = vs->getVideoInfo(ins[std::min(i, nclips - 1)].n)->format.numPlanes; pl.push_back(R.chance(3) ? R.range(-1, 3) : R.below(pn)); }
                if (kp == 3 && R.chance(50) && pl[1] > 0 && nclips < 3) pl[2] = 3 - pl[1];
                for (int x : pl) vs->mapSetInt(m, "planes", x, maAppend);
                bool ps = R.chance(25); if (ps) { Clip x = R.pick(pool); ins.push_back(x); vs->mapSetNode(m, "prop_src", x.n, maReplace); }
                a = fmt("\"cf\":%d,\"nclips\":%d,\"prop\":%d,\"planes\":", cf, nclips, ps) + jlist(pl); } break;
            case 14: f = "SplitPlanes"; break;
            case 15: f = "SeparateFields"; opti("tff", "tff", 70, R.below(2)); opti("modify_duration", "md", 40, R.below(2)); break;
            default: f = "DoubleWeave"; opti("tff", "tff", 70, R.below(2)); break;
        }
        if (inv.empty()) inv = f;
        if (a.empty()) a = "\"none\":0";
        for (int i = 0; i < nclips; i++) vs->mapSetNode(m, key.c_str(), ins[i].n, maAppend);
        std::string s = fmt("{\"f\":\"%s\",\"a\":{%s},\"ins\":[", f.c_str(), a.c_str()); for (size_t j = 0; j < ins.size(); j++) s += (j ? "," : "") + info(vs->getVideoInfo(ins[j].n));
        s += "]";
        if (getenv("VP_DEBUG")) { emit("# " + s); fflush(trf); }
        VSMap *out = vs->invoke(stdp, inv.c_str(), m); const char *er = vs->mapGetError(out);
        if (er) emit(s + ",\"ok\":0,\"err\":" + jstr(er) + ",\"outs\":[]}");
        else {
            s += ",\"ok\":1,\"err\":\"\",\"outs\":["; int no = vs->mapNumElements(out, "clip"); int dep = 0; for (auto &x : ins) dep = std::max(dep, x.depth + 1);
            std::vector<Clip> made;
            for (int j = 0; j < no; j++) {
                Clip r{ nextId++, vs->mapGetNode(out, "clip", j, nullptr), dep }; const VSVideoInfo *o = vs->getVideoInfo(r.n); s += fmt("%s{\"info\":", j ? "," : "") + info(o) + ",\"fr\":[";
                bool big = (int64_t)o->width * o->height > 2500; int cnt = big ? 0 : 1 + R.below(3); std::set<int> seen; bool first = true;
                for (int t = 0; t < cnt; t++) {
                    int n = t == 0 && R.chance(50) ? o->numFrames - 1 : R.below(R.chance(80) ? std::min(o->numFrames, 8) : o->numFrames); if (!seen.insert(n).second) continue;
                    s += fmt("%s{\"n\":%d,\"src\":[", first ? "" : ",", n); first = false;
                    if (f == "DoubleWeave") s += frame(ins[0].n, n) + "," + frame(ins[0].n, std::min(n + (n < INT_MAX), vs->getVideoInfo(ins[0].n)->numFrames - 1));
                    else for (size_t i = 0; i < ins.size(); i++) s += (i ? "," : "") + frame(ins[i].n, std::min(f == "SeparateFields" ? n / 2 : n, vs->getVideoInfo(ins[i].n)->numFrames - 1));
                    s += "],\"out\":" + frame(r.n, n) + "}";
                }
                s += "]}"; if (big) r.depth = 99; made.push_back(r);
            }
            emit(s + "]}");
            for (auto &r : made) if (r.depth < 5) pool.push_back(r); else vs->freeNode(r.n);
        }
        vs->freeMap(m); vs->freeMap(out);
    }
    close_trace(); _exit(0);
}
