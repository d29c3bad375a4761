// Random chains of the filters that only pick frames, over sources whose frames name themselves.
// usage: reorder_driver SEED STEPS TRACE
#include "vsdrv.h"
#include <climits>
static VSCore *core; static VSPlugin *stdp;
struct Src { int id, mode, w, h; VSVideoFormat f; bool varSize, varFmt; };
static VSVideoFormat vf(int i) { static const int t[][5] = { { 1, 0, 8, 0, 0 }, { 3, 0, 8, 1, 1 }, { 3, 0, 16, 1, 0 }, { 2, 1, 32, 0, 0 }, { 1, 0, 16, 0, 0 } }; VSVideoFormat f; vs->queryVideoFormat(&f, t[i][0], t[i][1], t[i][2], t[i][3], t[i][4], core); return f; }
static std::string fname(const VSVideoFormat &f) { char b[32]; if (f.colorFamily == cfUndefined) return "none"; vs->getVideoFormatName(&f, b); return b; }
static void shape(const Src &s, int n, VSVideoFormat &f, int &w, int &h) {
    f = s.f; w = s.w; h = s.h;
    if (s.varFmt) f = vf((unsigned)(n + s.id) % 5);
    if (s.varSize) { w = 4 + 4 * ((unsigned)n % 3); h = 4 + 4 * ((unsigned)(n / 2) % 2); }
}
static uint8_t px(int id, int n, int p, int y, int x) { uint32_t v = (uint32_t)id * 2654435761u ^ (uint32_t)n * 40503u ^ (uint32_t)(p * 977 + y * 131 + x * 17); v ^= v >> 13; v *= 0x5bd1e995; v ^= v >> 15; return (uint8_t)v; }
static void dur(int mode, int n, int &a, int &b) { a = b = -1; switch (mode) { case 1: a = n % 7 + 1; b = 24; break; case 2: a = n % 7 + 1; break; case 3: a = n % 5; b = 30; break; case 4: a = 1001; b = 30000; break; case 5: a = 3; b = 0; break; case 6: b = 5; break; } }
static std::map<int, Src> srcs; static bool longMode;
static const VSFrame *VS_CC srcGet(int n, int ar, void *inst, void **, VSFrameContext *, VSCore *c, const VSAPI *) {
    if (ar != arInitial) return nullptr;
    const Src &s = *(Src *)inst; VSVideoFormat f; int w, h; shape(s, n, f, w, h);
    VSFrame *r = vs->newVideoFrame(&f, w, h, nullptr, c);
    for (int p = 0; p < f.numPlanes; p++) { uint8_t *d = vs->getWritePtr(r, p); ptrdiff_t st = vs->getStride(r, p); int row = vs->getFrameWidth(r, p) * f.bytesPerSample; for (int y = 0; y < vs->getFrameHeight(r, p); y++) for (int x = 0; x < row; x++) d[y * st + x] = px(s.id, n, p, y, x); }
    VSMap *m = vs->getFramePropertiesRW(r);
    vs->mapSetInt(m, "_Id", s.id, maReplace); vs->mapSetInt(m, "_N", n, maReplace);
    std::string t = fmt("frame %d of %d", n, s.id); vs->mapSetData(m, "text", t.data(), (int)t.size(), dtUtf8, maReplace);
    int a, b; dur(s.mode, n, a, b); if (a >= 0) vs->mapSetInt(m, "_DurationNum", a, maReplace); if (b >= 0) vs->mapSetInt(m, "_DurationDen", b, maReplace);
    return r;
}
static std::string look(const VSFrame *f, int n) {
    if (!f) return fmt("[%d,0,-1,-1,-1,-1,0]", n);
    const VSMap *m = vs->getFramePropertiesRO(f); int e1, e2, e3, e4;
    int id = (int)vs->mapGetInt(m, "_Id", 0, &e1), k = (int)vs->mapGetInt(m, "_N", 0, &e2); int64_t a = vs->mapGetInt(m, "_DurationNum", 0, &e3), b = vs->mapGetInt(m, "_DurationDen", 0, &e4);
    if (e1 || e2 || !srcs.count(id)) return fmt("[%d,1,-1,-1,-1,-1,0]", n);
    if (e3) a = -1;
    if (e4) b = -1;
    const Src &s = srcs[id]; VSVideoFormat g; int w, h; shape(s, k, g, w, h);
    const VSVideoFormat *ff = vs->getVideoFrameFormat(f);
    bool same = !memcmp(ff, &g, sizeof g) && vs->getFrameWidth(f, 0) == w && vs->getFrameHeight(f, 0) == h;
    std::string t = fmt("frame %d of %d", k, id); const char *tx = vs->mapGetData(m, "text", 0, &e1); same = same && tx && t == tx;
    same = same && vs->mapNumKeys(m) == 3 + (a != -1) + (b != -1);
    for (int p = 0; same && p < g.numPlanes; p++) { const uint8_t *d = vs->getReadPtr(f, p); ptrdiff_t st = vs->getStride(f, p); int row = vs->getFrameWidth(f, p) * g.bytesPerSample; for (int y = 0; y < vs->getFrameHeight(f, p); y++) for (int x = 0; x < row; x++) if (d[y * st + x] != px(id, k, p, y, x)) same = false; }
    if (a < -1 || a > INT_MAX) a = -2;
    if (b < -1 || b > INT_MAX) b = -2;
    return fmt("[%d,1,%d,%d,%lld,%lld,%d]", n, id, k, (long long)a, (long long)b, same);
}
struct Clip { int id; VSNode *n; int amp, depth; };
static std::vector<Clip> pool; static int nextId = 1;
static std::string info(const VSVideoInfo *v) { return fmt("[%d,%d,%s,%lld,%lld,%d]", v->width, v->height, jstr(fname(v->format)).c_str(), (long long)v->fpsNum, (long long)v->fpsDen, v->numFrames); }
static void addSrc(Rng &R, int len) {
    Src s; s.id = nextId++; s.mode = R.below(7); int k = R.below(10);
    s.w = R.chance(60) ? 8 : 16; s.h = R.chance(70) ? 8 : 4; s.f = vf(R.chance(60) ? 1 : R.below(5)); s.varSize = s.varFmt = false;
    if (longMode && R.chance(90)) { k = 9; s.w = s.h = 8; s.f = vf(1); }
    if (k == 0) { s.varSize = true; }
    if (k == 1) s.varFmt = true;
    if (k == 2) s.varSize = s.varFmt = true;
    srcs[s.id] = s;
    VSVideoInfo v{}; v.format = s.f; if (s.varFmt) memset(&v.format, 0, sizeof v.format);
    v.width = s.varSize ? 0 : s.w; v.height = s.varSize ? 0 : s.h; v.numFrames = len;
    static const int fps[][2] = { { 24, 1 }, { 25, 1 }, { 30000, 1001 }, { 0, 0 }, { 24, 1 }, { 24, 1 }, { 0, 1 } };
    int q = longMode ? 0 : R.below(7); v.fpsNum = fps[q][0]; v.fpsDen = fps[q][1];
    VSNode *n = vs->createVideoFilter2("src", &v, srcGet, nullptr, fmParallel, nullptr, 0, &srcs[s.id], core);
    if (!n) _exit(5);
    emit(fmt("{\"op\":\"src\",\"id\":%d,\"mode\":%d,\"info\":", s.id, s.mode) + info(vs->getVideoInfo(n)) + "}");
    pool.push_back({ s.id, n, 0, 0 });
}
static int longLen(Rng &R) { return R.chance(20) ? 100 + R.below(1500) : R.chance(30) ? INT_MAX - R.below(12) : (int)std::min<int64_t>(INT_MAX, (int64_t)INT_MAX / R.range(2, 5) + R.range(-2, 2)); }
static int64_t near(Rng &R, int len) {      // a number around what is allowed
    switch (R.below(12)) {
        case 0: return -1; case 1: return 0; case 2: return len - 1; case 3: return len; case 4: return (int64_t)len + 1; case 5: return 1;
        case 6: { static const int64_t b[] = { INT_MAX, -INT_MAX, INT64_MAX, INT64_MIN + 5, 4294967296ll, 4294967297ll, -4294967295ll, 2147483648ll, INT_MAX - 1 }; return R.chance(35) ? b[R.below(9)] : R.below(len); }
        default: return R.below(len);
    }
}
static std::string lst(const std::vector<int64_t> &v) { std::vector<int64_t> w; for (int64_t x : v) w.push_back(x > INT_MAX ? INT_MAX : x < -INT_MAX ? -INT_MAX : x); return jlist(w); }
struct Wait { std::mutex m; std::condition_variable c; int left; std::map<int, const VSFrame *> got; int base; };
static void VS_CC done(void *u, const VSFrame *f, int n, VSNode *, const char *) { Wait &w = *(Wait *)u; std::lock_guard<std::mutex> l(w.m); w.got[n] = f; if (!--w.left) w.c.notify_all(); }
static void look_at(Rng &R, const Clip &c) {
    int len = vs->getVideoInfo(c.n)->numFrames; std::set<int> want;
    if (len <= 40) for (int i = 0; i < len; i++) want.insert(i);
    else { want = { 0, 1, len - 1, len - 2, len / 2 }; for (int i = 0; i < 30; i++) want.insert(R.below(len)); int a = R.below(len); for (int i = 0; i < 8; i++) want.insert(a + i < len ? a + i : a); }
    std::vector<int> o(want.begin(), want.end()); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[R.below((int)i)]);
    std::string s = fmt("{\"op\":\"get\",\"id\":%d,\"rows\":[", c.id); bool first = true;
    if (R.chance(25)) {
        for (int n : o) { char e[64]; const VSFrame *f = vs->getFrame(n, c.n, e, 64); s += (first ? "" : ",") + look(f, n); first = false; vs->freeFrame(f); }
    } else {
        Wait w; w.left = (int)o.size();
        for (int n : o) vs->getFrameAsync(n, c.n, done, &w);
        { std::unique_lock<std::mutex> l(w.m); w.c.wait(l, [&] { return !w.left; }); }
        for (auto &p : w.got) { s += (first ? "" : ",") + look(p.second, p.first); first = false; vs->freeFrame(p.second); }
    }
    emit(s + "]}");
}
int main(int argc, char **argv) {
    if (argc < 4) return 2;
    open_trace(argv[3]); watchdog(60);
    Rng R(atoll(argv[1])); int steps = atoi(argv[2]); longMode = atoll(argv[1]) % 4 == 0;
    core = vs->createCore(0); vs->setThreadCount(1 + R.below(4), core);
    stdp = vs->getPluginByID("com.vapoursynth.std", core);
    for (int i = 0; i < steps; i++) {
        while (pool.size() < 4) addSrc(R, R.chance(longMode ? 20 : 85) ? 1 + R.below(14) : longLen(R));
        if (R.chance(longMode ? 60 : 8)) addSrc(R, longMode ? longLen(R) : 1 + R.below(30));
        while (pool.size() > 14) { int k = R.below((int)pool.size()); emit(fmt("{\"op\":\"drop\",\"id\":%d}", pool[k].id)); vs->freeNode(pool[k].n); pool.erase(pool.begin() + k); }
        Clip c = R.pick(pool); const VSVideoInfo *v = vs->getVideoInfo(c.n); int len = v->numFrames;
        VSMap *m = vs->createMap(); std::string f, a; std::vector<Clip> ins = { c };
        auto put = [&](const char *k, const std::vector<int64_t> &x) { if (x.empty()) vs->mapSetEmpty(m, k, ptInt); else vs->mapSetIntArray(m, k, x.data(), (int)x.size()); };
        auto opt = [&](const char *k, int pct, int64_t val) { std::vector<int64_t> x; if (R.chance(pct)) { x.push_back(val); put(k, x); } a += fmt("%s\"%s\":", a.empty() ? "" : ",", k) + lst(x); };
        auto ilist = [&](const char *k, const char *jk, const std::vector<int64_t> &x) { put(k, x); a += fmt("%s\"%s\":", a.empty() ? "" : ",", jk) + lst(x); };
        auto flag = [&](const char *k, bool dflt, int pct) { bool b = R.chance(pct); if (b != dflt || R.chance(50)) vs->mapSetInt(m, k, b ? (R.chance(80) ? 1 : R.chance(50) ? -1 : 256) : 0, maReplace); a += fmt("%s\"%s\":%s", a.empty() ? "" : ",", !strcmp(k, "modify_duration") ? "modify" : k, b ? "true" : "false"); };
        int amp = c.amp, op = R.below(9);
        bool multi = op == 3 || op == 5;
        if (multi) {
            int k = R.chance(10) ? 1 : R.chance(4) ? 0 : 2 + R.below(4); ins.clear(); amp = 0;
            for (int j = 0; j < k; j++) {
                Clip x = R.pick(pool);
                if (j && R.chance(70)) for (int t = 0; t < 20; t++) { const VSVideoInfo *p = vs->getVideoInfo(x.n), *q = vs->getVideoInfo(ins[0].n); if (p->width == q->width && !memcmp(&p->format, &q->format, sizeof p->format) && (p->fpsNum == q->fpsNum || R.chance(10))) break; x = R.pick(pool); }
                ins.push_back(x); amp = std::max(amp, x.amp);
            }
            for (auto &x : ins) vs->mapSetNode(m, "clips", x.n, maAppend);
            if (!k) vs->mapSetEmpty(m, "clips", ptVideoNode);
        } else vs->mapSetNode(m, "clip", c.n, maReplace);
        bool may = amp < 4;
        switch (op) {
            case 0: f = "Trim"; { int w = R.below(4); opt("first", w == 3 ? 20 : 75, near(R, len)); opt("last", w == 0 ? 95 : 4, near(R, len)); opt("length", w == 1 ? 95 : 4, near(R, len)); } break;
            case 1: f = "Reverse"; a = "\"none\":0"; break;
            case 2: f = "Loop"; { static const int64_t t[] = { 0, 1, 2, 3, 4, 5, -1, INT_MAX, INT64_MAX, INT64_MIN, 4294967296ll }; opt("times", 90, R.chance(12) ? (R.chance(50) ? INT_MAX / len : (int64_t)(INT_MAX / len) + 1) : t[R.below(11)]); } break;
            case 3: f = "Interleave"; flag("extend", false, 40); flag("modify_duration", true, may ? 60 : 0); flag("mismatch", false, 40); break;
            case 4: f = "SelectEvery"; {
                int64_t cyc = R.chance(8) ? near(R, 3) : R.chance(8) ? std::max<int64_t>(2, len / 3) : R.chance(5) ? INT_MAX : 2 + R.below(9); std::vector<int64_t> o; int k = R.chance(3) ? 0 : 1 + R.below(8);
                for (int j = 0; j < k; j++) o.push_back(R.chance(2) ? near(R, 4) : R.below((int)std::max<int64_t>(1, std::min<int64_t>(cyc, INT_MAX))));
                std::vector<int64_t> cv = { cyc }; put("cycle", cv); a = fmt("\"cycle\":%lld", (long long)std::max<int64_t>(-INT_MAX, std::min<int64_t>(cyc, INT_MAX))); ilist("offsets", "offsets", o);
                if (cyc > 1000) may = false;
                flag("modify_duration", true, may ? 60 : 0);
            } break;
            case 5: f = "Splice"; flag("mismatch", false, 40); break;
            case 6: case 7: f = op == 6 ? "DuplicateFrames" : "DeleteFrames"; { std::vector<int64_t> x; int k = R.chance(3) ? 0 : 1 + R.below(std::min(len, 11)); std::set<int64_t> seen; for (int j = 0; j < k; j++) { int64_t y = R.chance(3) ? near(R, len) : R.chance(30) && len > 4 ? len - 1 - R.below(4) : R.below(len); if (op == 7 && !R.chance(3) && !seen.insert(y).second) continue; x.push_back(y); } ilist("frames", "frames", x); } break;
            default: f = "FreezeFrames"; {
                std::vector<int64_t> x, y, z; int k = R.chance(5) ? 0 : 1 + R.below(4); std::set<int64_t> cut; for (int j = 0; j < 2 * k; j++) cut.insert(R.below(len)); std::vector<int64_t> cs(cut.begin(), cut.end());
                for (size_t j = 0; j + 1 < cs.size(); j += 2) { if (R.chance(20) && j) { x.push_back(cs[j]); y.push_back(cs[j]); } else { x.push_back(cs[j]); y.push_back(cs[j + 1]); } z.push_back(R.chance(4) ? near(R, len) : R.below(len)); if (R.chance(25)) std::swap(x.back(), y.back()); if (R.chance(3)) x.back() = near(R, len); }
                for (size_t j = x.size(); j > 1; j--) { int q = R.below((int)j); std::swap(x[j - 1], x[q]); std::swap(y[j - 1], y[q]); std::swap(z[j - 1], z[q]); }
                if (R.chance(3)) { if (x.empty() || R.chance(50)) y.push_back(0); else z.pop_back(); }
                ilist("first", "first", x); ilist("last", "last", y); ilist("replacement", "repl", z);
            } break;
        }
        std::string s = fmt("{\"op\":\"call\",\"f\":\"%s\",\"ins\":[", f.c_str()); for (size_t j = 0; j < ins.size(); j++) s += fmt("%s%d", j ? "," : "", ins[j].id);
        s += "],\"a\":{" + a + "}";
        VSMap *out = vs->invoke(stdp, f.c_str(), m); const char *er = vs->mapGetError(out);
        if (er) emit(s + ",\"ok\":0,\"err\":" + jstr(er) + "}");
        else {
            Clip r; r.n = vs->mapGetNode(out, "clip", 0, nullptr); r.id = nextId++; r.amp = amp + (op == 3 || op == 4); r.depth = 0; for (auto &x : ins) r.depth = std::max(r.depth, x.depth + 1);
            emit(s + fmt(",\"ok\":1,\"err\":\"\",\"id\":%d,\"info\":", r.id) + info(vs->getVideoInfo(r.n)) + "}");
            look_at(R, r);
            if (r.depth < 12) pool.push_back(r); else { emit(fmt("{\"op\":\"drop\",\"id\":%d}", r.id)); vs->freeNode(r.n); }
        }
        vs->freeMap(m); vs->freeMap(out);
    }
    for (auto &c : pool) vs->freeNode(c.n);
    vs->freeCore(core); close_trace();
    return 0;
}
