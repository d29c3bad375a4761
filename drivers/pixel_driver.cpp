// Random calls of the filters that compute samples, each on every CPU level, over sources with random content.
// usage: pixel_driver SEED STEPS TRACE
#include "vsdrv.h"
#include <climits>
#include <cmath>
#include <functional>
static VSCore *core; static VSPlugin *stdp;
static uint64_t mix(uint64_t v) { v *= 0x9E3779B97F4A7C15ull; v ^= v >> 29; v *= 0xBF58476D1CE4E5B9ull; return v ^ v >> 32; }
struct Src { int id, w, h, len; VSVideoFormat f; int kind, range, sc; VSNode *node = nullptr; int line = 0; };
static const VSFrame *VS_CC srcGet(int n, int ar, void *inst, void **, VSFrameContext *, VSCore *c, const VSAPI *) {
    if (ar != arInitial) return nullptr;
    const Src &s = *(Src *)inst; const VSVideoFormat &f = s.f;
    VSFrame *r = vs->newVideoFrame(&f, s.w, s.h, nullptr, c); uint32_t max = f.bitsPerSample >= 32 ? 0x7fffffff : (1u << f.bitsPerSample) - 1;
    for (int p = 0; p < f.numPlanes; p++) {
        uint8_t *d = vs->getWritePtr(r, p); ptrdiff_t st = vs->getStride(r, p); int W = vs->getFrameWidth(r, p), H = vs->getFrameHeight(r, p);
        uint64_t key = mix(((uint64_t)s.id * 131 + n) * 7 + p); uint32_t base = (uint32_t)(mix(key) % ((uint64_t)max + 1));
        for (int y = 0; y < H; y++) for (int x = 0; x < st / f.bytesPerSample; x++) {      // what lies behind the row is noise
            uint64_t v = mix(key * 4099 + y * 517 + x); uint32_t q;
            switch (x >= W ? 0 : s.kind) {
                case 0: q = (uint32_t)(v % ((uint64_t)max + 1)); break;
                case 1: q = v & 1 ? max : 0; break;
                case 2: { int64_t t = (int64_t)base + (int64_t)(v % 65) - 32; q = (uint32_t)std::max<int64_t>(0, std::min<int64_t>(max, t)); } break;
                case 3: q = base; break;
                case 4: { static const int E[] = { 0, 1, 2, -1, -2, -3 }; int e = E[v % 6]; q = v & 4096 ? (e < 0 ? max + 1 + e : e) : (uint32_t)((int64_t)(max / 2) + e); } break;
                case 5: q = (uint32_t)((uint64_t)max * (x * 3 + y * 5) / (W * 3 + H * 5)); break;
                default: { int64_t t = (int64_t)std::min<uint32_t>(base, max) + (int64_t)(v % 1200) - 600; q = (uint32_t)std::max<int64_t>(0, std::min<int64_t>(max, t)); int64_t lo = std::max<int64_t>(0, (int64_t)base - 600); q = (uint32_t)std::min<int64_t>(lo + 1199, q); } break;
            }
            if (f.sampleType == stFloat) { if (f.bytesPerSample == 4) ((float *)(d + y * st))[x] = (float)(v % 1000) / 1000; else ((uint16_t *)(d + y * st))[x] = (uint16_t)(v & 0x3bff); }
            else if (f.bytesPerSample == 1) d[y * st + x] = (uint8_t)q; else if (f.bytesPerSample == 2) ((uint16_t *)(d + y * st))[x] = (uint16_t)q; else ((uint32_t *)(d + y * st))[x] = q;
        }
    }
    VSMap *m = vs->getFramePropertiesRW(r); uint64_t v = mix(n * 991 + s.id * 13);
    vs->mapSetInt(m, "_Id", s.id, maReplace); vs->mapSetInt(m, "_N", n, maReplace);
    if (s.range >= 0) vs->mapSetInt(m, "_Range", s.range, maReplace);
    if (s.sc) { if (v & 1) vs->mapSetInt(m, "_SceneChangePrev", v >> 2 & 1, maReplace); if (v & 2) vs->mapSetInt(m, "_SceneChangeNext", v >> 3 & 1, maReplace); }
    return r;
}
static std::string fm(const VSVideoFormat &f) { return fmt("[%d,%d,%d,%d,%d]", f.colorFamily, f.sampleType, f.bitsPerSample, f.subSamplingW, f.subSamplingH); }
static void num(std::string &s, int64_t v) { char b[24]; int k = 24; bool neg = v < 0; if (neg) v = -v; do b[--k] = '0' + v % 10; while (v /= 10); if (neg) b[--k] = '-'; s.append(b + k, 24 - k); }
static std::string planes(const VSFrame *f) {
    const VSVideoFormat *F = vs->getVideoFrameFormat(f); std::string s = "\"pl\":[";
    for (int p = 0; p < F->numPlanes; p++) {
        s += p ? ",[" : "["; const uint8_t *d = vs->getReadPtr(f, p); ptrdiff_t st = vs->getStride(f, p); bool first = true;
        for (int y = 0; y < vs->getFrameHeight(f, p); y++) for (int x = 0; x < vs->getFrameWidth(f, p); x++) { if (!first) s += ','; first = false; num(s, F->bytesPerSample == 1 ? d[y * st + x] : F->bytesPerSample == 2 ? ((const uint16_t *)(d + y * st))[x] : ((const int32_t *)(d + y * st))[x]); }
        s += "]";
    }
    s += "],\"pr\":{"; const VSMap *m = vs->getFramePropertiesRO(f);
    for (int i = 0; i < vs->mapNumKeys(m); i++) { const char *k = vs->mapGetKey(m, i); int er; s += (i ? "," : "") + jstr(k) + ":"; int64_t v = vs->mapGetInt(m, k, 0, &er); num(s, er || vs->mapNumElements(m, k) != 1 ? -777 : v); }
    if (!vs->mapNumKeys(m)) s += "\"none\":0";
    return s + "}";
}
static const int FT[][5] = { { 1, 0, 8, 0, 0 }, { 1, 0, 16, 0, 0 }, { 3, 0, 8, 1, 1 }, { 3, 0, 10, 1, 0 }, { 2, 0, 8, 0, 0 }, { 1, 0, 10, 0, 0 }, { 3, 0, 16, 0, 0 }, { 1, 0, 9, 0, 0 }, { 3, 0, 8, 0, 0 }, { 2, 0, 16, 0, 0 }, { 1, 0, 12, 0, 0 }, { 3, 0, 12, 1, 1 }, { 1, 0, 32, 0, 0 }, { 1, 1, 32, 0, 0 }, { 3, 1, 16, 1, 0 } };
static VSVideoFormat vf(int cf, int st, int b, int sw, int sh) { VSVideoFormat f; if (!vs->queryVideoFormat(&f, cf, st, b, sw, sh, core)) _exit(6); return f; }
static std::vector<Src *> srcs; static int lines = 0, nextId = 1;
static void line(const std::string &s) { emit(s); lines++; }
static void putSrc(Src *s) {
    VSVideoInfo v{}; v.format = s->f; v.width = s->w; v.height = s->h; v.numFrames = s->len; v.fpsNum = 24; v.fpsDen = 1;
    s->node = vs->createVideoFilter2("src", &v, srcGet, nullptr, fmParallel, nullptr, 0, s, core); if (!s->node) _exit(5);
    std::string o = fmt("{\"op\":\"src\",\"f\":%s,\"w\":%d,\"h\":%d,\"len\":%d,\"fr\":[", fm(s->f).c_str(), s->w, s->h, s->len);
    for (int i = 0; i < s->len; i++) { char e[99]; const VSFrame *f = vs->getFrame(i, s->node, e, 99); if (!f) _exit(7); o += (i ? ",{" : "{") + planes(f) + "}"; vs->freeFrame(f); }
    line(o + "]}"); s->line = lines; srcs.push_back(s);
}
static Src *mk(Rng &R, const VSVideoFormat &f, int w, int h, int len, int kind) { Src *s = new Src{ nextId++, w, h, len, f, kind, R.range(-1, 1), 0 }; s->sc = R.below(2); return s; }
static int width(Rng &R) { static const int B[] = { 8, 16, 32, 64, 128, 4, 24, 48 }; int q = R.below(100); return q < 70 ? std::max(4, B[R.below(8)] + R.range(-2, 3)) : q < 97 ? R.range(4, 140) : R.range(1, 3); }
static int kindOf(Rng &R, int bits, bool narrow) { if (narrow && bits > 10) return R.chance(70) ? 6 : R.range(2, 3); static const int K[] = { 0, 0, 0, 1, 2, 3, 4, 5 }; return K[R.below(8)]; }
// --- Expr: tokens and their values on every sample, in sixteenths ---
struct Tok { std::string o; int64_t n; };
static const int64_t LIM = 1 << 22;      // 2^18 in sixteenths
static bool evalTok(std::vector<int64_t> &st, const Tok &t, const std::vector<int> &v) {
    int n = (int)st.size(); auto x = [&] { return st[n - 1]; }; auto y = [&] { return st[n - 2]; }; auto T = [](bool b) -> int64_t { return b ? 16 : 0; };
    auto bin = [&](int64_t r) { st.pop_back(); st.back() = r; };
    const std::string &o = t.o;
    if (o == "c") st.push_back(t.n); else if (o == "v") st.push_back(16 * (int64_t)v[t.n - 1]); else if (o == "dup") st.push_back(st[n - 1 - t.n]); else if (o == "swap") std::swap(st[n - 1], st[n - 1 - t.n]);
    else if (o == "abs") st.back() = std::abs(x()); else if (o == "not") st.back() = T(x() <= 0);
    else if (o == "sqrt") { int64_t q = x(); if (q < 0) return false; int64_t r = (int64_t)llround(sqrt((double)(16 * q))); if (r * r != 16 * q || r > 30000) return false; st.back() = r; }
    else if (o == "+") bin(y() + x()); else if (o == "-") bin(y() - x());
    else if (o == "*") { if ((y() * x()) % 16 || std::abs(y() * x()) > INT_MAX) return false; bin(y() * x() / 16); }
    else if (o == "/") { if (!x() || (16 * y()) % x()) return false; bin(16 * y() / x()); }
    else if (o == "max") bin(std::max(x(), y())); else if (o == "min") bin(std::min(x(), y()));
    else if (o == ">") bin(T(y() > x())); else if (o == "<") bin(T(y() < x())); else if (o == "=") bin(T(y() == x())); else if (o == ">=") bin(T(y() >= x())); else if (o == "<=") bin(T(y() <= x()));
    else if (o == "and") bin(T(y() > 0 && x() > 0)); else if (o == "or") bin(T(y() > 0 || x() > 0)); else if (o == "xor") bin(T((y() > 0) != (x() > 0)));
    else if (o == "pow") { int64_t b = y(), e = x(); if (b <= 0 || b > 16 * 1024 || e % 16 || e < 0 || e > 48) return false; int64_t r = 16; for (int i = 0; i < e / 16; i++) { if ((r * b) % 16) return false; r = r * b / 16; if (r > LIM) return false; if (r * b > INT_MAX) { if (i + 1 < e / 16) return false; } } bin(r); }
    else if (o == "?") { int64_t r = st[n - 3] > 0 ? y() : x(); st.pop_back(); st.pop_back(); st.back() = r; }
    return std::abs(st.back()) <= LIM;
}
static std::string clipName(int k) { return std::string(1, "xyzabcdefghijklmnopqrstuvw"[k - 1]); }
static std::string text(const Tok &t, Rng &R) {
    if (t.o == "c") { char b[40]; snprintf(b, 40, t.n % 16 == 0 ? "%.0f" : "%.4f", t.n / 16.0); return b; }
    if (t.o == "v") return clipName((int)t.n);
    if (t.o == "dup") return t.n == 0 && R.chance(50) ? "dup" : fmt("dup%d", (int)t.n);
    if (t.o == "swap") return t.n == 1 && R.chance(50) ? "swap" : fmt("swap%d", (int)t.n);
    return t.o;
}
static void genTok(Rng &R, std::vector<Tok> &t, int depth, int nc) {
    static const char *B[] = { "+", "-", "*", "max", "min", ">", "<", "=", ">=", "<=", "and", "or", "xor", "+", "-", "*", "/" };
    int q = depth <= 0 ? R.below(35) : R.below(100);
    if (q < 22) t.push_back({ "v", R.range(1, nc) });
    else if (q < 35) { static const int64_t C[] = { 0, 16, -16, 8, 32, 4, 48, 160, 128 * 16, 255 * 16, 64, 12, 1 }; t.push_back({ "c", R.chance(60) ? C[R.below(13)] : 16 * R.range(-300, 1100) }); }
    else if (q < 40) { genTok(R, t, depth - 1, nc); t.push_back({ "abs", 0 }); }
    else if (q < 43) { genTok(R, t, depth - 1, nc); t.push_back({ "not", 0 }); }
    else if (q < 46) { genTok(R, t, depth - 1, nc); t.push_back({ "dup", 0 }); t.push_back({ R.chance(40) ? "*" : R.chance(50) ? "-" : "+", 0 }); if (t.back().o == "*" && R.chance(85)) t.push_back({ "sqrt", 0 }); }
    else if (q < 50) { genTok(R, t, depth - 1, nc); t.push_back({ "c", 16 * R.range(0, 3) }); t.push_back({ "pow", 0 }); }
    else if (q < 53) { genTok(R, t, depth - 1, nc); static const int D[] = { 2, 4, 8, 1 }; t.push_back({ "c", 16 * D[R.below(4)] }); t.push_back({ "/", 0 }); }
    else if (q < 60) { genTok(R, t, depth - 1, nc); genTok(R, t, depth - 1, nc); t.push_back({ "swap", 1 }); t.push_back({ B[R.below(17)], 0 }); }
    else if (q < 65) { genTok(R, t, depth - 1, nc); genTok(R, t, depth - 1, nc); t.push_back({ "dup", R.below(2) }); t.push_back({ B[R.below(16)], 0 }); if (R.chance(50)) t.push_back({ "swap", 1 }); t.push_back({ B[R.below(16)], 0 }); }
    else if (q < 69) { for (int i = 0; i < 3; i++) genTok(R, t, depth - 2, nc); t.push_back({ "swap", 2 }); t.push_back({ B[R.below(16)], 0 }); t.push_back({ B[R.below(16)], 0 }); }
    else if (q < 80) { for (int i = 0; i < 3; i++) genTok(R, t, depth - 1, nc); t.push_back({ "?", 0 }); }
    else { genTok(R, t, depth - 1, nc); genTok(R, t, depth - 1, nc); t.push_back({ B[R.below(17)], 0 }); }
}
struct Sample { const VSFrame *f[26]; };
static bool exact(const std::vector<Tok> &t, const std::vector<Src *> &ins, int p) {      // exact on every sample of plane p of all frames
    std::vector<int> v(ins.size()); std::vector<int64_t> st; bool ok = true;
    for (int n = 0; n < ins[0]->len && ok; n++) {
        std::vector<const VSFrame *> fr; for (auto *s : ins) { char e[9]; fr.push_back(vs->getFrame(std::min(n, s->len - 1), s->node, e, 9)); }
        for (int y = 0; y < vs->getFrameHeight(fr[0], p) && ok; y++) for (int x = 0; x < vs->getFrameWidth(fr[0], p) && ok; x++) {
            for (size_t i = 0; i < ins.size(); i++) { const uint8_t *d = vs->getReadPtr(fr[i], p) + y * vs->getStride(fr[i], p); v[i] = ins[i]->f.bytesPerSample == 1 ? d[x] : ((const uint16_t *)d)[x]; }
            st.clear(); for (auto &k : t) if (!evalTok(st, k, v)) { ok = false; break; }
        }
        for (auto *f : fr) vs->freeFrame(f);
    }
    return ok;
}
struct LutF { int64_t m, m2, c, mod; int extra; };
static void VS_CC lutFunc(const VSMap *in, VSMap *out, void *u, VSCore *, const VSAPI *) {
    LutF *l = (LutF *)u; int er; int64_t x = vs->mapGetInt(in, "x", 0, &er), y = vs->mapGetInt(in, "y", 0, &er); if (er) y = 0;
    int64_t v = (x * l->m + y * l->m2 + l->c) % l->mod; if (l->extra && x == 3 && (y == 0 || y == 1)) v = l->extra == 2 ? -1 : l->mod; vs->mapSetInt(out, "val", v, maReplace);
}
static void VS_CC lutFree(void *u) { delete (LutF *)u; }
int main(int argc, char **argv) {
    if (argc < 4) return 2;
    open_trace(argv[3]); watchdog(120);
    Rng R(atoll(argv[1])); int steps = atoi(argv[2]); const char *only = getenv("VP_ONLY");
    core = vs->createCore(0); vs->setThreadCount(R.chance(50) ? 1 : 3, core); stdp = vs->getPluginByID("com.vapoursynth.std", core);
    static const char *LV[] = { "none", "sse2", "avx2", "avx512" };
    static const char *FN[] = { "Invert", "InvertMask", "Limiter", "Binarize", "BinarizeMask", "Levels", "Minimum", "Maximum", "Deflate", "Inflate", "Median", "Prewitt", "Sobel", "Convolution", "BoxBlur", "Lut", "Lut2", "Merge", "MaskedMerge", "PreMultiply", "MakeDiff", "MergeDiff", "MakeFullDiff", "MergeFullDiff", "AverageFrames", "Expr", "Convolution", "BoxBlur", "Expr", "Expr", "AverageFrames", "MaskedMerge", "Levels", "Minimum", "Maximum", "Merge" };
    for (int step = 0; step < steps; step++) {
        std::string f = only && *only ? only : FN[R.below(36)], a; std::vector<Src *> ins; std::vector<std::string> keys; VSMap *m = vs->createMap();
        bool grad = f == "Prewitt" || f == "Sobel";
        int fi = R.chance(97) ? R.below(12) : R.below(15); VSVideoFormat F = vf(FT[fi][0], FT[fi][1], FT[fi][2], FT[fi][3], FT[fi][4]);
        if (f == "Levels") { int q = R.below(3); if (q < 2 && F.bitsPerSample > 10) F = vf(F.colorFamily, 0, 8, F.subSamplingW, F.subSamplingH); }
        int w = width(R), h = R.chance(50) ? R.range(4, 6) : R.chance(90) ? R.range(4, 12) : R.range(1, 4); int al = 1 << F.subSamplingW, bl = 1 << F.subSamplingH; w = (w + al - 1) / al * al; h = (h + bl - 1) / bl * bl;
        if (F.subSamplingH) h = std::max(h, 8);
        if (F.subSamplingW && R.chance(95)) w = std::max(w, 8);
        if (f == "BoxBlur" && R.chance(30)) { w = R.range(4, 20); h = R.range(4, 24); w = (w + al - 1) / al * al; h = (h + bl - 1) / bl * bl; }
        auto like = [&](Src *o, const VSVideoFormat *G = nullptr) { if (R.chance(4)) { static const int D[] = { 4, 0 }; VSVideoFormat H = G ? *G : o->f; int q = R.below(3); if (q == 2) H = vf(FT[2][0], 0, R.chance(50) ? 8 : 16, 1, 1); return mk(R, H, q == 2 ? (o->w + 1) / 2 * 2 : o->w + (q == 0 ? D[0] : 0), q == 2 ? (o->h + 1) / 2 * 2 : o->h + (q == 1 ? D[0] : 0), R.range(1, 3), kindOf(R, H.bitsPerSample, false)); } Src *s = mk(R, G ? *G : o->f, o->w, o->h, R.range(1, 2), kindOf(R, o->f.bitsPerSample, false)); if (R.chance(70)) s->range = o->range; return s; };
        auto pick = [&](Src *s, const char *k) { if (!s->node) { Src *t = s; putSrc(t); } ins.push_back(s); keys.push_back(k); };
        Src *A = nullptr;
        if (R.chance(30) && !grad && f != "Levels" && f != "AverageFrames") { A = srcs.empty() ? nullptr : srcs[srcs.size() - 1 - R.below((int)std::min<size_t>(6, srcs.size()))]; if (A && A->w * A->h > 800) A = nullptr; }
        if (!A) A = mk(R, F, w, h, R.range(1, 2), kindOf(R, F.bitsPerSample, grad));
        F = A->f; w = A->w; h = A->h; int max = F.bitsPerSample >= 32 ? 1 << 30 : (1 << F.bitsPerSample) - 1, np = F.numPlanes;
        auto nm = [&](const char *k) { a += fmt("%s\"%s\":", a.empty() ? "" : ",", k); };
        auto opti = [&](const char *k, int pct, int64_t v) -> bool { nm(k); if (R.chance(pct)) { vs->mapSetInt(m, k, v, maReplace); a += fmt("[%lld]", (long long)v); return true; } a += "[]"; return false; };
        auto optq = [&](const char *k, const char *jk, int pct, int v) -> bool { nm(jk); if (R.chance(pct)) { vs->mapSetFloat(m, k, v / 4.0, maReplace); a += fmt("[%d]", v); return true; } a += "[]"; return false; };
        auto pla = [&]() { nm("planes"); if (R.chance(50)) { a += "[]"; return; } std::vector<int> p; if (R.chance(93)) { for (int i = 0; i < 3; i++) if (R.chance(55)) p.push_back(i); if (p.size() > 1 && R.chance(30)) std::swap(p[0], p[1]); } else for (int i = R.range(1, 3); i > 0; i--) p.push_back(R.range(-1, 3)); if (p.empty()) { a += "[]"; return; } for (int x : p) vs->mapSetInt(m, "planes", x, maAppend); a += "[" + jlist(p) + "]"; };
        auto vals = [&](const char *k, int pct, std::function<int()> gen) -> bool { nm(k); if (!R.chance(pct)) { a += "[]"; return false; } int n = R.chance(96) ? R.range(1, np) : np + 1; std::vector<int> v; std::vector<double> d; for (int i = 0; i < n; i++) { v.push_back(gen()); d.push_back(v.back() / 4.0); } vs->mapSetFloatArray(m, k, d.data(), n); a += "[" + jlist(v) + "]"; return true; };
        auto anyv = [&]() { int q = R.below(100); return q < 3 ? -R.range(3, 9) : q < 6 ? 4 * max + R.range(2, 9) : q < 15 ? R.below(2) * 4 * max : q < 25 ? 4 * R.below(max + 1) - R.below(2) : std::min(4 * max, R.below(4 * max + 4)); };
        if (F.bitsPerSample > 16 || F.sampleType) max = 255;
        if (f == "Invert" || f == "InvertMask") { pick(A, "clip"); pla(); }
        else if (f == "Limiter") { pick(A, "clip"); pla(); int lo = R.below(max + 1), hi = R.range(lo, max); vals("min", 70, [&] { return R.chance(94) ? 4 * R.range(lo / 2, lo) + R.range(-1, 2) * (lo > 1) : anyv(); }); vals("max", 70, [&] { return R.chance(94) ? 4 * R.range(hi, std::max(hi, max - 1)) + R.range(-1, 2) * (hi < max && hi > lo) : anyv(); }); }
        else if (f == "Binarize" || f == "BinarizeMask") { pick(A, "clip"); pla(); auto ok = [&] { return R.chance(98) ? 4 * R.below(max + 1) : anyv(); }; vals("threshold", 70, [&] { return R.chance(98) ? (R.chance(50) ? 2 * max + R.range(-6, 6) : 4 * R.below(max + 1)) : anyv(); }); vals("v0", 40, ok); vals("v1", 40, ok); }
        else if (f == "Levels") {
            pick(A, "clip"); pla(); int g = R.chance(60) ? 4 : R.chance(50) && F.bitsPerSample <= 8 ? 8 : F.bitsPerSample <= 10 ? 2 : 4; bool inv = g == 4 && R.chance(25), rej = R.chance(5);
            int lo = R.below(max / 2 + 1), hi = R.range(lo + 1, max), ol = R.below(max / 2 + 1), oh = R.range(ol, max); if (R.chance(20)) { lo = 0; hi = max; } if (R.chance(20)) { ol = 0; oh = max; } if (inv) std::swap(ol, oh);
            vals("min_in", rej ? 90 : 70, [&] { return rej ? 4 * R.below(max + 1) : 4 * R.range(std::max(0, lo - 5), lo) + (R.chance(15) ? 1 : 0); }); vals("max_in", 70, [&] { return 4 * R.range(hi, std::min(max, hi + 9)); });
            if (R.chance(70) || inv) { vals("min_out", 100, [&] { return 4 * ol; }); vals("max_out", 100, [&] { return 4 * oh; }); } else a += ",\"min_out\":[],\"max_out\":[]";
            vals("gamma", g == 4 ? 30 : 100, [&] { return rej && R.chance(30) ? -R.below(2) * 4 : g; }); }
        else if (f == "Minimum" || f == "Maximum" || f == "Deflate" || f == "Inflate") { pick(A, "clip"); pla(); optq("threshold", "threshold4", 50, R.chance(4) ? (R.chance(50) ? -9 : 4 * max + 9) : 4 * (R.chance(50) ? R.below(20) : R.below(max + 1)));
            if (f[1] == 'i' || f[1] == 'a') { nm("coordinates"); if (R.chance(60)) { std::vector<int> c; int n = R.chance(97) ? 8 : R.range(1, 9); for (int i = 0; i < n; i++) { c.push_back(R.below(2)); vs->mapSetInt(m, "coordinates", c.back(), maAppend); } a += "[" + jlist(c) + "]"; } else a += "[]"; } }
        else if (f == "Median") { pick(A, "clip"); pla(); }
        else if (grad) { pick(A, "clip"); pla(); static const int S[] = { 4, 2, 8, 1, 0, 6 }; optq("scale", "scale4", 50, R.chance(97) ? S[R.below(F.bitsPerSample > 8 ? 2 : 6)] : -4); }
        else if (f == "Convolution") {
            if (A->w * A->h > 500 && !A->node) { A->w = std::max(8, A->w / 2 / al * al); A->h = std::max(bl * 4, A->h / bl * bl); }
            pick(A, "clip"); pla(); int mode = R.below(10); static const char *M[] = { "s", "h", "v", "hv", "vh" }; int k = mode < 4 ? 0 : mode < 6 ? 1 : mode < 8 ? 2 : mode == 8 ? 3 : 4; bool hv = k >= 3;
            int n; if (k == 0) { static const int N[] = { 9, 25, 9, 25, 49, 81, 121 }; n = R.chance(97) ? N[R.below(R.chance(50) ? 2 : 7)] : R.range(1, 30); } else n = R.chance(97) ? 2 * R.range(1, R.chance(80) ? 4 : 12) + 1 : R.range(1, 27);
            // keep |acc| * 16 + bias inside 32 bits
            int64_t lim = (int64_t)(INT_MAX / 40) / std::max(1, max); if (hv) lim = std::min<int64_t>(lim, 400); int cm = (int)std::min<int64_t>(R.chance(50) ? 3 : R.chance(50) ? 20 : 1023, std::max<int64_t>(1, lim / n)); std::vector<int> c; std::vector<double> d; int sum = 0, left = (int)lim;
            for (int i = 0; i < n; i++) { int x = R.range(-cm, cm); if (R.chance(30)) x = abs(x); if (std::abs(x) > left) x = 0; left -= std::abs(x); sum += x; c.push_back(4 * x); } if (R.chance(3)) c[R.below(n)] = 4 * (R.chance(50) ? 1024 : -1025); if (R.chance(10) && n) { int i = R.below(n); c[i] += c[i] > 0 ? -1 : 1; }
            for (int x : c) d.push_back(x / 4.0);
            vs->mapSetFloatArray(m, "matrix", d.data(), (int)d.size()); nm("matrix"); a += jlist(c);
            int s4 = 0; for (int x : c) s4 += x >= 0 ? (x + 2) / 4 : -((2 - x) / 4);
            bool gd = R.chance(hv ? 100 : 50); static const int DD[] = { 4, 12, 20, 28, 36, 60 }; optq("divisor", "divisor4", gd ? 100 : 0, hv ? DD[R.below(6)] : R.chance(10) ? 0 : R.chance(50) ? 4 * R.range(1, 20) : R.range(1, 200) * (R.chance(80) ? 1 : -1));
            optq("bias", "bias4", 40, hv ? 4 * R.range(-20, 20) : R.range(-200, 200)); opti("saturate", 40, R.below(2)); nm("mode"); if (k || R.chance(30)) { const char *t = R.chance(98) ? M[k] : "x"; vs->mapSetData(m, "mode", t, -1, dtUtf8, maReplace); a += fmt("[\"%s\"]", t); } else a += "[]"; }
        else if (f == "BoxBlur") { pick(A, "clip"); pla(); int q = R.below(100); auto rad = [&](int D) { return q < 3 ? R.range(-1, 0) : R.chance(70) ? R.range(0, 4) : R.chance(80) ? R.range(0, 12) : std::min(40, D * 2); }; opti("hradius", 70, rad(w)); opti("hpasses", 60, q == 3 ? -1 : R.range(0, 3)); opti("vradius", 70, rad(h)); opti("vpasses", 60, q == 4 ? -1 : R.range(0, 3)); }
        else if (f == "Lut" || f == "Lut2") {
            bool two = f == "Lut2"; pick(A, two ? "clipa" : "clip");
            if (two) { int room = 20 - F.bitsPerSample; int b2 = R.chance(94) ? (room >= 12 && R.chance(40) ? R.range(8, room) : 8) : R.range(8, 16); bool g = F.colorFamily == cfGray || (!F.subSamplingW && R.chance(15)); VSVideoFormat G = vf(g ? 1 : F.colorFamily, 0, b2, F.subSamplingW, F.subSamplingH); pick(like(A, &G), "clipb"); }
            pla(); int bits = F.bitsPerSample; bool gb = opti("bits", 50, R.chance(95) ? R.range(8, 16) : R.chance(50) ? 7 : 17); if (gb) bits = (int)vs->mapGetInt(m, "bits", 0, nullptr); int mod = 1 << std::min(bits, 17);
            int sets = R.chance(96) ? 1 : R.chance(50) ? 0 : 2, extra = R.chance(95) ? 0 : R.range(1, 3); LutF l{ R.chance(20) ? 0 : R.range(1, 900), two ? R.range(0, 700) : 0, R.below(mod), mod, 0 };
            int64_t n = 1ll << F.bitsPerSample, n2 = two ? 1ll << ins[1]->f.bitsPerSample : 1; if (F.bitsPerSample > 16) n = 256; if (two && n * n2 > 1 << 20) n2 = 16;
            bool func = n * n2 <= 1 << 16 && R.chance(50); if (extra == 1 && func) extra = 2; if (sets == 0) extra = 0;
            if (sets && (!func || sets == 2)) { std::vector<int64_t> t((size_t)(n * n2)); for (int64_t y = 0; y < n2; y++) for (int64_t x = 0; x < n; x++) t[y * n + x] = (x * l.m + y * l.m2 + l.c) % mod; if (!func || sets == 2) { if (extra == 1) t.resize(t.size() + (R.chance(50) ? 1 : -1)); if (extra == 2) t[R.below((int)t.size())] = -1; if (extra == 3) t[R.below((int)t.size())] = mod; } vs->mapSetIntArray(m, "lut", t.data(), (int)t.size()); }
            if (sets && (func || sets == 2)) { LutF *u = new LutF(l); u->extra = extra; VSFunction *fn = vs->createFunction(lutFunc, u, lutFree, core); vs->mapConsumeFunction(m, "function", fn, maReplace); }
            nm("m"); a += fmt("%d,\"m2\":%d,\"c\":%d,\"extra\":%d,\"sets\":%d", (int)l.m, (int)l.m2, (int)l.c, extra, sets); }
        else if (f == "Merge") { pick(A, "clipa"); pick(like(A), "clipb"); nm("w"); std::vector<int> k; int n = R.chance(25) ? 0 : R.chance(96) ? R.range(1, np) : np + 1; std::vector<double> d; for (int i = 0; i < n; i++) { static const int K[] = { 0, 65536, 32768, 1, 2, 65535, 65534, 16384 }; int x = R.chance(40) ? K[R.below(8)] : R.chance(97) ? R.below(65537) : R.chance(50) ? -9 : 65540; k.push_back(x); d.push_back(x / 65536.0); } if (n) vs->mapSetFloatArray(m, "weight", d.data(), n); a += jlist(k); }
        else if (f == "MaskedMerge") { pick(A, "clipa"); pick(like(A), "clipb"); VSVideoFormat G = R.chance(50) || F.sampleType ? F : vf(1, 0, R.chance(95) ? F.bitsPerSample : 8, 0, 0); pick(like(A, &G), "mask"); pla(); opti("first_plane", 50, R.below(2)); opti("premultiplied", 50, R.below(2)); }
        else if (f == "PreMultiply") { pick(A, "clip"); VSVideoFormat G = F.sampleType ? F : vf(1, 0, F.bitsPerSample, 0, 0); pick(like(A, &G), "alpha"); a = "\"none\":0"; }
        else if (f == "MakeDiff" || f == "MergeDiff") { pick(A, "clipa"); pick(like(A), "clipb"); pla(); }
        else if (f == "MakeFullDiff") { pick(A, "clipa"); pick(like(A), "clipb"); a = "\"none\":0"; }
        else if (f == "MergeFullDiff") { if (F.bitsPerSample > 16 || F.sampleType) { vs->freeMap(m); continue; } VSVideoFormat G = vf(F.colorFamily, F.sampleType, F.bitsPerSample + 1, F.subSamplingW, F.subSamplingH); pick(A, "clipa"); Src *B = like(A, &G); pick(B, "clipb"); a = "\"none\":0"; }
        else if (f == "AverageFrames") {
            bool one = R.chance(50); int n; if (A->w * A->h * np > 700 && !A->node) { A->w = std::max(8, A->w / 3 / al * al); }
            if (one) { A->len = R.range(1, 4); if (A->node) _exit(9); pick(A, "clips"); n = R.chance(96) ? 2 * R.range(0, R.chance(70) ? 2 : 15) + 1 : R.range(1, 33); } else { n = R.chance(70) ? R.range(2, 4) : R.range(2, 6); pick(A, "clips"); for (int i = 1; i < n; i++) { Src *B = mk(R, F, w, h, R.range(1, 3), kindOf(R, F.bitsPerSample, false)); if (R.chance(96)) { B->w = A->w; B->h = A->h; } pick(B, "clips"); } if (R.chance(4)) n++; }
            int cm = R.chance(50) ? 3 : R.chance(80) ? 60 : 1023; cm = std::min<int64_t>(cm, std::max<int64_t>(1, (INT_MAX / 60) / ((int64_t)max * n))); std::vector<int> c; std::vector<double> d; int s4 = 0; for (int i = 0; i < n; i++) { int x = R.chance(75) ? 4 * R.range(0, cm) : 4 * R.range(-cm, cm); if (R.chance(1)) x = 4 * 1024; if (R.chance(8)) x += x > 0 ? -1 : 1; c.push_back(x); s4 += x >= 0 ? (x + 2) / 4 : -((2 - x) / 4); }
            for (int x : c) d.push_back(x / 4.0);
            vs->mapSetFloatArray(m, "weights", d.data(), n); nm("weights"); a += jlist(c); optq("scale", "scale4", 40, R.chance(95) ? 4 * R.range(1, std::max(2, std::min(1000, std::abs(s4) * 2))) : R.chance(50) ? 0 : -4); opti("scenechange", one ? 50 : 4, R.below(2)); pla(); }
        else {
            int nc = R.chance(40) ? 1 : R.chance(80) ? R.range(2, 3) : R.chance(90) ? R.range(3, 8) : 26; if (nc > 8 && A->w * A->h > 200 && !A->node) { A->w = 8; A->h = 8; }
            pick(A, "clips"); for (int i = 1; i < nc; i++) { static const int BB[] = { 8, 16, 10, 9, 12 }; VSVideoFormat G = F; if (R.chance(40) && F.bitsPerSample <= 16 && !F.sampleType) G = vf(F.colorFamily, 0, BB[R.below(5)], F.subSamplingW, F.subSamplingH); Src *B = R.chance(nc > 8 ? 90 : 20) ? ins[0] : R.chance(90 / nc) ? like(A, &G) : mk(R, G, A->w, A->h, 1, kindOf(R, G.bitsPerSample, false)); pick(B, "clips"); }
            bool valid = true; for (auto *s : ins) if (s->w != A->w || s->h != A->h || s->f.bitsPerSample > 16 || s->f.sampleType || s->f.numPlanes != np || s->f.subSamplingW != F.subSamplingW) valid = false;
            nm("fmt"); int ob = F.bitsPerSample; if (R.chance(40) && F.bitsPerSample <= 16 && !F.sampleType) { static const int OB[] = { 8, 10, 12, 16, 9, 32 }; ob = OB[R.below(R.chance(97) ? 5 : 6)]; VSVideoFormat G = R.chance(97) ? vf(F.colorFamily, 0, ob, F.subSamplingW, F.subSamplingH) : vf(3, 0, 8, R.below(2), 0); vs->mapSetInt(m, "format", vs->queryVideoFormatID(G.colorFamily, G.sampleType, G.bitsPerSample, G.subSamplingW, G.subSamplingH, core), maReplace); a += "[" + fm(G) + "]"; } else a += "[]";
            int ne = R.chance(96) ? R.range(1, np) : np + 1; bool bad = false; std::string ex;
            for (int i = 0; i < ne; i++) {
                std::vector<Tok> t; int dv = 1; std::string s;
                if (!R.chance(12)) for (int tries = 0; tries < 40; tries++) {
                    t.clear(); genTok(R, t, R.chance(60) ? R.range(1, 4) : R.range(3, 6), nc); if (t.size() > 60) { t.clear(); continue; }
                    bool g = true; if (valid) for (int p = i; p < (i == ne - 1 ? np : i + 1) && p < np; p++) g = g && exact(t, ins, p); if (g) break; t.clear();
                }
                for (auto &k : t) s += (s.empty() ? "" : " ") + text(k, R);
                if (!t.empty() && R.chance(25)) { dv = R.range(2, 30); s += fmt(" %d /", dv); }
                if (R.chance(2)) { bad = true; static const char *BADS[] = { "x +", "x y", "foo", "x dup5", "x swap3", "x 1 ? ", "dup", "+", "x 2 3", "x swap1", "x dup-1" }; s = BADS[R.below(11)]; }
                vs->mapSetData(m, "expr", s.c_str(), -1, dtUtf8, maAppend); ex += ex.empty() ? "{\"t\":[" : ",{\"t\":["; for (size_t k = 0; k < t.size(); k++) ex += (k ? "," : "") + (t[k].o == "c" || t[k].o == "v" || t[k].o == "dup" || t[k].o == "swap" ? fmt("[\"%s\",%d]", t[k].o.c_str(), (int)t[k].n) : fmt("[\"%s\"]", t[k].o.c_str())); ex += fmt("],\"d\":%d,\"s\":", dv) + jstr(s.c_str()) + "}";
            }
            nm("exprs"); a += "[" + ex + fmt("],\"bad\":%d", bad); }
        for (size_t i = 0; i < ins.size(); i++) vs->mapSetNode(m, keys[i].c_str(), ins[i]->node, maAppend);
        std::string s = fmt("{\"op\":\"call\",\"f\":\"%s\",\"in\":[", f.c_str()); for (size_t j = 0; j < ins.size(); j++) s += fmt("%s%d", j ? "," : "", ins[j]->line); s += "],\"a\":{" + a + "}";
        if (getenv("VP_DEBUG")) { emit("# " + s); fflush(trf); }
        std::vector<VSNode *> nodes; std::vector<std::string> errs; bool differ = false;
        for (int l = 0; l < 4; l++) {
            VSMap *q = vs->createMap(); vs->mapSetData(q, "cpu", LV[l], -1, dtUtf8, maReplace); vs->freeMap(vs->invoke(stdp, "SetMaxCPU", q)); vs->freeMap(q);
            VSMap *out = vs->invoke(stdp, f.c_str(), m); const char *e = vs->mapGetError(out); int er; if (e) errs.push_back(e); else nodes.push_back(vs->mapGetNode(out, "clip", 0, &er)); vs->freeMap(out);
        }
        if (!nodes.empty() && !errs.empty()) differ = true;
        if (nodes.empty()) line(s + ",\"ok\":0,\"differ\":0,\"err\":" + jstr(errs[0].c_str()) + ",\"info\":[],\"fr\":[]}");
        else {
            const VSVideoInfo *o = vs->getVideoInfo(nodes[0]); for (auto *x : nodes) if (memcmp(&vs->getVideoInfo(x)->format, &o->format, sizeof o->format)) differ = true;
            s += fmt(",\"ok\":1,\"differ\":%d,\"err\":\"\",\"info\":[%s,%d,%d,%d,%lld,%lld],\"fr\":[", differ, fm(o->format).c_str(), o->width, o->height, o->numFrames, (long long)o->fpsNum, (long long)o->fpsDen);
            int cnt = std::min(o->numFrames, 1 + R.below(2)), first = R.below(o->numFrames - cnt + 1);
            for (int n = first; n < first + cnt; n++) {
                s += fmt("%s{\"n\":%d,\"outs\":[", n == first ? "" : ",", n); std::vector<std::string> seen; std::vector<int> lv;
                for (size_t i = 0; i < nodes.size(); i++) { char e[200]; const VSFrame *fr = vs->getFrame(n, nodes[i], e, 200); std::string t = fr ? fmt("\"err\":0,\"f\":%s,\"w\":%d,\"h\":%d,", fm(*vs->getVideoFrameFormat(fr)).c_str(), vs->getFrameWidth(fr, 0), vs->getFrameHeight(fr, 0)) + planes(fr) : std::string("\"err\":1,\"f\":[],\"w\":0,\"h\":0,\"pl\":[],\"pr\":{\"none\":0}"); if (fr) vs->freeFrame(fr); if (std::find(seen.begin(), seen.end(), t) == seen.end()) { seen.push_back(t); lv.push_back((int)i); } }
                for (size_t i = 0; i < seen.size(); i++) s += fmt("%s{\"cpu\":\"%s\",", i ? "," : "", LV[lv[i]]) + seen[i] + "}";
                s += "]}";
            }
            line(s + "]}");
            for (auto *x : nodes) vs->freeNode(x);
        }
        vs->freeMap(m);
    }
    close_trace(); _exit(0);
}
