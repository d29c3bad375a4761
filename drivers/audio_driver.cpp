// Random chains of audio edits over sources whose samples name themselves.
// usage: audio_driver SEED STEPS TRACE
#include "vsdrv.h"
#include <climits>
#include <cmath>
static const int Q = VS_AUDIO_FRAME_SAMPLES;
static VSCore *core; static VSPlugin *stdp;
struct Slot { int src, ch; };
static std::vector<Slot> slots[2];                 // for formats of up to 20 bits, and the others
static int cls(const VSAudioFormat &f) { return f.bitsPerSample <= 20 ? 0 : 1; }
static const int PR[2] = { 4093, 262139 };
struct Src { int id, slot; VSAudioInfo ai; };
static int64_t code(const Src &s, int ch, int64_t pos) { int c = cls(s.ai.format); return 1 + (int64_t)(s.slot + ch) * PR[c] + pos % PR[c]; }
static const VSFrame *VS_CC srcGet(int n, int ar, void *inst, void **, VSFrameContext *, VSCore *c, const VSAPI *) {
    if (ar != arInitial) return nullptr;
    const Src &s = *(Src *)inst; int64_t p0 = (int64_t)n * Q; int len = (int)std::min<int64_t>(Q, s.ai.numSamples - p0);
    VSFrame *f = vs->newAudioFrame(&s.ai.format, len, nullptr, c);
    for (int ch = 0; ch < s.ai.format.numChannels; ch++) for (int i = 0; i < len; i++) {
        int64_t k = code(s, ch, p0 + i); uint8_t *d = vs->getWritePtr(f, ch);
        if (s.ai.format.sampleType == stFloat) ((float *)d)[i] = (float)k;
        else if (s.ai.format.bytesPerSample == 2) ((uint16_t *)d)[i] = (uint16_t)k;
        else ((uint32_t *)d)[i] = (uint32_t)k << (32 - s.ai.format.bitsPerSample);
    }
    return f;
}
static std::string runs(const VSFrame *f, int ch) {
    const VSAudioFormat *F = vs->getAudioFrameFormat(f); int n = vs->getFrameLength(f), c = cls(*F), P = PR[c]; const uint8_t *d = vs->getReadPtr(f, ch);
    std::vector<int> S(n), C(n), X(n);
    for (int i = 0; i < n; i++) {
        int64_t k;
        if (F->sampleType == stFloat) { float v = ((const float *)d)[i]; k = v >= 0 && v < 2e7f ? (int64_t)v : -1; if (k >= 0 && (float)k != v) k = -1; }
        else if (F->bytesPerSample == 2) k = ((const uint16_t *)d)[i];
        else { uint32_t v = ((const uint32_t *)d)[i]; int sh = 32 - F->bitsPerSample; k = v & ((sh ? 1u << sh : 1u) - 1) ? -1 : (int64_t)(v >> sh); }
        S[i] = -1; C[i] = X[i] = 0;
        if (k == 0) S[i] = 0;
        else if (k > 0 && (size_t)((k - 1) / P) < slots[c].size()) { Slot s = slots[c][(k - 1) / P]; S[i] = s.src; C[i] = s.ch + 1; X[i] = (int)((k - 1) % P); }
    }
    std::string r = "[";
    for (int i = 0; i < n;) {
        int j = i + 1, st = 0;
        if (S[i] <= 0) while (j < n && S[j] == S[i]) j++;
        else if (j < n && S[j] == S[i] && C[j] == C[i] && (X[j] == (X[i] + 1) % P || X[i] == (X[j] + 1) % P)) { st = X[j] == (X[i] + 1) % P ? 1 : -1; while (j < n && S[j] == S[i] && C[j] == C[i] && X[j] == (X[j - 1] + st + P) % P) j++; }
        r += fmt("%s[%d,%d,%d,%d,%d]", i ? "," : "", S[i], C[i], X[i], st, j - i); i = j;
    }
    return r + "]";
}
struct Clip { int id; VSNode *n; int depth; };
static std::vector<Clip> pool; static int nextId = 1; static std::map<int, Src> srcs;
static std::string pr(int64_t v) { if (v < 0) return "[-1,0]"; if (v / Q > INT_MAX) return fmt("[%d,%d]", INT_MAX, Q - 1); return fmt("[%lld,%lld]", (long long)(v / Q), (long long)(v % Q)); }
static std::string lay(uint64_t m) { std::vector<int> v; for (int i = 0; i < 64; i++) if (m >> i & 1) v.push_back(i); return jlist(v); }
static std::string info(const VSAudioInfo *a) { return fmt("[%d,%d,%s,%d,", a->format.bitsPerSample, a->format.sampleType, lay(a->format.channelLayout).c_str(), a->sampleRate) + pr(a->numSamples) + fmt(",%d]", a->numFrames); }
static bool addSrc(Rng &R, int64_t len) {
    static const int F[][2] = { { 16, 0 }, { 24, 0 }, { 32, 0 }, { 32, 1 }, { 20, 0 }, { 17, 0 } }; static const uint64_t L[] = { 1, 3, 2, 1ull << 63, 0x15, 8, 3, 1ull << 40 | 2 };
    Src s; s.id = nextId; int q = R.chance(70) ? R.below(2) * 3 : R.below(6); int c = F[q][0] <= 20 ? 0 : 1; uint64_t m = L[R.below(8)];
    s.ai = VSAudioInfo(); vs->queryAudioFormat(&s.ai.format, F[q][1], F[q][0], m, core); s.ai.sampleRate = R.chance(80) ? 48000 : 44100; s.ai.numSamples = len; s.slot = (int)slots[c].size();
    if (s.slot + s.ai.format.numChannels > (c ? 60 : 14)) return false;
    for (int i = 0; i < s.ai.format.numChannels; i++) slots[c].push_back({ s.id, i });
    nextId++; srcs[s.id] = s;
    VSNode *n = vs->createAudioFilter2("src", &s.ai, srcGet, nullptr, fmParallel, nullptr, 0, &srcs[s.id], core); if (!n) _exit(5);
    emit(fmt("{\"op\":\"src\",\"id\":%d,\"info\":", s.id) + info(vs->getAudioInfo(n)) + "}");
    pool.push_back({ s.id, n, 0 });
    return true;
}
static int64_t anyLen(Rng &R) {
    switch (R.below(8)) { case 0: return 1 + R.below(10); case 1: return Q; case 2: return (int64_t)Q * R.range(1, 4); case 3: return (int64_t)Q * R.range(1, 4) + R.range(-2, 2); case 4: return Q * 20ll + R.below(Q * 4);
        case 5: return R.chance(30) ? (int64_t)INT_MAX * Q - R.below(3) * (R.chance(50) ? 1 : Q) : 1 + R.below(4 * Q); default: return 1 + R.below(5 * Q); }
}
static int64_t near(Rng &R, int64_t len) {
    int64_t u = (int64_t)(R.next() >> 2) % len;
    switch (R.below(14)) { case 0: return -1; case 1: return 0; case 2: return len - 1; case 3: return len; case 4: return len + 1; case 5: return 1; case 6: return u / Q * Q; case 7: return u / Q * Q + Q - 1; case 8: return std::min<int64_t>(len, Q);
        case 9: { static const int64_t b[] = { INT_MAX, INT64_MAX, INT64_MIN, 4294967296ll, INT64_MAX - 1, (int64_t)INT_MAX * Q, (int64_t)INT_MAX * Q + 1 }; return R.chance(40) ? b[R.below(7)] : u; } default: return u; }
}
struct Wait { std::mutex m; std::condition_variable c; int left; std::map<int, const VSFrame *> got; };
static void VS_CC done(void *u, const VSFrame *f, int n, VSNode *, const char *) { Wait &w = *(Wait *)u; std::lock_guard<std::mutex> l(w.m); w.got[n] = f; if (!--w.left) w.c.notify_all(); }
static void look_at(Rng &R, const Clip &c) {
    int len = vs->getAudioInfo(c.n)->numFrames; std::set<int> want;
    if (len <= 6) for (int i = 0; i < len; i++) want.insert(i);
    else { want = { 0, 1, len - 1, len - 2 }; for (int i = 0; i < 4; i++) want.insert(R.below(len)); }
    std::vector<int> o(want.begin(), want.end()); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[R.below((int)i)]);
    Wait w; w.left = (int)o.size();
    for (int n : o) vs->getFrameAsync(n, c.n, done, &w);
    { std::unique_lock<std::mutex> l(w.m); w.c.wait(l, [&] { return !w.left; }); }
    std::string s = fmt("{\"op\":\"get\",\"id\":%d,\"rows\":[", c.id); bool first = true;
    for (auto &p : w.got) {
        s += fmt("%s{\"n\":%d,\"len\":%d,\"ch\":[", first ? "" : ",", p.first, p.second ? vs->getFrameLength(p.second) : -1); first = false;
        if (p.second) { const VSAudioFormat *F = vs->getAudioFrameFormat(p.second); bool ff = !memcmp(F, &vs->getAudioInfo(c.n)->format, sizeof *F); for (int ch = 0; ff && ch < F->numChannels; ch++) s += (ch ? "," : "") + runs(p.second, ch); }
        s += "]}"; vs->freeFrame(p.second);
    }
    emit(s + "]}");
}
static void wave(Rng &R) {
    static const char *W[] = { "slope", "square", "triangle", "sine" }; static const int F[][2] = { { 16, 0 }, { 24, 0 }, { 32, 0 }, { 32, 1 }, { 19, 0 } };
    int w = R.below(4), q = w == 3 ? R.below(2) : R.below(5), k = w == 3 ? (q == 0 ? R.below(4) : R.below(3)) : R.below(6), j = R.chance(70) ? 1 : R.range(-40, 40), A = R.chance(30) ? 4096 : R.chance(70) ? R.range(-4000, 4000) : R.range(-12288, 12288);
    if (w == 3 && k == 3) A = R.range(-4000, 4000);
    int bits = F[q][0], st = F[q][1], rate = R.chance(50) ? 48000 : 44100; int bad = R.chance(8) ? 1 : 0; int64_t len = R.chance(50) ? 1 + R.below(4 * Q) : (int64_t)R.below(INT_MAX) * Q + 1;
    VSMap *m = vs->createMap(); vs->mapSetInt(m, "bits", bits, maReplace); vs->mapSetInt(m, "sampletype", st, maReplace); vs->mapSetInt(m, "samplerate", rate, maReplace); vs->mapSetInt(m, "length", len, maReplace);
    if (R.chance(30)) vs->mapSetInt(m, "keep", 1, maReplace);
    double fr = (double)rate * j / (1 << k), am = A / 4096.0; std::string nm = W[w];
    if (bad) switch (R.below(4)) { case 0: nm = "Sine"; break; case 1: am = INFINITY; break; case 2: fr = NAN; break; case 3: nm = ""; break; }
    vs->mapSetData(m, "waveform", nm.data(), (int)nm.size(), dtUtf8, maReplace); vs->mapSetFloat(m, "amplitude", am, maReplace); vs->mapSetFloat(m, "frequency", fr, maReplace);
    VSMap *out = vs->invoke(stdp, "BlankAudio", m); bool ok = !vs->mapGetError(out); int same = 1; std::string rows; int64_t P = 1 << k;
    if (ok) {
        VSNode *n = vs->mapGetNode(out, "clip", 0, nullptr); int nf = vs->getAudioInfo(n)->numFrames;
        for (int t = 0; t < 3; t++) {
            int fn = t == 0 ? 0 : t == 1 ? nf - 1 : R.below(nf); char e[64]; const VSFrame *f = vs->getFrame(fn, n, e, 64); if (!f) { same = 0; continue; }
            int L = vs->getFrameLength(f);
            if (memcmp(vs->getReadPtr(f, 0), vs->getReadPtr(f, 1), (size_t)L * (bits == 16 ? 2 : 4))) same = 0;
            for (int u = 0; u < 24; u++) {
                int i = u < 8 ? std::min(u, L - 1) : R.below(L); int64_t a = 0, b = 0; const uint8_t *d = vs->getReadPtr(f, 0);
                if (st) { double v = ((const float *)d)[i] * 131072.0; a = llround(v); if ((double)a != v) a = INT_MAX; }
                else if (bits == 16) a = ((const int16_t *)d)[i];
                else if (bits == 32) { int32_t v = ((const int32_t *)d)[i]; a = v >> 16; b = v & 0xffff; }
                else { int32_t v = ((const int32_t *)d)[i]; a = v >> (32 - bits); if ((uint32_t)v << bits) a = INT_MAX; }
                rows += fmt("%s[%d,%lld,%lld]", rows.empty() ? "" : ",", (int)(((int64_t)fn * Q + i) % P), (long long)a, (long long)b);
            }
            vs->freeFrame(f);
        }
        vs->freeNode(n);
    }
    emit(fmt("{\"op\":\"wave\",\"w\":\"%s\",\"bits\":%d,\"st\":%d,\"k\":%d,\"j\":%d,\"A\":%d,\"bad\":%d,\"ok\":%d,\"chsame\":%d,\"rows\":[", W[w], bits, st, k, j, A, bad, ok, same) + rows + "]}");
    vs->freeMap(m); vs->freeMap(out);
}
int main(int argc, char **argv) {
    if (argc < 4) return 2;
    open_trace(argv[3]); watchdog(60);
    Rng R(atoll(argv[1])); int steps = atoi(argv[2]);
    core = vs->createCore(0); vs->setThreadCount(1 + R.below(4), core); stdp = vs->getPluginByID("com.vapoursynth.std", core);
    for (int i = 0; i < 5; i++) addSrc(R, anyLen(R));
    std::vector<Clip> keep = pool;
    for (int i = 0; i < steps; i++) {
        if (R.chance(6)) wave(R);
        if (R.chance(10) && addSrc(R, anyLen(R))) keep.push_back(pool.back());
        while (pool.size() > 16) { int k = 2 + R.below((int)pool.size() - 2); bool src = srcs.count(pool[k].id) > 0; if (!src) vs->freeNode(pool[k].n); pool.erase(pool.begin() + k); }
        if (R.chance(15)) pool.push_back(R.pick(keep));
        Clip c = R.pick(pool); const VSAudioInfo *ai = vs->getAudioInfo(c.n); int64_t len = ai->numSamples;
        VSMap *m = vs->createMap(); std::string f, a; std::vector<Clip> ins = { c };
        auto key = [&](const char *k) { a += fmt("%s\"%s\":", a.empty() ? "" : ",", k); };
        auto optp = [&](const char *k, int pct, int64_t v) { key(k); if (R.chance(pct)) { vs->mapSetInt(m, k, v, maReplace); a += "[" + pr(v) + "]"; } else a += "[]"; };
        auto cl = [](int64_t v) { return std::max<int64_t>(-INT_MAX, std::min<int64_t>(INT_MAX, v)); };
        auto opti = [&](const char *k, const char *jk, int pct, int64_t v, int64_t logged) { key(jk); if (R.chance(pct)) { vs->mapSetInt(m, k, v, maReplace); a += fmt("[%lld]", (long long)logged); } else a += "[]"; };
        auto list = [&](const char *k, const char *jk, const std::vector<int64_t> &v) { key(jk); if (v.empty()) vs->mapSetEmpty(m, k, ptInt); else vs->mapSetIntArray(m, k, v.data(), (int)v.size()); std::vector<int64_t> w; for (auto x : v) w.push_back(cl(x)); a += jlist(w); };
        auto match = [&](bool layout) { Clip x = R.pick(pool); if (R.chance(90)) for (int t = 0; t < 40; t++) { const VSAudioInfo *p = vs->getAudioInfo(x.n); if (p->format.bitsPerSample == ai->format.bitsPerSample && p->format.sampleType == ai->format.sampleType && p->sampleRate == ai->sampleRate && (!layout || p->format.channelLayout == ai->format.channelLayout)) break; x = R.pick(pool); } return x; };
        int op = R.below(11);
        switch (op) {
            case 0: case 1: f = "AudioTrim"; { int w = R.below(4); optp("first", w == 3 ? 20 : 80, near(R, len)); optp("last", w == 0 ? 95 : 4, near(R, len)); optp("length", w == 1 ? 95 : 4, near(R, len)); } break;
            case 2: case 3: f = "AudioSplice"; { int k = R.chance(4) ? 0 : 1 + R.below(5); ins.clear(); for (int j = 0; j < k; j++) ins.push_back(j ? match(true) : c); a = "\"none\":0"; } break;
            case 4: f = "AudioLoop"; { static const int64_t t[] = { 0, 1, 2, 3, 5, 9, -1, INT_MAX, INT64_MAX, INT64_MIN }; int64_t v = R.chance(70) ? t[R.below(10)] : R.chance(50) ? (int64_t)INT_MAX * Q / len + R.range(-1, 1) : R.range(0, 3000); if (v > INT_MAX && v < INT64_MAX) v = INT_MAX;
                if (v > INT_MAX) { v = INT64_MAX; } opti("times", "times", 95, v, v > INT_MAX ? -1 : cl(v)); } break;
            case 5: f = "AudioReverse"; a = "\"none\":0"; break;
            case 6: case 7: f = "ShuffleChannels"; {
                int k = R.chance(4) ? 0 : 1 + R.below(3), nc = R.chance(90) ? std::min(k, 1 + R.below(3)) : 1 + R.below(3); ins.clear(); for (int j = 0; j < nc; j++) ins.push_back(j ? match(false) : c);
                std::vector<int64_t> ci, co;
                for (int j = 0; j < k; j++) { const VSAudioInfo *p = nc ? vs->getAudioInfo(ins[std::min(j, nc - 1)].n) : ai; std::vector<int> L; for (int b = 0; b < 64; b++) if (p->format.channelLayout >> b & 1) L.push_back(b);
                    ci.push_back(R.chance(5) ? R.range(-66, 66) : R.chance(40) ? L[R.below((int)L.size())] : R.chance(50) ? -1 - R.below((int)L.size()) : 0); co.push_back(R.chance(3) ? R.range(-2, 66) : R.chance(60) ? j : R.below(R.chance(50) ? 4 : 64)); }
                if (R.chance(3)) co.push_back(40);
                list("channels_in", "in", ci); list("channels_out", "out", co);
            } break;
            case 8: f = "SplitChannels"; a = "\"none\":0"; break;
            case 9: f = "AssumeSampleRate"; { static const int64_t t[] = { 48000, 44100, 1, 0, -5, INT_MAX, INT64_MAX, 96000 }; int64_t v = t[R.below(8)]; bool both = R.chance(5); bool s = both || R.chance(40); if (s) ins.push_back(R.pick(pool)); opti("samplerate", "rate", both ? 100 : s ? 0 : 95, v, cl(v)); } break;
            default: f = "BlankAudio"; {
                if (R.chance(50)) ins.clear();
                static const int64_t B[] = { 16, 24, 32, 15, 33, 8, 20 }; std::vector<int64_t> ch; int k = R.below(3); for (int j = 0; j < k; j++) ch.push_back(R.chance(4) ? R.range(-1, 70) : R.below(R.chance(50) ? 3 : 64));
                int64_t b = B[R.chance(70) ? R.below(3) : R.below(7)]; opti("bits", "bits", 60, b, b); int s = R.chance(25); opti("sampletype", "st", s ? 100 : 30, s, s);
                key("chans"); if (k) vs->mapSetIntArray(m, "channels", ch.data(), k);
                a += jlist(ch);
                int64_t r = R.chance(90) ? 48000 : R.chance(50) ? 0 : -3; opti("samplerate", "rate", 50, r, r); optp("length", 90, R.chance(70) ? anyLen(R) : near(R, 5 * Q)); if (R.chance(40)) vs->mapSetInt(m, "keep", 1, maReplace);
            } break;
        }
        bool multi = f == "AudioSplice" || f == "ShuffleChannels";
        for (size_t j = 0; j < ins.size(); j++) vs->mapSetNode(m, multi ? "clips" : j ? "src" : "clip", ins[j].n, maAppend);
        if (multi && ins.empty()) vs->mapSetEmpty(m, "clips", ptAudioNode);
        std::string s = fmt("{\"op\":\"call\",\"f\":\"%s\",\"ins\":[", f.c_str()); for (size_t j = 0; j < ins.size(); j++) s += fmt("%s%d", j ? "," : "", ins[j].id);
        s += "],\"a\":{" + a + "}";
        if (getenv("VP_DEBUG")) { emit("# " + s); fflush(trf); }
        VSMap *out = vs->invoke(stdp, f.c_str(), m); const char *er = vs->mapGetError(out);
        if (er) emit(s + ",\"ok\":0,\"err\":" + jstr(er) + ",\"outs\":[]}");
        else {
            s += ",\"ok\":1,\"err\":\"\",\"outs\":["; int no = vs->mapNumElements(out, "clip"); std::vector<Clip> made; int dep = 0; for (auto &x : ins) dep = std::max(dep, x.depth + 1);
            for (int j = 0; j < no; j++) { Clip r{ nextId++, vs->mapGetNode(out, "clip", j, nullptr), dep }; s += fmt("%s{\"id\":%d,\"info\":", j ? "," : "", r.id) + info(vs->getAudioInfo(r.n)) + "}"; made.push_back(r); }
            emit(s + "]}");
            for (auto &r : made) look_at(R, r);
            for (auto &r : made) if (r.depth < 9) pool.push_back(r); else vs->freeNode(r.n);
        }
        vs->freeMap(m); vs->freeMap(out);
    }
    close_trace(); _exit(0);
}
