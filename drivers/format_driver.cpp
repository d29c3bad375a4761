// Every question about formats, the sensible ones and the others.
// usage: format_driver SEED WIDE N TRACE
#include "vsdrv.h"
static VSCore *core;
static const VSFrame *VS_CC gf(int, int, void *, void **, VSFrameContext *, VSCore *, const VSAPI *) { return nullptr; }
static bool fresh(const void *p, size_t n, unsigned char c) { for (size_t i = 0; i < n; i++) if (((const unsigned char *)p)[i] != c) return false; return true; }
// name, or "" when refused; "!" when more than 32 bytes were touched
static std::string vname(const VSVideoFormat &f) { char b[64]; memset(b, 0x5a, 64); if (!vs->getVideoFormatName(&f, b)) return ""; return fresh(b + 32, 32, 0x5a) && memchr(b, 0, 32) ? b : "!"; }
static std::string aname(const VSAudioFormat &f) { char b[64]; memset(b, 0x5a, 64); if (!vs->getAudioFormatName(&f, b)) return ""; return fresh(b + 32, 32, 0x5a) && memchr(b, 0, 32) ? b : "!"; }
static std::string row(int cf, int st, int bits, int w, int h, bool node) {
    VSVideoFormat f; memset(&f, 0x77, sizeof f);
    int ok = vs->queryVideoFormat(&f, cf, st, bits, w, h, core) ? 1 : 0;
    int echo = ok && f.colorFamily == cf && f.sampleType == st && f.bitsPerSample == bits && f.subSamplingW == w && f.subSamplingH == h;
    uint32_t id = vs->queryVideoFormatID(cf, st, bits, w, h, core);
    int back = 1;
    if (id) { VSVideoFormat g; memset(&g, 0x33, sizeof g); back = vs->getVideoFormatByID(&g, id, core) && g.colorFamily == cf && g.sampleType == st && g.bitsPerSample == bits && g.subSamplingW == w && g.subSamplingH == h && g.bytesPerSample == f.bytesPerSample && g.numPlanes == f.numPlanes; }
    VSVideoFormat m{}; m.colorFamily = cf; m.sampleType = st; m.bitsPerSample = bits; m.subSamplingW = w; m.subSamplingH = h; m.numPlanes = cf == cfGray ? 1 : 3; m.bytesPerSample = bits <= 8 ? 1 : bits <= 16 ? 2 : 4;
    int made = 2;
    if (node) { VSVideoInfo vi{}; vi.format = m; vi.width = vi.height = 64; vi.numFrames = 1; vi.fpsNum = 1; vi.fpsDen = 1; VSNode *n = vs->createVideoFilter2("f", &vi, gf, nullptr, fmParallel, nullptr, 0, nullptr, core); made = n ? 1 : 0; vs->freeNode(n); }
    return fmt("[%d,%d,%d,%d,%d,%d,%u,%u,%d,%s,%d]", w, h, ok, echo, ok ? f.bytesPerSample : 0, ok ? f.numPlanes : 0, id >> 16, id & 0xffff, back, jstr(vname(m)).c_str(), made);
}
static std::string idrow(uint32_t id) {
    VSVideoFormat f; memset(&f, 0x77, sizeof f); int ok = vs->getVideoFormatByID(&f, id, core) ? 1 : 0;
    if (!ok) memset(&f, 0, sizeof f);
    return fmt("[%u,%u,%d,%d,%d,%d,%d,%d,%d,%d]", id >> 16, id & 0xffff, ok, f.colorFamily, f.sampleType, f.bitsPerSample, f.subSamplingW, f.subSamplingH, f.bytesPerSample, f.numPlanes);
}
static std::string arow(int st, int bits, uint64_t layout) {
    VSAudioFormat f; memset(&f, 0x77, sizeof f);
    int ok = vs->queryAudioFormat(&f, st, bits, layout, core) ? 1 : 0, n = 0; std::string b = "[";
    for (int i = 0; i < 64; i++) if (layout >> i & 1) { b += fmt("%s%d", n++ ? "," : "", i); }
    int echo = ok && f.sampleType == st && f.bitsPerSample == bits && f.channelLayout == layout;
    VSAudioFormat m{}; m.sampleType = st; m.bitsPerSample = bits; m.bytesPerSample = bits <= 16 ? 2 : 4; m.numChannels = n; m.channelLayout = layout;
    return fmt("[%d,%d,%s],%d,%d,%d,%d,%s]", st, bits, b.c_str(), ok, echo, ok ? f.bytesPerSample : 0, ok ? f.numChannels : 0, jstr(aname(m)).c_str());
}
template<typename F> static void rows(const std::string &head, int n, F f) { std::string s = head; for (int i = 0; i < n; i++) s += (i ? "," : "") + f(i); emit(s + "]}"); }
#define PRESETS X(Gray8) X(Gray9) X(Gray10) X(Gray12) X(Gray14) X(Gray16) X(Gray32) X(GrayH) X(GrayS) X(YUV410P8) X(YUV411P8) X(YUV440P8) X(YUV420P8) X(YUV422P8) X(YUV444P8) X(YUV420P9) X(YUV422P9) X(YUV444P9) \
  X(YUV420P10) X(YUV422P10) X(YUV444P10) X(YUV420P12) X(YUV422P12) X(YUV444P12) X(YUV420P14) X(YUV422P14) X(YUV444P14) X(YUV420P16) X(YUV422P16) X(YUV444P16) X(YUV420PH) X(YUV420PS) X(YUV422PH) X(YUV422PS) X(YUV444PH) X(YUV444PS) \
  X(RGB24) X(RGB27) X(RGB30) X(RGB36) X(RGB42) X(RGB48) X(RGBH) X(RGBS)
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    open_trace(argv[4]); watchdog(60);
    Rng R(atoll(argv[1])); bool wide = atoi(argv[2]); int N = atoi(argv[3]);
    core = vs->createCore(0);
    { VSVideoFormat f; memset(&f, 0x77, sizeof f); int a = vs->queryVideoFormat(&f, cfUndefined, stInteger, 0, 0, 0, core) && fresh(&f, sizeof f, 0); uint32_t i = vs->queryVideoFormatID(cfUndefined, stInteger, 0, 0, 0, core); VSVideoFormat g; memset(&g, 0x77, sizeof g); int b = vs->getVideoFormatByID(&g, pfNone, core) && fresh(&g, sizeof g, 0);
      std::string s = fmt("{\"op\":\"p\",\"undef\":[%d,%u,%d,%s],\"rows\":[", a, i, b, jstr(vname(f)).c_str()); int k = 0;
#define X(n) { VSVideoFormat h; memset(&h, 0, sizeof h); std::string nm = vs->getVideoFormatByID(&h, pf##n, core) ? vname(h) : "refused"; s += fmt("%s[%s,\"" #n "\"]", k++ ? "," : "", jstr(nm).c_str()); }
      PRESETS
#undef X
      emit(s + "]}"); }
    std::vector<int> cfs = { 1, 2, 3, 4, 5, 8, 15, 16, 17, 18, 19, -1, 1000000 }, sts = { 0, 1, 2, 3, -1, 15, 16, 256 }, bs, ss = { 0, 1, 2, 3, 4, 5, 6, -1, 8, 16, 255, 256, 260, 2147483647, -2147483647 };
    for (int b = -1; b < (wide ? 300 : 70); b++) bs.push_back(b);
    for (int b : { 256 + 8, 256 + 16, 65536 + 8, 2147483647, -2147483647, -8 }) bs.push_back(b);
    for (int cf : cfs) for (int st : sts) for (int b : bs) {
        bool near = cf >= 1 && cf <= 3 && st >= 0 && st <= 1 && b >= 7 && b <= 33;
        if (!near && !wide && R.chance(70)) continue;
        std::string s = fmt("{\"op\":\"v\",\"cf\":%d,\"st\":%d,\"bits\":%d,\"rows\":[", cf, st, b); int n = 0;
        for (size_t i = 0; i < ss.size(); i++) for (size_t j = 0; j < ss.size(); j++) {
            if (!(near && i < 8 && j < 8) && !R.chance(wide ? 30 : 6)) continue;
            s += (n++ ? "," : "") + row(cf, st, b, ss[i], ss[j], R.chance(30));
        }
        emit(s + "]}");
    }
    // identifiers: those of formats with one byte or bit changed, and any number
    std::vector<uint32_t> good;
    for (int cf = 1; cf < 4; cf++) for (int st = 0; st < 2; st++) for (int b = 8; b <= 32; b++) for (int w = 0; w < 5; w++) for (int h = 0; h < 5; h++) { uint32_t i = vs->queryVideoFormatID(cf, st, b, w, h, core); if (i) good.push_back(i); }
    if (good.empty()) good.push_back(1);
    for (int k = 0; k < N; k++) rows("{\"op\":\"id\",\"rows\":[", 100, [&](int) {
        uint32_t id = R.pick(good);
        switch (R.below(6)) {
            case 0: break;
            case 1: id ^= 1u << R.below(32); break;
            case 2: { int sh = 8 * R.below(4); id = (id & ~(255u << sh)) | (uint32_t)R.below(256) << sh; break; }
            case 3: id = (uint32_t)R.next(); break;
            case 4: id = (id & 0x0fffffff) | (uint32_t)R.below(16) << 28; break;
            case 5: id ^= 1u << R.below(32); id ^= 1u << R.below(32); break;
        }
        return idrow(id);
    });
    // audio
    static const int ch[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 29, 30, 31, 32, 33, 34, 35 };
    for (int st : sts) for (int b : bs) {
        if (!(st >= 0 && st <= 1 && b >= 14 && b <= 34) && !wide && R.chance(60)) continue;
        rows("{\"op\":\"a\",\"rows\":[", 12, [&](int i) {
            uint64_t l = 0; if (i == 1) l = 1; else if (i == 2) l = 3; else if (i == 3) l = 1ull << 35; else if (i == 4) for (int c : ch) l |= 1ull << c; else if (i) for (int n = R.range(1, 25); n > 0; n--) l |= 1ull << ch[R.below(25)];
            return arow(st, b, l);
        });
    }
    vs->freeCore(core);
    close_trace(); _exit(0);
}
