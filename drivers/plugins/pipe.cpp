// Source filters for the vspipe check: sample bytes are a function of frame, plane and position,
// frames complete out of order, some fail, and every activation is logged together with the
// properties it attached.
#include "../vsdrv.h"
#include <cmath>

struct Src {
    VSVideoInfo vi{};
    VSAudioInfo ai{};
    bool audio = false;
    int id = 0, seed = 0, delay = 0, props = 0;
    std::set<int> fail;
    std::vector<int64_t> num, den;
    FILE *log = nullptr;
    std::mutex m;
    void line(const std::string &s) {
        std::lock_guard<std::mutex> l(m);
        fwrite((s + "\n").data(), 1, s.size() + 1, log);
        fflush(log);
    }
};

static uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 1000003 + b + 7);
    return r.next() >> 11;
}

static void props(Src *s, int n, VSMap *m) {
    Rng r(mix(s->seed + 31 * s->id, n));
    if (!s->num.empty()) {
        size_t k = (size_t)n % s->num.size();
        if (s->den[k] != -99) {      // -99: no duration on that frame
            vs->mapSetInt(m, "_DurationNum", s->num[k], maReplace);
            vs->mapSetInt(m, "_DurationDen", s->den[k], maReplace);
        }
    }
    if (!s->props) return;
    std::vector<std::string> keys = { "a", "Zeta", "_x1", "key_with_a_long_name", "b2", "_Combed", "q" };
    int cnt = r.below(5);
    for (int i = 0; i < cnt; i++) {
        std::string k = keys[i * 3 % 7];
        switch (r.below(8)) {
        case 0: vs->mapSetInt(m, k.c_str(), (int64_t)(r.next() >> (r.below(60))) * (r.chance(50) ? 1 : -1), maReplace); break;
        case 1: for (int j = r.range(2, 4); j > 0; j--) vs->mapSetInt(m, k.c_str(), r.below(100) - 50, maAppend); break;
        case 2: vs->mapSetFloat(m, k.c_str(), r.chance(10) ? (r.chance(50) ? HUGE_VAL : std::nan("")) : (r.below(4000) - 2000) / 4.0, maReplace); break;
        case 3: for (int j = r.range(2, 3); j > 0; j--) vs->mapSetFloat(m, k.c_str(), (r.below(400) - 200) / 4.0, maAppend); break;
        case 4: case 5: {
            for (int j = r.chance(60) ? 1 : 2; j > 0; j--) {
                std::string v;
                int hint = r.pick(std::vector<int>{ dtUtf8, dtUtf8, dtUnknown, dtBinary });
                bool big = r.chance(15);
                int len = big ? r.range(198, 202) : r.below(9), plain = big || r.chance(30) ? 100 : 70;
                for (int q = 0; q < len; q++)
                    v += r.chance(plain) ? (char)r.range(0x20, 0x7e) : r.chance(60) ? "\n\t\"\\\b\f\r"[r.below(7)] : r.chance(50) ? (char)r.below(32) : (char)0x7f;
                if (hint == dtUtf8 && r.chance(25)) v += "\xc3\xa9\xe2\x82\xac";
                if (hint != dtUtf8 && r.chance(20)) v += "\xff\x80";
                vs->mapSetData(m, k.c_str(), v.data(), (int)v.size(), hint, maAppend);
            }
            break;
        }
        case 6: vs->mapSetEmpty(m, k.c_str(), r.pick(std::vector<int>{ ptInt, ptFloat, ptData, ptVideoFrame })); break;
        case 7: vs->mapSetInt(m, k.c_str(), r.below(3), maReplace); break;
        }
    }
}

static std::string joined(const std::vector<std::string> &l) {
    std::string o;
    for (auto &x : l) o += (o.empty() ? "" : ",") + x;
    return o;
}

static std::string describe(const VSMap *m) {
    std::string o = "{";
    for (int i = 0; i < vs->mapNumKeys(m); i++) {
        const char *k = vs->mapGetKey(m, i);
        int n = vs->mapNumElements(m, k), t = vs->mapGetType(m, k);
        std::vector<std::string> l;
        for (int j = 0; j < n; j++) {
            if (t == ptInt) l.push_back(fmt("[\"i\",\"%lld\"]", (long long)vs->mapGetInt(m, k, j, nullptr)));
            else if (t == ptFloat && !std::isfinite(vs->mapGetFloat(m, k, j, nullptr))) l.push_back("[\"z\",\"\"]");
            else if (t == ptFloat) l.push_back(fmt("[\"f\",\"%lld\"]", (long long)(vs->mapGetFloat(m, k, j, nullptr) * 4)));
            else if (t == ptData) {
                std::string v(vs->mapGetData(m, k, j, nullptr), vs->mapGetDataSize(m, k, j, nullptr));
                l.push_back(fmt("[\"d%d\",%s]", vs->mapGetDataTypeHint(m, k, j, nullptr), codes(v).c_str()));
            } else l.push_back("[\"o\",\"\"]");
        }
        o += std::string(i ? "," : "") + jstr(k) + ":[" + joined(l) + "]";
    }
    return o + "}";
}

static const VSFrame *VS_CC get(int n, int reason, void *inst, void **, VSFrameContext *ctx, VSCore *core, const VSAPI *) {
    Src *s = (Src *)inst;
    if (reason != arInitial) return nullptr;
    s->line(fmt("{\"s\":%d,\"id\":%d}", n, s->id));
    if (s->delay) {
        // either anything up to delay, or now and then a frame all others overtake
        int d = s->delay > 0 ? (int)(mix(s->seed * 77 + s->id, n) % (uint64_t)(s->delay + 1)) : n % 13 == s->seed % 5 ? -s->delay : 0;
        if (d) std::this_thread::sleep_for(std::chrono::microseconds(d));
    }
    if (s->fail.count(n)) {
        s->line(fmt("{\"f\":%d,\"id\":%d}", n, s->id));
        vs->setFilterError(fmt("planned failure %d", n).c_str(), ctx);
        return nullptr;
    }
    VSFrame *f;
    if (s->audio) {
        f = vs->newAudioFrame(&s->ai.format, (int)std::min<int64_t>(VS_AUDIO_FRAME_SAMPLES, s->ai.numSamples - (int64_t)n * VS_AUDIO_FRAME_SAMPLES), nullptr, core);
        int bps = s->ai.format.bytesPerSample, len = vs->getFrameLength(f);
        bool b24 = s->ai.format.bitsPerSample <= 24 && bps == 4;
        for (int c = 0; c < s->ai.format.numChannels; c++) {
            uint8_t *p = vs->getWritePtr(f, c);
            for (int i = 0; i < len; i++) {
                int64_t q = (int64_t)n * VS_AUDIO_FRAME_SAMPLES + i;
                for (int b = 0; b < bps; b++)
                    p[i * bps + b] = b24 && b == 0 ? 0 : (uint8_t)(q * 7 + q / 256 * 13 + c * 29 + b * 71 + s->seed);
            }
        }
    } else {
        f = vs->newVideoFrame(&s->vi.format, s->vi.width, s->vi.height, nullptr, core);
        int bps = s->vi.format.bytesPerSample;
        for (int p = 0; p < s->vi.format.numPlanes; p++) {
            uint8_t *w = vs->getWritePtr(f, p);
            for (int y = 0; y < vs->getFrameHeight(f, p); y++, w += vs->getStride(f, p))
                for (int x = 0; x < vs->getFrameWidth(f, p); x++)
                    for (int b = 0; b < bps; b++)
                        w[x * bps + b] = (uint8_t)(n * 37 + p * 11 + x * 3 + y * 5 + b * 71 + s->seed);
        }
    }
    VSMap *m = vs->getFramePropertiesRW(f);
    props(s, n, m);
    if (s->props == 2 && n % 3 == 0 && !s->audio) {
        VSFrame *c = vs->copyFrame(f, core);
        vs->mapSetFrame(m, "_Alpha", c, maReplace);
        vs->freeFrame(c);
    }
    s->line(fmt("{\"d\":%d,\"id\":%d,\"p\":%s}", n, s->id, describe(m).c_str()));
    return f;
}

static void VS_CC fin(void *inst, VSCore *, const VSAPI *) {
    Src *s = (Src *)inst;
    fclose(s->log);
    delete s;
}

static int64_t geti(const VSMap *in, const char *k, int64_t def) {
    int e;
    int64_t v = vs->mapGetInt(in, k, 0, &e);
    return e ? def : v;
}

static void VS_CC create(const VSMap *in, VSMap *out, void *ud, VSCore *core, const VSAPI *api) {
    vs = api;
    Src *s = new Src;
    s->audio = ud != nullptr;
    s->id = (int)geti(in, "id", 0);
    s->seed = (int)geti(in, "seed", 0);
    s->delay = (int)geti(in, "delay", 0);
    s->props = (int)geti(in, "props", 0);
    for (int i = 0; i < vs->mapNumElements(in, "fail"); i++) s->fail.insert((int)vs->mapGetInt(in, "fail", i, nullptr));
    for (int i = 0; i < vs->mapNumElements(in, "num"); i++) {
        s->num.push_back(vs->mapGetInt(in, "num", i, nullptr));
        s->den.push_back(vs->mapGetInt(in, "den", i, nullptr));
    }
    s->log = fopen(vs->mapGetData(in, "log", 0, nullptr), "ab");
    if (!s->log) { vs->mapSetError(out, "pipe: no log"); delete s; return; }
    if (s->audio) {
        if (!vs->queryAudioFormat(&s->ai.format, (int)geti(in, "sample", 0), (int)geti(in, "bits", 16), (uint64_t)geti(in, "layout", 3), core)) {
            vs->mapSetError(out, "pipe: bad audio format"); return;
        }
        s->ai.sampleRate = (int)geti(in, "rate", 44100);
        s->ai.numSamples = geti(in, "length", 1);
        vs->createAudioFilter(out, "PipeAudio", &s->ai, get, fin, fmParallel, nullptr, 0, s, core);
    } else {
        if (!vs->getVideoFormatByID(&s->vi.format, (uint32_t)geti(in, "format", 0), core)) { vs->mapSetError(out, "pipe: bad format"); return; }
        s->vi.width = (int)geti(in, "width", 1);
        s->vi.height = (int)geti(in, "height", 1);
        s->vi.numFrames = (int)geti(in, "length", 1);
        s->vi.fpsNum = geti(in, "fpsnum", 24);
        s->vi.fpsDen = geti(in, "fpsden", 1);
        vs->createVideoFilter(out, "PipeVideo", &s->vi, get, fin, fmParallel, nullptr, 0, s, core);
    }
}

VS_EXTERNAL_API(void) VapourSynthPluginInit2(VSPlugin *plugin, const VSPLUGINAPI *api) {
    api->configPlugin("vp.pipe", "vppipe", "vspipe check sources", VS_MAKE_VERSION(1, 0), VAPOURSYNTH_API_VERSION, 0, plugin);
    const char *common = "log:data;id:int:opt;seed:int:opt;delay:int:opt;props:int:opt;fail:int[]:opt;num:int[]:opt;den:int[]:opt;length:int;";
    api->registerFunction("Video", (std::string(common) + "format:int;width:int;height:int;fpsnum:int:opt;fpsden:int:opt;").c_str(), "clip:vnode;", create, nullptr, plugin);
    api->registerFunction("Audio", (std::string(common) + "bits:int;sample:int:opt;layout:int:opt;rate:int:opt;").c_str(), "clip:anode;", create, (void *)1, plugin);
}
