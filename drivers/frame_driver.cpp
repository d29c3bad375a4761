// Random histories on frames, their planes and properties, and maps holding frames.
// usage: frame_driver SEED SESSIONS OPS MODE TRACE     MODE: seq | conc | big
#include "vsdrv.h"
#include "perturb.h"
struct Shape { int audio, cf, st, bits, ssw, ssh, w, h, ch; int np; std::vector<int> pb; };   // pb: plane buffer class per plane
struct Fr { VSFrame *f; int shape; int refs; std::vector<const uint8_t *> held; };
static VSCore *core;
static std::vector<Shape> shapes;
static std::vector<std::vector<int64_t>> classes;  // plane classes: {w,h,bytes}
static std::atomic<int> fidc{0}, stampc{0};
static int64_t used() { VSCoreInfo i; vs->getCoreInfo(core, &i); return i.usedFramebufferSize; }
static int planeLen(const Shape &s, int p, int &rows) {     // bytes per row and rows of plane p
    if (s.audio) { rows = 1; return s.w * (s.bits <= 16 ? 2 : 4); }
    int bps = s.bits <= 8 ? 1 : s.bits <= 16 ? 2 : 4;
    rows = p ? s.h >> s.ssh : s.h; return (p ? s.w >> s.ssw : s.w) * bps;
}
static void probes(const Shape &s, int p, std::vector<size_t> &off, ptrdiff_t stride) {
    int rows; int len = planeLen(s, p, rows);
    off = {0, (size_t)len - 1, (size_t)(rows - 1) * stride, (size_t)(rows - 1) * stride + len - 1, (size_t)(rows / 2) * stride + len / 2};
    // distinct positions only
    std::vector<size_t> d; for (auto x : off) { bool dup = false; for (auto y : d) dup |= x == y; if (!dup) d.push_back(x); }
    off = d;
}
static std::string readP(const Shape &s, int p, const uint8_t *ptr, ptrdiff_t stride) {
    std::vector<size_t> off; probes(s, p, off, stride);
    std::vector<int> v; for (auto o : off) v.push_back(ptr ? ptr[o] : -1);
    return jlist(v);
}
static ptrdiff_t strideOf(const Shape &s, const VSFrame *f, int p) { return s.audio ? 0 : vs->getStride(f, p); }
static std::string propsOf(const VSFrame *f) {
    const VSMap *m = vs->getFramePropertiesRO(f);
    std::map<std::string, std::string> o;
    for (int i = 0; i < vs->mapNumKeys(m); i++) {
        const char *k = vs->mapGetKey(m, i);
        std::vector<int> v; for (int j = 0; j < vs->mapNumElements(m, k); j++) v.push_back((int)vs->mapGetInt(m, k, j, nullptr));
        o[k] = jlist(v);
    }
    std::string r = "{"; for (auto &x : o) r += (r.size() > 1 ? "," : "") + jstr(x.first) + ":" + x.second;
    return r + "}";
}
static void dump(int id, const Fr &F, int th) {
    const Shape &s = shapes[F.shape];
    std::string pl = "[";
    for (int p = 0; p < s.np; p++) pl += (p ? "," : "") + readP(s, p, vs->getReadPtr(F.f, p), strideOf(s, F.f, p));
    emit(fmt("{\"op\":\"dump\",\"t\":%d,\"f\":%d,\"pl\":%s],\"pr\":%s}", th, id, pl.c_str(), propsOf(F.f).c_str()));
}
static void run(int th, Rng r, int ops, bool log_used, std::vector<std::pair<int, const VSFrame *>> base, std::vector<int> baseShape) {
    std::map<int, Fr> fr;
    VSMap *maps[2] = {vs->createMap(), vs->createMap()};
    std::vector<int> inmap[2];     // frame ids stored under "f"
    static const char *keys[] = {"a", "b", "_x"};
    auto usedS = [&] { return log_used ? (long long)used() : -1LL; };
    auto alive = [&](int id) { auto i = fr.find(id); return i != fr.end(); };
    auto pickf = [&]() -> int { if (fr.empty()) return -1; auto i = fr.begin(); std::advance(i, r.below((int)fr.size())); return i->first; };
    for (size_t i = 0; i < base.size(); i++) {     // shared read-only frames of the other threads: copy them first
        int id = ++fidc; fr[id] = {vs->copyFrame(base[i].second, core), baseShape[i], 1, {}};
        emit(fmt("{\"op\":\"copy\",\"t\":%d,\"f\":%d,\"src\":%d,\"used\":%lld}", th, id, base[i].first, usedS()));
    }
    auto stampAll = [&](int id) {
        Fr &F = fr[id]; const Shape &s = shapes[F.shape];
        std::string pl = "[";
        for (int p = 0; p < s.np; p++) {
            uint8_t *w = vs->getWritePtr(F.f, p); std::vector<size_t> off; probes(s, p, off, strideOf(s, F.f, p));
            std::vector<int> v; for (auto o : off) { int b = r.below(256); w[o] = (uint8_t)b; v.push_back(b); }
            pl += (p ? "," : "") + jlist(v);
        }
        return pl + "]";
    };
    for (int o = 0; o < ops; o++) {
        int k = r.below(100); int id = pickf();
        if (fr.size() > 14 && k < 30) k = 60;
        if (id < 0 || k < 8) {
            int sh = r.below((int)shapes.size()); const Shape &s = shapes[sh]; int src = r.chance(40) ? id : -1;
            int64_t u0 = log_used ? used() : 0;
            VSFrame *f;
            if (s.audio) { VSAudioFormat af; uint64_t layout = s.ch == 1 ? 1 : s.ch == 2 ? 3 : 7; vs->queryAudioFormat(&af, s.st, s.bits, layout, core); f = vs->newAudioFrame(&af, s.w, src >= 0 ? fr[src].f : nullptr, core); }
            else { VSVideoFormat vf; vs->queryVideoFormat(&vf, s.cf, s.st, s.bits, s.ssw, s.ssh, core); f = vs->newVideoFrame(&vf, s.w, s.h, src >= 0 ? fr[src].f : nullptr, core); }
            int64_t d = log_used ? used() - u0 : -1;
            int nid = ++fidc; fr[nid] = {f, sh, 1, {}};
            std::string pl = stampAll(nid);
            emit(fmt("{\"op\":\"new\",\"t\":%d,\"f\":%d,\"sh\":%d,\"src\":%d,\"pl\":%s,\"delta\":%lld,\"used\":%lld}", th, nid, sh, src, pl.c_str(), (long long)d, usedS()));
        } else if (k < 18) {      // frame built from planes of others
            int sh = r.below((int)shapes.size()); const Shape &s = shapes[sh];
            const VSFrame *src[8] = {}; int pl[8] = {}; std::string js = "[";
            for (int p = 0; p < s.np; p++) {
                int a = r.chance(75) ? pickf() : -1; int ap = 0; bool ok = false;
                if (a >= 0) { const Shape &t = shapes[fr[a].shape]; for (int tr = 0; tr < 4 && !ok; tr++) { ap = r.below(t.np); ok = t.audio == s.audio && t.pb[ap] == s.pb[p]; } }
                if (ok) { src[p] = fr[a].f; pl[p] = ap; } else a = -1;
                js += fmt("%s[%d,%d]", p ? "," : "", a, ap);
            }
            int ps = r.chance(50) ? id : -1; const VSFrame *prop = ps >= 0 ? fr[ps].f : nullptr;
            int64_t u0 = log_used ? used() : 0;
            VSFrame *f;
            if (s.audio) { VSAudioFormat af; uint64_t layout = s.ch == 1 ? 1 : s.ch == 2 ? 3 : 7; vs->queryAudioFormat(&af, s.st, s.bits, layout, core); f = vs->newAudioFrame2(&af, s.w, src, pl, prop, core); }
            else { VSVideoFormat vf; vs->queryVideoFormat(&vf, s.cf, s.st, s.bits, s.ssw, s.ssh, core); f = vs->newVideoFrame2(&vf, s.w, s.h, src, pl, prop, core); }
            int64_t d = log_used ? used() - u0 : -1;
            int nid = ++fidc; fr[nid] = {f, sh, 1, {}};
            std::string vals = "[";      // planes without a source are stamped
            for (int p = 0; p < s.np; p++) {
                std::vector<int> v;
                if (!src[p]) { uint8_t *w = vs->getWritePtr(f, p); std::vector<size_t> off; probes(s, p, off, strideOf(s, f, p)); for (auto q : off) { int b = r.below(256); w[q] = (uint8_t)b; v.push_back(b); } }
                vals += (p ? "," : "") + jlist(v);
            }
            emit(fmt("{\"op\":\"new2\",\"t\":%d,\"f\":%d,\"sh\":%d,\"src\":%d,\"from\":%s],\"pl\":%s],\"delta\":%lld,\"used\":%lld}", th, nid, sh, ps, js.c_str(), vals.c_str(), (long long)d, usedS()));
        } else if (k < 28) { int nid = ++fidc; fr[nid] = {vs->copyFrame(fr[id].f, core), fr[id].shape, 1, {}}; emit(fmt("{\"op\":\"copy\",\"t\":%d,\"f\":%d,\"src\":%d,\"used\":%lld}", th, nid, id, usedS())); }
        else if (k < 45) {        // write one position
            Fr &F = fr[id]; const Shape &s = shapes[F.shape]; int p = r.below(s.np);
            F.held.assign(F.held.size(), nullptr);
            int64_t u0 = log_used ? used() : 0;
            uint8_t *w = vs->getWritePtr(F.f, p);
            int64_t d = log_used ? used() - u0 : -1;
            std::vector<size_t> off; probes(s, p, off, strideOf(s, F.f, p)); int q = r.below((int)off.size()), b = r.below(256);
            w[off[q]] = (uint8_t)b;
            emit(fmt("{\"op\":\"write\",\"t\":%d,\"f\":%d,\"p\":%d,\"q\":%d,\"b\":%d,\"delta\":%lld,\"used\":%lld}", th, id, p, q, b, (long long)d, usedS()));
        } else if (k < 55) {
            Fr &F = fr[id]; VSMap *m = vs->getFramePropertiesRW(F.f); const char *key = keys[r.below(3)];
            int v = r.below(1000), w = r.below(4);
            if (w == 0) { vs->mapDeleteKey(m, key); emit(fmt("{\"op\":\"pdel\",\"t\":%d,\"f\":%d,\"k\":\"%s\"}", th, id, key)); }
            else { vs->mapSetInt(m, key, v, w == 1 ? maAppend : maReplace); emit(fmt("{\"op\":\"pset\",\"t\":%d,\"f\":%d,\"k\":\"%s\",\"v\":%d,\"app\":%d}", th, id, key, v, w == 1)); }
        } else if (k < 58) { int b2 = pickf(); if (b2 == id) continue; vs->copyMap(vs->getFramePropertiesRO(fr[id].f), vs->getFramePropertiesRW(fr[b2].f)); emit(fmt("{\"op\":\"pcopy\",\"t\":%d,\"f\":%d,\"src\":%d}", th, b2, id)); }
        else if (k < 66) { vs->freeFrame(fr[id].f); if (--fr[id].refs == 0) fr.erase(id); emit(fmt("{\"op\":\"free\",\"t\":%d,\"f\":%d,\"used\":%lld}", th, id, usedS())); }
        else if (k < 69) { vs->addFrameRef(fr[id].f); fr[id].refs++; emit(fmt("{\"op\":\"ref\",\"t\":%d,\"f\":%d}", th, id)); }
        else if (k < 73) { int m = r.below(2); bool app = r.chance(60); if (vs->mapSetFrame(maps[m], "f", fr[id].f, app ? maAppend : maReplace)) { emit(fmt("{\"op\":\"msetf\",\"t\":%d,\"m\":%d,\"f\":%d,\"used\":%lld}", th, m, id, usedS())); continue; }
                           if (!app) inmap[m].clear(); inmap[m].push_back(id);
                           emit(fmt("{\"op\":\"mset\",\"t\":%d,\"m\":%d,\"f\":%d,\"app\":%d,\"used\":%lld}", th, m, id, (int)app, usedS())); }
        else if (k < 76) { int m = r.below(2); vs->clearMap(maps[m]); inmap[m].clear(); emit(fmt("{\"op\":\"mclr\",\"t\":%d,\"m\":%d,\"used\":%lld}", th, m, usedS())); }
        else if (k < 79) { int m = r.below(2); vs->copyMap(maps[m], maps[1 - m]); if (!inmap[m].empty()) inmap[1 - m] = inmap[m]; emit(fmt("{\"op\":\"mcopy\",\"t\":%d,\"m\":%d,\"used\":%lld}", th, m, usedS())); }
        else if (k < 84) {        // take a frame out of a map again, copy it
            int m = r.below(2); if (inmap[m].empty()) continue; int i = r.below((int)inmap[m].size());
            const VSFrame *g = vs->mapGetFrame(maps[m], "f", i, nullptr);
            int oid = inmap[m][i]; VSFrame *c = vs->copyFrame(g, core);
            int sh = 0; // shape from the frame
            if (vs->getFrameType(g) == mtAudio) { const VSAudioFormat *a = vs->getAudioFrameFormat(g); for (size_t x = 0; x < shapes.size(); x++) if (shapes[x].audio && shapes[x].ch == a->numChannels && shapes[x].bits == a->bitsPerSample && shapes[x].st == a->sampleType && shapes[x].w == vs->getFrameLength(g)) sh = (int)x; }
            else { const VSVideoFormat *a = vs->getVideoFrameFormat(g); for (size_t x = 0; x < shapes.size(); x++) if (!shapes[x].audio && shapes[x].cf == a->colorFamily && shapes[x].bits == a->bitsPerSample && shapes[x].st == a->sampleType && shapes[x].ssw == a->subSamplingW && shapes[x].ssh == a->subSamplingH && shapes[x].w == vs->getFrameWidth(g, 0) && shapes[x].h == vs->getFrameHeight(g, 0)) sh = (int)x; }
            vs->freeFrame(g);
            int nid = ++fidc; fr[nid] = {c, sh, 1, {}};
            emit(fmt("{\"op\":\"copy\",\"t\":%d,\"f\":%d,\"src\":%d,\"used\":%lld}", th, nid, oid, usedS()));
        } else if (k < 88) { Fr &F = fr[id]; F.held.clear(); for (int p = 0; p < shapes[F.shape].np; p++) F.held.push_back(vs->getReadPtr(F.f, p)); }
        else if (k < 93) {       // read through pointers taken earlier
            Fr &F = fr[id]; const Shape &s = shapes[F.shape];
            for (size_t p = 0; p < F.held.size(); p++) if (F.held[p]) emit(fmt("{\"op\":\"rd\",\"t\":%d,\"f\":%d,\"p\":%d,\"v\":%s}", th, id, (int)p, readP(s, (int)p, F.held[p], strideOf(s, F.f, (int)p)).c_str()));
        } else dump(id, fr[id], th);
        if (r.chance(20)) { id = pickf(); if (id >= 0 && alive(id)) dump(id, fr[id], th); }
    }
    for (auto &x : fr) dump(x.first, x.second, th);
    for (int m = 0; m < 2; m++) { vs->freeMap(maps[m]); emit(fmt("{\"op\":\"mclr\",\"t\":%d,\"m\":%d,\"used\":%lld}", th, m, usedS())); }
    while (!fr.empty()) { int id = pickf(); vs->freeFrame(fr[id].f); if (--fr[id].refs == 0) fr.erase(id); emit(fmt("{\"op\":\"free\",\"t\":%d,\"f\":%d,\"used\":%lld}", th, id, usedS())); }
}
int main(int argc, char **argv) {
    if (argc < 6) return 3;
    Rng r(atoi(argv[1])); int sessions = atoi(argv[2]), ops = atoi(argv[3]); std::string mode = argv[4];
    open_trace(argv[5]); watchdog(25);
    for (int s = 0; s < sessions; s++) {
        core = vs->createCore(ccfDisableAutoLoading);
        VSCore *other = vs->createCore(ccfDisableAutoLoading);      // accounting is per core
        VSVideoFormat g8; vs->queryVideoFormat(&g8, cfGray, stInteger, 8, 0, 0, other);
        VSFrame *of = vs->newVideoFrame(&g8, 100, 100, nullptr, other);
        VSCoreInfo oi; vs->getCoreInfo(other, &oi); int64_t ou = oi.usedFramebufferSize;
        int64_t lim = (int64_t)1 << r.range(20, 30);
        int64_t lr = vs->setMaxCacheSize(lim, core), lr0 = vs->setMaxCacheSize(r.chance(50) ? 0 : -5, core); VSCoreInfo li; vs->getCoreInfo(core, &li);
        shapes.clear(); classes.clear(); fidc = 0;
        bool big = mode == "big" || mode == "bigconc";
        for (int i = 0; i < (big ? 6 : 7); i++) {
            Shape S{}; S.audio = !big && r.chance(30);
            if (S.audio) { S.st = r.chance(50) ? stInteger : stFloat; S.bits = S.st == stFloat ? 32 : r.pick(std::vector<int>{16, 24, 32}); S.ch = r.range(1, 3); S.w = r.chance(50) ? 3072 : r.range(1, 3071); S.np = S.ch; }
            else {
                S.cf = big ? cfGray : r.pick(std::vector<int>{cfGray, cfYUV, cfYUV, cfRGB}); S.bits = r.pick(std::vector<int>{8, 8, 10, 16, 32}); S.st = S.bits == 32 ? (r.chance(50) ? stFloat : stInteger) : stInteger;
                if (S.cf == cfYUV) { S.ssw = r.below(3); S.ssh = r.below(2); }
                S.w = big ? r.range(1000, 1400) : 8 * r.range(1, 4) ; S.h = big ? r.range(1000, 1300) : 4 * r.range(1, 3); S.np = S.cf == cfGray ? 1 : 3;
                if (big && r.chance(20)) { S.w = 512; S.h = 256; }
            }
            for (int p = 0; p < S.np; p++) {
                int rows; int len = planeLen(S, p, rows);
                std::vector<int64_t> key = S.audio ? std::vector<int64_t>{1, S.st, S.bits, S.w, S.ch} : std::vector<int64_t>{0, len, rows, S.bits, p ? S.w >> S.ssw : S.w};
                size_t c = 0; while (c < classes.size() && classes[c] != key) c++;
                if (c == classes.size()) classes.push_back(key);
                S.pb.push_back((int)c);
            }
            shapes.push_back(S);
        }
        // size of a buffer of each class, measured on its own
        std::vector<long long> sz, need;
        for (size_t c = 0; c < classes.size(); c++) {
            int64_t u0 = used(); VSFrame *f = nullptr; long long nb = 0;
            if (classes[c][0]) { VSAudioFormat af; vs->queryAudioFormat(&af, (int)classes[c][1], (int)classes[c][2], classes[c][4] == 1 ? 1 : classes[c][4] == 2 ? 3 : 7, core); f = vs->newAudioFrame(&af, (int)classes[c][3], nullptr, core); nb = 3072LL * af.bytesPerSample * af.numChannels; }
            else { VSVideoFormat vf; int b = (int)classes[c][3]; vs->queryVideoFormat(&vf, cfGray, b == 32 ? stFloat : stInteger, b, 0, 0, core); f = vs->newVideoFrame(&vf, (int)classes[c][4], (int)classes[c][2], nullptr, core); nb = (long long)vs->getStride(f, 0) * classes[c][2]; }
            sz.push_back(used() - u0); need.push_back(nb);
            vs->freeFrame(f);
        }
        std::string js = "[";
        for (size_t i = 0; i < shapes.size(); i++) js += fmt("%s{\"au\":%d,\"pb\":%s}", i ? "," : "", shapes[i].audio, jlist(shapes[i].pb).c_str());
        emit(fmt("{\"op\":\"reset\",\"big\":%d,\"shapes\":%s],\"size\":%s,\"need\":%s,\"used\":%lld,\"lim\":[%lld,%lld,%lld,%lld]}", (int)big, js.c_str(), jlist(sz).c_str(), jlist(need).c_str(), (long long)used(), (long long)lim, (long long)lr, (long long)lr0, (long long)li.maxFramebufferSize));
        if (mode == "conc" || mode == "bigconc") {
            // base frames are owned here, logged as thread 0; the threads work on copies of them
            std::vector<std::pair<int, const VSFrame *>> base; std::vector<int> bs;
            for (int i = 0; i < 5; i++) {
                int sh = r.below((int)shapes.size()); const Shape &S = shapes[sh]; VSFrame *f;
                if (S.audio) { VSAudioFormat af; vs->queryAudioFormat(&af, S.st, S.bits, S.ch == 1 ? 1 : S.ch == 2 ? 3 : 7, core); f = vs->newAudioFrame(&af, S.w, nullptr, core); }
                else { VSVideoFormat vf; vs->queryVideoFormat(&vf, S.cf, S.st, S.bits, S.ssw, S.ssh, core); f = vs->newVideoFrame(&vf, S.w, S.h, nullptr, core); }
                std::string pl = "[";
                for (int p = 0; p < S.np; p++) { uint8_t *w = vs->getWritePtr(f, p); std::vector<size_t> off; probes(S, p, off, strideOf(S, f, p)); std::vector<int> v; for (auto q : off) { int b = r.below(256); w[q] = (uint8_t)b; v.push_back(b); } pl += (p ? "," : "") + jlist(v); }
                vs->mapSetInt(vs->getFramePropertiesRW(f), "a", i, maReplace);
                int id = ++fidc; base.push_back({id, f}); bs.push_back(sh);
                emit(fmt("{\"op\":\"new\",\"t\":0,\"f\":%d,\"sh\":%d,\"src\":-1,\"pl\":%s],\"delta\":-1,\"used\":-1}", id, sh, pl.c_str()));
                emit(fmt("{\"op\":\"pset\",\"t\":0,\"f\":%d,\"k\":\"a\",\"v\":%d,\"app\":0}", id, i));
            }
            std::vector<std::thread> ts; uint64_t sd = r.next();
            for (int t = 1; t <= 4; t++) ts.emplace_back([&, t] { run(t, Rng(sd + t), ops / 3, false, base, bs); });
            for (auto &t : ts) t.join();
            for (size_t i = 0; i < base.size(); i++) { Fr F{const_cast<VSFrame *>(base[i].second), bs[i], 1, {}}; dump(base[i].first, F, 0); vs->freeFrame(base[i].second); emit(fmt("{\"op\":\"free\",\"t\":0,\"f\":%d,\"used\":-1}", base[i].first)); }
        } else run(1, Rng(r.next()), ops, true, {}, {});
        vs->getCoreInfo(other, &oi);
        emit(fmt("{\"op\":\"fin\",\"used\":%lld,\"ou\":%lld,\"ou2\":%lld}", (long long)used(), (long long)ou, (long long)oi.usedFramebufferSize));
        vs->freeFrame(of); vs->freeCore(other); vs->freeCore(core);
    }
    close_trace(); _exit(0);
}
