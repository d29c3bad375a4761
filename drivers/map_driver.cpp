// Random and systematic histories of map operations; every event carries the call, its result,
// and (dump) the complete state of a map as the API shows it.
// usage: map_driver SEED SESSIONS OPS MODE TRACE      MODE: rand | sys
#include "vsdrv.h"

static VSCore *core;
static VSMap *M[4];
static std::vector<std::string> keys, badkeys;
static std::vector<VSNode *> vnodes, anodes;
static std::vector<const VSFrame *> vframes, aframes;
static std::vector<VSFunction *> funcs;
static std::map<const void *, std::string> ids;

static const char *const ipool[] = {"-9223372036854775808", "-2147483649", "-2147483648", "-1", "0", "1", "2", "7", "2147483647", "2147483648", "9223372036854775807", "4294967296", "-4294967295"};
static const double fpool[] = {0.0, -0.0, 1.5, -2.25, 0.1, 1e-60, 3.0000000001, 123456789.0};
static std::string dpool[] = {"", "a", std::string("a\0b", 3), "hello", std::string("\0", 1), "\xc3\xa9", "_Error"};

static std::string fbits(double d) { uint64_t u; memcpy(&u, &d, 8); return fmt("%016llx", (unsigned long long)u); }
static std::string f32bits(float d) { uint32_t u; memcpy(&u, &d, 4); return fmt("%08x", u); }

static std::string qlist(const std::vector<std::string> &v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++) r += (i ? ",\"" : "\"") + v[i] + "\"";
    return r + "]";
}
static std::string idof(const void *p) { if (!p) return "null"; auto it = ids.find(p); return it == ids.end() ? "unknown" : it->second; }

static void dump(int m) {
    const char *e = vs->mapGetError(M[m]);
    int n = vs->mapNumKeys(M[m]);
    std::string s = fmt("{\"op\":\"dump\",\"m\":%d,\"err\":\"%s\",\"ks\":[", m, e ? hexs(e).c_str() : "none");
    for (int i = 0; i < n; i++) {
        const char *k = vs->mapGetKey(M[m], i);
        if (!k) { s += "null"; continue; }
        int t = vs->mapGetType(M[m], k), c = vs->mapNumElements(M[m], k);
        std::vector<std::string> vals;
        int err = 0;
        if (!e) for (int j = 0; j < c; j++) {
            switch (t) {
            case ptInt: vals.push_back(fmt("%lld", (long long)vs->mapGetInt(M[m], k, j, &err))); break;
            case ptFloat: vals.push_back(fbits(vs->mapGetFloat(M[m], k, j, &err))); break;
            case ptData: { const char *d = vs->mapGetData(M[m], k, j, &err); int sz = vs->mapGetDataSize(M[m], k, j, &err);
                vals.push_back(fmt("%d:", vs->mapGetDataTypeHint(M[m], k, j, &err)) + (d ? hexs(d, sz) + (d[sz] ? "!" : "") : "null")); break; }
            case ptVideoNode: case ptAudioNode: { VSNode *x = vs->mapGetNode(M[m], k, j, &err); vals.push_back(idof(x)); if (x) vs->freeNode(x); break; }
            case ptVideoFrame: case ptAudioFrame: { const VSFrame *x = vs->mapGetFrame(M[m], k, j, &err); vals.push_back(idof(x)); if (x) vs->freeFrame(x); break; }
            case ptFunction: { VSFunction *x = vs->mapGetFunction(M[m], k, j, &err); vals.push_back(idof(x)); if (x) vs->freeFunction(x); break; }
            default: vals.push_back("?");
            }
            if (err) vals.back() += "!err";
        }
        s += fmt("%s{\"k\":%s,\"t\":%d,\"n\":%d,\"v\":%s}", i ? "," : "", codes(k).c_str(), t, c, qlist(vals).c_str());
    }
    // one past the end must give no key
    s += fmt("],\"past\":%d}", vs->mapGetKey(M[m], n) ? 1 : 0);
    emit(s);
}

static const std::string CR = "_ColorRange", RG = "_Range";   // the old alias is only defined for integers
static void setOp(Rng &r, int m, const std::string &k0, int kind, int app) {
    const std::string &k = (k0 == CR && kind != 0) ? RG : k0;
    std::string t, v; int res = 0;
    int consume = 0;
    switch (kind) {
    case 0: { std::string x = r.chance(70) ? ipool[r.below(13)] : std::to_string(r.range(-50, 50)); t = "i"; v = x; res = vs->mapSetInt(M[m], k.c_str(), strtoll(x.c_str(), nullptr, 10), app); break; }
    case 1: { double d = fpool[r.below(8)]; t = "f"; v = fbits(d); res = vs->mapSetFloat(M[m], k.c_str(), d, app); break; }
    case 2: { std::string d = dpool[r.below(7)]; int hint = r.range(-1, 1); t = "d"; bool z = r.chance(30); if (z) d = d.c_str();
        v = fmt("%d:", hint) + hexs(d); res = vs->mapSetData(M[m], k.c_str(), d.data(), z ? -1 : (int)d.size(), hint, app); break; }
    case 3: { VSNode *x = r.pick(vnodes); t = "vn"; v = idof(x); consume = r.below(2); res = consume ? vs->mapConsumeNode(M[m], k.c_str(), vs->addNodeRef(x), app) : vs->mapSetNode(M[m], k.c_str(), x, app); break; }
    case 4: { VSNode *x = r.pick(anodes); t = "an"; v = idof(x); consume = r.below(2); res = consume ? vs->mapConsumeNode(M[m], k.c_str(), vs->addNodeRef(x), app) : vs->mapSetNode(M[m], k.c_str(), x, app); break; }
    case 5: { const VSFrame *x = r.pick(vframes); t = "vf"; v = idof(x); consume = r.below(2); res = consume ? vs->mapConsumeFrame(M[m], k.c_str(), vs->addFrameRef(x), app) : vs->mapSetFrame(M[m], k.c_str(), x, app); break; }
    case 6: { const VSFrame *x = r.pick(aframes); t = "af"; v = idof(x); consume = r.below(2); res = consume ? vs->mapConsumeFrame(M[m], k.c_str(), vs->addFrameRef(x), app) : vs->mapSetFrame(M[m], k.c_str(), x, app); break; }
    case 7: { VSFunction *x = r.pick(funcs); t = "fn"; v = idof(x); consume = r.below(2); res = consume ? vs->mapConsumeFunction(M[m], k.c_str(), vs->addFunctionRef(x), app) : vs->mapSetFunction(M[m], k.c_str(), x, app); break; }
    }
    emit(fmt("{\"op\":\"set\",\"m\":%d,\"k\":%s,\"t\":\"%s\",\"v\":\"%s\",\"app\":%d,\"r\":%d}", m, codes(k).c_str(), t.c_str(), v.c_str(), app, res ? 1 : 0));
}

static void setArr(Rng &r, int m, const std::string &k0, bool fl) {
    const std::string &k = (k0 == CR && fl) ? RG : k0;
    int n = r.chance(80) ? r.below(5) : r.range(5, 20);
    std::vector<std::string> vals; int res;
    if (fl) {
        std::vector<double> d; for (int i = 0; i < n; i++) { d.push_back(fpool[r.below(8)]); vals.push_back(fbits(d.back())); }
        res = vs->mapSetFloatArray(M[m], k.c_str(), d.data(), n);
    } else {
        std::vector<int64_t> d; for (int i = 0; i < n; i++) { d.push_back(strtoll(ipool[r.below(13)], nullptr, 10)); vals.push_back(fmt("%lld", (long long)d.back())); }
        res = vs->mapSetIntArray(M[m], k.c_str(), d.data(), n);
    }
    emit(fmt("{\"op\":\"setarr\",\"m\":%d,\"k\":%s,\"t\":\"%s\",\"vs\":%s,\"r\":%d}", m, codes(k).c_str(), fl ? "f" : "i", qlist(vals).c_str(), res ? 1 : 0));
}

static void getOp(Rng &r, int m, const std::string &k0, int kind, int idx) {
    const std::string &k = (k0 == CR && !(kind <= 1 || kind >= 12 || (kind == 10 && vs->mapNumElements(M[m], CR.c_str()) <= 1))) ? RG : k0;
    int err = 99; std::string g, v;
    std::vector<std::string> arr; bool isArr = false;
    const char *kk = k.c_str();
    switch (kind) {
    case 0: g = "i"; v = fmt("%lld", (long long)vs->mapGetInt(M[m], kk, idx, &err)); break;
    case 1: g = "is"; v = fmt("%d", vs->mapGetIntSaturated(M[m], kk, idx, &err)); break;
    case 2: g = "f"; v = fbits(vs->mapGetFloat(M[m], kk, idx, &err)); break;
    case 3: g = "fs"; v = f32bits(vs->mapGetFloatSaturated(M[m], kk, idx, &err)); break;
    case 4: { g = "d"; const char *d = vs->mapGetData(M[m], kk, idx, &err); int e2; int sz = vs->mapGetDataSize(M[m], kk, idx, &e2); v = d ? hexs(d, sz < 0 ? 0 : sz) : "null"; break; }
    case 5: g = "dsz"; v = fmt("%d", vs->mapGetDataSize(M[m], kk, idx, &err)); break;
    case 6: g = "dh"; v = fmt("%d", vs->mapGetDataTypeHint(M[m], kk, idx, &err)); break;
    case 7: { g = "n"; VSNode *x = vs->mapGetNode(M[m], kk, idx, &err); v = idof(x); if (x) vs->freeNode(x); break; }
    case 8: { g = "fr"; const VSFrame *x = vs->mapGetFrame(M[m], kk, idx, &err); v = idof(x); if (x) vs->freeFrame(x); break; }
    case 9: { g = "fn"; VSFunction *x = vs->mapGetFunction(M[m], kk, idx, &err); v = idof(x); if (x) vs->freeFunction(x); break; }
    case 10: { g = "ia"; isArr = true; idx = 0; const int64_t *p = vs->mapGetIntArray(M[m], kk, &err); int n = vs->mapNumElements(M[m], kk); v = p ? "ok" : "null"; if (p) for (int i = 0; i < n; i++) arr.push_back(fmt("%lld", (long long)p[i])); break; }
    case 11: { g = "fa"; isArr = true; idx = 0; const double *p = vs->mapGetFloatArray(M[m], kk, &err); int n = vs->mapNumElements(M[m], kk); v = p ? "ok" : "null"; if (p) for (int i = 0; i < n; i++) arr.push_back(fbits(p[i])); break; }
    case 12: g = "ne"; err = 0; idx = 0; v = fmt("%d", vs->mapNumElements(M[m], kk)); break;
    case 13: g = "ty"; err = 0; idx = 0; v = fmt("%d", vs->mapGetType(M[m], kk)); break;
    }
    emit(fmt("{\"op\":\"get\",\"m\":%d,\"k\":%s,\"g\":\"%s\",\"i\":%d,\"err\":%d,\"v\":\"%s\",\"a\":%s}", m, codes(k).c_str(), g.c_str(), idx, err, v.c_str(), qlist(arr).c_str()));
}

static std::string randKey(Rng &r) {
    static const char *al = "abzABZ_019";
    std::string s;
    int n = r.range(1, 4);
    s += al[r.below(7)];
    for (int i = 1; i < n; i++) s += al[r.below(10)];
    if (r.chance(5)) s += std::string(40, 'q');
    return s;
}

static bool isErr(int m) { return vs->mapGetError(M[m]) != nullptr; }
static const std::string &mutKey(Rng &r, int m) {
    for (;;) {
        const std::string &k = (r.chance(6) ? r.pick(badkeys) : r.pick(keys));
        if (k == "_Error" && isErr(m)) continue;  // overwriting the error text of an error map is not defined
        return k;
    }
}

static void sessionStart() {
    for (auto &m : M) { if (m) vs->freeMap(m); m = vs->createMap(); }
    emit("{\"op\":\"reset\"}");
}

static void oneOp(Rng &r, int maxKind) {
    int m = r.below(4);
    int w = r.below(100);
    if (w < 34) { setOp(r, m, mutKey(r, m), r.below(maxKind), r.chance(40) ? maReplace : maAppend); if (r.chance(40)) dump(m); }
    else if (w < 40) setArr(r, m, mutKey(r, m), r.below(2));
    else if (w < 44) { std::string k = mutKey(r, m); int t = r.range(0, 9); if (t != ptInt && k == CR) k = RG; int res = vs->mapSetEmpty(M[m], k.c_str(), t); emit(fmt("{\"op\":\"empty\",\"m\":%d,\"k\":%s,\"t\":%d,\"r\":%d}", m, codes(k).c_str(), t, res ? 1 : 0)); }
    else if (w < 48) { const std::string &k = mutKey(r, m); int res = vs->mapDeleteKey(M[m], k.c_str()); emit(fmt("{\"op\":\"del\",\"m\":%d,\"k\":%s,\"r\":%d}", m, codes(k).c_str(), res ? 1 : 0)); }
    else if (w < 49) { vs->clearMap(M[m]); emit(fmt("{\"op\":\"clear\",\"m\":%d}", m)); }
    else if (w < 50) { const char *msgs[] = {"boom", "", "x y"}; const char *s = msgs[r.below(3)]; vs->mapSetError(M[m], s); emit(fmt("{\"op\":\"error\",\"m\":%d,\"s\":\"%s\"}", m, hexs(s).c_str())); dump(m); }
    else if (w < 56) {
        int d = r.below(4);
        if (isErr(m) || isErr(d)) return;   // copying from or into a map in the error state is not defined
        vs->copyMap(M[m], M[d]); emit(fmt("{\"op\":\"copy\",\"m\":%d,\"d\":%d}", m, d)); if (r.chance(50)) dump(d);
    }
    else if (w < 62) dump(m);
    else { const std::string &k = r.chance(5) ? r.pick(badkeys) : r.pick(keys); getOp(r, m, k, r.below(14), r.chance(70) ? r.below(2) : r.below(6)); }
}

int main(int argc, char **argv) {
    if (argc < 6) return 3;
    int seed = atoi(argv[1]), sessions = atoi(argv[2]), ops = atoi(argv[3]);
    std::string mode = argv[4];
    open_trace(argv[5]);
    watchdog(60);
    core = vs->createCore(ccfDisableAutoLoading);
    Rng r(seed);
    VSVideoInfo vi = {}; vs->queryVideoFormat(&vi.format, cfGray, stInteger, 8, 0, 0, core); vi.width = vi.height = 16; vi.numFrames = 1; vi.fpsNum = 25; vi.fpsDen = 1;
    VSAudioInfo ai = {}; vs->queryAudioFormat(&ai.format, stInteger, 16, 3, core); ai.sampleRate = 44100; ai.numSamples = 100;
    auto gf = [](int, int, void *, void **, VSFrameContext *, VSCore *, const VSAPI *) -> const VSFrame * { return nullptr; };
    for (int i = 0; i < 3; i++) {
        vnodes.push_back(vs->createVideoFilter2("v", &vi, gf, nullptr, fmParallel, nullptr, 0, nullptr, core)); ids[vnodes.back()] = fmt("vn%d", i);
        anodes.push_back(vs->createAudioFilter2("a", &ai, gf, nullptr, fmParallel, nullptr, 0, nullptr, core)); ids[anodes.back()] = fmt("an%d", i);
        vframes.push_back(vs->newVideoFrame(&vi.format, 16, 16, nullptr, core)); ids[vframes.back()] = fmt("vf%d", i);
        aframes.push_back(vs->newAudioFrame(&ai.format, 100, nullptr, core)); ids[aframes.back()] = fmt("af%d", i);
        funcs.push_back(vs->createFunction([](const VSMap *, VSMap *, void *, VSCore *, const VSAPI *) {}, nullptr, nullptr, core)); ids[funcs.back()] = fmt("fn%d", i);
    }
    badkeys = {"", "9a", "a-b", "a b", "\xc3\xa9", "a.", "-", "a\n"};
    if (mode == "rand") {
        for (int s = 0; s < sessions; s++) {
            keys = {"_Range", "_ColorRange", "_Error", "a"};
            int nk = r.range(3, 9);
            while ((int)keys.size() < nk) keys.push_back(randKey(r));
            sessionStart();
            int mk = r.chance(50) ? 3 : 8;
            for (int i = 0; i < ops; i++) oneOp(r, mk);
            for (int m = 0; m < 4; m++) dump(m);
        }
    } else {
        // every ordered triple of mutations on two maps, then full dumps
        keys = {"a", "B"};
        std::vector<std::function<void(Rng &)>> A;
        for (int kind : {0, 1, 2}) for (int app : {maReplace, maAppend}) A.push_back([=](Rng &q) { setOp(q, 0, "a", kind, app); });
        A.push_back([](Rng &q) { setOp(q, 0, "B", 0, maAppend); });
        A.push_back([](Rng &q) { setOp(q, 1, "a", 0, maAppend); });
        A.push_back([](Rng &q) { setOp(q, 1, "a", 2, maReplace); });
        A.push_back([](Rng &q) { setArr(q, 0, "a", false); });
        A.push_back([](Rng &q) { setArr(q, 1, "a", true); });
        A.push_back([](Rng &) { vs->copyMap(M[0], M[1]); emit("{\"op\":\"copy\",\"m\":0,\"d\":1}"); });
        A.push_back([](Rng &) { vs->copyMap(M[1], M[0]); emit("{\"op\":\"copy\",\"m\":1,\"d\":0}"); });
        A.push_back([](Rng &) { vs->clearMap(M[0]); emit("{\"op\":\"clear\",\"m\":0}"); });
        A.push_back([](Rng &) { int res = vs->mapDeleteKey(M[1], "a"); emit(fmt("{\"op\":\"del\",\"m\":1,\"k\":[97],\"r\":%d}", res ? 1 : 0)); });
        A.push_back([](Rng &) { int res = vs->mapSetEmpty(M[0], "a", ptData); emit(fmt("{\"op\":\"empty\",\"m\":0,\"k\":[97],\"t\":%d,\"r\":%d}", (int)ptData, res ? 1 : 0)); });
        int n = (int)A.size(), cnt = 0;
        for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) {
            if ((cnt++ % sessions) != seed % sessions) continue;
            sessionStart();
            A[a](r); A[b](r); A[c](r);
            dump(0); dump(1);
        }
    }
    for (auto &m : M) vs->freeMap(m);
    for (auto x : vnodes) vs->freeNode(x);
    for (auto x : anodes) vs->freeNode(x);
    for (auto x : vframes) vs->freeFrame(x);
    for (auto x : aframes) vs->freeFrame(x);
    for (auto x : funcs) vs->freeFunction(x);
    vs->freeCore(core);
    close_trace();
    return 0;
}
