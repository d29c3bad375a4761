// Random use of libvsscript: several handles, scripts made of simple statements, every result recorded.
// script_driver SEED STEPS THREADS DIR TRACE   (threads > 1: each thread has handles of its own; one trace line stream per thread,
// written one thread after the other, with handle numbers that differ)
#include "vsdrv.h"
#define VSSCRIPT_USE_LATEST_API
#include "VSScript4.h"
#include <climits>

static const VSSCRIPTAPI *vss = nullptr;
static std::string dir, home;

struct Value { std::string t; std::string s; std::vector<int> c; std::vector<Value> l; };
static std::string json(const Value &v) {
    std::string o = "[\"" + v.t + "\",\"" + v.s + "\",[";
    bool f = true;
    if (v.t == "l") for (auto &x : v.l) { o += (f ? "" : ",") + json(x); f = false; }
    else for (int x : v.c) { o += (f ? "" : ",") + std::to_string(x); f = false; }
    return o + "]]";
}
static std::string jsonl(const std::vector<Value> &v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + json(v[i]);
    return o + "]";
}

static thread_local Rng *R = nullptr;

static Value num(long long n) { return { "i", std::to_string(n), {}, {} }; }
static Value scalar(int kind) {
    Value v;
    switch (kind) {
    case 0: v = num(R->chance(20) ? (R->chance(50) ? LLONG_MAX : LLONG_MIN) : R->chance(30) ? (long long)(R->next() >> R->range(1, 60)) : R->below(50) - 25); break;
    case 1: v = { "f", std::to_string(R->below(400) - 200), {}, {} }; break;       // quarters
    case 2: v.t = "s"; for (int i = R->below(6); i > 0; i--) { if (R->chance(15)) { v.c.push_back(0xC3); v.c.push_back(0xA9); } else v.c.push_back(R->chance(10) ? 0 : R->range(1, 127)); } break;
    case 3: v.t = "b"; for (int i = R->below(6); i > 0; i--) v.c.push_back(R->below(256)); break;
    default: v = { "n", std::to_string(R->range(1, 40)), {}, {} };
    }
    return v;
}
static Value anyvalue() {
    if (R->chance(8)) return { "x", R->pick(std::vector<std::string>{ "None", "2**70", "vs", "object()" }), {}, {} };
    int k = R->below(5);
    if (R->chance(65)) return scalar(k);
    Value v; v.t = "l";
    for (int i = R->range(R->chance(10) ? 0 : 2, 4); i > 0; i--) v.l.push_back(scalar(R->chance(6) ? R->below(5) : k));
    if (v.l.size() == 1) return v.l[0];
    return v;
}
static std::string py(const Value &v) {
    if (v.t == "i" || v.t == "x") return v.s == "-9223372036854775808" ? "(-2**63)" : v.s;
    if (v.t == "f") return "(" + v.s + "/4)";
    if (v.t == "n") return "core.std.BlankClip(width=8, height=8, format=vs.GRAY8, length=" + v.s + ", keep=True)";
    if (v.t == "l") { std::string o = "["; for (auto &x : v.l) o += py(x) + ","; return o + "]"; }
    std::string o = "bytes([";
    for (int c : v.c) o += std::to_string(c) + ",";
    return o + "])" + (v.t == "s" ? ".decode('utf-8')" : "");
}

struct Handle { VSScript *s; int n; bool ok; std::atomic<bool> *freed; bool own; };

struct Session {
    std::vector<std::string> out;
    std::map<int, Handle> hs;
    std::map<VSCore *, int> cores;
    int base, nexth = 0, nextc = 0, msgs = 0, files = 0;
    bool alone;
    std::vector<std::string> names = { "a", "b", "c", "x_1", "Zed", "val" };
    void ev(const std::string &s) { out.push_back(s); progress++; }

    static void VS_CC hear(int, const char *, void *) {}
    static void VS_CC gone(void *u) { *(std::atomic<bool> *)u = true; }
    void attach(Handle &h) {        // notice when the core goes away
        VSCore *c = vss->getCore(h.s);
        h.freed = new std::atomic<bool>(false);
        if (c) vs->addLogHandler(hear, gone, h.freed, c);
    }
    void create() {
        bool own = R->chance(35);
        VSCore *c = own ? vs->createCore(0) : nullptr;
        int label = 0;
        if (c) label = cores[c] = base * 1000 + ++nextc;
        Handle h{ vss->createScript(c), base * 100 + ++nexth, true, nullptr, own };
        if (!h.s) { ev("{\"e\":\"create failed\"}"); return; }
        ev(fmt("{\"e\":\"create\",\"h\":%d,\"core\":%d}", h.n, label));
        attach(h);
        hs.emplace(h.n, h);
    }
    // text of a script and its description
    std::string program(std::string &desc, const std::string &where, std::string &msg, bool cwdok) {
        std::string t = "import vapoursynth as vs, os, sys\ncore = vs.core\n";
        desc = "[";
        int n = R->below(7);
        bool syntax = R->chance(5);
        msg.clear();
        for (int i = 0; i < n; i++) {
            std::string x = R->pick(names), y = R->pick(names), d, l;
            int k = R->below(100);
            if (k < 30) { Value v = anyvalue(); l = x + " = " + py(v); d = fmt("\"op\":\"set\",\"x\":\"%s\",\"v\":%s", x.c_str(), json(v).c_str()); }
            else if (k < 36) { l = x + " = " + y; d = fmt("\"op\":\"copy\",\"x\":\"%s\",\"y\":\"%s\"", x.c_str(), y.c_str()); }
            else if (k < 40) { l = "del " + x; d = fmt("\"op\":\"del\",\"x\":\"%s\"", x.c_str()); }
            else if (k < 48) { l = x + " = int('" + y + "' in globals())"; d = fmt("\"op\":\"has\",\"x\":\"%s\",\"y\":\"%s\"", x.c_str(), y.c_str()); }
            else if (k < 68) {
                int idx = R->pick(std::vector<int>{ 0, 0, 1, 2, 7, -1, 1000 }), m = R->range(1, 40), a = R->chance(30) ? 1 : 0, alt = R->chance(30) ? R->range(1, 3) : 0;
                bool aud = R->chance(20);
                if (aud) { a = alt = 0; l = fmt("core.std.BlankAudio(length=%d).set_output(%s)", m, std::to_string(idx).c_str()); }
                else l = fmt("core.std.BlankClip(width=%d, height=8, format=vs.GRAY8, length=%d).set_output(%d%s%s)", 8, m, idx,
                             a ? fmt(", alpha=core.std.BlankClip(width=8, height=8, format=vs.GRAY8, length=%d, color=%d)", m, m + 50).c_str() : "", alt ? fmt(", alt_output=%d", alt).c_str() : "");
                d = fmt("\"op\":\"out\",\"i\":\"%d\",\"m\":%d,\"a\":%d,\"alt\":%d", idx, aud ? 1000 + m : m, a ? 100 + m + 50 : 0, alt);
            }
            else if (k < 72) { int idx = R->pick(std::vector<int>{ 0, 1, 2, 7 }); l = fmt("vs.clear_output(%d)", idx); d = fmt("\"op\":\"clear\",\"i\":\"%d\"", idx); }
            else if (k < 74) { l = "vs.clear_outputs()"; d = "\"op\":\"clearall\""; }
            else if (k < 78) { l = x + " = len(vs.get_outputs())"; d = fmt("\"op\":\"outs\",\"x\":\"%s\"", x.c_str()); }
            else if (k < 81 && cwdok) { l = x + " = 0 if os.getcwd() == '" + home + "' else 1 if os.getcwd() == '" + dir + "' else 2"; d = fmt("\"op\":\"cwd\",\"x\":\"%s\"", x.c_str()); }
            else if (k < 82) {
                l = x + " = core.std.BlankClip(width=8, height=8, format=vs.GRAY8, length=3).std.FrameEval(lambda n: vs.core.std.BlankClip(width=8, height=8, format=vs.GRAY8, length=3, color=n + len(vs.get_outputs()))).get_frame(2)[0][0, 0]";
                d = fmt("\"op\":\"fe\",\"x\":\"%s\"", x.c_str());
            }
            else if (k < 83) { l = x + " = int(__name__ == '__vapoursynth__')"; d = fmt("\"op\":\"name\",\"x\":\"%s\"", x.c_str()); }
            else if (k < 88) { int q = R->range(1, 6); l = fmt("core.num_threads = %d", q); d = fmt("\"op\":\"thr\",\"n\":%d", q); }
            else if (k < 92) { l = x + " = core.num_threads"; d = fmt("\"op\":\"thrget\",\"x\":\"%s\"", x.c_str()); }
            else if (k < 95) {
                if (msg.empty()) msg = fmt("planned %d", ++msgs);
                l = R->pick(std::vector<std::string>{ "raise ValueError('" + msg + "')", "core.std.BlankClip(format=-1) if '" + msg + "' == '' else core.std.NoSuch('" + msg + "')", "raise type('" + msg + "', (BaseException,), {})('" + msg + "')", "raise KeyError('" + msg + "') from ValueError('inner')" });
                if (l.find("NoSuch") != std::string::npos) l = "raise vs.Error('" + msg + "')";
                d = "\"op\":\"raise\"";
            }
            else if (k < 97) {
                static const std::vector<std::pair<std::string, int>> codes_ = { { "sys.exit(3)", 3 }, { "sys.exit()", 0 }, { "sys.exit(0)", 0 }, { "sys.exit('text')", 1 }, { "sys.exit(255)", 255 }, { "sys.exit(-5)", -5 }, { "raise SystemExit(17)", 17 }, { "sys.exit(2**40)", 1 }, { "exit_ = sys.exit; exit_(70000)", 70000 }, { "sys.exit('')", 1 }, { "sys.exit([])", 1 }, { "sys.exit(True)", 1 }, { "sys.exit(False)", 0 }, { "sys.exit(None)", 0 }, { "sys.exit(0.0)", 1 }, { "raise SystemExit", 0 }, { "raise SystemExit('', 4)", 1 } };
                auto &p = R->pick(codes_);
                l = p.first; d = fmt("\"op\":\"exit\",\"code\":%d", p.second);
            }
            else { // an object that makes trouble when it is dropped
                std::string z = fmt("z%d", R->below(1000));
                l = "class T:\n    def __del__(s): globals()['" + z + "'] = 1\n" + "zz_t = T()";
                d = "\"op\":\"nop\"";
            }
            t += l + "\n";
            desc += (desc.size() > 1 ? "," : "") + ("{" + d + "}");
        }
        if (syntax) { t += "x = = 1\n"; desc += std::string(desc.size() > 1 ? "," : "") + "{\"op\":\"syntax\"}"; }
        desc += "]";
        (void)where;
        return t;
    }
    void eval(Handle &h) {
        int how = R->below(10);
        bool cwd = alone && R->chance(30);
        vss->evalSetWorkingDir(h.s, cwd);
        std::string desc, msg, hows;
        int rc;
        if (how == 0) {
            hows = "nofile";
            desc = "[]";
            rc = vss->evaluateFile(h.s, (dir + "/missing.vpy").c_str());
            msg = "missing.vpy";
        } else if (how < 5) {
            hows = "file";
            std::string p = fmt("%s/s%d_%d.vpy", dir.c_str(), base, ++files);
            std::string t = program(desc, p, msg, alone);
            FILE *f = fopen(p.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f);
            rc = vss->evaluateFile(h.s, p.c_str());
            unlink(p.c_str());
        } else {
            hows = "buffer";
            std::string t = program(desc, "", msg, alone);
            rc = vss->evaluateBuffer(h.s, t.c_str(), R->pick(std::vector<const char *>{ nullptr, "<string>", "name.vpy" }));
        }
        const char *e = vss->getError(h.s);
        h.ok = !e;
        // the message of a planned exception shows, unless the script failed earlier
        bool m = true;
        if (e) m = strlen(e) > 0 && (hows != "nofile" || strstr(e, "missing.vpy"));
        if (e && !msg.empty() && strstr(e, "planned")) m = strstr(e, msg.c_str()) != nullptr;
        char cw[4096]; std::string now = getcwd(cw, sizeof cw) ? cw : "";
        ev(fmt("{\"e\":\"eval\",\"h\":%d,\"how\":\"%s\",\"cwd\":%s,\"prog\":%s,\"rc\":%d,\"err\":%s,\"msg\":%s,\"exit\":%d,\"cwdok\":%s}", h.n, hows.c_str(), cwd ? "true" : "false", desc.c_str(), rc,
               e ? "true" : "false", m ? "true" : "false", vss->getExitCode(h.s), now == home || !alone ? "true" : "false"));
    }
    std::vector<Value> read(const VSMap *m, const char *k) {
        std::vector<Value> v;
        int n = vs->mapNumElements(m, k), t = vs->mapGetType(m, k);
        for (int i = 0; i < n; i++) {
            if (t == ptInt) v.push_back(num(vs->mapGetInt(m, k, i, nullptr)));
            else if (t == ptFloat) v.push_back({ "f", std::to_string((long long)(vs->mapGetFloat(m, k, i, nullptr) * 4)), {}, {} });
            else if (t == ptData) {
                Value x; x.t = vs->mapGetDataTypeHint(m, k, i, nullptr) == dtUtf8 ? "s" : "b";
                const char *p = vs->mapGetData(m, k, i, nullptr);
                for (int j = 0; j < vs->mapGetDataSize(m, k, i, nullptr); j++) x.c.push_back((uint8_t)p[j]);
                v.push_back(x);
            } else if (t == ptVideoNode) {
                VSNode *q = vs->mapGetNode(m, k, i, nullptr);
                v.push_back({ "n", std::to_string(vs->getVideoInfo(q)->numFrames), {}, {} });
                vs->freeNode(q);
            } else v.push_back({ "o", "", {}, {} });
        }
        return v;
    }
    void get(Handle &h) {
        std::string name = R->chance(10) ? "nosuch" : R->pick(names);
        VSMap *m = vs->createMap();
        int rc = vss->getVariable(h.s, name.c_str(), m);
        ev(fmt("{\"e\":\"get\",\"h\":%d,\"name\":\"%s\",\"rc\":%d,\"val\":%s}", h.n, name.c_str(), rc, rc ? "[]" : jsonl(read(m, name.c_str())).c_str()));
        vs->freeMap(m);
    }
    void set(Handle &h) {
        VSMap *m = vs->createMap();
        std::map<std::string, std::vector<Value>> given;
        bool bad = false;
        for (int i = R->range(1, 3); i > 0; i--) {
            std::string k = R->pick(names);
            if (given.count(k)) continue;
            int kind = R->below(4);
            std::vector<Value> l;
            for (int j = R->chance(70) ? 1 : R->range(2, 3); j > 0; j--) {
                Value v = scalar(kind);
                if (v.t == "i") vs->mapSetInt(m, k.c_str(), strtoll(v.s.c_str(), nullptr, 10), maAppend);
                else if (v.t == "f") vs->mapSetFloat(m, k.c_str(), atoi(v.s.c_str()) / 4.0, maAppend);
                else {
                    std::string d(v.c.begin(), v.c.end());
                    if (v.t == "s" && R->chance(5)) { d += "\xff"; bad = true; }
                    vs->mapSetData(m, k.c_str(), d.data(), (int)d.size(), v.t == "s" ? dtUtf8 : R->chance(50) ? dtBinary : dtUnknown, maAppend);
                }
                l.push_back(v);
            }
            given[k] = l;
        }
        int rc = vss->setVariables(h.s, m);
        std::string g;
        for (auto &x : given) g += (g.empty() ? "" : ",") + fmt("\"%s\":%s", x.first.c_str(), jsonl(x.second).c_str());
        ev(fmt("{\"e\":\"set\",\"h\":%d,\"rc\":%d,\"bad\":%s,\"vars\":{%s}}", h.n, rc, bad ? "true" : "false", g.c_str()));
        vs->freeMap(m);
    }
    int tag(VSNode *n) {
        if (!n) return 0;
        if (vs->getNodeType(n) == mtAudio) return 1000 + (int)vs->getAudioInfo(n)->numSamples;
        return vs->getVideoInfo(n)->numFrames;
    }
    void outp(Handle &h) {
        int idx = R->pick(std::vector<int>{ 0, 0, 0, 1, 2, 3, 7, -1, 1000 });
        VSNode *n = vss->getOutputNode(h.s, idx), *a = vss->getOutputAlphaNode(h.s, idx);
        int at = 0;
        if (a) {
            char e[100];
            const VSFrame *f = vs->getFrame(0, a, e, sizeof e);
            at = f ? 100 + *vs->getReadPtr(f, 0) : -1;
            vs->freeFrame(f);
        }
        ev(fmt("{\"e\":\"out\",\"h\":%d,\"i\":%d,\"main\":%d,\"alpha\":%d,\"alt\":%d}", h.n, idx, tag(n), at, vss->getAltOutputMode(h.s, idx)));
        vs->freeNode(n); vs->freeNode(a);
    }
    void avail(Handle &h) {
        int size = R->below(9), buf[16];
        for (int &b : buf) b = -777;
        int n = vss->getAvailableOutputNodes(h.s, size, size ? buf : nullptr);
        std::string l;
        for (int i = 0; i < 16; i++) if (buf[i] != -777) l += (l.empty() ? "" : ",") + std::to_string(buf[i]);
        ev(fmt("{\"e\":\"avail\",\"h\":%d,\"size\":%d,\"ret\":%d,\"list\":[%s]}", h.n, size, n, l.c_str()));
    }
    void core(Handle &h) {
        VSCore *c = vss->getCore(h.s);
        if (!cores.count(c)) cores[c] = base * 1000 + ++nextc;
        VSCoreInfo i;
        vs->getCoreInfo(c, &i);
        ev(fmt("{\"e\":\"core\",\"h\":%d,\"id\":%d,\"thr\":%d,\"freed\":%s}", h.n, cores[c], i.numThreads, h.freed && *h.freed ? "true" : "false"));
    }
    void drop(int n) {
        Handle h = hs[n];
        VSCore *c = vss->getCore(h.s);
        vss->freeScript(h.s);
        // worker threads may still hold what they computed last
        for (int i = 0; i < 400 && h.freed && !*h.freed; i++) std::this_thread::sleep_for(std::chrono::milliseconds(5));
        ev(fmt("{\"e\":\"free\",\"h\":%d,\"freed\":%s}", n, !h.freed || *h.freed ? "true" : "false"));
        cores.erase(c);
        hs.erase(n);
    }
    void run(int steps) {
        for (int i = 0; i < steps; i++) {
            if (hs.empty() || (hs.size() < 4 && R->chance(6))) { create(); continue; }
            auto it = hs.begin();
            std::advance(it, R->below((int)hs.size()));
            Handle &h = it->second;
            int k = R->below(100);
            if (!h.ok) {        // in the error state only these are allowed
                if (R->chance(50)) eval(h); else if (R->chance(20)) drop(it->first);
                continue;
            }
            if (k < 30) eval(h);
            else if (k < 55) get(h);
            else if (k < 65) set(h);
            else if (k < 82) outp(h);
            else if (k < 90) avail(h);
            else if (k < 95) core(h);
            else if (k < 98) drop(it->first);
        }
        while (!hs.empty()) drop(hs.begin()->first);
    }
};

int main(int argc, char **argv) {
    if (argc < 6) return 2;
    uint64_t seed = strtoull(argv[1], nullptr, 10);
    int steps = atoi(argv[2]), threads = atoi(argv[3]);
    dir = argv[4];
    char cw[4096]; home = getcwd(cw, sizeof cw);
    open_trace(argv[5]);
    watchdog(60);
    vss = getVSScriptAPI(VSSCRIPT_API_VERSION);
    if (!vss) { fprintf(stderr, "%s\n", getVSScriptAPILastError()); return 3; }
    vs = vss->getVSAPI(VAPOURSYNTH_API_VERSION);
    std::vector<Session> ss(threads);
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; t++)
        ts.emplace_back([&, t] {
            Rng r(seed * 64 + t);
            R = &r;
            ss[t].base = t + 1;
            ss[t].alone = threads == 1;
            ss[t].run(steps);
        });
    for (auto &t : ts) t.join();
    for (auto &s : ss) for (auto &l : s.out) emit(l);
    close_trace();
    _exit(0);
}
