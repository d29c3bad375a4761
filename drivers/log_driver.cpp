// Log messages, handlers that come and go.
// usage: log_driver SEED SESSIONS OPS MODE TRACE     MODE: seq | par | fatal
#include "vsdrv.h"
#include "perturb.h"
#include <sys/wait.h>
#include <signal.h>
static Rng R(1);
struct D { int id; bool nest; int core; };
struct H { int id; VSLogHandle *h; D *d; bool hasfree, alive; int core; };
static std::map<int, std::string> text; static std::map<int, int> type;
static std::mutex tm_;
static std::vector<std::string> del; static std::vector<int> freed; static std::vector<std::string> nested;
static int nextMsg, depth_; static VSCore *cores[3];
static std::string junk() {
    static std::vector<std::string> j = { "", "plain", "%s%n%d%%", "100%", "line\nbreak\r\n", "\x01\x7f\xff", "\xc3\xa4\xf0\x9f\x98\x80", "{\"op\":1}", "\\" };
    std::string s = R.pick(j); if (R.chance(3)) s += std::string(R.range(1, 6000), 'x'); return s;
}
static int newMsg(int t, const std::string &j) { int i = ++nextMsg; text[i] = fmt("%d:", i) + j; type[i] = t; return i; }
static int identify(int t, const char *m) {
    int i = 0; char c = 0;
    if (sscanf(m, "%d%c", &i, &c) == 2 && c == ':' && text.count(i)) return text[i] == m && type[i] == t ? i : -1;
    return t == mtWarning ? -2 : -1;
}
static void VS_CC handler(int t, const char *m, void *u) {
    D *d = (D *)u;
    del.push_back(fmt("[%d,%d,%d]", d->id, identify(t, m), t));
    if (d->nest && depth_ == 0 && nested.size() < 3 && R.chance(40)) {
        depth_++; int i = newMsg(mtInformation, "nested"); nested.push_back(fmt("[%d,%d]", i, mtInformation));
        vs->logMessage(mtInformation, text[i].c_str(), cores[d->core]); depth_--;
    }
}
static void VS_CC handlerNull(int t, const char *m, void *u) { del.push_back(fmt("[%d,%d,%d]", u ? -9 : 0, identify(t, m), t)); }
static void VS_CC onfree(void *u) { freed.push_back(u ? ((D *)u)->id : 0); }
static std::string js(const std::vector<std::string> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i]; return s + "]"; }
static void clear() { del.clear(); freed.clear(); nested.clear(); }
static void seq(int ops) {
    std::vector<H> hs; std::vector<D *> ds; int hid = 0, did = 0; std::set<VSLogHandle *> old;
    text.clear(); type.clear(); nextMsg = 0;
    bool big = R.chance(35), nests = R.chance(30);
    int nc = R.range(1, 2); bool dead[3] = {};
    for (int c = 0; c < nc; c++) { cores[c] = vs->createCore(0); emit(fmt("{\"op\":\"core\",\"core\":%d}", c)); }
    auto add = [&](int c) {
        D *d = nullptr; bool null = R.chance(6);
        if (!null) {
            if (!ds.empty() && R.chance(15)) { d = R.pick(ds); if (d->core != c) d = nullptr; }
            if (!d) { d = new D{ ++did, nests && R.chance(40), c }; ds.push_back(d); }
        }
        H h{ ++hid, nullptr, d, (bool)R.chance(75), true, c };
        clear();
        h.h = vs->addLogHandler(null ? handlerNull : handler, h.hasfree ? onfree : nullptr, d, cores[c]);
        emit(fmt("{\"op\":\"add\",\"core\":%d,\"h\":%d,\"d\":%d,\"del\":%s,\"nested\":%s,\"freed\":%s}", c, h.id, d ? d->id : 0, js(del).c_str(), js(nested).c_str(), jlist(freed).c_str()));
        hs.push_back(h);
    };
    auto rem = [&](int i, int c) {
        H &h = hs[i];
        // the address of a handle that is gone may belong to a new one
        if (!h.alive) for (auto &x : hs) if (x.alive && x.h == h.h) return;
        clear();
        int r = vs->removeLogHandler(h.h, cores[c]);
        bool was = h.alive && h.core == c; 
        emit(fmt("{\"op\":\"rem\",\"core\":%d,\"h\":%d,\"ret\":%d,\"hasfree\":%d,\"freed\":%s,\"del\":%s}", c, h.core == c ? h.id : -1, r, h.hasfree, jlist(freed).c_str(), js(del).c_str()));
        if (was) h.alive = false;
    };
    auto log = [&](int c, int n) {
        static const std::vector<int> types = { mtDebug, mtInformation, mtWarning, mtCritical };
        while (n-- > 0) {
            int t = R.pick(types), i = newMsg(t, junk());
            clear();
            vs->logMessage(t, text[i].c_str(), cores[c]);
            emit(fmt("{\"op\":\"log\",\"core\":%d,\"id\":%d,\"type\":%d,\"del\":%s,\"nested\":%s}", c, i, t, js(del).c_str(), js(nested).c_str()));
        }
    };
    for (int o = 0; o < ops; o++) {
        int c = R.below(nc); if (dead[c]) continue;
        int k = R.below(100); int live = 0; for (auto &h : hs) live += h.alive && h.core == c;
        if (k < 50) {
            int n = R.range(1, 5);
            if (big && !live && R.chance(15)) n = R.pick(std::vector<int>{ 495, 498, 499, 500, 501, 502, 520, 1001 });
            log(c, n);
        } else if (k < 70 && live < 5) add(c);
        else if (k < 97) { std::vector<int> v; for (int i = 0; i < (int)hs.size(); i++) if ((hs[i].alive && hs[i].core == c) || R.chance(4)) v.push_back(i); if (!v.empty()) rem(R.pick(v), c); }
    }
    for (int c = 0; c < nc; c++) {
        std::vector<int> hf; for (auto &h : hs) if (h.alive && h.core == c) { if (h.hasfree) hf.push_back(h.id); h.alive = false; }
        clear(); vs->freeCore(cores[c]);
        emit(fmt("{\"op\":\"free\",\"core\":%d,\"freed\":%s,\"hasfree\":%s,\"del\":%s}", c, jlist(freed).c_str(), jlist(hf).c_str(), js(del).c_str()));
    }
    for (auto d : ds) delete d;
}
static std::atomic<int> clk, bad_;
struct PH { int id; int t[4]; std::vector<int> heard; int freed, ret; VSLogHandle *h; };
static std::vector<std::pair<std::string, int>> ptext;
static void VS_CC ph(int t, const char *m, void *u) {
    PH *p = (PH *)u; int i = -1; char c;
    if (sscanf(m, "%d%c", &i, &c) == 2 && i >= 0 && i < (int)ptext.size()) { if (ptext[i].first != m || ptext[i].second != t) bad_++; p->heard.push_back(i); } else bad_++;
}
static void VS_CC pfree(void *u) { ((PH *)u)->freed++; }
static void par(int per) {
    VSCore *core = vs->createCore(0);
    bool perm = R.chance(60), workers = R.chance(30);
    int nt = R.range(2, 4), na = R.range(1, 3);
    clk = 0; bad_ = 0; ptext.clear();
    if (!perm && nt * per > 480) per = 480 / nt;
    for (int i = 0; i < nt * per; i++) ptext.push_back({ fmt("%d:", i) + (R.chance(10) ? "%s%n" : "x"), R.pick(std::vector<int>{ mtDebug, mtInformation, mtWarning, mtCritical }) });
    std::vector<PH *> all; std::mutex am;
    auto attach = [&](int id) { PH *p = new PH(); p->id = id; p->t[0] = ++clk; p->h = vs->addLogHandler(ph, pfree, p, core); p->t[1] = ++clk; return p; };
    auto detach = [&](PH *p) { p->t[2] = ++clk; p->ret = vs->removeLogHandler(p->h, core) ? 1 : 0; p->t[3] = ++clk; };
    PH *main_ = perm ? attach(1) : nullptr;
    std::vector<std::pair<int, int>> st(nt * per);
    std::vector<std::thread> th; std::atomic<int> go{ 0 }, done{ 0 };
    for (int i = 0; i < nt; i++) th.emplace_back([&, i] { Rng r(i + clk + 7); go++; while (go < nt + na) ; for (int j = 0; j < per; j++) { int m = i * per + j; st[m].first = ++clk; vs->logMessage(ptext[m].second, ptext[m].first.c_str(), core); st[m].second = ++clk; if (r.chance(20)) usleep(r.below(50)); } done++; });
    uint64_t base = R.next();
    for (int i = 0; i < na; i++) th.emplace_back([&, i] { Rng r(base + i); go++; while (go < nt + na) ; int k = 0; while (done < nt && k < 60) { PH *p = attach(100 + i * 100 + k++); if (r.chance(70)) usleep(r.below(200)); detach(p); { std::lock_guard<std::mutex> l(am); all.push_back(p); } if (r.chance(50)) usleep(r.below(100)); } });
    for (auto &t : th) t.join();
    if (!perm) main_ = attach(1);
    detach(main_); all.insert(all.begin(), main_);
    std::string s = fmt("{\"op\":\"par\",\"perm\":%d,\"bad\":%d,\"m\":[", perm, bad_.load());
    for (int i = 0; i < nt * per; i++) s += fmt("%s[%d,%d,%d,%d]", i ? "," : "", i, ptext[i].second, st[i].first, st[i].second);
    s += "],\"h\":["; std::vector<int> fr, rt;
    for (size_t i = 0; i < all.size(); i++) { PH *p = all[i]; s += fmt("%s[%d,%d,%d,%d,%d,", i ? "," : "", p->id, p->t[0], p->t[1], p->t[2], p->t[3]) + jlist(p->heard) + "]"; fr.push_back(p->freed); rt.push_back(p->ret); delete p; }
    emit(s + "],\"freed\":" + jlist(fr) + ",\"ret\":" + jlist(rt) + "}");
    vs->freeCore(core);
}
static int pfd;
static void VS_CC fh(int t, const char *m, void *u) { char c = t == mtFatal && !strcmp(m, "fatal %s message") ? *(char *)u : '?'; if (write(pfd, &c, 1)) {} }
static void fatal() {
    int n = R.range(0, 3), p[2]; if (pipe(p)) return;
    fflush(trf);
    pid_t k = fork();
    if (!k) {
        pfd = p[1]; close(p[0]); if (!freopen("/dev/null", "w", stderr)) _exit(9);
        VSCore *c = vs->createCore(0); char ids[] = "abc";
        for (int i = 0; i < n; i++) vs->addLogHandler(fh, nullptr, &ids[i], c);
        vs->logMessage(mtFatal, "fatal %s message", c);
        _exit(0);
    }
    close(p[1]); std::string got; char b; while (read(p[0], &b, 1) == 1) got += b;
    close(p[0]); int st; waitpid(k, &st, 0);
    std::set<char> u(got.begin(), got.end()); int ok = (int)got.size() == n && (int)u.size() == n && !u.count('?') ? n : -1;
    emit(fmt("{\"op\":\"fatal\",\"hs\":%d,\"heard\":%d,\"aborted\":%d}", n, ok, WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT));
}
#include <signal.h>
int main(int argc, char **argv) {
    if (argc < 6) return 2;
    open_trace(argv[5]); 
    R = Rng(atoll(argv[1]));
    std::string m = argv[4];
    if (m == "fatal") { for (int i = 0; i < atoi(argv[2]); i++) fatal(); close_trace(); _exit(0); }
    watchdog(40);
    for (int i = 0; i < atoi(argv[2]); i++) if (m == "seq") seq(atoi(argv[3])); else par(atoi(argv[3]));
    close_trace();
    _exit(0);
}
