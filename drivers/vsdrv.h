// Shared pieces of the trace-writing drivers: API access, RNG, ndjson output, watchdog.
#pragma once
#include "VapourSynth4.h"
#include "VSHelper4.h"
#include "VSConstants4.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

static const VSAPI *vs = nullptr;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    int below(int n) { return n <= 0 ? 0 : (int)((next() >> 33) % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int pct) { return below(100) < pct; }
    template<typename T> const T &pick(const std::vector<T> &v) { return v[below((int)v.size())]; }
};

static FILE *trf = nullptr;
static std::mutex trm;
static std::atomic<uint64_t> progress{0};

static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char *f, ...) {
    va_list ap; va_start(ap, f);
    char buf[4096];
    int n = vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    if (n < (int)sizeof buf) return std::string(buf, n);
    std::string s(n + 1, 0);
    va_start(ap, f);
    vsnprintf(&s[0], n + 1, f, ap);
    va_end(ap);
    s.resize(n);
    return s;
}
static inline void emit_nolock(const std::string &s) {
    fwrite(s.data(), 1, s.size(), trf);
    fputc('\n', trf);
    progress++;
}
static inline void emit(const std::string &s) {
    std::lock_guard<std::mutex> l(trm);
    emit_nolock(s);
}
static inline std::string hexs(const void *p, size_t n) {
    static const char *d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < n; i++) { uint8_t c = ((const uint8_t *)p)[i]; r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
static inline std::string hexs(const std::string &s) { return hexs(s.data(), s.size()); }
static inline std::string codes(const std::string &s) {
    std::string r = "[";
    for (size_t i = 0; i < s.size(); i++) r += fmt("%s%d", i ? "," : "", (unsigned char)s[i]);
    return r + "]";
}
static inline std::string jstr(const std::string &s) {   // JSON string, ASCII only
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
        else r += c;
    }
    return r + "\"";
}
template<typename T> static std::string jlist(const std::vector<T> &v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]);
    return r + "]";
}
// No event for `secs` seconds: dump a marker and exit 97.
static void watchdog(int secs, std::function<void()> onHang = nullptr) {
    std::thread([=] {
        uint64_t last = progress; auto t = std::chrono::steady_clock::now();
        for (;;) {
            std::this_thread::sleep_for(std::chrono::milliseconds(200));
            uint64_t p = progress;
            auto now = std::chrono::steady_clock::now();
            if (p != last) { last = p; t = now; }
            else if (now - t > std::chrono::seconds(secs)) {
                if (onHang) onHang();
                fprintf(stderr, "watchdog: no progress for %d s\n", secs);
                if (trf) fflush(trf);
                _exit(97);
            }
        }
    }).detach();
}
static void open_trace(const char *path) {
    vs = getVapourSynthAPI(VAPOURSYNTH_API_VERSION);
    if (!vs) { fprintf(stderr, "no API\n"); _exit(3); }
    trf = fopen(path, "w");
    if (!trf) { perror(path); _exit(3); }
    setvbuf(trf, nullptr, _IOFBF, 1 << 20);
}
static void close_trace() { fflush(trf); fclose(trf); trf = nullptr; }
