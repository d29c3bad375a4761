#!/usr/bin/env python3
"""Runs the real vspipe on generated scripts and records what it wrote, one JSON event per run.
pipe_run.py LIBDIR PLUGIN SEED RUNS TRACE"""
import json, os, random, shutil, subprocess, sys, tempfile
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import pyhost


LIBDIR, PLUGIN, SEED, RUNS, TRACE = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
R = random.Random(SEED)
TMP = tempfile.mkdtemp(prefix="pipe", dir=os.path.dirname(os.path.abspath(TRACE)))
ENV = pyhost.env(LIBDIR, TMP)
BIG = 2000000000


def fid(cf, st, bits, sw, sh):
    return (cf << 28) | (st << 24) | (bits << 16) | (sw << 8) | sh


def pick_format(y4m):
    cf = R.choice([1, 3, 3, 3] if y4m and R.random() < .9 else [1, 2, 3, 3])
    st = 1 if R.random() < .2 else 0
    bits = R.choice([16, 32]) if st else R.choice([8, 8, 8, 9, 10, 12, 14, 16, 16, 17, 24, 32])
    sw, sh = (R.choice([(0, 0), (1, 1), (1, 1), (1, 0), (0, 1), (2, 2), (2, 0), (0, 2), (2, 1)]) if cf == 3 else (0, 0))
    return dict(cf=cf, st=st, bits=bits, sw=sw, sh=sh, bps=1 if bits <= 8 else 2 if bits <= 16 else 4, planes=1 if cf == 1 else 3)


def subset(n, p):
    return sorted(k for k in range(n) if R.random() < p)


DURS = [(1, 24), (2, 48), (1, 48), (1, 16), (1001, 30000), (1001, 24000), (1, 25), (3, 80)]


def source(audio, i, length, fail, extra, seed="seed"):
    a = dict(log=os.path.join(TMP, "log"), id=i, length=length, **extra)
    if fail: a["fail"] = fail
    return "core.vppipe.%s(seed=%s, %s)" % ("Audio" if audio else "Video", seed, ", ".join("%s=%r" % kv for kv in a.items()))


def canon(v):
    if v is None: return ["z", "", []]
    if isinstance(v, bool): return ["b", str(v), []]
    if isinstance(v, Fraction): return ["n", str(v), []]
    if isinstance(v, str): return ["s", "", list(v.encode("utf-8", "surrogateescape"))]
    if isinstance(v, list): return ["l", "", [canon(x) for x in v]]
    return ["?", str(v), []]


class Dup(Exception): pass


def hook(pairs):
    d = dict(pairs)
    if len(d) != len(pairs): raise Dup()
    return d


def loads(s):
    try:
        return json.loads(s, object_pairs_hook=hook, parse_int=Fraction, parse_float=Fraction,
                          parse_constant=lambda c: (_ for _ in ()).throw(ValueError(c))), True
    except (ValueError, Dup):
        return None, False


def number(t, v):
    return ["n", str(Fraction(int(v), 4 if t == "f" else 1)), []] if t in "if" else [t, "", v if isinstance(v, list) else []]


def one(k):
    audio = R.random() < .22
    y4m = not audio and R.random() < .45
    ev = dict(ev="run", kind="audio" if audio else "video", alpha=False, fail=[], afail=[], dur=[], hdr="", start=[], endp=[], tc="", json="", bad="", full=False)
    args, tail = [], []
    seed, aseed = R.randrange(256), R.randrange(256)
    ev.update(seed=seed, aseed=aseed)
    delay = R.choice([0, 300, 3000, 3000, -12000])
    threads = R.randint(1, 8)
    script = ["import vapoursynth as vs", "core = vs.core", "core.std.LoadPlugin(%r)" % PLUGIN, "core.num_threads = %d" % threads]
    viaarg = R.random() < .5
    script.append("seed = int(globals().get('seedarg', '-1'))" if viaarg else "seed = %d" % seed)
    if viaarg: args += [R.choice(["-a", "--arg"]), "seedarg=%d" % seed]
    if audio:
        ch = R.choice([3, 3, 1 << 2, 0x3f, 0x33, 1 << 30])
        st = 1 if R.random() < .25 else 0
        bits = 32 if st else R.choice([16, 16, 17, 20, 24, 24, 25, 32])
        if st == 0 and R.random() < .1: bits = 18
        length = R.choice([1, 700, 1500, 3071, 3072, 3073, 5000, 6144, 6200])
        nch = bin(ch).count("1")
        if nch > 2: length = min(length, 3100)
        rate = R.choice([44100, 48000, 8000, 192000])
        frames = (length + 3071) // 3072
        ev.update(fmt=dict(st=st, bits=bits, bps=2 if bits <= 16 else 4, ch=nch, mask=ch), rate=rate, len=length, w=0, h=0, fps=[1, 1])
        ev["fail"] = subset(frames, .5) if R.random() < .15 else []
        script.append("c = " + source(True, 0, length, ev["fail"], dict(bits=bits, sample=st, layout=ch, rate=rate, delay=delay)))
        ev["hdr"] = R.choice(["", "wav", "wav", "w64", "w64"] + (["y4m"] if R.random() < .3 else []))
        total = length
    else:
        f = pick_format(y4m)
        w = R.randint(1, 12) << f["sw"] if R.random() < .7 else R.choice([16, 32, 64])
        h = R.randint(1, 6) << f["sh"]
        length = R.choice([1, 1, 2, 3, 5, 9, 16, 23, 60])
        if length == 60: w, h = R.randint(1, 4) << f["sw"], R.randint(1, 3) << f["sh"]
        fps = R.choice([(24, 1), (30000, 1001), (25, 1), (0, 0), (24000, 1001)])
        ev.update(fmt=dict(f), w=w, h=h, len=length, fps=list(fps))
        ev["alpha"] = R.random() < (.05 if y4m else .3)
        ev["fail"] = subset(length, R.choice([.05, .2])) if R.random() < .2 else []
        props = R.choice([0, 1, 1, 2])
        ev["tc"] = R.choice(["", "", "file", "file"]) if R.random() < .98 else "full"
        ev["json"] = R.choice(["", "file", "file"]) if R.random() < .98 else "full"
        r = R.random()
        if ev["tc"] or r < .3:
            d = [R.choice(DURS)] if r < .4 else [R.choice(DURS) for _ in range(R.randint(2, 5))]
            if R.random() < .15: d[R.randrange(len(d))] = R.choice([(0, 1), (1, 0), (-1, 24), (1, -24), (1, -99)])
            if R.random() < .05: d = []
        else: d = []
        ev["dur"] = [list(x) for x in d]
        extra = dict(format=fid(f["cf"], f["st"], f["bits"], f["sw"], f["sh"]), width=w, height=h, delay=delay, props=props, fpsnum=fps[0], fpsden=fps[1])
        if d: extra.update(num=[x[0] for x in d], den=[x[1] for x in d])
        script.append("c = " + source(False, 0, length, ev["fail"], extra))
        if ev["alpha"]:
            ev["afail"] = subset(length, R.choice([.05, .2])) if R.random() < .2 else []
            script.append("a = " + source(False, 1, length, ev["afail"], dict(format=fid(1, f["st"], f["bits"], 0, 0), width=w, height=h, delay=delay, props=0), "%d" % aseed))
        ev["hdr"] = "y4m" if y4m else R.choice(["wav", "w64"]) if R.random() < .03 else ""
        total = length
    idx = R.choice([0, 0, 0, 1, 7])
    outs = sorted({idx} | set(R.sample([0, 1, 2, 5, 7], R.randint(0, 2))))
    for o in outs:
        if o == idx: script.append("c.set_output(%d%s)" % (o, ", alpha=a" if ev["alpha"] else ""))
        else: script.append("core.std.BlankClip(width=4, height=4, format=vs.GRAY8, length=3, color=%d).set_output(%d)" % (o, o))
    want = idx
    if R.random() < .06:
        b = R.choice(["raise", "exit", "syntax", "var", "index", "opt", "int", "nout"])
        ev["bad"] = b
        if b == "raise": script.append("raise RuntimeError('planned')")
        if b == "exit": script.insert(R.choice([1, len(script)]), "import sys; sys.exit(3)")
        if b == "syntax": script.append("x = = 1")
        if b == "var": script.append("core.std.Splice([c, core.std.BlankClip(width=40, height=44, length=2)], mismatch=True).set_output(%d)" % idx if not audio else "raise Exception('x')")
        if b == "index": want = R.choice([3, -1, 99])
        if b == "opt": args += ["-x"]
        if b == "int": args += R.choice([["-s", "abc"], ["-e", "1.5"], ["-r", "x"], ["-o", "0x"], ["-s", "-4"], ["-c", "mkv"], ["-a", "novalue"]])
    if want != 0 or R.random() < .3: args += [R.choice(["-o", "--outputindex"]), str(want)]
    if R.random() < .55:
        s, e = R.randrange(total + 1), R.randrange(total + 1)
        if R.random() < .7: s, e = min(s, e), max(s, e)
        if R.random() < .85: s, e = min(s, total - 1), min(e, total - 1)
        if R.random() < .04: s = 2 ** 31 + s
        if R.random() < .04: e = 2 ** 31 + e
        if R.random() < .6:
            args += [R.choice(["-s", "--start"]), str(s)]; ev["start"] = [min(s, BIG)]
        if R.random() < .6:
            args += [R.choice(["-e", "--end"]), str(e)]; ev["endp"] = [min(e, BIG)]
    req = R.choice([0, 0, 1, 2, 3, 8, 13, 20])
    if req: args += [R.choice(["-r", "--requests"]), str(req)]
    ev["req"] = req or threads
    if ev["hdr"]: args += [R.choice(["-c", "--container"]), ev["hdr"]]
    if R.random() < .3: args += [R.choice(["-p", "--progress"])]
    if R.random() < .15: args += ["--filter-time"]
    if R.random() < .08: args += ["--filter-time-graph", os.path.join(TMP, "ftg")]
    if R.random() < .08: args += ["--frame-ref-debug"]
    where = {"": "", "file": os.path.join(TMP, "tc"), "full": "/dev/full"}
    if ev["tc"]: args += [R.choice(["-t", "--timecodes"]), where[ev["tc"]]]
    where["file"] = os.path.join(TMP, "js")
    if ev["json"]: args += [R.choice(["-j", "--json"]), where[ev["json"]]]
    mode = R.choice(["file", "file", "stdout", "none"]) if R.random() < .94 else "full"
    ev["out"] = mode
    vpy = os.path.join(TMP, "s.vpy")
    for p in ("log", "tc", "js", "o", "ftg"):
        if os.path.exists(os.path.join(TMP, p)): os.remove(os.path.join(TMP, p))
    open(vpy, "w").write("\n".join(script) + "\n")
    tailargs = [vpy] if ev["bad"] == "nout" else [vpy, {"file": os.path.join(TMP, "o"), "stdout": "-", "none": "--", "full": "/dev/full"}[mode]]
    cmd = [os.path.join(LIBDIR, "vspipe")] + (args + tailargs if R.random() < .7 else tailargs + args)
    p = subprocess.run(cmd, stdin=subprocess.DEVNULL, capture_output=True, env=ENV, cwd=TMP, timeout=60)
    data = p.stdout if mode == "stdout" else open(os.path.join(TMP, "o"), "rb").read() if os.path.exists(os.path.join(TMP, "o")) else b""
    ev["stray"] = len(p.stdout) if mode != "stdout" else 0
    ev["rc"] = p.returncode if p.returncode >= 0 else 1000 - p.returncode
    ev["head"] = ""
    if ev["hdr"] == "y4m" and b"\n" in data:
        ev["head"], data = data[:data.index(b"\n") + 1].decode("latin1"), data[data.index(b"\n") + 1:]
    ev["bytes"] = list(data)
    tcs, ev["tchead"] = [], True
    if ev["tc"] == "file" and os.path.exists(os.path.join(TMP, "tc")):
        t = open(os.path.join(TMP, "tc")).read()
        if t:
            ls = t.split("\n")
            ev["tchead"] = ls[0] == "# timecode format v2" and t.endswith("\n")
            tcs = [round(Fraction(x) * 1000) for x in ls[1:-1]]
    ev["tcs"] = tcs
    ev["jok"], items = True, []
    if ev["json"] == "file" and os.path.exists(os.path.join(TMP, "js")):
        t = open(os.path.join(TMP, "js"), "rb").read().decode("utf-8", "surrogateescape")
        whole, ev["jok"] = loads(t)
        if ev["jok"] and isinstance(whole, list): items = whole
        elif not ev["jok"]:
            for l in t.split("\n")[1:]:
                l = l.strip().rstrip(",")
                if l in ("", "]"): continue
                v, ok = loads(l)
                items.append(v if ok and isinstance(v, dict) else {"not a JSON object": Fraction(0)})
        else: ev["jok"] = False
    ev["items"] = [{kk: canon(vv) for kk, vv in it.items()} if it else {"none": ["none", "", []]} for it in items]
    logs, props = [], {}
    if os.path.exists(os.path.join(TMP, "log")):
        for l in open(os.path.join(TMP, "log")):
            d = json.loads(l)
            for t in "sdf":
                if t in d: logs.append([t, d[t], d["id"]])
            if "p" in d and d["id"] == 0 and ev["json"]:
                props["n%d" % d["d"]] = {kk: [number(t, v) for t, v in vv] for kk, vv in d["p"].items()} or {"none": [["none", "", []]]}
    ev["log"], ev["props"] = logs, props or {"none": {"none": [["none", "", []]]}}
    ev["err"] = p.stderr.decode("utf-8", "replace")[-300:]
    ev["args"] = " ".join(cmd[1:]).replace(TMP, "")
    return ev


with open(TRACE, "w") as t:
    for k in range(RUNS):
        t.write(json.dumps(one(k)) + "\n")
shutil.rmtree(TMP)
