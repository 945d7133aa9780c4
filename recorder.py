#!/opt/venv/bin/python
"""Replays sessions on the real spafe (from /repo) and records what happened.

usage: recorder.py CASES.ndjson OUT.ndjson
Every line of CASES is a session; the matching line of OUT is the session with all arguments resolved
to the values actually passed and with the outcome of every call."""
import os, sys, time, json, base64, signal, threading, copy, importlib, warnings, zlib
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
REPO = os.environ.get("SPAFE_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
import spafe
assert os.path.realpath(spafe.__file__).startswith(os.path.realpath(REPO) + os.sep), spafe.__file__

WHERE = {
 "features.mfcc": ["mel_spectrogram", "mfcc", "imfcc"], "features.lfcc": ["linear_spectrogram", "lfcc"],
 "features.bfcc": ["bark_spectrogram", "bfcc", "intensity_power_law"], "features.gfcc": ["erb_spectrogram", "gfcc"], "features.ngcc": ["ngcc"],
 "features.msrcc": ["msrcc"], "features.psrcc": ["psrcc"],
 "features.pncc": ["pncc", "medium_time_power_calculation", "asymmetric_lowpass_filtering", "temporal_masking", "weight_smoothing",
                   "mean_power_normalization", "asymmetric_noise_suppression_with_temporal_masking"],
 "features.lpc": ["lpc", "lpcc", "lpc2lpcc"], "features.rplp": ["plp", "rplp"], "features.cqcc": ["cqt_spectrogram", "cqcc"],
 "features.spfeats": ["spectral_centroid", "spectral_skewness", "spectral_kurtosis", "spectral_entropy", "spectral_spread",
                      "spectral_flatness", "spectral_rolloff", "spectral_flux", "extract_feats"],
 "frequencies.dominant_frequencies": ["get_dominant_frequencies"],
 "frequencies.fundamental_frequencies": ["compute_difference", "compute_cmnd", "get_pitch", "compute_yin"],
 "fbanks.mel_fbanks": ["mel_filter_banks", "inverse_mel_filter_banks"], "fbanks.linear_fbanks": ["linear_filter_banks"],
 "fbanks.bark_fbanks": ["bark_filter_banks", "Fm"], "fbanks.gammatone_fbanks": ["gammatone_filter_banks", "generate_center_frequencies"],
 "utils.preprocessing": ["zero_handling", "pre_emphasis", "stride_trick", "framing", "windowing"],
 "utils.cepstral": ["normalize_ceps", "lifter_ceps", "deltas"], "utils.filters": ["rasta_filter", "scale_fbank"],
 "utils.converters": ["hz2erb", "erb2hz", "hz2bark", "bark2hz", "hz2mel", "mel2hz"], "utils.spectral": ["compute_constant_qtransform"],
 "utils.vis": ["show_fbanks", "show_spectrogram", "show_features", "tick_function"],
}
MOD = {f: m for m, fs in WHERE.items() for f in fs}

class Missing(Exception): pass
class Timeout(Exception): pass

def lookup(fn):
    try:
        return getattr(importlib.import_module("spafe." + MOD[fn]), fn)
    except (ImportError, AttributeError):
        raise Missing(fn)

# ---------------------------------------------------------------- signals
def base_signal(s):
    n, g = s["n"], s["g"]
    amp = float(s.get("amp", 1.0))
    rs = np.random.RandomState(s.get("seed", 0) % (2 ** 31))
    fs = s.get("fs", 16000)
    t = np.arange(n)
    if g == "noise": x = rs.randn(n)
    elif g == "offset": x = rs.randn(n) + float(s["dc"])
    elif g == "uniform": x = rs.uniform(-1, 1, n)
    elif g == "silence": x = np.zeros(n)
    elif g == "dc": x = np.ones(n)
    elif g == "impulse": x = np.zeros(n); x[min(n - 1, s.get("at", n // 3))] = 1.0
    elif g == "tone": x = np.sin(2 * np.pi * float(s["f"]) * t / fs + float(s.get("ph", 0.3)))
    elif g == "toned":  # tone with a little noise: well conditioned
        x = np.sin(2 * np.pi * float(s["f"]) * t / fs + 0.3) + float(s.get("eps", 0.05)) * rs.randn(n)
    elif g == "twotone":
        x = np.sin(2 * np.pi * float(s["f"]) * t / fs) + float(s["a2"]) * np.sin(2 * np.pi * float(s["f2"]) * t / fs + 1.0)
    elif g == "square": x = np.where((t // max(1, s.get("per", 40) // 2)) % 2 == 0, 1.0, -1.0)
    elif g == "gaps":  # noise with silent stretches
        x = rs.randn(n)
        for a, b in s["gaps"]: x[a:b] = 0.0
    elif g == "bursts":  # noise whose level changes from block to block
        lv = s["levels"]; w = s["block"]
        x = rs.randn(n) * np.array([float(lv[(i // w) % len(lv)]) for i in range(n)])
    elif g == "alt": x = np.where(t % 2 == 0, 1.0, -1.0)
    elif g == "bytes": x = rs.randint(0, 120, n).astype(float)
    elif g == "wide": x = rs.randint(-2 ** 30, 2 ** 30, n).astype(float)
    elif g == "fullscale": x = np.where(rs.rand(n) < 0.5, -32768.0, 32767.0)
    elif g == "ints": x = rs.randint(-1000, 1001, n).astype(float)
    elif g == "seq": x = np.array([float(v) for v in s["v"]])
    elif g == "index": x = np.arange(n, dtype=float)
    else: raise ValueError(g)
    return amp * x

def py_preemph(x, c):
    y = np.array(x, dtype=float)
    y[1:] = x[1:] - c * x[:-1]
    return y

def represent(x, r):
    if r in (None, "float64"): return x
    if r in ("float32", "int16", "int32", "int64", "uint16", "uint32", "uint8", "int8", "float16", "bool", "complex128", "complex64"): return x.astype(r)
    if r == "list": return [float(v) for v in x]
    if r == "intlist": return [int(v) for v in x]
    if r == "strided":
        b = np.full(3 * len(x) + 2, 1e3); b[1:1 + 3 * len(x):3] = x; return b[1:1 + 3 * len(x):3]
    if r == "reversed": return np.ascontiguousarray(x[::-1])[::-1]
    if r == "fortran": return np.asfortranarray(np.stack([x, x + 7]).T)[:, 0]
    if r == "column": return x.reshape(-1, 1)
    if r == "readonly":
        y = x.copy(); y.setflags(write=False); return y
    if r == "bigendian": return x.astype(">f8")
    if r == "colview": return np.stack([x, np.full(len(x), 9.0)], axis=1)[:, 0]
    raise ValueError(r)

def make_sig(s):
    x = base_signal(s)
    for op in s.get("ops", []):
        k = op[0]
        if k == "gain": x = x * float(op[1])
        elif k == "drop": x = x[op[1]:]
        elif k == "take": x = x[:op[1]]
        elif k == "append": x = np.concatenate([x, np.random.RandomState(op[2]).randn(op[1])])
        elif k == "edit":
            x = x.copy(); lo, hi = max(0, op[1]), min(len(x), op[2])
            if hi > lo: x[lo:hi] = x[lo:hi] + 1.0 + np.random.RandomState(op[3]).rand(hi - lo)
        elif k == "nudge": x = x.copy(); x[op[1]] = x[op[1]] * 1.001 + 1e-3
        elif k == "preemph": x = py_preemph(x, float(op[1]))
        elif k == "round": x = np.round(x) + 0.0
        else: raise ValueError(k)
    return x

def make_mat(m):
    rs = np.random.RandomState(m.get("seed", 0))
    r, c = m["shape"] if len(m["shape"]) == 2 else (m["shape"][0], None)
    shp = (r, c) if c is not None else (r,)
    g = m.get("g", "noise")
    if g == "noise": x = rs.randn(*shp)
    elif g == "pos": x = rs.uniform(0.05, 1.0, shp)
    elif g == "power": x = np.exp(3 * rs.randn(*shp))
    elif g == "ints": x = rs.randint(-9, 10, shp).astype(float)
    elif g == "ramp": x = np.arange(int(np.prod(shp)), dtype=float).reshape(shp)
    elif g == "const": x = np.full(shp, 2.5)
    elif g == "zeros": x = np.zeros(shp)
    elif g == "bits": x = (rs.rand(*shp) < 0.3).astype(float)
    elif g == "sparse": x = rs.uniform(0, 1, shp) * (rs.rand(*shp) < 0.3)
    elif g == "rows": x = np.array([[float(v) for v in row] for row in m["v"]]).reshape(shp)
    elif g == "vals": x = np.array([float(v) for v in m["v"]]).reshape(shp)
    else: raise ValueError(g)
    if "mul" in m: x = x * float(m["mul"])
    if "add" in m: x = x + float(m["add"])
    if "first" in m: x.flat[0] = float(m["first"])
    if m.get("complex"): x = x + 1j * rs.randn(*shp)
    if m.get("as") == "fortran": x = np.asfortranarray(x)
    elif m.get("as") == "f4": x = x.astype("f4")
    elif m.get("as") == "readonly": x.setflags(write=False)
    elif m.get("as") == "intarr": x = x.astype(int)
    elif m.get("as") == "view": 
        b = np.full((shp[0] * 2,) + shp[1:], 99.0, dtype=x.dtype); b[::2] = x; x = b[::2]
    return x

# ---------------------------------------------------------------- encoding
def enc_arr(x):
    x = np.asarray(x)
    if x.dtype == bool: x = x.astype(float)
    if np.iscomplexobj(x): return {"re": enc_arr(x.real), "im": enc_arr(x.imag)}
    if x.dtype.kind in "iuf": return {"$f": base64.b64encode(np.ascontiguousarray(x, dtype="<f8").tobytes()).decode(), "s": list(x.shape)}
    return [enc(v) for v in x.tolist()]
def enc(v):
    if v is None: return "None"
    if isinstance(v, (bool, np.bool_)): return bool(v)
    if isinstance(v, (str,)): return v
    if isinstance(v, (int, np.integer)): return int(v)
    if isinstance(v, (float, np.floating)): return enc_arr(np.float64(v)) if v != v or v in (float("inf"), float("-inf")) else float(v)
    if isinstance(v, (complex, np.complexfloating)): return {"re": float(v.real), "im": float(v.imag)}
    if isinstance(v, np.ndarray): return enc_arr(v)
    if isinstance(v, (list, tuple)):
        if v and all(isinstance(q, (int, float, np.floating, np.integer)) and not isinstance(q, bool) for q in v): return enc_arr(np.array(v, dtype=float))
        return [enc(q) for q in v]
    if isinstance(v, dict): return {str(k): enc(q) for k, q in v.items()}
    if hasattr(v, "win_len"): return {"win_len": float(v.win_len), "win_hop": float(v.win_hop), "win_type": v.win_type}
    return {"repr": repr(v)[:200]}
def num(v):  # exact float for JSON
    return v
def meta(v):
    if isinstance(v, np.ndarray): return {"shape": list(v.shape), "dtype": v.dtype.kind + str(v.dtype.itemsize)}
    if isinstance(v, (tuple, list)): return [meta(q) for q in v] if len(v) < 20 else {"shape": [len(v)], "dtype": "list"}
    if isinstance(v, (float, np.floating)): return {"shape": [], "dtype": "f8"}
    if isinstance(v, (int, np.integer)): return {"shape": [], "dtype": "i8"}
    return {"shape": [-1], "dtype": type(v).__name__}

def snap(v):
    """bit-exact fingerprint of an argument"""
    if isinstance(v, np.ndarray): return (v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, (list, tuple)): return tuple(snap(q) for q in v)
    if isinstance(v, dict): return tuple(sorted((k, snap(q)) for k, q in v.items()))
    if hasattr(v, "win_len"): return (v.win_len, v.win_hop, v.win_type)
    return repr(v)

# ---------------------------------------------------------------- argument resolution
class Ctx:
    def __init__(self): self.outs = []; self.pool = {}
def resolve(v, cx):
    if isinstance(v, dict):
        if "$none" in v: return None
        if "$sig" in v:
            return represent(make_sig(v["$sig"]), v["$sig"].get("as"))
        if "$win" in v:
            from spafe.utils.preprocessing import SlidingWindow
            w = {k: (float(q) if k != "win_type" else q) for k, q in v["$win"].items()}
            if len(w) == 3: return SlidingWindow(w["win_len"], w["win_hop"], w["win_type"])
            return SlidingWindow(**w)
        if "$bank" in v:
            return np.array(lookup(v["$bank"]["fn"])(**resolve(v["$bank"].get("a", {}), cx))[0])
        if "$mat" in v: return make_mat(v["$mat"])
        if "$out" in v:
            p = v["$out"]; o = cx.outs[p[0]]
            for q in p[1:]: o = o[q]
            return o
        if "$pool" in v:  # one object shared by every call of the session
            if v["$pool"] not in cx.pool: cx.pool[v["$pool"]] = resolve(cx.pooldef[v["$pool"]], cx)
            return cx.pool[v["$pool"]]
        if "$frames" in v:
            s = v["$frames"]; x = make_sig(s["sig"]); L, S = s["L"], s["S"]
            f = np.array([x[m * S:m * S + L] for m in range((len(x) - L) // S + 1)])
            return [r for r in f] if s.get("aslist") else f
        if "$rfft" in v: return np.fft.rfft(make_sig(v["$rfft"]["sig"]), v["$rfft"]["nfft"])
        if "$fft" in v: return np.fft.fft(make_sig(v["$fft"]["sig"]), v["$fft"]["nfft"])
        return {k: resolve(q, cx) for k, q in v.items()}
    if isinstance(v, list): return [resolve(q, cx) for q in v]
    return v

POS = {"framing": ["sig"], "compute_difference": ["x", "tau_max"], "compute_cmnd": ["d_t", "tau"]}

def figure_data():
    import matplotlib.pyplot as plt
    r = []
    for n in plt.get_fignums():
        fig = plt.figure(n); fig.canvas.draw()
        for ax in fig.axes:
            r.append({"images": [{"a": enc_arr(np.ma.filled(np.asarray(im.get_array(), dtype=float), np.nan)), "extent": enc_arr(np.array(im.get_extent(), dtype=float)),
                                  "origin": im.origin} for im in ax.images],
                      "lines": [{"x": enc_arr(np.asarray(l.get_xdata(), dtype=float)), "y": enc_arr(np.asarray(l.get_ydata(), dtype=float))} for l in ax.lines],
                      "vlines": [enc_arr(np.asarray(s, dtype=float)) for c in ax.collections if hasattr(c, "get_segments") for s in c.get_segments()],
                      "xticks": enc_arr(np.asarray(ax.get_xticks(), dtype=float)), "xticklabels": [t.get_text() for t in ax.get_xticklabels()],
                      "xbound": enc_arr(np.asarray(ax.get_xbound(), dtype=float)),
                      "title": ax.get_title(), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel()})
        plt.close(fig)
    return {"axes": r}

def run_call(c, cx, keep_sig=True):
    fn = lookup(c["fn"])
    a = resolve(c.get("a") or {}, cx)
    a = {k: v for k, v in a.items() if not (isinstance(v, str) and v == "None")}
    spell = zlib.crc32(json.dumps([c["fn"], c.get("a")], sort_keys=True).encode()) % 3     # how numbers are written
    if spell == 1: a = {k: (int(v) if type(v) is float and v.is_integer() and abs(v) < 1e9 else v) for k, v in a.items()}
    if spell == 0:
        a = {k: (np.int64(v) if type(v) is int else np.float64(v) if type(v) is float else v) for k, v in a.items()}
    before = {k: snap(v) for k, v in a.items()}
    rec = dict(c); rec["a"] = {k: (len(v) if k in c.get("hide", []) else enc(v)) for k, v in a.items() if v is not None}   # None: option not given
    for k, q in (c.get("a") or {}).items():       # a window is what was asked of it
        if isinstance(q, dict) and "$win" in q: rec["a"][k] = q["$win"]
    try:
        v = fn(**a) if not c.get("positional") else fn(*[a[k] for k in c["positional"]])
        if c.get("figure"): v = figure_data(); rec["out"] = {"ok": True, "val": v, "meta": {"shape": [-1], "dtype": "figure"}}
        else: rec["out"] = {"ok": True, "val": enc(v if "pick" not in c else [v[0][:, c["pick"]], v[1]]), "meta": meta(v)}
        cx.outs.append(v)
    except (Timeout, MemoryError): raise
    except Exception as ex:
        rec["out"] = {"ok": False, "exc": "ParameterError" if any(t.__name__ == "ParameterError" for t in type(ex).__mro__) else type(ex).__name__, "msg": str(ex)[:200]}
        cx.outs.append(None)
    rec["ameta"] = {k: meta(v) for k, v in a.items() if isinstance(v, (np.ndarray, list)) }
    rec["mut"] = [k for k in a if snap(a[k]) != before[k]]
    return rec, a

def poke(x, how):
    """what a client may do to an object of its own"""
    if hasattr(x, "win_len"):
        if how == "swap": x.win_type = "hanning" if x.win_type != "hanning" else "blackman"
        elif how == "scale": x.win_len = x.win_len * 1.5
        else: x.win_hop = x.win_hop * 0.75
        return
    n = len(x)
    if how == "swap": i, j = n // 2, max(0, n // 2 - 1); t = np.array(x[i]); x[i] = x[j]; x[j] = t     # same length, sum and ends
    elif how == "scale": x *= 0.5
    elif how == "rev": x[:] = np.array(x[::-1])
    elif how == "last": x[n - 1] += 1.0

def pokeout(o):
    """overwrite everything writable of a result the client was given"""
    if isinstance(o, np.ndarray):
        try:
            if o.flags.writeable and o.dtype.kind in "fci": o[...] = 7
        except ValueError: pass
    elif isinstance(o, (tuple, list)):
        for q in o: pokeout(q)
    elif isinstance(o, dict):
        for k in list(o): o[k] = 7

def run_session(s):
    cx = Ctx(); cx.pooldef = s.get("pool", {})
    out = dict(s); out["calls"] = []
    if s.get("threads"): return run_threads(s, cx)
    snaps = []; poked = set()
    for c in s["calls"]:
        if "act" in c:
            if c["act"] == "poke": poke(resolve({"$pool": c["obj"]}, cx), c["how"])
            else:
                js = [j for j, o in enumerate(cx.outs) if o is not None]
                if js: pokeout(cx.outs[js[-1]]); poked.add(js[-1])
            cx.outs.append(None); snaps.append((None, None))
            out["calls"].append(dict(c, fn="client", out={"ok": True, "val": 0, "meta": {"shape": [], "dtype": "i8"}}, mut=[]))
            continue
        rec, a = run_call(c, cx)
        out["calls"].append(rec)
        if s.get("watch"): snaps.append((snap(cx.outs[-1]), cx.outs[-1]))
    if s.get("watch"):  # results handed out earlier must not have changed
        out["stale"] = [j for j, (b, o) in enumerate(snaps) if o is not None and j not in poked and snap(o) != b]
        out["poolmut"] = []
    out.pop("pool", None)
    return out

# ---------------------------------------------------------------- pristine baselines
def forked(f):
    """f() in a forked child that has never called the library"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(int(os.environ.get("SESSION_TIMEOUT", "60")))
            try: d = {"v": f()}
            except Missing as ex: d = {"missing": str(ex)}
            except Timeout: d = {"timeout": True}
            with os.fdopen(w, "w") as o: o.write(json.dumps(d))
            os._exit(0)
        except BaseException:
            import traceback; traceback.print_exc(); os._exit(1)
    os.close(w)
    with os.fdopen(r) as i: t = i.read()
    os.waitpid(pid, 0)
    if not t: raise RuntimeError("child died")
    d = json.loads(t)
    if "missing" in d: raise Missing(d["missing"])
    if "timeout" in d: raise Timeout()
    return d["v"]

BASE = {}
def run_isolated(s):
    """the session in one process; every call of it also alone in a pristine process, with the same argument contents"""
    for m in WHERE: 
        try: importlib.import_module("spafe." + m)
        except ImportError: pass
    base = []; log = []
    for c in s["calls"]:
        if "act" in c: log.append(c); base.append({"none": True}); continue
        used = {v["$pool"] for v in (c.get("a") or {}).values() if isinstance(v, dict) and "$pool" in v}
        pre = [q for q in log if q.get("act") == "poke" and q["obj"] in used]
        key = json.dumps([c, pre, {k: s["pool"][k] for k in used}], sort_keys=True)
        if key not in BASE:
            def alone():
                cx = Ctx(); cx.pooldef = s.get("pool", {})
                for q in pre: poke(resolve({"$pool": q["obj"]}, cx), q["how"])
                return run_call(c, cx)[0]
            if len(BASE) > 400: BASE.clear()
            BASE[key] = forked(alone)["out"]
        base.append(BASE[key])
    out = forked(lambda: run_session(s))
    out["base"] = base
    return out

def run_threads(s, cx):
    """s.calls split over s.threads threads, all started together, sharing the pool objects"""
    for k in s.get("pool", {}): cx.pool[k] = resolve(s["pool"][k], cx)
    before = {k: snap(v) for k, v in cx.pool.items()}
    res = [None] * len(s["calls"]); T = s["threads"]
    bar = threading.Barrier(T)
    def work(t):
        bar.wait()
        for j in range(t, len(s["calls"]), T):
            c2 = Ctx(); c2.pool = cx.pool; c2.pooldef = s.get("pool", {})
            res[j], _ = run_call(s["calls"][j], c2)
    old = sys.getswitchinterval(); sys.setswitchinterval(1e-6)
    rs = np.random.RandomState(len(json.dumps(s))); coin = rs.rand(4096) < 0.3; at = [0]
    def lines(frame, event, arg):      # let the other threads in between two lines of the library
        if event == "line":
            at[0] += 1
            if coin[at[0] % 4096]: time.sleep(1e-6)
        return lines
    def calls(frame, event, arg): return lines if frame.f_code.co_filename.startswith(REPO) else None
    try:
        if s.get("step"): threading.settrace(calls)
        th = [threading.Thread(target=work, args=(t,)) for t in range(T)]
        for t in th: t.start()
        for t in th: t.join()
    finally: sys.setswitchinterval(old); threading.settrace(None)
    out = dict(s); out["calls"] = res; out["stale"] = []
    out["poolmut"] = [k for k, v in cx.pool.items() if snap(v) != before[k]]
    out.pop("pool", None)
    return out

def main(cases, dest):
    def onalarm(*_): raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    limit = int(os.environ.get("SESSION_TIMEOUT", "60"))
    with open(cases) as f, open(dest, "w") as o:
        for line in f:
            if not line.strip(): continue
            s = json.loads(line)
            signal.alarm(limit)
            try: r = run_isolated(s) if s.get("isolate") else run_session(s)
            except Missing as ex: r = {"id": s["id"], "missing": str(ex)}
            except Timeout: r = {"id": s["id"], "timeout": True}
            finally: signal.alarm(0)
            o.write(json.dumps(r) + "\n"); o.flush()

if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
