# Event log for the Python conformance harnesses: same format as trace.hpp.
import json, math, os, random, re, signal, sys
_real_alarm, _real_signal = signal.alarm, signal.signal
REPO = os.environ.get("REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(REPO, "src"), os.path.join(HERE, "ros_stubs")]
INF, NAN_, BAD = 1000000000, -2000000001, -2000000003
_f = None
_n = 0

def open_log():
    global _f
    _f = open(os.environ.get("TRACE_OUT", "/dev/stdout"), "w")

def _clean(v):
    if isinstance(v, bool) or isinstance(v, str):
        return v if isinstance(v, bool) else "".join(c if 32 <= ord(c) < 127 else "~%02x" % ord(c) for c in v)
    if isinstance(v, int):
        return v if abs(v) <= 2147483647 else BAD
    if isinstance(v, (list, tuple)):
        return [_clean(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _clean(x) for k, x in v.items()}
    try:
        import numpy as np
        if isinstance(v, np.bool_):
            return bool(v)
        if isinstance(v, np.integer):
            return _clean(int(v))
        if isinstance(v, np.ndarray):
            return _clean(v.tolist())
    except ImportError:
        pass
    raise SystemExit("harness: value of type %r in an event" % type(v))   # harness error

def ev(op, **k):
    global _n
    try:
        line = json.dumps(dict(op=op, **{a: _clean(b) for a, b in k.items()}), separators=(",", ":"))
    except SystemExit as e:
        _f.flush(); print(e); os._exit(97)
    _f.write(line + "\n")
    _n += 1
    _f.flush()

def begin(kind="s", **k):
    import faulthandler
    faulthandler.dump_traceback_later(60, exit=True)     # a scenario that hangs ends the run with status 1
    ev("begin", kind=kind, **k)

def done():
    import faulthandler
    faulthandler.cancel_dump_traceback_later()
    _f.flush(); _f.close()
    sys.stdout.flush()
    os._exit(0)

def enc(v, scale=1.0):
    """exact integer, or a marker"""
    try:
        v = float(v)
    except Exception:
        return BAD
    if math.isnan(v): return NAN_
    if math.isinf(v): return INF if v > 0 else -INF
    s = v * scale
    return int(s) if s == math.floor(s) and abs(s) < 9e8 else BAD

def fix(v, scale):
    try:
        v = float(v)
    except Exception:
        return BAD
    if math.isnan(v): return NAN_
    if math.isinf(v): return INF if v > 0 else -INF
    s = math.floor(v * scale + 0.5)
    return int(s) if abs(s) < 9e8 else BAD

def seed(): return int(os.environ.get("VERIF_SEED", "1"))
def thorough(): return os.environ.get("VERIF_TIER") == "thorough"
def scale(q, t): return t if thorough() else q
def rng(salt=0): return random.Random(seed() * 1000003 + salt)
def gen_lines():
    p = os.environ.get("GEN_FILE")
    return [l.strip() for l in open(p) if l.strip()] if p else []
def tla(s):
    """TLA+ text of nested tuples, integers, strings and booleans -> Python lists"""
    s = s.replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false")
    return json.loads(s)

def attempt(f, *a, **k):
    """(outcome, result): outcome is 'ok' or the exception's class name"""
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return type(e).__name__, None

def main(modes):
    import faulthandler
    faulthandler.enable()
    open_log()
    modes[sys.argv[1]]()
    done()
