# Sequence helpers, nested dictionaries, size texts, guarded calls.
import copy, itertools, types, collections
from pytrace import *

CLASSES = ["list", "tuple", "str", "range", "gen", "iter", "map", "deque", "array"]
def wrap(kind, s):
    """the sequence s (small integers) as the given kind of input, and a decoder of elements"""
    import numpy as np
    if kind == "list": return list(s), lambda e: e
    if kind == "tuple": return tuple(s), lambda e: e
    if kind == "str": return "".join(chr(97 + v) for v in s), lambda e: ord(e) - 97
    if kind == "deque": return collections.deque(s), lambda e: e
    if kind == "array": return np.array(s, dtype=int), lambda e: int(e)
    if kind == "words": return ["w%d" % v for v in s], lambda e: int(e[1:])
    if kind == "mixed": return [str(v // 2) if v % 2 else v // 2 for v in s], lambda e: 2 * int(e) + (1 if isinstance(e, str) else 0)
    if kind == "nones": return [None if v == 0 else v for v in s], lambda e: 0 if e is None else e
    if kind == "pairs": return [(v, str(v)) for v in s], lambda e: e[0] if e == (e[0], str(e[0])) else BAD
    raise KeyError(kind)

class Counting:
    """one-pass source that counts what was taken"""
    def __init__(self, it):
        self.it, self.taken, self.ended = iter(it), 0, 0
    def __iter__(self): return self
    def __next__(self):
        try:
            v = next(self.it)
        except StopIteration:
            self.ended += 1
            raise
        self.taken += 1
        return v

def decode(chunks, dec):
    return [[dec(e) for e in c] for c in chunks]

def chunks_front(A, s, n, kind, stop=None):
    begin("seq")
    if kind in ("gen", "endless"):
        src = Counting(iter(s)) if kind == "gen" else Counting(itertools.chain(s, itertools.repeat(7)))
        dec = lambda e: e
        given = src
    else:
        given, dec = wrap(kind, s)
        before = copy.deepcopy(given)
        src = None
    out, taken, status = [], [], "ok"
    before_call = 0
    try:
        g = iter(A.chunked_drop_last(given, n))
        before_call = src.taken if src else 0
        while stop is None or len(out) < stop:
            try:
                c = next(g)
            except StopIteration:
                break
            out.append(list(c))
            taken.append(src.taken if src else 0)
            if len(out) > len(s) + 50: status = "endless"; break
    except Exception as e:
        status = type(e).__name__
    same = True if src else (list(given) == list(before) and len(given) == len(before))
    ev("chunk", s=list(s), n=n, kind=kind, out=decode(out, dec), taken=taken, early=before_call, stop=-1 if stop is None else stop, status=status, same=bool(same), counted=src is not None)

def chunks_back(A, s, n, kind):
    given, dec = wrap(kind, s)
    before = copy.deepcopy(given)
    st, r = attempt(lambda: [list(c) for c in A.reversed_chunked(given, n)])
    ev("rchunk", s=list(s), n=n, status=st, out=decode(r, dec) if st == "ok" else [], same=list(given) == list(before))

def zipped(A, ss, kinds, limit=None):
    given, decs = zip(*[wrap(k, s) for k, s in zip(kinds, ss)])
    before = [list(g) for g in given]
    out, st = [], "ok"
    try:
        for row in A.zip_repeat_shorter(*given):
            out.append([d(e) for d, e in zip(decs, row)] if len(row) == len(ss) else [])
            if limit is not None and len(out) == limit: break
            if len(out) > 200: st = "endless"; break
    except Exception as e:
        st = type(e).__name__
    ev("zip", ss=[list(s) for s in ss], status=st, out=out, limit=-1 if limit is None else limit, same=before == [list(g) for g in given])

def repeated(A, s, kind, m):
    given, dec = wrap(kind, s)
    before = list(given)
    st, r = attempt(lambda: list(itertools.islice(A.repeat_last(given), m)))
    ev("repeat", s=list(s), m=m, status=st, out=[dec(e) for e in r] if st == "ok" else [], same=before == list(given))

def unique(A, s, kind):
    given, dec = wrap(kind, s)
    before = list(given)
    st, r = attempt(A.is_list_unique, given)
    ev("unique", s=list(s), status=st, r=bool(r), same=before == list(given))

def seq():
    import arc_utilities.algorithms as A
    R = rng(1)
    for l in gen_lines():
        n, s = tla(l)
        begin("seq")
        chunks_back(A, s, n, "list")
        unique(A, s, "list")
        if s: repeated(A, s, "tuple", len(s) + n)
        chunks_front(A, s, n, "gen")
        chunks_front(A, s, n, "list")
    for it in range(scale(400, 4000)):
        L = R.choice([0, 1, 2, 3, 5, 8, 13, 40]); n = R.choice([1, 2, 3, 4, 5, 7, 40, 41])
        s = [R.randrange(0, 20) for _ in range(L)]
        kind = R.choice(["list", "tuple", "str", "deque", "gen", "endless", "words", "nones"])
        chunks_front(A, s, n, kind, stop=R.randrange(0, 6) if kind == "endless" or R.random() < .3 else None)
        chunks_back(A, s, n, R.choice(["list", "tuple", "str", "array", "words", "nones"]))
        ss = [[R.randrange(0, 20) for _ in range(R.choice([1, 1, 2, 3, 6]))] for _ in range(R.choice([1, 2, 2, 3, 4]))]
        if R.random() < .15: ss[R.randrange(len(ss))] = []
        zipped(A, ss, [R.choice(["list", "tuple", "str", "deque", "words", "pairs", "nones"]) for _ in ss], None if R.random() < .8 else R.randrange(1, 5))
        repeated(A, s[:6] , R.choice(["list", "tuple", "str", "deque", "nones"]), R.randrange(0, 12))
        u = list(range(L)) if R.random() < .4 else s
        if R.random() < .5 and len(u) > 1:
            u = list(u); R.shuffle(u)
            if R.random() < .5: u[-1] = u[0]
        unique(A, u if max(u, default=0) < 26 else [], R.choice(["list", "tuple", "str", "words", "pairs", "mixed", "mixed", "nones"]))

# ---- nested dictionaries
NAMES = ["k0", "a", "b", "c", "d", "e", "f"]
def build(nodes, kinds=None, R=None):
    """nodes: list of [path, kind, value] -> nested dict"""
    d = {}
    for p, k, v in sorted(nodes, key=lambda t: len(t[0])):
        e = d
        for q in p[:-1]: e = e[NAMES[q]]
        e[NAMES[p[-1]]] = {} if k == "m" else leaf(v)
    return d
LEAVES = {3: None, 4: [1, 2], 5: "text", 6: (1,), 7: 2.5, 8: [], 9: "", 10: False, 11: 0}
LEAVES = {k: v for k, v in LEAVES.items()}
def leaf(v): return copy.deepcopy(LEAVES[v]) if v in LEAVES else v + 100
def unleaf(x):
    for k, v in LEAVES.items():
        if type(v) == type(x) and v == x: return k
    return x - 100 if isinstance(x, int) and not isinstance(x, bool) else BAD
def flat(d, pre=()):
    out = []
    for k, v in d.items():
        if k not in NAMES: return [[[0], "?", 0]]
        p = pre + (NAMES.index(k),)
        if isinstance(v, collections.abc.Mapping):
            out.append([list(p), "m", 0]); out += flat(v, p)
        else:
            out.append([list(p), "v", unleaf(v)])
    return sorted(out)
def shape(d, how):
    """another mapping class with the same contents"""
    if how == "dict": return d
    d = {k: shape(v, how) if isinstance(v, dict) else v for k, v in d.items()}
    if how == "ordered": return collections.OrderedDict(d)
    if how == "proxy": return types.MappingProxyType(d)
    if how == "default": return collections.defaultdict(dict, d)
    return collections.ChainMap(d)
def rand_nodes(R, depth, width, pre=()):
    out = []
    for k in range(1, width + 1):
        if R.random() < .45: continue
        p = list(pre) + [k]
        if depth > 1 and R.random() < .5:
            out.append([p, "m", 0]); out += rand_nodes(R, depth - 1, width, p)
        else:
            out.append([p, "v", R.randrange(0, 12)])
    return out
def dict_history(A, base, upds, hows):
    begin("dict")
    b = build(base)
    if hows[0] in ("ordered", "default"): b = shape(b, hows[0])
    ev("dict0", nodes=flat(b))
    us = []
    for u, how in zip(upds, hows[1:]):
        if u == "none":
            st, r = attempt(A.nested_dict_update, b, None); given = None
        else:
            given = shape(build(u), how)
            us.append((given, flat(given)))
            st, r = attempt(A.nested_dict_update, b, given)
        ev("dictup", none=given is None, upd=flat(given) if given is not None else [], status=st, nodes=flat(b), ret=r is b, same=all(flat(x) == f for x, f in us))
def dicts():
    import arc_utilities.algorithms as A
    from arc_utilities.dict_tools import dict_round
    R = rng(2)
    for l in gen_lines():
        h = tla(l.replace("{", "[").replace("}", "]"))
        dict_history(A, h[0], h[1:], ["dict"] * len(h))
    for it in range(scale(800, 8000)):
        m = R.choice([1, 1, 2, 3])
        upds = ["none" if R.random() < .08 else rand_nodes(R, R.choice([1, 2, 3, 4]), R.choice([1, 2, 3])) for _ in range(m)]
        dict_history(A, rand_nodes(R, R.choice([1, 2, 3, 4]), R.choice([1, 2, 3])), upds,
                     [R.choice(["dict", "dict", "ordered", "default"])] + [R.choice(["dict", "dict", "ordered", "proxy", "default", "chain"]) for _ in range(m)])
    import numpy as np
    for it in range(scale(150, 1500)):
        begin("round")
        eighths = {NAMES[k]: R.randrange(-4000, 4000) for k in R.sample(range(7), R.randrange(0, 7))}
        mk = R.choice([float, float, np.float64, lambda x: int(x)])
        d = {k: mk(v / 8.0) for k, v in eighths.items()}
        eighths = {k: int(float(v) * 8) for k, v in d.items()}
        p = R.choice([None, 0, 1, 2, 2, 3, -1, -2])
        before = dict(d)
        st, r = attempt(dict_round, d) if p is None else attempt(dict_round, d, p) if R.random() < .5 else attempt(dict_round, d, places=p)
        pp = 2 if p is None else p
        ks = list(eighths)
        good = st == "ok"
        ev("round", status=st, p=pp, default=p is None, v=[eighths[k] for k in ks], keys=good and list(r.keys()) == ks,
           r=[round(float(r[k]) * 10.0 ** pp) if k in r else BAD for k in ks] if good else [], near=good and all(abs(float(r[k]) * 10.0 ** pp - round(float(r[k]) * 10.0 ** pp)) < 1e-6 for k in ks if k in r), same=before == d)

# ---- size texts
def sizes():
    import arc_utilities.conversions as C
    R = rng(3)
    def one(codes):
        t = "".join(chr(c) for c in codes)
        st, r = attempt(C.parse_file_size, t)
        whole = st == "ok" and isinstance(r, (int,)) or (st == "ok" and float(r) == int(r))
        digits = [int(c) for c in str(abs(int(r)))] if st == "ok" and whole else []
        ev("size", t=codes, read=st == "ok", whole=bool(whole), neg=bool(st == "ok" and r < 0), d=[x for x in digits] if digits != [0] else [])
    k = 0
    for l in gen_lines():
        if k % 50 == 0: begin("size")
        k += 1
        one(tla(l))
    good = "0123456789"
    for it in range(scale(1500, 15000)):
        if it % 50 == 0: begin("size")
        w = "".join(R.choice(good) for _ in range(R.choice([0, 1, 2, 3, 6, 10])))
        f = "".join(R.choice(good) for _ in range(R.choice([0, 1, 2, 3, 4])))
        t = w + ("." + f if R.random() < .6 else "") + R.choice(["", "", "k", "K", "m", "M", "g", "G"]) + R.choice(["", "", "b", "B"])
        if R.random() < .3:
            p = R.randrange(0, len(t) + 1)
            t = t[:p] + R.choice(["x", " ", "-", "+", "e", "k", "b", ".", ",", "\n", "T", "i", "_", "0x", "inf", "nan"]) + t[p:]
        if R.random() < .1: t = R.choice(["nan", "inf", "infinity", "1e3", "1_000", "10 kb", "kb", "b", "10kib", "10kbb", "1.2.3", "--1", "1,5k", "0x10", " 5", "5 ", "\t7", "7\n", "1e3k", "10bk", "10t", "10tb", ".k", "."])
        m = re.fullmatch(r"(\d*)\.?(\d*)([kKmMgG]?)[bB]?", t)
        if m and (len(m[1]) + len(m[2]) > 15 or len(m[1]) + dict(k=3, m=6, g=9).get(m[3].lower(), 0) > 15): continue
        one([ord(c) for c in t])

# ---- guarded calls
class Odd(Exception):
    def __str__(self): raise RuntimeError("no text")
class Base(BaseException): pass
def guarded():
    from arc_utilities.conditional_try import conditional_try
    R = rng(4)
    ORD = [ValueError("x"), RuntimeError(), KeyError("k"), StopIteration(), OSError(2, "x"), ZeroDivisionError(), AssertionError(), Odd(), MemoryError(), RecursionError(), TimeoutError(), UnicodeDecodeError("a", b"b", 0, 1, "c"), ImportError("i"), StopAsyncIteration(), Warning("w")]
    INT = [KeyboardInterrupt(), SystemExit(3), GeneratorExit(), Base()]
    VAL = [1, 0, False, True, "", "abc", [], {}, [None], 2.5, (), object(), ValueError("returned"), b""]
    NAMES_ = ["a", "b", "x", "y", "args", "kwargs", "func", "value", "catch", "n", "value_on"]
    plans = [tla(l) for l in gen_lines()] * 6
    plans += [[R.random() < .5, R.choice(["value", "none", "ordinary", "interrupt"])] for _ in range(scale(800, 8000))]
    for catch, ends in plans:
        begin("try")
        calls = []
        val = None if ends == "none" else R.choice(VAL); exc = R.choice(ORD if ends == "ordinary" else INT)
        kw = {k: object() for k in R.sample(NAMES_, R.randrange(0, 4))}
        def f(**k):
            calls.append(k)
            if ends in ("value", "none"): return val
            if R.random() < .3:
                try: {}["nothing"]
                except KeyError as e: raise exc from e
            raise exc
        fb = R.choice([None, 5, "fb", [], False, ValueError("fallback"), object()])
        given = R.random() < .8
        kw2 = dict(kw)
        if given: kw2["value_on_exception"] = fb
        else: fb = None
        got = "?"
        try:
            r = conditional_try(catch, f, **kw2) if R.random() < .7 else conditional_try(should_catch=catch, function=f, **kw2)
            if ends in ("value", "none"): got = "as is" if r is val else "changed"
            else: got = "fallback" if r is fb else "changed"
        except BaseException as e:
            got = "raised" if e is exc and ends in ("ordinary", "interrupt") else "other error"
        ev("try", catch=catch, ends=ends, got=got, calls=len(calls), args=len(calls) > 0 and all(set(c) == set(kw) and all(c[k] is kw[k] for k in kw) for c in calls))

main(dict(seq=seq, dicts=dicts, sizes=sizes, guarded=guarded))
