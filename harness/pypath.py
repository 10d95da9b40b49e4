# Polylines and polynomial trajectories.
import copy, math
from pytrace import *
import numpy as np

def S(v): return fix(v, 1e4)
def pt(p): return [S(c) for c in p]
def dist(a, b): return math.sqrt(sum((float(x) - float(y)) ** 2 for x, y in zip(a, b)))
def offseg(p, a, b):
    """distance of p from the segment a-b"""
    p, a, b = [np.array(v, dtype=float) for v in (p, a, b)]
    v = b - a; L = float(v @ v)
    t = 0.0 if L == 0 else max(0.0, min(1.0, float((p - a) @ v) / L))
    return dist(p, a + t * v)
U = 1.0     # the unit the path is given in, a power of two
def scaled(p): return [float(c) * U for c in p]
def back(p): return [float(c) / U for c in p]
def wrap(R, path):
    k = R.choice(["list", "array", "lists", "tuples", "ints"] if U >= 1 else ["list", "array", "lists", "tuples"])
    f = [scaled(p) for p in path]
    if k == "list": return [np.array(p) for p in f]
    if k == "array": return np.array(f)
    if k == "tuples": return [tuple(p) for p in f]
    if k == "ints": return [[int(c) for c in p] for p in f]
    return f
def frozen(x): return [[float(c) for c in p] for p in x]

def closest(P, R, path, q):
    given = wrap(R, path); before = frozen(given)
    query = R.choice([list, tuple, np.array])(scaled(q))
    st, r = attempt(P.closest_point, given, query)
    ok = st == "ok" and len(r) == 3
    ind = int(r[1]) if ok else -1
    ev("closest", path=path, q=q, status=st, p=pt(back(r[0])) if ok else [], ind=ind, alpha=S(r[2]) if ok else -1, d2=fix(dist(back(r[0]), q) ** 2, 1000) if ok else -1, exactend=ok and (float(r[2]) < 1), same=before == frozen(given))
    for k in range(len(path) - 1):
        if R.random() < .3:
            st, r = attempt(P.closest_point_to_line_segment, [given[k], given[k + 1]], query)
            ev("cseg", a=path[k], b=path[k + 1], q=q, status=st, p=pt(back(r[0])) if st == "ok" else [], alpha=S(r[1]) if st == "ok" else -1, d2=fix(dist(back(r[0]), q) ** 2, 1000) if st == "ok" else -1)

def travel(P, R, path, q, d16):
    given = wrap(R, path); before = frozen(given)
    d = d16 / 16.0 * U
    start = None if q is None else R.choice([list, tuple, np.array])(scaled(q))
    st0, c = attempt(P.closest_point, given, given[0] if q is None else start)
    if q is None: st, r = attempt(P.travel_along, given, d) if R.random() < .5 else attempt(P.travel_along, given, d, None)
    else: st, r = attempt(P.travel_along, given, d, start)
    ok = st == "ok" and st0 == "ok" and len(r) >= 1
    out = [back(p) for p in r] if ok else []
    ind, alpha = (int(c[1]), float(c[2])) if ok else (-1, -1)
    segs = [dist(a, b) for a, b in zip(out, out[1:])]
    # the vertex the last point is heading for
    pos = dir_vertices(path, ind, alpha != 0, d) if ok else []
    m = len(out)
    off = offseg(out[-1], out[-2], pos[m - 2]) if m >= 2 and m - 2 < len(pos) else 0.0
    st2, L = attempt(P.path_length, r if R.random() < .5 else [np.array(scaled(p)) for p in out]) if ok else ("no", 0)
    ev("travel", path=path, fromq=q is not None, q=q if q is not None else path[0], d16=d16, status=st, ind=ind, inside=alpha != 0, alpha=S(alpha), out=[pt(p) for p in out], segs=[S(x) for x in segs], off=S(off), length=S(L / U) if st2 == "ok" else -1, start2=fix(dist(out[0], path[0] if q is None else q) ** 2, 1000) if ok else -1, same=before == frozen(given))
def dir_vertices(path, ind, inside, d):
    if d > 0: return path[ind + 1:]
    n = ind + 1 if inside else ind
    return list(reversed(path[:n]))

def dense(P, R, path, max16):
    given = wrap(R, path); before = frozen(given)
    mx = max16 / 16.0
    st, r = attempt(P.densify, given, mx * U)
    out = [back(p) for p in r] if st == "ok" else []
    cum, acc = [], 0.0
    for k, p in enumerate(out):
        if k: acc += dist(out[k - 1], p)
        cum.append(acc)
    pc, acc = [], 0.0
    for k, p in enumerate(path):
        if k: acc += dist(path[k - 1], p)
        pc.append(acc)
    st2, L = attempt(P.path_length, given)
    ev("densify", path=path, max16=max16, status=st, out=[pt(p) for p in out], cum=[S(x) for x in cum], pcum=[S(x) for x in pc], length=S(L / U) if st2 == "ok" else -1, over=any(dist(a, b) > mx * (1 + 1e-9) for a, b in zip(out, out[1:])), same=before == frozen(given))

def reverse(P, R, rospy, M):
    n = R.choice([1, 1, 2, 3, 6, 12]); J = R.choice([1, 2, 7])
    t = M.JointTrajectory(); t.joint_names = ["j%d" % k for k in range(J)]; t.header.frame_id = "f%d" % R.randrange(9)
    times, acc = [], R.choice([0, 0, 250])
    for k in range(n):
        times.append(acc); acc += R.choice([0, 1, 5, 125, 1000, 70000])
        p = M.JointTrajectoryPoint(positions=[float(R.randrange(-9, 9)) for _ in range(J)])
        p.time_from_start = rospy.Duration(times[-1] // 1000, (times[-1] % 1000) * 1000000)
        t.points.append(p)
    before = copy.deepcopy(t)
    st, r = attempt(P.reverse_trajectory, t)
    ok = st == "ok"
    same = t == before
    got = [p.time_from_start.to_nsec() for p in r.points] if ok else []
    fresh = False
    rec = [[int(x) for x in p.positions] for p in r.points] if ok else []
    if ok:
        for p in r.points: p.positions[0] += 100.0; p.time_from_start = rospy.Duration(99)
        r.joint_names.append("more")
        fresh = t == before
    ev("reverse", times=times, pos=[[int(x) for x in p.positions] for p in before.points], status=st, got=[g // 1000000 if g % 1000000 == 0 else BAD for g in got], rec=rec, names=ok and list(r.joint_names)[:J] == list(before.joint_names) and r.header.frame_id == before.header.frame_id, same=same, fresh=fresh)

def axis(P, R):
    """a long straight path with steps of very different lengths, the query beside it"""
    n = R.choice([2, 3, 5, 9])
    xs = [R.choice([0, -7, 40])]
    for _ in range(n - 1): xs.append(xs[-1] + R.choice([1, 1, 2, 3, 10, 100, 999, 1000]))
    x = R.choice([R.choice(xs), R.choice(xs) + 1, R.choice(xs) - 1, R.randrange(xs[0] - 2, xs[-1] + 3)])
    off = R.choice([0, 0, 1, -3, 20])
    a, b = R.sample(range(3), 2)
    def at(v, o):
        p = [5, 5, 5]; p[a] = v; p[b] = 5 + o
        return p
    given = wrap(R, [at(v, 0) for v in xs])
    st, r = attempt(P.closest_point, given, R.choice([list, tuple, np.array])(scaled(at(x, off))))
    ok = st == "ok" and len(r) == 3
    p = back(r[0]) if ok else [0, 0, 0]
    st2, w = attempt(P.travel_along, given, (xs[-1] - xs[0]) * 2 * U, R.choice([list, tuple, np.array])(scaled(at(x, off))))
    line = lambda q: abs(q[b] - 5) < 1e-9 and abs(q[3 - a - b] - 5) < 1e-9
    w = [back(q) for q in w] if st2 == "ok" else []
    ev("axis", xs=xs, x=x, status=[st, st2], ind=int(r[1]) if ok else -1, alpha=fix(r[2], 1e6) if ok else -1, p=fix(p[a], 10000) if ok else BAD, on=ok and line(p), out=[fix(q[a], 10000) for q in w], onw=all(line(q) for q in w))

def polylines():
    global U
    import arc_utilities.path_utils as P, rospy, trajectory_msgs.msg as M
    R = rng(31)
    for l in gen_lines():
        path, at, d = tla(l)
        begin("path")
        travel(P, R, path, at, 16 * d)
        if R.random() < .2: closest(P, R, path, at)
    for it in range(scale(700, 7000)):
        begin("path")
        U = R.choice([1.0, 1.0, 2.0 ** -10, 2.0 ** -20, 1024.0, 2.0 ** 20])
        axis(P, R)
        D = R.choice([2, 2, 3]); n = R.choice([1, 2, 2, 3, 4, 7])
        if R.random() < .3:      # steps along the axes: exact lengths, overlaps, repeated points
            path = [[0] * D]
            for _ in range(n - 1):
                p = list(path[-1]); c = R.randrange(D); p[c] = max(-8, min(8, p[c] + R.choice([-3, -1, 0, 1, 2, 4]))); path.append(p)
        else:
            path = [[R.randrange(-8, 9) for _ in range(D)] for _ in range(n)]
            if R.random() < .3 and n > 1: path[R.randrange(1, n)] = list(path[0])
            if R.random() < .2 and n > 1: k = R.randrange(1, n); path[k] = list(path[k - 1])
        q = list(R.choice(path)) if R.random() < .3 else [R.randrange(-8, 9) for _ in range(D)]
        closest(P, R, path, q)
        d16 = R.choice([0, 16, -16, 8, -8, 48, -48, 1000, -1000, R.randrange(-200, 200), R.randrange(-600, 600)])
        travel(P, R, path, None if R.random() < .25 else q, d16)
        dense(P, R, path, R.choice([1, 4, 8, 16, 16, 32, 80, 1600]) if max(map(abs, sum(path, []))) < 3 else R.choice([8, 16, 16, 32, 80, 1600]))
        if R.random() < .2: reverse(P, R, rospy, M)
        U = 1.0
        a, b, c = sorted([R.randrange(-9, 9), R.randrange(-9, 9)]) + [R.randrange(-12, 12)]
        st, r = attempt(P.clamp, c, a, b); ev("clamp", lo=a, hi=b, v=c, status=st, r=enc(r, 1))
        st, r = attempt(P.dist, path[0], q); ev("dist", a=path[0], b=q, status=st, d2=fix(float(r) ** 2, 1000))

def polys():
    import arc_utilities.trajectory_planning as T
    R = rng(32)
    def vec(kind, v):
        if kind == "float": return float(v[0])
        if kind == "int": return int(v[0])
        if kind == "col": return np.array([[float(x)] for x in v])
        if kind == "ivec": return np.array(v)
        return np.array([float(x) for x in v])
    for it in range(scale(500, 5000)):
        begin("poly")
        how = R.choice(["linear", "quadratic", "cubic", "cubic", "raw"])
        kind = R.choice(["float", "int", "vec", "vec", "col", "ivec"])
        n = 1 if kind in ("float", "int") else R.choice([1, 2, 3, 6])
        dyad = R.random() < .7
        # durations 1/2, 1, 2, 4, 8 are exact; others are compared with a tolerance
        T2 = R.choice([1, 2, 4, 8, 16]) if dyad else R.choice([3, 5, 6, 7, 11, 2000])
        dur = T2 / 2.0
        x0, x1, v0, v1 = [[R.randrange(-9, 10) for _ in range(n)] for _ in range(4)]
        args = [vec(kind, x0), vec(kind, v0), vec(kind, x1), vec(kind, v1)]
        before = copy.deepcopy(args)
        if dur == int(dur) and R.random() < .5: dur = int(dur)
        if how == "linear": st, f = attempt(T.get_linear_trajectory, args[0], args[1])
        elif how == "quadratic": st, f = attempt(T.get_quadratic_trajectory, args[0], args[1], args[2], dur)
        elif how == "cubic": st, f = attempt(T.get_cubic_trajectory, args[0], args[1], args[2], args[3], dur)
        else: st, f = attempt(T.get_trajectory_fn, args[0], args[1], args[2], args[3])
        rec = []
        for j in [0, 4] + R.sample([-3, -1, 1, 2, 3, 5, 6], 3):
            t = j * (T2 / 8.0)
            if st == "ok": st, xva = attempt(f, t)
            if st != "ok": break
            s = [1, dur, dur * dur]
            shape = all(np.shape(y) == np.shape(args[0]) for y in xva)
            rows = [[fix(float(z) * k, 640) for z in np.ravel(y)] for y, k in zip(xva, s)]
            rec.append(dict(j=j, shape=shape, x=rows[0], v=rows[1], a=rows[2]))
        ev("poly", how=how, T2=T2, exact=dyad, x0=x0, v0=v0, x1=x1, v1=v1, status=st, rec=rec, same=all(np.array_equal(a, b) for a, b in zip(args, before)))

main(dict(polylines=polylines, polys=polys))
