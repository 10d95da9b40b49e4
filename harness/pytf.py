# Rigid transforms, quaternions and points in Python; colour maps.
import copy, math
from pytrace import *
import numpy as np
from geometry_msgs.msg import Point, Vector3, Quaternion, Pose, Transform

FIFTHS = [(-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3), (5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0)]
def ang(k): return math.pi if k == 12 else math.atan2(FIFTHS[k - 1][1], FIFTHS[k - 1][0])
AXES = [(0, 0, 1), (1, 0, 0), (0, -1, 0), (1, 2, 2), (-2, 3, 6), (0, -3, 4), (4, -4, 7), (2, -1, -2), (0, 0, -5)]
S4, S3 = 1e4, 1e3
def quat(R):
    while True:
        q = [R.randint(-3, 3) for _ in range(4)] if R.random() < .7 else R.choice([[0, 0, 0, 1], [0, 0, 0, -2], [1, 0, 0, 0], [0, 1, 0, 1], [1, 1, 1, 1], [0, 0, 2, 0], [-1, 0, 0, 1]])
        if any(q): return list(q)
def unit(q): n = math.sqrt(sum(c * c for c in q)); return [c / n for c in q]
def vec(R, m=9): return [R.randint(-m, m) for _ in range(3)]
def msgq(q): return Quaternion(*[float(c) for c in unit(q)])
def mk(R, p):
    """a Pose or Transform of translation and rotation"""
    t, q = p
    return Pose(Point(*map(float, t)), msgq(q)), Transform(Vector3(*map(float, t)), msgq(q))
def m4(m): return [fix(m[r][c], S4) for r in range(3) for c in range(4)] + [0 if [float(x) for x in m[3]] == [0, 0, 0, 1] else BAD]
def tq(t, q): return [fix(c, S4) for c in t] + [fix(c, S3) for c in q]
def comp(x):
    t, q = (x.position, x.orientation) if isinstance(x, Pose) else (x.translation, x.rotation)
    return tq([t.x, t.y, t.z], [q.x, q.y, q.z, q.w])
def xyz(p, s=S4): return [fix(p.x, s), fix(p.y, s), fix(p.z, s)]
def kind(x, c): return type(x) is c

def poses(R, CV):
    from geometry_msgs.msg import PoseStamped, PointStamped
    import rospy
    h = [R.randint(1, 12) for _ in range(3)]; t = vec(R); q = quat(R); f = R.choice(["six", "seven", "pose", "stamped", "short", "other"])
    pose, _ = mk(R, (t, q))
    src = dict(six=[float(c) for c in t] + [2 * ang(k) for k in h], seven=[float(c) for c in t] + unit(q), pose=pose, stamped=PoseStamped(pose=pose), short=[1.0] * R.choice([0, 1, 3, 5, 8]), other=R.choice([None, 4, "six"]))[f]
    now = rospy.Time.now(); st, r = attempt(CV.convert_to_pose_msg, src)
    ev("posemsg", form=f, st=st, t=t, q=q, h=h, o=comp(r.pose) if st == "ok" else [], same=st != "ok" or type(r) is PoseStamped and (f != "stamped" or r is src) and (f != "pose" or r.pose == src), stamped=st == "ok" and r.header.stamp.to_sec() >= now.to_sec() and now.to_sec() >= 0)
    ps = [vec(R) for _ in range(R.randint(0, 4))]; fs = [R.choice(["pt", "st", "list", "tup", "arr"]) for _ in ps]
    def one(v, f): return dict(pt=Point(*map(float, v)), st=PointStamped(point=Point(*map(float, v))), list=[float(c) for c in v], tup=tuple(map(float, v)), arr=np.array(v, float))[f]
    st, r = attempt(CV.convert_to_positions, {"k%d" % j: one(v, f) for j, (v, f) in enumerate(zip(ps, fs))})
    ev("positions", st=st, v=ps, out=[xyz(r["k%d" % j]) for j in range(len(ps))] if st == "ok" and len(r) == len(ps) else [], kinds=st == "ok" and all(type(x) is Point for x in r.values()))

def transforms():
    from arc_utilities import transformation_helper as T
    from arc_utilities import numpy_conversions as NC, normalize_point_msg as NP, marker_utils as MU, conversions as CV
    from visualization_msgs.msg import Marker, MarkerArray
    R = rng(71)
    for n in range(scale(600, 4000)):
        begin("tf")
        for k in range(R.randint(4, 12)):
            a, b, p = (vec(R), quat(R)), (vec(R), quat(R)), vec(R)
            pa, ta = mk(R, a); pb, tb = mk(R, b); pt = R.choice([Point, Vector3])(*map(float, p))
            before = copy.deepcopy((pa, ta, pb, tb, pt))
            what = R.randrange(13); st = "ok"
            A = dict(a=list(a), b=list(b))
            if what <= 1:
                ma, mb = T.TransformToMatrix(ta), T.PoseToMatrix(pb)
                st, r = attempt(lambda: (T.ComposeTransforms(ta, tb), T.ComposePoses(pa, pb), T.ComposeMatrices(ma, mb)))
                if st == "ok": ev("compose", t=comp(r[0]), p=comp(r[1]), m=m4(r[2]), kinds=kind(r[0], Transform) and kind(r[1], Pose), same=before == (pa, ta, pb, tb, pt), **A)
            elif what == 2:
                ma = T.PoseToMatrix(pa); mb = ma.copy()
                st, r = attempt(lambda: (T.InvertTransform(ta), T.InvertPose(pa), T.InvertMatrix(ma)))
                if st == "ok": ev("invert", a=list(a), t=comp(r[0]), p=comp(r[1]), m=m4(r[2]), kinds=kind(r[0], Transform) and kind(r[1], Pose), same=before == (pa, ta, pb, tb, pt) and (ma == mb).all())
            elif what == 3:
                st, r = attempt(lambda: (T.ComposePoseWithPoint(pa, pt), T.ComposeTransformWithPoint(ta, pt)))
                if st == "ok": ev("act", a=list(a), v=p, p=xyz(r[0]), t=xyz(r[1]), kinds=kind(r[0], Point) and kind(r[1], Point), same=before == (pa, ta, pb, tb, pt))
            elif what == 4:
                q = Point(*map(float, b[0]))
                st, r = attempt(lambda: (T.AddPoints(pt, q), T.SubtractPoints(pt, q), T.TranslationNorm(pt), T.PointFromVector(T.PointToVector(pt)), T.PointToVector(pt)))
                if st == "ok": ev("points", v=p, w=b[0], add=xyz(r[0]), sub=xyz(r[1]), n2=fix(r[2] ** 2, S4), back=xyz(r[3]), vec=[fix(c, 1) for c in r[4]], same=before == (pa, ta, pb, tb, pt))
            elif what == 5:   # conversions
                st, r = attempt(lambda: dict(pt=comp(T.PoseFromTransform(ta)), tp=comp(T.PoseToTransform(pa)), pc=comp(T.PoseFromComponents(a[0], unit(a[1]))), tc=comp(T.TransformFromComponents(a[0], unit(a[1]))), cp=tq(*T.ComponentsFromPose(pa)), ct=tq(*T.ComponentsFromTransform(ta)),
                    tm=m4(T.TransformToMatrix(ta)), pm=m4(T.PoseToMatrix(pa)), bm=m4(T.BuildMatrix(a[0], unit(a[1]))), br=m4(T.BuildMatrixRos(pa.position, pa.orientation)),
                    fm=comp(T.TransformFromMatrix(T.TransformToMatrix(ta))), fp=comp(T.PoseFromMatrix(T.PoseToMatrix(pa))), ef=tq(*T.ExtractFromMatrix(T.TransformToMatrix(ta)))))
                if st == "ok":
                    m = T.TransformToMatrix(ta); rot, tr = T.ExtractRawFromMatrix(m)
                    r["raw"] = m4(T.BuildRawMatrix(rot, tr)); r["tr"] = m4(T.BuildMatrixFromTransRot(tr, rot))
                    ev("convert", a=list(a), kinds=kind(T.PoseFromTransform(ta), Pose) and kind(T.PoseToTransform(pa), Transform), same=before == (pa, ta, pb, tb, pt), **r)
            elif what == 6:
                f = R.choice([1, .5, 3, 7.25]); g = R.choice([1, 2, -1, .5]); q1, q2 = [f * c for c in a[1]], [c * abs(g) for c in b[1]]; keep = (list(q1), list(q2))
                st, r = attempt(lambda: (T.ComposeQuaternions(q1, q2), T.NormalizeQuaternion(q1), T.NormalizeQuaternionRos(Quaternion(*map(float, q1))), T.AngleBetweenQuaternions(q1, q2), T.AngleBetweenQuaternionsRos(Quaternion(*map(float, q1)), Quaternion(*map(float, q2)))))
                if st == "ok": ev("quats", p=a[1], q=b[1], m=[fix(c, S3) for c in r[0]], n=[fix(c, S3) for c in r[1]], nr=[fix(c, S3) for c in (r[2].x, r[2].y, r[2].z, r[2].w)], c=fix(math.cos(r[3] / 2), S3), cr=fix(math.cos(r[4] / 2), S3), rng=0 <= r[3] <= math.pi + 1e-9 and 0 <= r[4] <= math.pi + 1e-9, same=keep == (q1, q2))
            elif what == 7:
                st, r = attempt(T.AxisFromQuaternion, unit(a[1]))
                if st == "ok": ev("axis", q=a[1], c=fix(math.cos(r[0] / 2), S3), s=fix(math.sin(r[0] / 2), S3), ax=[fix(c, S3) for c in r[1]], back=[fix(c, S3) for c in T.QuaternionFromAxisAngle(r[1], r[0])])
            elif what == 8:
                ax = R.choice(AXES) if R.random() < .9 else (0, 0, 0); h = R.randint(1, 12)
                st, r = attempt(T.QuaternionFromAxisAngle, list(map(float, ax)), 2 * ang(h))
                if st == "ok": ev("spin", ax=list(ax), h=h, q=[fix(c, S3) for c in r])
            elif what == 9:
                d, aa, th, al = R.randint(-9, 9), R.randint(-9, 9), R.randint(1, 12), R.randint(1, 12)
                args = (float(d), float(aa), ang(th), ang(al))
                st, r = attempt(lambda: dict(m=m4(T.BuildMatrixFromDH(*args)), e=tq(*T.ExtractFromDH(*args)), t=comp(T.TransformFromDH(*args)), p=comp(T.PoseFromDH(*args))))
                if st == "ok": ev("dh", d=d, a=aa, th=th, al=al, **r)
            elif what == 10:
                v = list(R.choice(AXES)) if R.random() < .5 else vec(R, 4); R.shuffle(v)
                st, r = attempt(T.vector3_to_spherical, [float(c) for c in v])
                if st == "ok":
                    rad, phi, th = map(float, r); rho = math.hypot(v[0], v[1]); back = T.spherical_to_vector3(r)
                    ev("sphere", v=v, r2=fix(rad * rad, S4), rz=fix(rad * math.cos(th), S4), px=fix(rho * math.cos(phi), S4), py=fix(rho * math.sin(phi), S4), rng=rad >= 0 and -math.pi <= phi <= math.pi and 0 <= th <= math.pi, back=[fix(c, S4) for c in back])
                h, k2, rr = R.randint(1, 12), R.randint(6, 12), R.randint(0, 9)
                st2, r = attempt(T.spherical_to_vector3, [rr, ang(h), ang(k2)])
                ev("place", r=rr, h=h, k=k2, v=[fix(c, S4) for c in r] if st2 == "ok" else [])
            elif what == 11:
                pts = [vec(R) for _ in range(R.randint(0, 5))]; msgs = [R.choice([Point, Vector3])(*map(float, v)) for v in pts]; tr = R.random() < .6
                st, r = attempt(NC.ListPointsToNpArray, msgs, T.PoseToMatrix(pa)) if tr else attempt(NC.ListPointsToNpArray, msgs)
                if st == "ok": ev("array", a=list(a), tr=tr, v=pts, shape=list(r.shape), out=[[fix(r[c][k2], S4) for c in range(3)] for k2 in range(len(pts))])
            else:
                v = list(R.choice(AXES)) if R.random() < .8 else [0, 0, 0]; raw = Point(*map(float, v))
                st1, r = attempt(NP.normalize_point, raw); st2, r2 = attempt(NP.make_unit_point, *map(float, v)); st3, r3 = attempt(T.NormalizeVector3, [float(c) for c in v])
                ev("unit", v=v, st=[st1, st2, st3], p=xyz(r) if r else [], m=xyz(r2) if r2 else [], n=[fix(c, S4) for c in r3] if r3 else [])
                sc = [vec(R) for _ in range(R.randint(0, 4))]; ms = MarkerArray(markers=[Marker(scale=Vector3(*map(float, s)), id=j) for j, s in enumerate(sc)]); f = R.choice([0, 1, 2, -3, .5])
                st, r = attempt(MU.scale_marker_array, ms, f)
                if st == "ok": ev("markers", v=sc, f2=int(2 * f), out=[xyz(mk_.scale, 2) for mk_ in r.markers], ids=[mk_.id for mk_ in r.markers] == list(range(len(sc))))
                q = Quaternion(*map(float, a[1])); st, r = attempt(CV.normalize_quaternion, q if R.random() < .5 else [float(c) for c in a[1]])
                if st == "ok": ev("norm", q=a[1], o=[fix(c, S3) for c in ((r.x, r.y, r.z, r.w) if isinstance(r, Quaternion) else r)])
                poses(R, CV)
            if st != "ok": ev("failed", what=what, st=st)

def fx(v, s=S4): return [fix(c, s) for c in v]
def rgba(c): return fx((c.r, c.g, c.b, c.a))
def colours():
    from arc_utilities import color as C
    R = rng(72)
    begin("maps")
    D = 120
    for k in range(-6, D + 7):
        for lo, hi in ((0, 1), (R.randint(-9, 5), R.randint(6, 20))):
            v = lo + (hi - lo) * k / D
            st, r = attempt(C.interpolate_hot_to_cold, v, float(lo), float(hi)) if (lo, hi) != (0, 1) or k % 2 else attempt(C.interpolate_hot_to_cold, v)
            st2, c = attempt(C.map_color, k / D)
            ev("hot", k=k, d=D, st=st, c=fx(r) if st == "ok" else [], m=rgba(c) if st2 == "ok" else [])
        st, r = attempt(C.interpolate_jet, k / D, True); st2, r2 = attempt(C.interpolate_jet, (k - D) / D, True); st3, r3 = attempt(C.interpolate_jet, k / D)
        ev("jet", k=k, d=D, st=[st, st2, st3], c=fx(r) if st == "ok" else [], n=fx(r2) if st2 == "ok" else [], h=fx(r3) if st3 == "ok" else [])
    for lo, hi in ((1, 1), (2, 1), (0, -3)): ev("range", st=attempt(C.interpolate_hot_to_cold, .5, float(lo), float(hi))[0])
    begin("make")
    for n in range(60):
        v = [R.choice([R.randint(-20, 30), 0, 10]) for _ in range(4)]; st, c = attempt(C.make_color, *[x / 10 for x in v])
        ev("make", v=v, st=st, c=rgba(c) if st == "ok" else [])
        v = [R.randint(0, 255) for _ in range(R.choice([3, 4]))]; f = R.choice(["#", "t"]); st, c = attempt(C.to_color_msg, "#" + "".join("%02x" % x for x in v) if f == "#" else tuple(x / 255 for x in v))
        ev("tomsg", v=v, st=st, c=rgba(c) if st == "ok" else [])
    EX = [(0, 0, 0), (10, 10, 10), (5, 5, 5), (10, 0, 0), (0, 10, 0), (0, 0, 10), (1, 0, 0), (0, 0, 1), (0, 10, 10), (10, 0, 10), (10, 10, 0), (2, 3, 8), (7, 0, 1)]
    def col(): return list(R.choice(EX)) if R.random() < .5 else [R.randint(0, 10) for _ in range(3)]
    def msh(c): return C.rgb_to_msh(*[x / 10 for x in c])
    for n in range(scale(500, 3000)):
        begin("space")
        c = col(); f = [x / 10 for x in c]
        st, xyz_ = attempt(C.convert_rgb_to_xyz, *f); st2, lab = attempt(C.convert_xyz_to_lab, *(xyz_ or [0, 0, 0])); st3, m = attempt(C.convert_lab_to_msh, *(lab or [0, 0, 0]))
        if "ok" == st == st2 == st3:
            st, bk = attempt(lambda: (C.convert_xyz_to_rgb(*xyz_), C.convert_lab_to_xyz(*lab), C.convert_msh_to_lab(*m), C.msh_to_rgb(*m), C.rgb_to_msh(*f)))
        else: st = "bad"
        if st == "ok":
            ev("space", c=c, st=st, xyz=fx(xyz_), lab=fx(lab, 100), rgb=fx(bk[0]), xyz2=fx(bk[1]), lab2=fx(bk[2], 100), rgb2=fx(bk[3]), msh=fx(m, 1000), msh2=fx(bk[4], 1000),
               ml=fix(m[0] * math.cos(m[1]), 100), ma=fix(m[0] * math.sin(m[1]) * math.cos(m[2]), 100), mb=fix(m[0] * math.sin(m[1]) * math.sin(m[2]), 100), rng=m[0] >= 0 and 0 <= m[1] <= math.pi and -math.pi <= m[2] <= math.pi)
        else: ev("space", c=c, st=st)
        c1, c2 = col(), col(); t = R.choice([0, 20, 10, R.randint(0, 20), R.randint(-3, 23)])
        st, r = attempt(C.interpolate_coolwarm, [x / 10 for x in c1], [x / 10 for x in c2], t / 20); st2, r2 = attempt(C.interpolate_coolwarm, [x / 10 for x in c2], [x / 10 for x in c1], 1 - t / 20)
        m1, m2, mo = msh(c1), msh(c2), C.rgb_to_msh(*r) if st == "ok" else [0, 0, 0]
        ev("warm", a=c1, b=c2, t=t, st=[st, st2], o=fx(r) if st == "ok" else [], back=fx(r2) if st2 == "ok" else [], m1=fx(m1, 1000), m2=fx(m2, 1000), m=fx(mo, 1000))

if __name__ == "__main__":
    main(dict(transforms=transforms, colours=colours))
