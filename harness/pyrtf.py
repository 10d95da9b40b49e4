# Continuous transform sending, under chosen interleavings of the user, the senders and the network.
import coop
coop.install()
from pytrace import *
import numpy as np
import rosfake, rospy, tf2_ros
from geometry_msgs.msg import Pose, Point, Quaternion
from tf.transformations import quaternion_matrix
import arc_utilities.reliable_tf as RT, arc_utilities.tf2wrapper

def unit(q): q = np.array(q, float); return q / np.linalg.norm(q)
VALS = [None] + [(np.array(t, float), unit(q)) for t, q in (
    ((1, 2, 3), (0, 0, 0, 1)), ((1, 2, 3), (0, 0, 1, 0)), ((-1, 0.5, 0), (1, 2, 3, 4)), ((1, 2, 3.25), (0, 0, 0, 1)), ((0, 0, 0), (0, 0, 0, 1)), ((100, -200, 0.125), (-1, 1, -2, 0.5)))]
def matrix(v):
    m = quaternion_matrix(VALS[v][1]); m[:3, 3] = VALS[v][0]; return m
MATS = [None] + [matrix(v) for v in range(1, len(VALS))]
def which(m):
    for v in range(1, len(VALS)):
        if m is not None and np.shape(m) == (4, 4) and np.allclose(m, MATS[v], atol=1e-9, rtol=0): return v
    return BAD

NAMES = [("a", "b"), ("a", "c"), ("b", "d"), ("ab", "c"), ("a", "bc"), ("b", "a2"), ("map", "odom"), ("c", "b"), ("x", "b")]

def scenario(choose, ops, pairs, static, opcodes, R):
    """ops: list of (what, pair, value)"""
    rosfake.reset()
    W = tf2_ros.world; W.frames.clear(); W.static.clear(); W.hook = W.on_send = None
    frames = sorted({f for p in pairs for f in p})
    begin("rtf", pairs=[[frames.index(a) + 1, frames.index(b) + 1] for a, b in pairs])
    s = coop.Sched(choose, ("arc_utilities/reliable_tf.py", "arc_utilities/tf2wrapper.py"), opcodes)
    pid = {p: k + 1 for k, p in enumerate(pairs)}
    thr = {}
    def me():
        t = s.me()
        return thr.setdefault(id(t), len(thr) + 1) if t is not None and isinstance(t.name, coop.Thread) else 0
    def live(): return sum(1 for t in s.ts if isinstance(t.name, coop.Thread) and t.state != "done")
    def on_send(ts, st):
        items = [[pid.get((t.header.frame_id, t.child_frame_id), 0), which(tf2_ros._mat(t))] for t in ts]
        if st: ev("set", thr=me(), items=items)
        else:
            for p, v in items: ev("send", p=p, v=v, thr=me())
        coop.S.point()
    def got(parent, child, m, st): ev("recv", p=pid[(parent, child)], v=which(m))
    W.on_send, W.hook = on_send, got
    W.net = [] if R.random() < .7 else None
    over = []
    def network():
        while True:
            coop.S.wait(lambda: W.net or over)
            if over: return
            tf2_ros.receive(*W.net.pop(0)); coop.S.point()
    def user():
        L = RT.ReliableTF()
        for what, p, v in ops:
            a, b = pairs[p - 1] if p else ("", "")
            if what == "start":
                ev("start", p=p, v=v, static=static[p - 1])
                api = R.randrange(3)
                k = dict(is_static=True) if static[p - 1] else {}
                sign = R.choice([1, -1])
                if api == 0: st, _ = attempt(L.start_send_transform_matrix, MATS[v].copy(), a, b, **k)
                elif api == 1: st, _ = attempt(L.start_send_transform_from_pose_msg, Pose(position=Point(*map(float, VALS[v][0])), orientation=Quaternion(*map(float, sign * VALS[v][1]))), a, b, **k)
                else: st, _ = attempt(L.start_send_transform, R.choice([list, tuple, np.array])(VALS[v][0]), R.choice([list, tuple, np.array])(sign * VALS[v][1]), a, b, **k)
                ev("started", p=p, status=st)
                if sum(c == b for _, c in pairs) > 1: continue
                if R.random() < .3:
                    st, m = attempt(L.get_transform, a, b); ev("look", p=p, v=which(m), status=st)
                if R.random() < .3:
                    st, m = attempt(L.get_transform, b, a); ev("look", p=p, v=which(np.linalg.inv(m)) if st == "ok" else BAD, status=st)
            elif what == "stop":
                ev("stop", p=p); st, _ = attempt(L.stop_send, a, b); ev("stopped", p=p, status=st)
            elif what == "close":
                ev("close"); st, _ = attempt(L.close); ev("closed", status=st, live=live())
            elif what == "rest":
                ev("rest"); s.fair = True; coop.S.sleep(1.5); s.fair = False; ev("rested", live=live())
            elif what == "gone":
                ev("close"); del L; ev("closed", status="ok", live=live()); L = RT.ReliableTF()
        ev("close"); st, _ = attempt(L.close); ev("closed", status=st, live=live())
        s.fair = True; coop.S.sleep(0.5); ev("rested", live=live())
        over.append(1)
    def on_time(now):
        rosfake.S.now = now
        if now > 200e9: s.dead = True
    s.on_time = on_time
    s.spawn(user, "u"); s.spawn(network, "n")
    ok = s.run()
    W.on_send = W.hook = None
    for t in s.ts:
        if t.exc is not None and t.name in ("u", "n"): print("thread", t.name, repr(t.exc)); os._exit(97)
    ev("end", stuck=not ok)

def history(R):
    pairs = R.sample(NAMES, R.choice([1, 2, 3, 4]))
    static = [R.random() < .3 for _ in pairs]
    # a frame's transforms are either all static or all not
    kids = {}
    static = [kids.setdefault(b, s) for (a, b), s in zip(pairs, static)]
    ops, on = [], {}
    rivals = R.random() < .3     # two pairs may share a child frame
    for _ in range(R.choice([2, 4, 8, 14])):
        p = R.randrange(len(pairs)) + 1; a, b = pairs[p - 1]
        w = R.choice(["start", "start", "start", "stop", "stop", "close", "rest", "gone"] if R.random() < .4 else ["start", "start", "stop"])
        if w == "start":
            if any(q != p and c == b for q, (_, c) in on.items()) and (not rivals or static[p - 1]): continue
            on[p] = pairs[p - 1]; ops.append((w, p, R.randrange(1, len(VALS))))
        elif w == "stop": on.pop(p, None); ops.append((w, p, 0))
        else:
            if w in ("close", "gone"): on.clear()
            ops.append((w, 0, 0))
    if R.random() < .6: ops.append(("rest", 0, 0))
    return pairs, static, ops
def reliable():
    R = rng(41)
    for l in gen_lines():
        ops = [(w, p, v) for w, p, v in tla(l)]
        pairs = R.choice([[("a", "b"), ("a", "c"), ("b", "d")], [("ab", "c"), ("a", "bc"), ("x", "y")], [("r", "1"), ("r", "2"), ("r", "3")]])
        if R.random() < .5: ops.insert(R.randrange(len(ops) + 1), ("rest", 0, 0))
        scenario(coop.randomly(R, R.choice([.05, .3]), .02), ops, pairs, [R.random() < .3 for _ in pairs], False, R)
    # two static transforms with the same child frame: only the later one remains
    for it in range(scale(20, 300)):
        pairs = R.choice([[("a", "c"), ("b", "c")], [("ab", "c"), ("b", "c"), ("a", "d")]])
        ops = [("start", 1, R.randrange(1, len(VALS))), ("stop", 1, 0), ("start", 2, R.randrange(1, len(VALS)))]
        if len(pairs) > 2: ops.insert(R.randrange(4), ("start", 3, R.randrange(1, len(VALS))))
        if R.random() < .5: ops += [("stop", 2, 0), ("start", 1, R.randrange(1, len(VALS)))]
        scenario(coop.randomly(R, R.choice([.05, .3]), .02), ops + [("rest", 0, 0)], pairs, [True] * len(pairs), False, R)
    for it in range(scale(150, 4000)):
        pairs, static, ops = history(R)
        scenario(coop.randomly(R, R.choice([.02, .1, .3, .6]), R.choice([.005, .05])), ops, pairs, static, R.random() < .06, R)
main(dict(reliable=reliable))
