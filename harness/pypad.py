# The game controller, in virtual time: messages arrive while somebody asks and waits.
from pytrace import *
import time
import rosfake, rospy
from rosfake import S
slept = []
def nap(s):
    S.now += int(round(s * 1e9))
    for f in list(slept): f()
time.sleep = nap
import numpy as np
from sensor_msgs.msg import Joy
from inputs import InputEvent
import arc_utilities.xbox as XB

BUTTONS = ["A", "B", "X", "Y", "LB", "RB", "back", "start", "power", "stick_button_left", "stick_button_right", "DL", "DR", "DU", "DD"]
AXES = ["LH", "LV", "LT", "RH", "RV", "RT", "DH", "DV"]
def th(v): return fix(v, 1000)
class World:
    def __init__(self, R, xpad):
        rosfake.reset(); slept.clear()
        self.R, self.xpad, self.sub = R, xpad, []
        self.t0 = S.now = R.choice([0, 10**9, 1700000000 * 10**9])
        begin("pad", xpad=xpad)
        S.hook = lambda kind, *d: self.sub.append(d[1]) if kind == "subscribed" else None
        topic = R.choice(["joy", "/pad/joy"])
        a = () if topic == "joy" and R.random() < .5 else (topic,)
        k = {} if xpad and R.random() < .5 else dict(xpad=xpad)
        self.X = XB.Xbox(*a, **k)
        S.hook = None
        if len(self.sub) != 1 or self.sub[0].name != topic or self.sub[0].data_class is not Joy: ev("subscription", got=len(self.sub))
    def now(self): return int((S.now - self.t0) // 1000000)
    def joy(self, set=None, values=None, sizes=(0, 0)):
        R = self.R
        n = 15 if self.xpad else 11
        b = [int(R.random() < .3) for _ in range(n + sizes[0])]
        a = [R.choice([0, 1000, -1000, 49, 50, -50, -49, 51, 1, R.randrange(-1000, 1001)]) for _ in range(8 + sizes[1])]
        for name, v in (values or {}).items():
            if name in AXES: a[AXES.index(name)] = v * 1000
            else: b[BUTTONS.index(name)] = v
        m = Joy(); seq = R.choice([list, tuple])
        m.buttons, m.axes = seq(b), seq(x / 1000.0 for x in a)
        ev("joy", now=self.now(), buttons=b, axes=a)
        self.sub[0].deliver(m)
    def shut(self):
        if not S.shutdown: S.shutdown = True; ev("shut", now=self.now())
    def ask(self):
        R, X = self.R, self.X
        w = R.choice(["state", "button", "button", "axis", "axis", "delta", "click"])
        if w == "state":
            st, r = attempt(X.get_buttons_state)
            ev("state", status=st, fields={k: th(v) for k, v in vars(r).items()} if st == "ok" else {"none": 0})
        elif w == "button":
            name = R.choice(BUTTONS + AXES + ["Z", "a"])
            st, r = attempt(X.get_button, name); ev("button", name=name, status=st, r=th(r) if st == "ok" else BAD)
        elif w == "axis":
            k = R.choice([0, 1, 2, 3, 4, 5, 6, 7, -1])
            st, r = attempt(X.get_axis_normalized, k); ev("axis", k=k, status=st, r=th(r) if st == "ok" else BAD)
        elif w == "delta":
            st, r = attempt(X.get_3d_delta); ev("delta", status=st, r=[th(v) for v in r] if st == "ok" and np.shape(r) == (3,) else [])
        else:
            t, c, s = R.choice(["Key", "Key", "Key", "Absolute", "Sync"]), R.choice(["BTN_NORTH", "BTN_NORTH", "BTN_SOUTH", "ABS_X"]), R.choice([0, 0, 1, -1])
            st, r = attempt(X.x_clicked, InputEvent("dev", dict(ev_type=t, code=c, state=s, timestamp=1.0))); ev("click", type=t, code=c, state=s, r=st == "ok" and bool(r))
    def wait(self, name, during):
        """during: called in every sleep, in turn"""
        n = [0]
        def f():
            n[0] += 1
            if n[0] <= len(during): during[n[0] - 1]()
            elif n[0] > len(during) + 20: self.shut()
            if n[0] > len(during) + 2000: raise MemoryError("waits for ever")
        slept.append(f)
        ev("wait", now=self.now(), name=name)
        st, _ = attempt(self.X.wait_for_button, name, *self.R.choice([(), (False,), (True,)]))
        ev("waited", now=self.now(), status=st)
        slept.clear()
        return during[n[0]:]

def pad():
    R = rng(91)
    for l in gen_lines():
        h = tla(l)
        xpad = R.random() < .5
        name = R.choice((BUTTONS if xpad else BUTTONS[:11]) + AXES)
        W = World(R, xpad)
        do = {1: lambda: W.joy(values={name: 0}), 2: lambda: W.joy(values={name: R.choice([1, 1, -1]) if name in AXES else 1}), 5: W.shut}
        h = list(h)
        while h:
            k = h.pop(0)
            if k == 3:
                groups = [[]]
                for x in h: groups.append([]) if x == 4 else groups[-1].append(x)
                left = W.wait(name, [lambda g=g: [do[x]() for x in g] for g in groups])
                for f in left: f()
                h = []
            else: do[k]()
        W.ask()
    for it in range(scale(400, 4000)):
        xpad = R.random() < .5
        W = World(R, xpad)
        if R.random() < .3:      # the first message comes while somebody already asks
            at = R.choice([1, 3, 40]); n = [0]
            def first():
                n[0] += 1
                if n[0] == at: W.joy()
            slept.append(first); 
            st, r = attempt(W.X.get_buttons_state)
            ev("state", status=st, fields={k: th(v) for k, v in vars(r).items()} if st == "ok" else {"none": 0})
            slept.clear()
        else: W.joy()
        for _ in range(R.choice([2, 5, 12])):
            x = R.random()
            if x < .3: W.joy()
            elif x < .36:
                W.joy(sizes=R.choice([(-1, 0), (1, 0), (4, 0), (-4, 0), (0, 1), (0, 2)]))
                st, r = attempt(W.X.get_buttons_state); ev("state", status=st, fields={k: th(v) for k, v in vars(r).items()} if st == "ok" else {"none": 0})
                W.joy()
            elif x < .5:
                name = R.choice((BUTTONS if xpad else BUTTONS[:11]) + AXES)
                acts = [R.choice([lambda: None, lambda: W.joy(values={name: 0}), lambda: W.joy(values={name: 0}), lambda: W.joy(values={name: 1}), lambda: (W.joy(values={name: 1}), W.joy(values={name: 0}))]) for _ in range(R.choice([0, 1, 4, 9]))]
                if R.random() < .1: acts.append(W.shut)
                W.wait(name, acts)
            else: W.ask()
main(dict(pad=pad))
