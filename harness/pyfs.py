# Directory helpers and the clean-up scripts, on directory trees inside a scratch directory, as an unprivileged user.
import builtins, contextlib, io, os, pathlib, shutil, stat, sys, tempfile
from pytrace import *
import colorama, glob, fnmatch, argparse, runpy, locale, gettext, textwrap

import arc_utilities.filesystem_utils as FS
import arc_utilities.conversions
SCRIPTS = {n: compile(open(os.path.join(REPO, "scripts", n + ".py")).read(), n + ".py", "exec") for n in ("remove_small_directories", "remove_directories_with_few_files")}

ROOT = None
GEN = gen_lines()      # read before the privileges are dropped
escapes = []
def contain():
    """anything deleted or created outside the scratch directory is refused and noted"""
    def inside(p, dir_fd=None):
        if dir_fd is not None:
            p = os.path.join(os.readlink("/proc/self/fd/%d" % dir_fd), os.fspath(p))
        p = os.path.abspath(os.fspath(p))
        return (os.path.realpath(os.path.dirname(p)) + "/").startswith(ROOT)
    def guard(f):
        def g(p, *a, **k):
            if not inside(p, k.get("dir_fd")):
                escapes.append(str(p)); raise PermissionError("outside: %s" % p)
            return f(p, *a, **k)
        return g
    for n in ("unlink", "remove", "rmdir", "rename", "replace", "mkdir"):
        setattr(os, n, guard(getattr(os, n)))

# ---- trees
class Tree:
    """nodes: dicts id, up (0: scratch root), kind d/f/l, size, to, name; built on disk below base"""
    n_ = 0
    def __init__(self, R):
        Tree.n_ += 1
        self.base = pathlib.Path(ROOT) / ("t%d" % Tree.n_)
        os.mkdir(self.base)
        self.nodes, self.R = [], R
        self.names = set()
    def path(self, n):
        if n == 0: return self.base
        t = self.nodes[n - 1]
        return self.path(t["up"]) / t["name"]
    def add(self, up, kind, size=0, to="-", target=None, name=None):
        R = self.R
        n = len(self.nodes) + 1
        if name is None:
            name = R.choice(["n%d", "n%d.txt", "n %d", ".n%d", "n[%d]", "n*%d", "n%d.tar.gz", "-n%d", "n?%d", "~n%d", "n%d\n", "[!n]%d", "\u00e9%d"]) % n
        self.nodes.append(dict(id=n, up=up, kind=kind, size=size, to=to, name=name))
        p = self.path(n)
        if kind == "d": os.mkdir(p)
        elif kind == "f": p.write_bytes(b"x" * size)
        else:
            q = self.path(target) if isinstance(target, int) else target
            if isinstance(target, int) and R.random() < .5: q = os.path.relpath(q, p.parent)
            os.symlink(q, p)
            if to == "f": self.nodes[-1]["size"] = p.stat().st_size
        return n
    def state(self):
        """ids still there as built, and the number of other entries"""
        here = []
        known = set()
        for t in self.nodes:
            p = self.path(t["id"]); known.add(str(p))
            try: st = os.lstat(p)
            except OSError: continue
            k = "l" if stat.S_ISLNK(st.st_mode) else "d" if stat.S_ISDIR(st.st_mode) else "f"
            if k == t["kind"] and (k != "f" or st.st_size == t["size"]): here.append(t["id"])
        other = 0
        for d, ds, fs in os.walk(self.base):
            other += sum(1 for e in ds + fs if os.path.join(d, e) not in known)
        return here, other
    def spec(self): return [{k: t[k] for k in ("id", "up", "kind", "size", "to")} for t in self.nodes]
    def ids_of(self, texts):
        byname = {}
        for t in self.nodes: byname[self.path(t["id"]).as_posix()] = t["id"]
        return [byname.get(x, 0) for x in texts]
    def drop(self):
        subprocess_free_rmtree(self.base)
def subprocess_free_rmtree(p):
    for d, ds, fs in os.walk(p, topdown=False):
        for e in fs: os.unlink(os.path.join(d, e))
        for e in ds:
            q = os.path.join(d, e)
            os.unlink(q) if os.path.islink(q) else os.rmdir(q)
    os.rmdir(p)

def outside(T):
    o = T.add(0, "d", name="outside")
    f = T.add(o, "f", 7)
    s = T.add(o, "d"); T.add(s, "f", 3)
    return o, f
def grow(T, top, R, n, links=True, size=60):
    dirs = [top]
    for _ in range(n):
        up = R.choice(dirs)
        k = R.choice(["d", "d", "f", "f", "f", "l"] if links else ["d", "f", "f"])
        if k == "d": dirs.append(T.add(up, "d"))
        elif k == "f": T.add(up, "f", R.choice([0, 1, 5, R.randrange(0, size)]))
        else: link(T, up, R.choice(["out", "file", "none", "root", "sibling", "self"]), top)
def link(T, up, to, top):
    R = T.R
    if to == "out": T.add(up, "l", to="d", target=1)
    elif to == "file": T.add(up, "l", to="f", target=2)
    elif to == "none": T.add(up, "l", to="-", target=R.choice(["nowhere", "/nonexistent/x", "../gone"]))
    elif to == "root": T.add(up, "l", to="d", target=top)
    elif to == "self": T.add(up, "l", to="-", target="loop", name="loop") if not os.path.lexists(T.path(up) / "loop") else None
    else:
        ds = [t["id"] for t in T.nodes if t["kind"] == "d" and t["id"] > 2]
        T.add(up, "l", to="d", target=R.choice(ds))

class Answer:
    """stands in for the person at the keyboard"""
    def __init__(self, ans, T): self.ans, self.asked, self.T, self.out, self.before, self.shown = ans, 0, T, io.StringIO(), None, None
    def __enter__(self):
        self.old = builtins.input
        builtins.input = self.input
        self.cm = contextlib.redirect_stdout(self.out); self.cm.__enter__()
        return self
    def input(self, *a):
        self.asked += 1
        self.shown = self.out.getvalue()
        self.before = self.T.state()[0]
        if self.ans == "EOF": raise EOFError()
        return self.ans
    def __exit__(self, *a):
        self.cm.__exit__(*a); builtins.input = self.old
        return False
def listed(T, text):
    text = text or ""
    out = []
    for t in T.nodes:
        p = T.path(t["id"]).as_posix()
        k = text.find(p)
        while k >= 0:
            e = k + len(p)
            if e == len(text) or text[e] in "\r\n\x1b": out.append((k, t["id"])); break
            k = text.find(p, k + 1)
    return [i for _, i in sorted(out)]

def one_rm(T, n, how):
    begin("fs", nodes=T.spec())
    p = T.path(n)
    st, _ = attempt(FS.rm_tree, str(p) if how else p)
    here, other = T.state()
    ev("rm", id=n, status=st, here=here, other=other, esc=len(escapes))
    T.drop()

def rm():
    R = rng(11)
    for l in GEN:
        T = Tree(R); o, f = outside(T)
        top = T.add(0, "d")
        m = {3: top}
        for k, (up, kind, to) in enumerate(tla(l)):
            if kind == "l": link(T, m[up], to, top); m[4 + k] = len(T.nodes)
            else: m[4 + k] = T.add(m[up], kind, 2 if kind == "f" else 0)
        one_rm(T, top, R.random() < .3)
    for it in range(scale(150, 1500)):
        T = Tree(R); o, f = outside(T)
        top = T.add(0, "d"); grow(T, top, R, R.choice([0, 3, 8, 25]))
        ds = [t["id"] for t in T.nodes if t["kind"] == "d" and t["id"] >= top]
        one_rm(T, R.choice(ds) if R.random() < .5 else top, R.random() < .3)
    for it in range(scale(20, 100)):    # the path itself is a link
        T = Tree(R); o, f = outside(T)
        n = T.add(0, "l", to="d", target=o)
        one_rm(T, n, False)

def ask():
    R = rng(12)
    for it in range(scale(250, 2500)):
        T = Tree(R); o, f = outside(T)
        tops = []
        for _ in range(R.choice([0, 1, 2, 3, 5])):
            top = T.add(0, "d"); tops.append(top); grow(T, top, R, R.choice([0, 2, 6]))
        rest = [t for t in tops if R.random() < .7]; R.shuffle(rest)
        ans = R.choice(["", "y", "Y", "", "y", "n", "N", "no", "x", " ", "EOF", "0", "q", "nY", "yes", "Yes", "yy", "yes ", "YES"])
        kind = R.choice(["list", "tuple", "gen", "iter", "map", "set"])
        paths = [T.path(t) for t in rest]
        given = {"list": lambda: list(paths), "tuple": lambda: tuple(paths), "gen": lambda: (p for p in paths), "iter": lambda: iter(paths), "map": lambda: map(pathlib.Path, paths), "set": lambda: dict.fromkeys(paths)}[kind]()
        begin("fs", nodes=T.spec())
        with Answer(ans, T) as A:
            st, _ = attempt(FS.ask_to_remove_directories, given)
        here, other = T.state()
        ev("ask", ids=rest, ans=ans, kind=kind, status=st, asked=A.asked, before=A.before or [], shown=listed(T, A.shown), here=here, other=other, esc=len(escapes))
        T.drop()

def run_script(name, argv):
    old, out, err = sys.argv, sys.stdout, sys.stderr      # colorama wraps the streams, once more on every run
    sys.argv = [name] + argv
    g = {"__name__": "__main__", "__file__": name}
    try:
        exec(SCRIPTS[name], g)
        return "ok"
    except SystemExit as e: return "exit"
    except Exception as e: return type(e).__name__
    finally: sys.argv, sys.stdout, sys.stderr = old, out, err
def scripts():
    R = rng(13)
    for it in range(scale(250, 2500)):
        T = Tree(R); o, f = outside(T)
        roots = []
        for _ in range(R.choice([1, 1, 2])):
            r = T.add(0, "d"); roots.append(r)
            for _ in range(R.choice([0, 1, 3, 5])):
                k = R.choice(["d", "d", "d", "f", "l"])
                if k == "d":
                    d = T.add(r, "d"); grow(T, d, R, R.choice([0, 1, 4, 9]), links=R.random() < .5, size=2500)
                elif k == "f": T.add(r, "f", R.randrange(0, 40))
                else: link(T, r, R.choice(["out", "file", "none"]), r)
        few = R.random() < .5
        if few: lim = R.choice([0, 1, 2, 3, 5, 10]); text = str(lim)
        else:
            # often exactly the size of one of the directories
            sizes = [sum(t["size"] for t in T.nodes if t["kind"] == "f" and str(T.path(t["id"])).startswith(str(T.path(d["id"])) + "/")) for d in T.nodes if d["kind"] == "d" and d["up"] in roots]
            lim = R.choice(sizes) + R.choice([0, 0, 1]) if sizes and R.random() < .5 else R.choice([0, 1, 5, 30, 1000, 2000, 3000])
            text = "%dk" % (lim // 1000) if lim and lim % 1000 == 0 else "%d" % lim + R.choice(["", "b", "B"])
        ans = R.choice(["y", "", "n", "EOF", "Y"])
        begin("fs", nodes=T.spec())
        with Answer(ans, T) as A:
            st = run_script("remove_directories_with_few_files" if few else "remove_small_directories", [str(T.path(r)) for r in roots] + [text])
        here, other = T.state()
        ev("script", few=few, roots=roots, lim=lim, ans=ans, status=st, asked=A.asked, before=A.before or [], shown=listed(T, A.shown), here=here, other=other, esc=len(escapes))
        T.drop()

def queries():
    R = rng(14)
    for it in range(scale(200, 2000)):
        T = Tree(R); o, f = outside(T)
        tops = [T.add(0, "d") for _ in range(R.choice([1, 2, 3]))]
        for t in tops: grow(T, t, R, R.choice([0, 3, 10, 20]))
        ds = [t["id"] for t in T.nodes if t["kind"] == "d"]
        begin("fs", nodes=T.spec())
        d = R.choice(ds)
        st, n = attempt(FS.count_files_recursive, T.path(d) if R.random() < .7 else str(T.path(d)))
        st2, s = attempt(FS.directory_size, T.path(d))
        sel = R.sample(ds, R.randrange(0, min(3, len(ds)) + 1))
        paths = [T.path(k) for k in sel]
        st3, subs = attempt(FS.get_all_subdirs, paths if R.random() < .5 else iter(paths))
        here, other = T.state()
        ev("query", id=d, status=[st, st2, st3], count=n if st == "ok" else -1, size=s if st2 == "ok" else -1, of=sel, subs=T.ids_of([p.as_posix() for p in subs]) if st3 == "ok" else [], here=here, other=other)
        # free paths and new directories
        for _ in range(3):
            up = R.choice(ds)
            base = T.path(up)
            name = R.choice(["a", "a.txt", "b.tar.gz", "log", "x.y.z", ".hid", "w_v1", "w"])
            stem, ext = (name.split(".")[0], name[len(name.split(".")[0]):]) if not name.startswith(".") else (name, "")
            made = []
            for v in range(R.choice([0, 1, 2, 4, 0, 1, 2, 4, 13])):
                q = base / (name if v == 0 else "%s_v%d%s" % (stem, v, ext))
                if R.random() < .2 or os.path.lexists(q): continue
                if R.random() < .5: q.write_text("x")
                else: os.mkdir(q)
                made.append(q)
            p = base / name
            was = p.exists()
            st, r = attempt(FS.no_overwrite_path, p)
            ev("free", was=was, status=st, same=st == "ok" and r == p, exists=st == "ok" and os.path.lexists(r), here=st == "ok" and r.parent == base, kept=all(q.exists() for q in made))
            p2 = base / R.choice([name, "new", os.path.join("deep", "new"), os.path.join("deep", "er", "x")])
            parents = R.random() < .5; yes = R.choice([None, False, True]); ans = R.choice(["", "y", "Y", "n", "q", "EOF", "yes", "Yes", "yN", "YES", "no"])
            existed, isdir, upthere = p2.exists(), p2.is_dir(), p2.parent.exists()
            before = sorted(str(x) for x in base.rglob("*"))
            content = p2.read_bytes() if p2.is_file() else b""
            with Answer(ans, T) as A:
                st, r = attempt(FS.mkdir_and_ask, p2, parents) if yes is None else attempt(FS.mkdir_and_ask, p2, parents, yes=yes)
            after = sorted(str(x) for x in base.rglob("*"))
            chain = [str(base / x) for x in ([p2.relative_to(base)] + list(p2.relative_to(base).parents)[:-1])]
            ev("mkdir", existed=existed, upthere=upthere, parents=parents, yes=bool(yes), ans=ans, asked=A.asked, status=st, r=bool(r) if st == "ok" else False, now=p2.is_dir(), wasdir=isdir,
               unchanged=before == after and (not p2.is_file() or p2.read_bytes() == content), only=set(after) - set(before) <= set(chain) and set(before) <= set(after))
            s = R.choice(["", "x", ".bak", "_1", " "])
            st, r = attempt(FS.append_str_to_path, p, s)
            ev("append", status=st, good=st == "ok" and str(r) == str(p) + s, made=st == "ok" and s != "" and r not in made and r.exists())
            for q in sorted(set(after) - set(before), reverse=True): os.rmdir(q)
            for q in made: os.unlink(q) if q.is_file() else os.rmdir(q)
        T.drop()

def unprivileged(f):
    def run():
        global ROOT
        d = os.path.realpath(tempfile.mkdtemp(prefix="vfs_"))
        os.chmod(d, 0o777)
        pid = os.fork()
        if pid == 0:
            code = 97
            try:
                ROOT = d + "/"
                os.chdir(d)
                if os.getuid() == 0:
                    try: os.setgroups([]); os.setgid(65534); os.setuid(65534)
                    except OSError: pass       # then only the guard contains the deletions
                contain()
                f()
                code = 0
            except BaseException:
                import traceback; traceback.print_exc()
            finally:
                sys.stdout.flush(); sys.stderr.flush(); os._exit(code)
        _, st = os.waitpid(pid, 0)
        shutil.rmtree(d, ignore_errors=True)
        if os.WIFSIGNALED(st) or os.WEXITSTATUS(st) == 1: ev("crash", what="HANG or signal %d" % st); done()
        if st != 0: os._exit(97)
    return run
main({k: unprivileged(v) for k, v in dict(rm=rm, ask=ask, scripts=scripts, queries=queries).items()})
