"""C22: what the studio writes, watched on the file system and in the interpreter."""
import common
common.setup_path()
import json
import os
import shutil
import stat
import sys
import tempfile

import numpy as np

import docs
import kernelbuild
import studio

TOUCHED = []            # what the interpreter was asked to write, delete, rename or spawn
WATCH = {"open": None, "os.rename": 2, "os.remove": 1, "os.unlink": 1, "os.mkdir": 1, "os.rmdir": 1, "os.link": 2, "os.symlink": 2,
         "os.truncate": 1, "os.chmod": 1, "os.chown": 1, "os.utime": 1, "shutil.move": 2, "shutil.copyfile": 2, "shutil.rmtree": 1,
         "tempfile.mkstemp": 1, "tempfile.mkdtemp": 1}
SPAWN = ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork", "os.forkpty", "pty.spawn")
RECORD = [False]


def hook(event, args):
    if not RECORD[0]:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) and isinstance(path, (str, bytes)):
            TOUCHED.append(("open", os.fsdecode(path)))
    elif event in WATCH:
        for a in args[:WATCH[event]]:
            if isinstance(a, (str, bytes, os.PathLike)):
                TOUCHED.append((event, os.fsdecode(a)))
    elif event in SPAWN:
        TOUCHED.append((event, None))


def drop():
    """Nothing the server does may reach more than an unprivileged user's files."""
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
        sys.addaudithook(hook)
    assert os.getuid() == 65534 and os.geteuid() == 65534
    sys.stdout = open(os.devnull, "w")


def snapshot(root):
    out = {}
    for d, dirs, files in os.walk(root, followlinks=False):
        for n in dirs + files:
            p = os.path.join(d, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, root)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ("dir",)
            else:
                with open(p, "rb") as f:
                    out[rel] = ("file", f.read(), stat.S_IMODE(st.st_mode) & 0o111)
    return out


def difference(a, b):
    show = lambda v: None if v is None else (v[0],) + tuple(x[:60] if isinstance(x, bytes) else x for x in v[1:])
    return {k: (show(a.get(k)), show(b.get(k))) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


LAYOUTS = ("plain", "plain", "relative", "parent", "folder-link", "document-link", "none", "readonly", "deep")
DOCUMENTS = ("scene.yml", "scene.yml", "scene.txt", "scene.csv", "Scene.TXT", "my scene.yaml", "scène.txt", "scene")


class Scratch:
    def __init__(self, ctx, layout):
        rng = ctx.rng
        self.layout = layout
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="c22-"))
        mk = lambda *p: os.path.join(self.root, *p)
        for d in ("home", "home/sub", "home/dir.csv", "outside", "tmp", "work"):
            os.makedirs(mk(d))
        self.home = "home"
        if layout == "deep":
            os.makedirs(mk("home/a/b/c"))
            self.home = "home/a/b/c"
        for p, t in (("outside/secret.csv", "1,2\n"), ("outside/notes.md", "# notes\n"), ("outside/data.txt", "x"), ("tmp/keep.csv", "k"),
                     ("work/work.csv", "w"), ("home/sub/in.csv", "s"), ("root.csv", "r")):
            with open(mk(p), "w") as f:
                f.write(t)
        self.name = str(rng.choice(DOCUMENTS))
        doc = docs.random_document(rng, mk("work"), simple=True, mesh=False, max_nodes=3)
        self.text = studio.Text(rng, doc).text
        h = self.home
        write = lambda p, t: open(mk(p), "w").write(t)
        real = f"{h}/{self.name}"
        if layout == "document-link":
            real = f"outside/{self.name}"
            os.symlink(os.path.relpath(mk(real), mk(h)), mk(h, self.name))
        write(real, self.text)
        self.real = real
        write(f"{h}/data.csv", "a,b\n1,2\n")
        write(f"{h}/old.txt", "old")
        write(f"{h}/readme.md", "# read me")
        write(f"{h}/script.py", "print(1)")
        os.symlink(os.path.relpath(mk("outside/secret.csv"), mk(h)), mk(h, "link.csv"))
        os.symlink(mk("outside/created.csv"), mk(h, "dangling.csv"))
        os.symlink(mk("outside"), mk(h, "dirlink.txt"))
        os.symlink(self.name, mk(h, "self.txt"))
        os.symlink("readme.md", mk(h, "sibling.csv"))
        os.symlink("missing.py", mk(h, "newtype.csv"))
        self.cwd = "work"
        if layout == "relative":
            self.cwd, self.open = h, self.name
        elif layout == "parent":
            self.cwd, self.open = "work", f"../{h}/{self.name}"
        elif layout == "folder-link":
            os.symlink("home", mk("alias"))
            self.open = mk("alias", self.name)
        elif layout == "none":
            self.open = None
        else:
            self.open = mk(h, self.name)
        if layout == "readonly":
            for n in (self.name, "data.csv", "old.txt", "readme.md", "script.py"):
                os.chmod(mk(h, n), 0o444)
            os.chmod(mk(h), 0o555)

    def remove(self):
        for d, dirs, files in os.walk(self.root):
            os.chmod(d, 0o755)
        shutil.rmtree(self.root, ignore_errors=True)


def names(rng, S):
    """Upload names: plain, hostile and wrong."""
    root, h, doc = S.root, S.home, S.name
    plain = ["new.csv", "new.txt", "data.csv", "old.txt", "UPPER.CSV", "Mixed.TxT", ".csv", "..csv", "...txt", "a b.csv", " x.csv", "ünï→.csv", "-rf.txt",
             "x.yml.csv", "~.csv", "%2e%2e%2fup.csv", "..\\up.csv", "C:\\up.csv", "a\nb.csv", "x.yml\n.csv", "$(touch x).csv", "nul.txt", "x" * 240 + ".csv",
             "new2.csv", "spec-%d.csv" % rng.integers(0, 5)]
    placed = ["../up.csv", "../../up.txt", "../outside/secret.csv", "../outside/new.csv", "sub/in.csv", "sub/new.csv", "./dot.csv", "/up.csv", "//up.csv",
              f"{root}/outside/abs.csv", f"{root}/root.csv", f"{root}/{h}/home.csv", f"{root}/tmp/keep.csv", "~/home.csv", "dirlink.txt/x.csv",
              "a/../b.csv", "..//..//x.csv", "file:///etc/x.csv", f"{h}/x.csv", "/etc/x.csv", "/dev/null.txt", "/tmp/../tmp/x.csv", "../" * 30 + "tmp/x.csv"]
    refused = ["", ".", "..", "/", "../", "x.csv/", "x.csv/.", "x.csv/..", "x.yml", "x", "x.py", "script.py", "readme.md", "x.csv.py", "x.csv ", "x.csv.", "csv",
               "x.csvx", "x.json", "x.yaml", "x.html", "x.csv\x00", "x.csv\x00.py", "x.py\x00.csv", "../x.py", "/etc/passwd", "dir.csv", "link.csv", "dangling.csv", "dirlink.txt",
               "self.txt", "sibling.csv", "newtype.csv", doc, f"sub/../{doc}", f"./{doc}", f"../home/{doc}", "y" * 300 + ".csv", "\ud800.csv", ".bashrc",
               "../home/link.csv", "x.csv:stream", "x.csv?y=z", "x.csv#",
               None, 3, 1.5, True, [], ["x.csv"], {}, {"a": "x.csv"}]
    k = rng.random()
    group = plain if k < 0.35 else placed if k < 0.6 else refused
    return group[int(rng.integers(0, len(group)))]


def contents(rng):
    return [lambda: ",nm,value\n0,300,0.1\n1,400,0.5\n2,900,0.2\n", lambda: "", lambda: "ünï→ 😀\r\n\x00\x07", lambda: "x" * 3_000_00, lambda: "\ud800 lone",
            lambda: None, lambda: 7, lambda: ["a"], lambda: {"a": 1}, lambda: True][[0, 0, 0, 0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9][int(rng.integers(0, 14))]]()


def dumps(x):
    return json.dumps(x).encode()      # lone surrogates travel as escapes


def case(ctx, layout=None):
    drop()
    rng = ctx.rng
    layout = layout or str(rng.choice(LAYOUTS))
    S = Scratch(ctx, layout)
    back = os.getcwd()
    os.environ["TMPDIR"] = os.path.join(S.root, "tmp")
    tempfile.tempdir = None
    try:
        os.chdir(os.path.join(S.root, S.cwd))
        with studio.client(S.open) as c:
            session(ctx, c, S)
    finally:
        RECORD[0] = False
        os.chdir(back)
        tempfile.tempdir = None
        del os.environ["TMPDIR"]
        S.remove()


def session(ctx, c, S):
    rng = ctx.rng
    known = c.get("/api/document").json()["text"]
    ctx.expect(known == ("" if S.open is None else S.text), "open", "the opened document is not the file", layout=S.layout)
    model = snapshot(S.root)
    history = []
    for step in range(common.scale(40, 90)):
        r = rng.random()
        request, allowed = None, [(False, model), (True, model)]
        if r < 0.55:
            request, allowed, send = upload(ctx, c, S, model)
        elif r < 0.65:
            request = ("save",)
            send = lambda: c.post("/api/save", content=[b"", b"{}", dumps({"path": "/tmp/x.yml"}), dumps({"name": "../x.yml", "text": "x"})][int(rng.integers(0, 4))])
            if S.open is None:
                allowed = [(False, model)]
            else:
                m = dict(model)
                m[S.real] = ("file", known.encode(), model[S.real][2])
                allowed = [(True, m)] if S.layout != "readonly" else [(False, model)]
        elif r < 0.8:
            text, ok = document(rng, S, known)
            request = ("put", text[:200])
            send = lambda: c.put("/api/document", content=dumps({"text": text}), headers={"content-type": "application/json"})
        elif r < 0.92:
            p = patch(rng, S)
            request = ("patch", p)
            send = lambda: c.post("/api/patch", content=dumps(p), headers={"content-type": "application/json"})
        elif r < 0.95:
            request = ("run",)

            def send():
                s = studio.Socket(c)
                studio.run_to_end(s, rays=30, bundle=10, seed=1, record_every=5, **{"path": "/tmp/x", "file": "x.csv"})
                s.close()
        else:
            request, send = odd(rng, c, S)
        history.append(request)
        before = known
        TOUCHED.clear()
        RECORD[0] = True
        try:
            response = send()
        finally:
            RECORD[0] = False
        touched = list(TOUCHED)
        now = snapshot(S.root)
        ok = response is not None and response.status_code == 200
        ctx.count("requests")
        ctx.count("succeeded" if ok else "refused")
        ctx.seen("distinct", (S.layout, S.name, request, ok))
        d = dict(layout=S.layout, document=S.open, request=request, status=getattr(response, "status_code", None), reply=getattr(response, "text", "")[:300],
                 history=history[-12:])
        kind = request[0]
        match = [m for good, m in allowed if good == ok and m == now]
        if not match:
            same = [m for good, m in allowed if m == now]
            if same:
                ctx.violation(f"{kind}:{'accepted' if ok else 'refused'}", f"{kind} answered with {d['status']}", **d)
            else:
                goods = [m for good, m in allowed if good == ok] or [model]
                ctx.violation(f"{kind}:files", f"{kind} changed files beyond what it may: {difference(goods[0], now)}", **d)
        ctx.count("oracle_evaluations")
        model = now
        for event, p in touched:
            if p is None:
                ctx.violation("spawn", f"{kind} starts a program ({event})", **d)
                continue
            full = os.path.realpath(os.path.join(os.getcwd(), p))
            inside = full == S.root or full.startswith(S.root + os.sep)
            ctx.count("writes_watched")
            ctx.expect(inside or full in ("/dev/null",) or not os.path.lexists(full) and kind != "upload", "outside", f"{kind} ({event}) touches {p}", **d)
        text = c.get("/api/document").json()["text"]
        if kind in ("upload", "save", "run", "odd"):
            ctx.expect(text == before, f"{kind}:document", f"{kind} changes the document", **d)
        known = text
        ctx.sample(dict(request=repr(request)[:200], status=d["status"], touched=touched[:3]))
        if kind == "upload" and ok and rng.random() < 0.7:
            usable(ctx, c, S, request[1], d)
            known = c.get("/api/document").json()["text"]


def upload(ctx, c, S, model):
    rng = ctx.rng
    name, content = names(rng, S), contents(rng)
    drop_key = rng.random()
    body = {"name": name, "content": content}
    if drop_key < 0.03:
        body.pop("name")
    elif drop_key < 0.06:
        body.pop("content")
    elif drop_key < 0.1:
        body["path"] = body["folder"] = os.path.join(S.root, "outside")
    send = lambda: c.post("/api/upload", content=dumps(body), headers={"content-type": "application/json"})
    request = ("upload", name if not isinstance(name, str) else name.encode("utf8", "backslashreplace").decode(), str(content)[:20].encode("utf8", "backslashreplace").decode())
    none = [(False, model)]
    if S.open is None or not isinstance(name, str) or not isinstance(content, str) or "name" not in body or "content" not in body:
        return request, none, send
    base = name.rsplit("/", 1)[-1]
    if not base.lower().endswith((".csv", ".txt")) or base == S.name or "\x00" in name:
        return request, none, send
    try:
        data = content.encode()
        if len(os.fsencode(base)) > 255:
            return request, none, send
    except UnicodeEncodeError:
        return request, none, send
    key = f"{S.home}/{base}"
    old = model.get(key)
    if old and old[0] == "dir":
        return request, none, send
    m = dict(model)
    m[key] = ("file", data, 0)
    if S.layout == "readonly":
        return request, none, send
    if old and old[0] == "link":        # refusing is fine, so is putting a file there
        return request, none + [(True, m)], send
    if base != name:
        ctx.count("names_with_folders")
        return request, none + [(True, m)], send
    ctx.count("plain_uploads")
    return request, [(True, m)], send


def usable(ctx, c, S, name, d):
    """A document may now name the uploaded file."""
    base = name.rsplit("/", 1)[-1]
    text = ("version: '1.0'\nnodes:\n  world:\n    sphere:\n      radius: 10\n      material:\n        refractive-index: 1\n"
            "  ball:\n    sphere:\n      radius: 1\n      material:\n        refractive-index: 1.5\n        components: [dye]\n"
            "  lamp:\n    location: [0, 0, 5]\n    direction: [0, 0, -1]\n    light:\n      wavelength: 500\n"
            "components:\n  dye:\n    absorber:\n      coefficient: 2.0\n      spectrum:\n        file: " + json.dumps(base) + "\n")
    r = c.put("/api/document", content=dumps({"text": text}), headers={"content-type": "application/json"})
    import pandas
    try:
        t = pandas.read_csv(os.path.join(S.root, S.home, base))
        good = list(t.columns[1:]) == ["nm", "value"] and len(t) == 3
    except Exception:  # noqa: BLE001
        good = False
    if good:
        ctx.count("uploads_used")
        ctx.expect(r.status_code == 200, "unusable", f"an uploaded spectrum cannot be used by its name: {r.text[:300]}", **d)


def document(rng, S, known):
    k = int(rng.integers(0, 6))
    if k < 2:
        return studio.Text(rng, docs.random_document(rng, os.path.join(S.root, "work"), simple=True, mesh=False, max_nodes=3)).text, True
    if k == 2:
        return known + "\n# more\n", None
    target = os.path.join(S.root, "outside", "made.csv")
    return str(rng.choice(["", "nodes: [", "a: 1", f"!!python/object/apply:os.system ['touch {target}']", f"!!python/object/new:open ['{target}', 'w']",
                           f"x: !!python/object/apply:builtins.open ['{target}', w]", "<<: *a", "\x00", S.text.replace("version", "versio"),
                           S.text + f"\nfile: {target}\n"])), None


def patch(rng, S):
    out = os.path.join(S.root, "outside", "made.yml")
    return [{"op": "set", "path": ["nodes", "world", "location"], "value": [0, 0, 0]}, {"op": "add-node", "kind": "box"}, {"op": "add-node", "kind": "../x"},
            {"op": "add-node", "kind": "light"}, {"op": "add-recorder", "node": "world"}, {"op": "add-component"}, {"op": "set", "path": [out], "value": 1},
            {"op": "set", "path": ["x", "file"], "value": out}, {"op": "save"}, {"op": "move", "node": "box-1", "world_position": [1, 1, 1]},
            {"op": "delete-node", "node": "box-1"}, {"op": "delete-component", "component": "absorber-1"}, {}, {"op": None},
            {"op": "set", "path": ["components", "c"], "value": {"absorber": {"coefficient": 1, "spectrum": {"file": "data.csv"}}}},
            {"op": "set", "path": ["components", "c"], "value": {"absorber": {"coefficient": 1, "spectrum": {"file": "../outside/secret.csv"}}}}][int(rng.integers(0, 16))]


def odd(rng, c, S):
    out = os.path.join(S.root, "outside", "made.csv")
    calls = [("PUT", "/static/x.csv", b"x"), ("POST", "/static/app.js", b"x"), ("DELETE", "/api/document", b""), ("PUT", "/api/upload", dumps({"name": "x.csv", "content": "x"})),
             ("POST", "/api/upload", b"not json"), ("POST", "/api/upload", b"[]"), ("POST", "/api/upload", dumps("x.csv")), ("GET", "/api/upload?name=x.csv&content=x", None),
             ("POST", "/api/upload/../../x.csv", b"{}"), ("POST", "/api/upload?name=" + out, b"{}"), ("POST", "/api/document", dumps({"text": "x"})),
             ("PUT", "/api/document", b"[]"), ("PUT", "/api/document", b"{}"), ("PUT", "/api/document", dumps({"text": 3})), ("PUT", "/api/document", dumps({"text": None})),
             ("PATCH", "/api/patch", b"{}"), ("POST", "/api/patch", b"[1]"), ("PUT", "/api/save", b"{}"), ("GET", "/api/save", None), ("GET", "/", None), ("GET", "/static/app.js", None)]
    m, u, b = calls[int(rng.integers(0, len(calls)))]
    return ("odd", m, u), lambda: c.request(m, u, content=b, headers={"content-type": "application/json"} if b else None)


def main():
    chk = common.Check("C22", "one session of requests to a studio, watched after every request", assumptions=[
        "Linux file names; nobody else changes the folder meanwhile; hard links are not made.",
        "The document's folder is that of the path it was opened with.",
        "An upload whose name has folders may be refused or be placed in the document's folder."])
    kernelbuild.use_release_kernel()
    import pvtrace.studio.server  # noqa: F401
    import ruamel.yaml  # noqa: F401
    for i, layout in enumerate(sorted(set(LAYOUTS))):
        chk.run_cases(case, layout, common.scale(4, 60), args=(layout,))
    chk.run_cases(case, "mixed", common.scale(24, 200))
    chk.require("requests", 1500)
    chk.require("succeeded", 300)
    chk.require("refused", 300)
    chk.require("plain_uploads", 100)
    chk.require("names_with_folders", 50)
    chk.require("writes_watched", 100)
    chk.require("uploads_used", 10)
    chk.finish()


main()
