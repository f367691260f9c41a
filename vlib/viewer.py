"""A stand-in for the meshcat server: keeps the scene tree the browser would show."""
import numpy as np

WINDOWS = []


class Window:
    """Receives the commands of a meshcat.Visualizer."""

    def __init__(self, zmq_url=None, start_server=True, server_args=()):
        self.zmq_url = zmq_url or "tcp://127.0.0.1:0"
        self.web_url = "http://127.0.0.1:0/static/"
        self.server_proc = None
        self.objects, self.transforms, self.commands, self.opened = {}, {}, [], 0
        WINDOWS.append(self)

    def open(self):
        self.opened += 1
        return self

    def wait(self):
        return "ok"

    def close(self):
        pass

    def send(self, command):
        d = command.lower()
        kind, path = d["type"], d["path"]
        path = "/" + path.strip("/")
        self.commands.append((kind, path))
        if kind == "set_object":
            self.objects[path] = d["object"]
        elif kind == "set_transform":
            self.transforms[path] = np.array(d["matrix"], float).reshape(4, 4).T
        elif kind == "delete":
            inside = lambda p: p == path or p.startswith(path + "/")
            self.objects = {p: o for p, o in self.objects.items() if not inside(p)}
            self.transforms = {p: t for p, t in self.transforms.items() if not inside(p)}

    def placement(self, path):
        """World matrix of the object at a path: transforms of all parts of the path."""
        m, parts = np.eye(4), path.strip("/").split("/")
        for i in range(1, len(parts) + 1):
            m = m @ self.transforms.get("/" + "/".join(parts[:i]), np.eye(4))
        own = self.objects[path]["object"].get("matrix")
        if own is not None:
            m = m @ np.array(own, float).reshape(4, 4).T
        return m

    def geometry(self, path):
        o = self.objects[path]
        return next(g for g in o["geometries"] if g["uuid"] == o["object"]["geometry"])

    def material(self, path):
        o = self.objects[path]
        return next(m for m in o["materials"] if m["uuid"] == o["object"]["material"])

    def vertices(self, path):
        """World points of a line or points object."""
        pos = self.geometry(path)["data"]["attributes"]["position"]
        a = pos["array"]
        if hasattr(a, "data") and hasattr(a, "type"):      # msgpack extension
            a = np.frombuffer(bytes(a.data), np.float32)
        a = np.asarray(a, float)
        a = a.reshape(-1, 3) if a.ndim == 1 else a.T
        m = self.placement(path)
        return a @ m[:3, :3].T + m[:3, 3]


def install():
    """New visualisers talk to a Window instead of starting a server."""
    import meshcat.visualizer
    meshcat.visualizer.ViewerWindow = Window
