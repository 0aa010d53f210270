"""A node process which answers one request at a time."""
import subprocess, json, os, select, time
HERE = os.path.dirname(os.path.abspath(__file__))
class Node:
    def __init__(self, *mods): self.p = None; self.mods = mods
    def start(self):
        self.p = subprocess.Popen(["node", "--no-warnings", "--max-old-space-size=1500", os.path.join(HERE, "srv.js"), ",".join(os.path.join(HERE, m) for m in self.mods)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env={"PATH": os.environ.get("PATH", "/usr/bin"), "TZ": "UTC", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent"})
        self.n = 0; self.buf = b""
    def ask(self, q, timeout=120):
        if self.p is None or self.p.poll() is not None: self.start()
        self.n += 1
        self.p.stdin.write((json.dumps(q) + "\n").encode()); self.p.stdin.flush()
        end = time.time() + timeout
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                self.kill(); return {"timeout": True}
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                self.kill(); return {"died": True}
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return json.loads(l)
    def kill(self):
        if self.p:
            self.p.kill(); self.p.wait(); self.p = None; self.buf = b""
