#!/usr/bin/env python3
"""Runs histories against the real development server.

Usage: dev_driver.py SCRATCH STUART   (cases as JSON lines on stdin, results on stdout)

The server listens on a fixed port, so every driver should have a network namespace of its own
(unshare -Urn); without one, only one driver may run at a time.

A case is {id, steps}; each case has a directory of its own, for which @ stands in texts.
  {op: files, files}            edits at once: {p, s|x|dir|rm|link}
  {op: edit, files, stop, flood}       edits, by one of the ways of `put`: each file is there at once; with stop, the server is
                                stopped meanwhile, so that it sees all of them or none;
                                flood: a directory whose changes the server ignores, changed until events are lost
  {op: start, args, flags, cwd, env}   starts the server, and waits until it listens and has nothing to do
  {op: wait}                    waits until the server has nothing to do
  {op: held, at}                waits until the server's build is held in a script which waits for the file
                                log/hold-<at> to be removed (and has made log/at-<at>)
  {op: release, at}
  {op: connect, c} {op: close, c, how}   web sockets
  {op: http, raw: [request targets], host}   GET requests
  {op: reload, c, raw}          waits for a reload message, and makes GET requests at once
  {op: garbage, raw}            connections which send other things
  {op: told}                    the number of reload messages each client has received so far
  {op: said}                    what the server has written since the last time
  {op: snap, skip}              every file and directory
  {op: stop}                    ends the server
"""
import fcntl, json, os, select, shutil, signal, socket, struct, subprocess, sys, threading, time, base64

PORT = 6904
IDLE = 5          # samples in a row in which nothing runs
MOVED = 14        # after files have been moved away: notify waits for 10 ms for the place where they move to
LIMIT = 10.0      # seconds until a server which keeps running is given up


def loopback():
    s = socket.socket()
    try:
        fcntl.ioctl(s, 0x8914, struct.pack("16sH14x", b"lo", 0x1 | 0x40))
    except OSError:
        pass
    s.close()


def data(f):
    return bytes.fromhex(f["x"]) if "x" in f else f.get("s", "").encode()


def rm(p):
    if os.path.islink(p) or os.path.isfile(p):
        os.remove(p)
    elif os.path.isdir(p):
        shutil.rmtree(p)


def apply(root, f):
    p = os.path.join(root, f["p"])
    if f.get("rm"):
        return rm(p)
    if f.get("dir"):
        if not os.path.isdir(p):
            rm(p)
        return os.makedirs(p, exist_ok=True)
    d = root
    for c in os.path.dirname(f["p"]).split("/"):
        d = os.path.join(d, c)
        if os.path.lexists(d) and not os.path.isdir(d):
            rm(d)
    if os.path.isdir(p) or "link" in f:
        rm(p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if "link" in f:
        return os.symlink(f["link"].replace("@", root), p)
    with open(p, "wb") as o:
        o.write(data(f))


def put(server, stop, p, s, text, how):
    """Writes a file in one of the ways in which programs do it, of which the server sees the whole only."""
    if how == 0:    # another file takes its place
        with open(s, "wb") as o:
            o.write(text)
        return os.rename(s, p)
    stop = stop and server.alive()
    if stop:
        server.p.send_signal(signal.SIGSTOP)
        os.waitid(os.P_PID, server.p.pid, os.WSTOPPED | os.WNOWAIT)
    old = os.path.lexists(p)
    if how == 2 and old:    # anew
        os.remove(p)
    elif how == 3 and old:  # as some editors do, which keep the old one until the new one is there
        os.rename(p, p + "~")
    with open(p, "wb") as o:
        o.write(text)
    if how == 3 and old:
        os.remove(p + "~")
    if stop:
        server.p.send_signal(signal.SIGCONT)


class Client:
    """A web socket."""

    def __init__(self, how):
        self.s = socket.create_connection(("127.0.0.1", PORT), timeout=5)
        key = base64.b64encode(os.urandom(16)).decode()
        self.s.sendall(("GET /__ws HTTP/1.1\r\nHost: localhost:%d\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
                        "Sec-WebSocket-Key: %s\r\nSec-WebSocket-Version: 13\r\n\r\n" % (PORT, key)).encode())
        self.buf = b""
        while b"\r\n\r\n" not in self.buf:
            x = self.s.recv(4096)
            if not x:
                break
            self.buf += x
        head, _, self.buf = self.buf.partition(b"\r\n\r\n")
        self.ok = head.startswith(b"HTTP/1.1 101")
        self.reloads, self.seen, self.other = 0, 0, []
        self.open = True
        self.s.setblocking(False)

    def read(self):
        while self.open:
            try:
                x = self.s.recv(4096)
            except (BlockingIOError, socket.timeout):
                break
            except OSError:
                break
            if not x:
                self.other.append("closed by the server")
                self.open = False
                break
            self.buf += x
        while len(self.buf) >= 2:
            n, at = self.buf[1] & 127, 2
            if n == 126:
                n, at = struct.unpack(">H", self.buf[2:4])[0], 4
            elif n == 127:
                n, at = struct.unpack(">Q", self.buf[2:10])[0], 10
            if len(self.buf) < at + n:
                break
            frame, self.buf = (self.buf[0], self.buf[at:at + n]), self.buf[at + n:]
            if frame[0] & 15 in (1, 2) and frame[1] == b"reload":
                self.reloads += 1
            else:
                self.other.append(repr(frame))

    def close(self, how):
        self.open = False
        if how == "abort":
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        if how == "frame":
            self.s.setblocking(True)
            self.s.sendall(b"\x88\x82\x00\x00\x00\x00\x03\xe8")
        if how == "half":
            self.s.shutdown(socket.SHUT_WR)
            return
        if how == "silent":
            return
        self.s.close()


def get(target, host="localhost:%d" % PORT, method="GET"):
    try:
        s = socket.create_connection(("127.0.0.1", PORT), timeout=10)
        s.sendall(("%s %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n" % (method, target, host)).encode("utf-8", "surrogateescape"))
        b = b""
        while True:
            x = s.recv(1 << 16)
            if not x:
                break
            b += x
        s.close()
    except OSError as e:
        return {"status": 0, "error": str(e)}
    head, sep, body = b.partition(b"\r\n\r\n")
    lines = head.decode("latin-1").split("\r\n")
    h = {}
    for l in lines[1:]:
        k, _, v = l.partition(":")
        h.setdefault(k.strip().lower(), v.strip())
    try:
        status = int(lines[0].split(" ")[1])
    except (IndexError, ValueError):
        return {"status": 0, "error": b[:200].decode("latin-1")}
    r = {"status": status, "type": h.get("content-type"), "location": h.get("location")}
    if "content-length" in h:
        n = int(h["content-length"])
        if n > len(body):
            r["error"] = "content-length %d, %d received" % (n, len(body))
        body = body[:n]
    try:
        r["s"] = body.decode("utf-8")
    except UnicodeDecodeError:
        r["x"] = body.hex()
    return r


class Server:
    def __init__(self, exe, root, step):
        sub = lambda s: s.replace("@", root)
        env = {"PATH": "/usr/bin:/bin", "HOME": root, "LC_ALL": "C.UTF-8"}
        env.update({k: sub(v) for k, v in step.get("env", {}).items()})
        self.moved, self.heard = False, 0
        self.log = open(os.path.join(root, "log", "output"), "wb")
        self.p = subprocess.Popen([exe] + step.get("flags", []) + ["dev"] + [sub(a) for a in step.get("args", [])], cwd=os.path.join(root, step["cwd"]), env=env,
                                  stdin=subprocess.DEVNULL, stdout=self.log, stderr=subprocess.STDOUT, start_new_session=True)

    def alive(self):
        return self.p.poll() is None

    def busy(self):
        """Whether anything of it runs, or waits for a child."""
        try:
            for t in os.listdir("/proc/%d/task" % self.p.pid):
                d = "/proc/%d/task/%s/" % (self.p.pid, t)
                with open(d + "stat") as f:
                    if f.read().rsplit(")", 1)[1].split()[0] not in "SZX":
                        return True
                with open(d + "children") as f:
                    if f.read().strip():
                        return True
        except OSError:
            return self.alive()
        return False

    def settle(self, held=None):
        """Waits until nothing has run for some samples (or until the build is held).  Whether that was reached."""
        quiet, end = 0, time.time() + LIMIT
        need, self.moved = MOVED if self.moved else IDLE, False
        while time.time() < end:
            if not self.alive():
                return held is None
            if held and os.path.exists(held):
                return True
            quiet = 0 if self.busy() else quiet + 1
            if quiet >= need and not held:
                return True
            if held and quiet >= 60:
                return False
            time.sleep(0.003)
        return False

    def listen(self):
        end = time.time() + LIMIT
        while time.time() < end and self.alive():
            try:
                socket.create_connection(("127.0.0.1", PORT), timeout=1).close()
                return True
            except OSError:
                time.sleep(0.003)
        return False

    def stop(self):
        if self.alive():
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
        self.p.wait()
        self.log.close()


def snapshot(root, skip):
    out = []

    def walk(d):
        try:
            es = sorted(os.listdir(d))
        except OSError:
            return
        for e in es:
            p = os.path.join(d, e)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out.append([rel, {"link": os.readlink(p).replace(root, "@")}])
            elif os.path.isdir(p):
                out.append([rel, None])
                if rel not in skip:
                    walk(p)
            else:
                try:
                    b = open(p, "rb").read()
                except OSError:
                    b = b""
                try:
                    out.append([rel, b.decode("utf-8")])
                except UnicodeDecodeError:
                    out.append([rel, {"x": b.hex()}])
    walk(root)
    return out


def run(exe, scratch, case):
    root = os.path.join(scratch, "case")
    rm(root)
    os.makedirs(os.path.join(root, "log"))
    os.makedirs(os.path.join(root, "stage"))
    server, clients, gone, staged = None, {}, [], 0
    results = []
    try:
        for st in case["steps"]:
            op, r, t0 = st["op"], None, time.time()
            if op == "files":
                for f in st["files"]:
                    apply(root, f)
            elif op == "start":
                server = Server(exe, root, st)
                up = server.listen()
                r = {"up": up, "idle": server.settle(held=os.path.join(root, "log", "at-" + st["held"]) if st.get("held") else None)}
                if not up:
                    r["code"] = server.p.poll()
            elif op == "edit":
                if st.get("stop") and server.alive():
                    server.p.send_signal(signal.SIGSTOP)
                    os.waitid(os.P_PID, server.p.pid, os.WSTOPPED | os.WNOWAIT)
                if st.get("flood"):  # more changes of the output than there is place for events
                    with open("/proc/sys/fs/inotify/max_queued_events") as f:
                        n = int(f.read()) + 1000
                    for _ in range(n):
                        os.chmod(os.path.join(root, st["flood"]), 0o755)
                for f in st["files"]:
                    staged += 1
                    s, p = os.path.join(root, "stage", str(staged)), os.path.join(root, f["p"])
                    if f.get("rm"):
                        if os.path.isdir(p):
                            os.rename(p, s)
                            server.moved = True
                        elif os.path.lexists(p):
                            os.remove(p)
                    elif f.get("write"):   # in place
                        with open(p, "wb") as o:
                            o.write(data(f))
                    elif f.get("move"):
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        os.rename(os.path.join(root, f["move"]), p)
                    else:
                        d = root
                        for c in os.path.dirname(f["p"]).split("/"):
                            d = os.path.join(d, c)
                            if os.path.lexists(d) and not os.path.isdir(d):
                                staged += 1
                                os.rename(d, os.path.join(root, "stage", str(staged)))
                                server.moved = True
                        if os.path.isdir(p) and not f.get("dir"):
                            staged += 1
                            os.rename(p, os.path.join(root, "stage", str(staged)))
                            server.moved = True
                        if f.get("dir"):
                            os.makedirs(p, exist_ok=True)
                            continue
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        put(server, not st.get("stop"), p, s, data(f), (staged + len(f["p"])) % 4)
                if st.get("stop") and server.alive():
                    server.p.send_signal(signal.SIGCONT)
            elif op == "wait":
                r = {"idle": server.settle(), "alive": server.alive()}
            elif op == "held":
                r = {"held": server.settle(held=os.path.join(root, "log", "at-" + st["at"])), "alive": server.alive()}
            elif op == "hold":
                open(os.path.join(root, "log", "hold-" + st["at"]), "w").close()
            elif op == "release":
                rm(os.path.join(root, "log", "at-" + st["at"]))
                rm(os.path.join(root, "log", "hold-" + st["at"]))
            elif op == "connect":
                gone.append(clients.get(st["c"]))
                try:
                    clients[st["c"]] = Client(st.get("how"))
                    r = clients[st["c"]].ok
                except OSError as e:
                    r = str(e)
                server.settle() if not st.get("nowait") else time.sleep(0.05)
            elif op == "close":
                clients[st["c"]].read()
                clients[st["c"]].close(st["how"])
                time.sleep(0.002)
            elif op == "reload":
                x = clients[st["c"]]
                x.read()
                before, end = x.seen, time.time() + LIMIT
                while x.reloads == before and x.open and time.time() < end:
                    select.select([x.s], [], [], 0.5)
                    x.read()
                r = [get(t) for t in st["raw"]] if x.reloads > before else None
            elif op == "told":
                r = {}
                for c, x in clients.items():
                    x.read()
                    x.seen = x.reloads
                    r[c] = [x.reloads, x.other]
            elif op == "http":
                r = [get(t, method=st.get("method", "GET")) for t in st["raw"]]
            elif op == "garbage":
                r = []
                for t in st["raw"]:
                    try:
                        x = socket.create_connection(("127.0.0.1", PORT), timeout=5)
                        x.sendall(t.encode("latin-1"))
                        x.shutdown(socket.SHUT_WR)
                        try:
                            r.append(x.recv(100).decode("latin-1"))
                        except OSError:
                            r.append(None)
                        x.close()
                    except OSError:
                        r.append(None)
            elif op == "said":
                with open(os.path.join(root, "log", "output"), "rb") as f:
                    f.seek(server.heard)
                    r = f.read()
                server.heard += len(r)
                r = r[-6000:].decode("utf-8", "replace").replace(root, "@")
            elif op == "snap":
                r = snapshot(root, st.get("skip", []) + ["stage"])
            elif op == "stop":
                server.stop()
                r = {"log": open(os.path.join(root, "log", "output"), "rb").read()[-6000:].decode("utf-8", "replace").replace(root, "@")}
            else:
                raise ValueError(op)
            results.append(r)
            if isinstance(r, dict) and False in (r.get("idle"), r.get("held"), r.get("up"), r.get("alive")) or op == "reload" and r is None:
                break  # nothing more is to be expected
            if "DEVTIME" in os.environ:
                sys.stderr.write("%s %.3f %s\n" % (op, time.time() - t0, json.dumps(st)[:100]))
    finally:
        if server:
            server.stop()
        for x in list(clients.values()) + gone:
            try:
                x.s.close()
            except (OSError, AttributeError):
                pass
        rm(root)
    return {"id": case["id"], "steps": results}


def main():
    scratch, exe = os.path.realpath(sys.argv[1]), sys.argv[2]
    loopback()
    bad = 0
    for line in sys.stdin:
        case = json.loads(line)
        try:
            if bad >= 3:  # each takes long
                r = {"id": case["id"], "skipped": True, "steps": []}
                sys.stdout.write(json.dumps(r) + "\n")
                sys.stdout.flush()
                continue
            t = time.time()
            r = run(exe, scratch, case)
            bad += time.time() - t > LIMIT or len(r["steps"]) < len(case["steps"])
        except Exception as e:  # the driver's own trouble
            import traceback
            r = {"id": case["id"], "crash": "driver: " + traceback.format_exc()[-800:]}
        sys.stdout.write(json.dumps(r) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
