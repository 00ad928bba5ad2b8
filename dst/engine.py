"""Run-server client: turns an explicit run specification (a JSON-able dict)
into one simulated execution and its recorded history."""
import json, os, subprocess, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.environ.get("SIM_BUILD", os.path.join(ROOT, "build"))
REPO = os.environ.get("SIM_REPO", "/repo")

END = ["none", "exit", "signal", "asan", "violation", "killed", "budget", "timeout", "done", "harness"]


class Crash(Exception):
    """The simulator itself failed (never a verdict about CLooG)."""


class Result(object):
    __slots__ = ("end", "code", "events", "steps", "edges", "hash", "schedhash", "switches", "n_any", "n_cloog",
                 "n_backend", "n_free", "failed", "limit_failed", "fail_pc", "fail_was_cloog", "fail_size", "live",
                 "peak", "live_blocks", "bad_free", "exhausted", "nreads", "nwrites", "bytes_read", "eofs", "jumps",
                 "gtod", "fired", "clk", "oplog", "leaks", "vkind", "pc", "heapdesc", "text", "blobs", "blobinfo",
                 "cov", "trace", "gone")

    def out(self, name):
        return self.blobs.get(name, b"")

    @property
    def stderr(self):
        return self.blobs.get("<stderr>", b"")

    @property
    def stdout(self):
        return self.blobs.get("<stdout>", b"")

    def status(self):
        if self.end in ("exit", "signal"):
            return "%s %d" % (self.end, self.code)
        return self.end

    def digest(self):
        """Everything observable plus the event-history hash: equal iff the
        two executions were the same."""
        h = hashlib.sha1()
        h.update(repr((self.end, self.code, self.events, self.steps, self.hash, self.schedhash, self.n_any,
                       self.n_cloog, self.live_blocks, self.vkind)).encode())
        for k in sorted(self.blobs):
            h.update(k.encode() + b"\0" + self.blobs[k] + b"\0")
        return h.hexdigest()


def b(s):
    return s if isinstance(s, bytes) else s.encode("latin-1")


def encode(spec):
    o = []
    o.append(b"mode %s\n" % b(spec.get("mode", "cli")))
    for a in spec.get("argv", []):
        a = b(a)
        o.append(b"arg %d\n%s\n" % (len(a), a))
    for n, c in spec.get("files", {}).items():
        c = b(c)
        o.append(b"file %s %d\n%s\n" % (b(n), len(c), c))
    if spec.get("stdin"):
        o.append(b"stdin %s\n" % b(spec["stdin"]))
    if "alloc" in spec:
        o.append(b"alloc %s\n" % b(" ".join(map(str, spec["alloc"]))))
    if "fail" in spec:
        o.append(b"fail %d %d %d\n" % tuple(spec["fail"]))
    if "limit" in spec:
        o.append(b"limit %d\n" % spec["limit"])
    if "buf" in spec:
        o.append(b"buf %d\n" % spec["buf"])
    if "chunk" in spec:
        o.append(b"chunk %d %d\n" % tuple(spec["chunk"]))
    for f in spec.get("faults", []):
        o.append(b"fault %s %s %d %d %d\n" % (b(f[0]), b(f[1]), f[2], f[3], f[4]))
    if "kill" in spec:
        o.append(b"kill %d\n" % spec["kill"])
    if "clock" in spec:
        o.append(b"clock %d %d %d\n" % tuple(spec["clock"]))
    for j in sorted(spec.get("jumps", [])):
        o.append(b"jump %d %s %d\n" % (j[0], b(j[1]), j[2]))
    for s in sorted(spec.get("switches", [])):
        o.append(b"switch %d %d\n" % tuple(s))
    for k in ("stackfill", "livelock", "maxsteps", "cpu", "gtodfail", "trace", "pid"):
        if k in spec:
            o.append(b"%s %d\n" % (b(k), spec[k]))
    for e in spec.get("env", []):
        o.append(b"env %s\n" % b(e))
    for t, op in spec.get("ops", []):
        o.append(b"op %d %s\n" % (t, b(op)))
    o.append(b"run\n")
    return b"".join(o)


class Driver(object):
    def __init__(self, variant="main"):
        self.variant = variant
        self.p = None
        self.runs = 0

    def start(self):
        env = dict(os.environ)
        env.pop("ASAN_OPTIONS", None)
        self.p = subprocess.Popen([os.path.join(BUILD, "sim_" + self.variant)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env, bufsize=1 << 16)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None

    def run(self, spec):
        if self.p is None:
            self.start()
        self.runs += 1
        f = self.p.stdout
        self.p.stdin.write(encode(spec))
        self.p.stdin.flush()
        r = Result()
        r.fired, r.clk, r.oplog, r.leaks, r.blobs, r.blobinfo, r.trace = {}, [], [], [], {}, {}, []
        r.gone = []
        r.vkind, r.pc, r.heapdesc, r.text, r.cov = "", 0, "", "", 0
        while True:
            l = f.readline()
            if not l:
                self.close()
                raise Crash("run server died")
            w = l.split()
            k = w[0]
            if k == b"END":
                break
            if k == b"end":
                r.end = END[int(w[1])]
            elif k in (b"code", b"events", b"steps", b"edges", b"hash", b"schedhash", b"switches", b"exhausted",
                       b"jumps", b"gtod", b"pc"):
                setattr(r, k.decode(), int(w[1]))
            elif k == b"alloc":
                r.n_any, r.n_cloog, r.n_backend, r.n_free = map(int, w[1:])
            elif k == b"afail":
                r.failed, r.limit_failed, r.fail_pc, r.fail_was_cloog, r.fail_size = map(int, w[1:])
            elif k == b"alive":
                r.live, r.peak, r.live_blocks = map(int, w[1:])
            elif k == b"badfree":
                r.bad_free = int(w[1])
            elif k == b"io":
                r.nreads, r.nwrites, r.bytes_read, r.eofs = map(int, w[1:])
            elif k == b"fired":
                r.fired[int(w[1])] = int(w[2])
            elif k == b"clk":
                r.clk.append((w[1].decode(), int(w[2]), int(w[3])))
            elif k == b"oplog":
                r.oplog.append((int(w[1]), int(w[2]), int(w[3]), int(w[4]), int(w[5]), b" ".join(w[6:]).decode()))
            elif k == b"leak":
                r.leaks.append((int(w[1]), int(w[2])))
            elif k == b"vkind":
                r.vkind = w[1].decode()
            elif k == b"heapdesc":
                r.heapdesc = l[9:].decode("latin-1").strip()
            elif k == b"trace":
                r.trace = [int(x, 16) for x in w[1:]]
            elif k == b"text":
                n = int(w[1])
                r.text = f.read(n + 1)[:-1].decode("latin-1")
            elif k == b"blob":
                n = int(w[2])
                r.blobs[w[1].decode("latin-1")] = f.read(n + 1)[:-1]
                r.blobinfo[w[1].decode("latin-1")] = tuple(map(int, w[3:]))
            elif k == b"gone":
                r.gone.append(w[1].decode("latin-1"))
            elif k == b"cov":
                r.cov = int(w[1][::-1], 16) if len(w) > 1 else 0
            elif k == b"error":
                raise Crash(l.decode("latin-1"))
        if r.end == "harness" or (r.end == "violation" and r.vkind == "harness"):
            raise Crash("simulator failure: %s %s" % (r.code, r.text))
        return r


def symbolize(pcs, variant="main"):
    try:
        out = subprocess.run(["addr2line", "-f", "-s", "-e", os.path.join(BUILD, "sim_" + variant)] + [hex(p - 1) for p in pcs],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60).stdout.decode().split("\n")
        return ["%s (%s)" % (out[2 * i], out[2 * i + 1]) for i in range(len(pcs))]
    except Exception:
        return [hex(p) for p in pcs]


def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))
