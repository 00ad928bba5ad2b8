"""Property workloads and oracles.

Every property has
  case(ctx, r, i)   -> yields explicit scenarios (JSON-able dicts) drawn from r
  judge(ctx, sc)    -> (verdict, info): verdict None = held, "skip" = the
                       scenario says nothing, or (class, key, message)
A scenario alone decides the execution: it is the replay file."""
import errno, re, hashlib, random
import engine, gen

MAXSTEPS = 3000000
ERR = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EDQUOT": errno.EDQUOT, "EFBIG": errno.EFBIG, "EPIPE": errno.EPIPE,
       "EINTR": errno.EINTR, "EAGAIN": errno.EAGAIN, "ENXIO": errno.ENXIO, "EISDIR": errno.EISDIR,
       "EACCES": errno.EACCES, "EMFILE": errno.EMFILE, "ENOMEM": errno.ENOMEM, "ESTALE": getattr(errno, "ESTALE", 116)}
WERR = ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EPIPE", "EINTR", "EAGAIN"]
RERR = ["EIO", "EIO", "EINTR", "EAGAIN", "EISDIR", "ESTALE", "ENXIO"]
ERRNAME = dict((v, k) for k, v in ERR.items())


class Ctx(object):
    def __init__(self):
        self.drv = {}
        self.cache = {}
        self.order = []
        self.reset()

    def reset(self):
        self.n = {}          # counters
        self.cov = 0
        self.states = set()  # distinct event histories
        self.scheds = set()
        self.sites = set()
        self.simus = 0       # simulated microseconds
        self.events = 0
        self.steps = 0
        self.runs = 0

    def add(self, k, v=1):
        if v:
            self.n[k] = self.n.get(k, 0) + v

    def run(self, spec, variant="main"):
        d = self.drv.get(variant)
        if d is None:
            d = self.drv[variant] = engine.Driver(variant)
        s = dict(spec)
        s.setdefault("maxsteps", MAXSTEPS)
        s.setdefault("cpu", 20)
        x = d.run(s)
        self.runs += 1
        self.events += x.events
        self.steps += x.steps
        self.cov |= x.cov
        self.states.add(x.hash & 0xFFFFFFFFFFFF)
        if x.switches:
            self.scheds.add(x.schedhash & 0xFFFFFFFFFFFF)
            self.add("thread_switches", x.switches)
        for i, f in enumerate(s.get("faults", [])):
            self.add("fired_%s_%s" % ({"w": "write", "r": "read", "c": "close", "o": "open"}[f[0]], ERRNAME.get(f[3], f[3])),
                     x.fired.get(i, 0))
        if x.failed:
            self.add("fired_alloc_cloog" if x.fail_was_cloog else "fired_alloc_backend", x.failed)
        self.add("fired_alloc_limit", x.limit_failed)
        self.add("fired_clock_jump", x.jumps)
        self.add("fired_gettimeofday_error", x.gtod)
        self.add("fired_crash", 1 if x.end == "killed" else 0)
        self.add("fired_short_read", x.nreads if s.get("chunk", [0])[0] else 0)
        self.add("fired_hostile_heap", 1 if "alloc" in s else 0)
        self.simus += x.events * (s["clock"][2] if "clock" in s else 0) + sum(abs(j[2]) for j in s.get("jumps", []))
        if s.get("trace"):
            self.sites.update(x.trace)
        self.add("end_" + x.end)
        return x

    def base(self, spec, variant="main"):
        k = variant + engine.canon(spec)
        k = hashlib.sha1(k.encode("latin-1", "replace")).digest()
        if k not in self.cache:
            if len(self.order) > 64:
                self.cache.pop(self.order.pop(0), None)
            self.cache[k] = self.run(spec, variant)
            self.order.append(k)
        return self.cache[k]

    def close(self):
        for d in self.drv.values():
            d.close()
        self.drv = {}


# ------------------------------------------------------------------ helpers
def merge(spec, delta):
    s = dict(spec)
    for k, v in delta.items():
        if k == "files":
            s["files"] = dict(s.get("files", {}), **v)
        else:
            s[k] = v
    return s


def hung(ctx, x, spec, need, variant="main"):
    """whether a run has spent many times the steps of the run it is compared with, and ends no sooner with more"""
    if x.end != "budget":
        return False
    y = ctx.run(dict(spec, maxsteps=6000000 + 20 * need, cpu=60), variant)
    return y.end == "budget"


def where(x, variant="main"):
    """stable name of the place a run died at"""
    if x.end == "asan":
        pcs = [int(p, 16) for p in re.findall(r"sim_\w+\+(0x[0-9a-f]+)", x.text)]
        pcs = [p + 1 for p in pcs][:8]
        fr = [f.split(" ")[0] for f in engine.symbolize(pcs, variant)] if pcs else []
        fr = [f for f in fr if f not in ("??",) and not f.startswith("__") and f not in ("free", "malloc")]
        return x.vkind + "@" + "<".join(fr[:2])
    if x.end == "signal":
        m = re.search(rb"(\w+\.c):\d+: (\w+): Assertion", x.stderr)
        if m:
            return "assert@%s" % m.group(2).decode()
        m = re.search(rb"GNU MP: [^\n]*", x.stderr)
        return "signal%d%s" % (x.code, "@gmp" if m else "")
    if x.end == "violation":
        return x.vkind
    return x.status()


def describe(x, variant="main"):
    t = "%s%s" % (x.status(), " " + x.vkind if x.vkind else "")
    if x.end in ("asan", "signal", "violation"):
        t += " (%s)" % where(x, variant)
    if x.end == "violation":
        t += " " + x.text[:200]
    e = x.stderr.decode("latin-1").strip().replace("\n", " | ")
    if e:
        t += " stderr=%r" % e[-160:]
    return t


BAD = ("asan", "signal", "violation")
VOID = ("budget", "timeout")


def cli(text, opts, out="file", inp="file", order=0):
    o = list(opts)
    argv = ["cloog"]
    tail = [{"file": "in.cloog", "stdin": "stdin"}[inp]]
    if out == "file":
        tail = ["-o", "out.c"] + tail if order == 0 else tail + ["-o", "out.c"]
    elif out == "stdoutname":
        tail = ["-o", "stdout"] + tail
    argv += o + tail if order != 2 else tail + o
    s = {"mode": "cli", "argv": argv, "files": {"in.cloog": text}}
    if inp == "stdin":
        s["stdin"] = "in.cloog"
    return s


def rnd_alloc(r):
    return [r.randrange(3), r.randrange(3), r.choice([1, 1, 2]), r.choice([0, 255, 165, 1, 127, 128, r.randrange(256)]),
            r.choice([0, 1, 1, 2]), r.choice([0, 255, 221, r.randrange(256)]), r.choice([0, 1, 16, 256, 4096, 20000]), r.randrange(1, 1 << 30)]


def outputs(x, names=("out.c", "<stdout>")):
    return dict((n, x.out(n)) for n in names)


def diffmsg(a, b):
    la, lb = a.decode("latin-1").split("\n"), b.decode("latin-1").split("\n")
    for i in range(max(len(la), len(lb))):
        p = la[i] if i < len(la) else "<end>"
        q = lb[i] if i < len(lb) else "<end>"
        if p != q:
            return "line %d: %r instead of %r" % (i + 1, q[:80], p[:80])
    return "equal"


def diagnosed(x, b=None):
    """a diagnostic of this failure on the error stream"""
    return bool(x.stderr.strip()) and (b is None or x.stderr != b.stderr)


class Prop(object):
    level = "exploration"
    quick, thorough = 400, 8000
    cap = {"quick": 240, "thorough": 3000}
    shrink_keys = ()

    def pick(self, r, small=None, pgen=0.5):
        lab, t = gen.pick_input(r, (r.random() < 0.6) if small is None else small, pgen)
        return t, gen.gen_opts(r)

    def nontrivial(self, sc, info):
        return True


# ------------------------------------------------------------------ C01
class C01(Prop):
    """output write failures are never reported as success"""
    level = "fault_enumeration"
    quick, thorough = 7000, 200000

    def case(self, ctx, r, i):
        text, opts = self.pick(r)
        if r.random() < 0.2:
            opts = opts + ["-struct"]
        out = r.choice(["file", "file", "stdout", "stdoutname"])
        if r.random() < 0.22:
            for sc in self.lib(ctx, r, text):
                yield sc
            return
        spec = cli(text, opts, out, r.choice(["file", "file", "stdin"]), r.randrange(3))
        spec["buf"] = r.choice([1, 16, 64, 512, 1024, 4096, 4096, 16384])
        b = ctx.base(spec)
        if b.end != "exit" or b.code != 0:
            return
        for _ in range(6):
            f = []
            for _ in range(1 if r.random() < 0.8 else 2):
                tgt = "out.c" if out == "file" and not ("-struct" in opts and r.random() < 0.4) else "<stdout>"
                n = len(b.out(tgt))
                t = r.random()
                if t < 0.12:
                    f.append(["c", tgt, 0, ERR[r.choice(["ENOSPC", "EIO", "EDQUOT"])], -1])
                elif t < 0.17 and tgt == "out.c":
                    f.append(["o", tgt, 0, ERR[r.choice(["EACCES", "ENOSPC", "EMFILE", "EISDIR"])], -1])
                elif n:
                    off = r.choice([0, n - 1, max(0, n - 2), r.randrange(n), r.randrange(n), r.randrange(n)])
                    f.append(["w", tgt, off, ERR[r.choice(WERR)], r.choice([-1, -1, 1, 1, 2, 3])])
            if f:
                yield {"prop": "C01", "kind": "cli", "spec": spec, "delta": {"faults": f}, "out": out}

    def lib(self, ctx, r, text):
        o = "out.c"
        kind = r.choice(["print", "print", "cprint", "dump", "struct"])
        ops = ["state 0 own", "optnew 0", "in 0 in.cloog", "iread 0", "inclose 0"]
        if kind == "dump":
            ops += ["dump 0 out.c", "ifree 0"]
        else:
            ops += ["palloc 0"] + (["gen 0"]) + ["out 0 out.c"]
            ops += {"print": ["print 0"], "struct": ["struct 0"], "cprint": ["clast 0", "cprint 0", "cfree 0"]}[kind] + ["outclose 0", "pfree 0"]
        ops += ["ofree 0", "sfree 0"]
        spec = {"mode": "script", "files": {"in.cloog": text}, "ops": [[0, p] for p in ops], "buf": r.choice([1, 64, 512, 4096])}
        b = ctx.base(spec)
        if b.end != "done":
            return
        n = len(b.out(o))
        for _ in range(4):
            if n:
                yield {"prop": "C01", "kind": "lib", "spec": spec,
                       "delta": {"faults": [["w", o, r.choice([0, n - 1, r.randrange(n), r.randrange(n)]), ERR[r.choice(WERR)], r.choice([-1, 1, 1, 2])]]}}

    def judge(self, ctx, sc):
        spec = sc["spec"]
        b = ctx.base(spec)
        if sc["kind"] == "lib":
            return self.judge_lib(ctx, sc, b)
        if b.end != "exit" or b.code != 0:
            return "skip", {}
        x = ctx.run(merge(spec, sc["delta"]))
        info = {"fired": sum(x.fired.values()), "x": x}
        if hung(ctx, x, merge(sc["spec"], sc["delta"]), b.steps):
            return ("hang", "budget", "with a failing output the program does not end"), info
        if x.end in VOID:
            return "skip", info
        if x.end in BAD:
            return ("crash", where(x), "output fault %s leads to %s" % (sc["delta"]["faults"], describe(x))), info
        if not info["fired"]:
            info["trivial"] = 1
        if x.code == 0:
            for n in ("out.c", "<stdout>"):
                if x.out(n) != b.out(n):
                    return ("silent-loss", "cli", "exit status 0 although %s lacks or garbles output after faults %s (%d of %d bytes; %s)"
                            % (n, sc["delta"]["faults"], len(x.out(n)), len(b.out(n)), diffmsg(b.out(n), x.out(n)))), info
            for k, f in enumerate(sc["delta"]["faults"]):
                if x.fired.get(k) and (f[0] in "co" or f[4] < 0):
                    return ("unreported", "cli", "exit status 0 although %s failed: %s" % ({"c": "closing", "o": "opening", "w": "writing"}[f[0]], f)), info
        elif info["fired"] and not diagnosed(x, b):
            return ("no-diagnostic", "cli", "exit status %d without a diagnostic after %s" % (x.code, sc["delta"]["faults"])), info
        elif not info["fired"]:
            return ("differs", "cli", "no fault fired but status %d" % x.code), info
        return None, info

    def judge_lib(self, ctx, sc, b):
        if b.end != "done":
            return "skip", {}
        x = ctx.run(merge(sc["spec"], sc["delta"]))
        info = {"fired": sum(x.fired.values()), "x": x}
        if hung(ctx, x, merge(sc["spec"], sc["delta"]), b.steps):
            return ("hang", "budget", "with a failing output the program does not end"), info
        if x.end in VOID:
            return "skip", info
        if x.end in BAD:
            return ("crash", where(x), "output fault leads to %s" % describe(x)), info
        if x.end == "exit":      # the library gave up: must say so
            if x.code == 0 or not diagnosed(x, b):
                return ("silent-exit", "lib", "library ended the process with status %d on an output fault" % x.code), info
            return None, info
        st = [o[5] for o in x.oplog if "ferror" in o[5]]
        reported = any("ferror=1" in s or "fclose=-1" in s for s in st)
        if not info["fired"]:
            info["trivial"] = 1
        if x.out("out.c") != b.out("out.c") and not reported:
            return ("silent-loss", "lib", "the caller's stream shows no error although output is incomplete after %s" % sc["delta"]["faults"]), info
        return None, info


# ------------------------------------------------------------------ C02
class C02(Prop):
    """a failing or interrupted read never yields code"""
    level = "fault_enumeration"
    quick, thorough = 9000, 200000

    def case(self, ctx, r, i):
        text, opts = self.pick(r)
        if r.random() < 0.1:
            opts = opts + ["-struct"]
        inp = r.choice(["file", "file", "stdin"])
        out = r.choice(["file", "stdout"])
        if r.random() < 0.2:
            # a library client reads from a stream of its own
            t = r.random()
            fin = "in.cloog"
            if t < 0.2:
                text = mat_doc(r)
                ops = ["imat 0 in.cloog", "clastin 0", "out 0 out.c", "cprint 0", "cfree 0"]
                inp = "file"
            elif t < 0.35:
                text = one_mat(r)
                ops = ["out 0 out.c", "mread 0 in.cloog"]
                inp = "file"
            else:
                ops = [r.choice(["in 0 in.cloog", "stdin 0"])]
                inp = "stdin" if ops[0][0] == "s" else "file"
                ops += r.choice([["iread 0", "clastin 0", "out 0 out.c", "cprint 0", "cfree 0"], ["read 0", "gen 0", "out 0 out.c", "print 0", "pfree 0"],
                                 ["iread 0", "dump 0 d.cloog", "palloc 0", "gen 0", "out 0 out.c", "print 0", "pfree 0"]])
            ops = ["state 0 own", "optnew 0 " + " ".join(flags(r))] + ops + ["outclose 0", "ofree 0", "sfree 0"]
            spec = {"mode": "script", "files": {fin: text}, "ops": [[0, o] for o in ops]}
            if inp == "stdin":
                spec["stdin"] = fin
        else:
            spec = cli(text, opts, out, inp, r.randrange(3))
            if inp == "file" and r.random() < 0.3:
                # something else waits on the standard input
                spec["files"]["other.cloog"] = gen.pick_input(r, True, 0.6)[1]
                spec["stdin"] = "other.cloog"
        spec["buf"] = r.choice([1, 2, 16, 64, 256, 4096, 4096, 16384])
        b = ctx.base(spec)
        if b.end not in ("exit", "done") or b.code != 0:
            return
        n = len(text)
        lines = [m.start() for m in re.finditer("\n", text)]
        for _ in range(7):
            d = {}
            if r.random() < 0.4:
                d["chunk"] = [r.choice([1, 2, 3, 7, 40, 200]), r.randrange(1 << 30)]
            t = r.random()
            if t < 0.08 and inp == "file" and spec["mode"] == "cli":
                d["faults"] = [["o", "in.cloog", 0, ERR[r.choice(["EACCES", "EMFILE", "EIO"])], -1]]
            elif t < 0.93:
                off = r.choice([r.randrange(n + 1), r.randrange(n + 1), r.choice(lines or [0]), r.choice(lines or [0]) + 1,
                                n, n - 1, r.randrange(max(1, n * 3 // 4), n + 1)])
                d["faults"] = [["r", "in.cloog", min(off, n), ERR[r.choice(RERR)], r.choice([-1, -1, 1, 1, 1, 2, 5])]]
            elif "chunk" not in d:
                d["chunk"] = [r.choice([1, 3, 50]), r.randrange(1 << 30)]
            yield {"prop": "C02", "spec": spec, "delta": d}

    def judge(self, ctx, sc):
        b = ctx.base(sc["spec"])
        if b.end not in ("exit", "done") or b.code != 0:
            return "skip", {}
        x = ctx.run(merge(sc["spec"], sc["delta"]))
        info = {"fired": sum(x.fired.values()), "x": x}
        if hung(ctx, x, merge(sc["spec"], sc["delta"]), b.steps):
            return ("hang", "budget", "with a failing input the program does not end"), info
        if x.end in VOID:
            return ("skip", info) if info["fired"] == 0 else ("skip", info)
        if x.end in BAD:
            return ("crash", where(x), "input fault %s leads to %s" % (sc["delta"], describe(x))), info
        if not info["fired"] and "chunk" not in sc["delta"]:
            info["trivial"] = 1
        if x.code == 0:
            for n in ("out.c", "<stdout>", "d.cloog"):
                if x.out(n) != b.out(n):
                    return ("wrong-code", "cli", "status 0 but different code after %s: %s" % (sc["delta"], diffmsg(b.out(n), x.out(n)))), info
            if any(f[4] < 0 and f[0] == "r" and x.fired.get(k) for k, f in enumerate(sc["delta"].get("faults", []))):
                # persistently failing stream, yet same code: everything needed had been read
                info["late"] = 1
        else:
            if not info["fired"]:
                return ("differs", "cli", "short reads alone lead to status %d: %s" % (x.code, describe(x))), info
            if not diagnosed(x, b):
                return ("no-diagnostic", "cli", "status %d without diagnostic after %s" % (x.code, sc["delta"])), info
            for n in ("out.c", "<stdout>", "d.cloog"):
                if x.out(n).strip():
                    return ("code-on-failure", "cli", "failed run (status %d) left %d bytes of code in %s" % (x.code, len(x.out(n)), n)), info
        return None, info


# ------------------------------------------------------------------ C03
def damage(r, text):
    n = len(text)
    if n < 3:
        return "trunc", ""
    L = text.split("\n")
    t = r.random()
    if t < 0.34:
        return "trunc", text[:r.choice([r.randrange(n), r.randrange(n), r.randrange(n * 3 // 4, n), n - 1])]
    if t < 0.44:
        del L[r.randrange(len(L))]
        return "lost-line", "\n".join(L)
    if t < 0.50:
        k = r.randrange(len(L)); m = r.randint(1, 4)
        del L[k:k + m]
        return "lost-lines", "\n".join(L)
    if t < 0.58:
        k = r.randrange(len(L))
        L.insert(k, L[r.randrange(len(L))] if r.random() < 0.4 else L[k])
        return "dup-line", "\n".join(L)
    if t < 0.72:
        b = list(text)
        for _ in range(r.choice([1, 1, 2, 5])):
            k = r.randrange(n)
            b[k] = chr(ord(b[k]) ^ (1 << r.randrange(8))) if r.random() < 0.6 else chr(r.choice([0, 10, 32, 45, 48, 57, 35, 255, r.randrange(256)]))
        return "flip", "".join(b)
    if t < 0.88:
        ms = list(re.finditer(r"-?\d+", text))
        if ms:
            m = r.choice(ms)
            v = r.choice(["-1", "0", "1", "2", "7", "99", "1000", "-7", "2147483648", "99999999999999999999", "", "x", "1.5", "7" * r.choice([25, 60, 70, 130, 300, 700, 1000]), "y" * r.choice([60, 130, 300, 700])])
            return "number", text[:m.start()] + v + text[m.end():]
    if t < 0.92:
        k = r.randrange(n)
        return "lost-block", text[:k] + text[k + r.choice([1, 8, 64, 512]):]
    if t < 0.96:
        k = r.randrange(n); j = r.randrange(n); m = r.choice([4, 16, 64])
        return "torn-block", text[:k] + text[j:j + m] + text[k + m:]
    k = r.randrange(len(L))
    L[k] = L[k] + r.choice([" " * 1100, "x" * 1030, " 1" * 600, "\0", "\r", "#" * 2000, "9" * 1500])
    return "long-line", "\n".join(L)


def head_lines(text):
    """number of leading lines that hold language, context and all the
    statements with their iterator names, or None if this cannot be told"""
    L = text.split("\n")
    pos = [0]

    def nxt():
        while pos[0] < len(L):
            l = L[pos[0]]
            pos[0] += 1
            if l.strip() and not l.lstrip().startswith("#"):
                return l.split("#")[0].split()
        raise ValueError

    def matrix(h=None):
        h = [int(v) for v in (h or nxt())]
        if len(h) not in (2, 6):
            raise ValueError
        for _ in range(h[0]):
            if len([int(v) for v in nxt()]) != h[1]:
                raise ValueError
        return h

    def names(n):
        o = nxt()
        if o not in (["0"], ["1"]):
            raise ValueError
        if n and o == ["1"] and len(nxt()) != n:
            raise ValueError

    try:
        if nxt()[0][:1] not in ("c", "f"):
            return None
        h = matrix()
        npar = h[5] if len(h) == 6 else h[1] - 2
        names(npar)
        (ns,) = [int(v) for v in nxt()]
        dim = 0
        for _ in range(ns):
            h = nxt()
            for _ in range(int(h[0]) if len(h) == 1 else 1):
                m = matrix(None if len(h) == 1 else h)
                dim = max(dim, m[2] if len(m) == 6 else m[1] - 2 - npar)
            if nxt() != ["0", "0", "0"]:
                raise ValueError
        if not ns:
            return None
        names(dim)
        return pos[0]
    except (ValueError, IndexError):
        return None


class C03(Prop):
    """damaged input: bounded work, diagnosed failure or plain success"""
    quick, thorough = 8000, 250000

    def case(self, ctx, r, i):
        if r.random() < 0.06:
            # a matrix read through the library
            text = one_mat(r)
            spec = {"mode": "script", "files": {"in.cloog": text}, "ops": [[0, "out 0 out.c"], [0, "mread 0 in.cloog"], [0, "outclose 0"]]}
        else:
            text, opts = self.pick(r, None if r.random() < 0.3 else True, 0.6)
            opts = [o for o in opts if o != "-nosimplify"]
            spec = cli(text, opts, r.choice(["file", "stdout"]), r.choice(["file", "file", "stdin"]), r.randrange(3))
        b = ctx.base(spec)
        if b.end not in ("exit", "done") or b.code != 0:
            return
        for _ in range(9):
            k, t = damage(r, text)
            if spec["mode"] == "script":
                if k == "trunc" and len(tokens(t)) < len(tokens(text)):
                    k = "short-matrix"
                elif r.random() < 0.2:
                    k, t = "huge-matrix", text.replace("\n", "#", text.startswith("#")).split("\n", 1)[1]
                    t = "%d %d\n" % (r.choice([65536, 1 << 31, 1 << 20, 4294967295]), r.choice([65536, 1 << 31, 4294967295, 1 << 16])) + t
            elif r.random() < 0.12:
                n = head_lines(text)
                if n:
                    # complete lines only, at least one significant line missing
                    L = text.split("\n")
                    h = r.randrange(1, n)
                    k, t = "early-end", "\n".join(L[:h]) + "\n"
            d = {"files": {"in.cloog": t}}
            if r.random() < 0.3:
                d["chunk"] = [r.choice([1, 3, 50]), r.randrange(1 << 30)]
            if r.random() < 0.5:
                d["alloc"] = rnd_alloc(r)
            d["buf"] = r.choice([1, 64, 4096, 4096])
            yield {"prop": "C03", "kind": k, "spec": spec, "delta": d, "bsteps": b.steps}

    def judge(self, ctx, sc):
        s = merge(sc["spec"], sc["delta"])
        if sc["kind"] in ("trunc", "early-end", "short-matrix"):
            s["maxsteps"] = 6000000 + 50 * sc.get("bsteps", 0)
            s["cpu"] = 60
        x = ctx.run(s)
        info = {"fired": 1, "x": x}
        ctx.add("damage_" + sc["kind"])
        if x.end == "budget" and sc["kind"] in ("trunc", "early-end") and x.code == 0 and x.nwrites == 0:
            return ("unbounded", "trunc", "truncated input: %d steps without finishing" % x.steps), info
        if x.end in VOID:
            return "skip", info
        if x.end in BAD:
            return ("crash", where(x), "damaged input (%s) leads to %s" % (sc["kind"], describe(x))), info
        if x.code == 0 and sc["kind"] == "short-matrix":
            return ("accepted-fragment", "lib", "a matrix that lacks numbers is accepted"), info
        if x.code == 0 and sc["kind"] == "early-end":
            return ("accepted-fragment", "cli", "input that ends before its statements are complete is accepted with status 0"), info
        if x.code != 0:
            if not diagnosed(x):
                return ("no-diagnostic", "cli", "status %d without a diagnostic on damaged input (%s)" % (x.code, sc["kind"])), info
            for n in ("out.c", "<stdout>"):
                if b"for (" in x.out(n) or re.search(rb"S\d+\(", x.out(n)):
                    if b"unbounded loops not allowed in FORTRAN" in x.stderr:
                        continue
                    return ("code-on-failure", "cli", "rejected input (status %d) left code in %s" % (x.code, n)), info
        return None, info


# ------------------------------------------------------------------ C04
class C04(Prop):
    """running out of memory is fail-stop"""
    level = "fault_enumeration"
    quick, thorough = 1500, 40000

    def case(self, ctx, r, i):
        if r.random() < 0.4:
            st, f, ops, fo = session(r, 0)
            # (the answers of the domain interface go to the client, errors included: no generated code;
            # annotations are allocated by the client)
            ops = [o.replace(fo, "out.c") for o in ops if not o.startswith(("domops", "cpar"))]
            spec = {"mode": "script", "files": f, "ops": [[0, o] for o in ops]}
        else:
            text, opts = self.pick(r, True, 0.55)
            if r.random() < 0.25:
                opts = opts + [r.choice(["-struct", "-leaks"])]
            spec = cli(text, opts, r.choice(["file", "stdout"]), "file", 0)
        b = ctx.base(dict(spec, trace=1))
        if b.end not in ("exit", "done") or b.code != 0 or not b.trace:
            return
        occ = {}
        for k, h in enumerate(b.trace):
            occ.setdefault(h, []).append(k + 1)
        sites = sorted(occ)
        r.shuffle(sites)
        if i % 8 != 0:
            sites = sites[:14]
        for h in sites:
            o = occ[h]
            k = o[0] if r.random() < 0.6 else r.choice(o)
            yield {"prop": "C04", "spec": spec, "delta": {"fail": [k, 1 if r.random() < 0.4 else 0, 1]}, "site": h}
        for _ in range(8):
            t = r.random()
            if t < 0.75:
                yield {"prop": "C04", "spec": spec, "delta": {"fail": [r.randrange(1, max(2, b.n_backend)), 1 if r.random() < 0.4 else 0, 2]}}
            else:
                yield {"prop": "C04", "spec": spec, "delta": {"limit": r.randrange(200, max(201, b.peak))}}

    def judge(self, ctx, sc):
        b = ctx.base(dict(sc["spec"], trace=1))
        if b.end not in ("exit", "done") or b.code != 0:
            return "skip", {}
        x = ctx.run(merge(sc["spec"], sc["delta"]))
        fired = x.failed + x.limit_failed
        info = {"fired": fired, "x": x}
        if x.end in VOID:
            return "skip", info
        if not fired:
            info["trivial"] = 1
        own = fired and x.fail_was_cloog
        site = engine.symbolize([x.fail_pc])[0] if own else "backend"
        if own:
            ctx.sites.add(site)
        key = site.split(" ")[0]
        if x.end in BAD:
            if own:
                return ("crash", key, "failed allocation at %s leads to %s" % (site, describe(x))), info
            if x.vkind == "livelock":
                return ("livelock", key, "failed back-end allocation leads to %s" % describe(x)), info
            ctx.add("backend_oom_crash")
            return None, info       # fail-stop
        if x.code == 0:
            for n in sorted(set(x.blobs) | set(b.blobs)):
                if n != "<stderr>" and x.out(n) != b.out(n):
                    return ("wrong-code", key, "status 0 but different output after allocation failure at %s (%s): %s" % (site, sc["delta"], diffmsg(b.out(n), x.out(n)))), info
            ctx.add("oom_survived")
        elif not diagnosed(x, b):
            return ("no-diagnostic", key, "status %d without diagnostic after allocation failure at %s" % (x.code, site)), info
        return None, info


# ------------------------------------------------------------ library sessions
FLAGS = [("strides", [1]), ("strides", [1]), ("l", [1, 2]), ("f", [2]), ("stop", [1, 2]), ("otl", [0]), ("esp", [0]), ("fsp", [2]), ("block", [1]),
         ("compilable", [1, 3]), ("callable", [1]), ("noblocks", [1]), ("noscalars", [1]), ("sh", [1]), ("first_unroll", [1, 2]),
         ("backtrack", [1]), ("override", [1]), ("save_domains", [1]), ("quiet", [1])]


def flags(r):
    out = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        k, vs = r.choice(FLAGS)
        if k not in [o.split("=")[0] for o in out]:
            out.append("%s=%d" % (k, r.choice(vs)))
    return out


def isl_doc(r):
    P = r.choice([["N"], ["N", "M"], ["n"], []])
    parts = []
    nd = r.choice([1, 2, 3])
    head = "[%s] -> " % ",".join(P) if P else ""
    tail = "\n%s{ : %s }" % (head, " and ".join("%s >= %d" % (q, r.choice([0, 1, 2, 5])) for q in P)) if P and r.random() < 0.4 else ""
    if r.random() < 0.3:
        # one set; names may be missing, repeat or be the beginning of others
        it = []
        for q in range(r.randint(0, 3)):
            it.append(r.choice(["i", "i1", "ii", "j", "x", "x_1", "long_iterator_name"]))
        it = [v for q, v in enumerate(it) if v not in it[:q] and v not in P]
        r.shuffle(it)
        tup = it + (["%d" % r.randint(0, 5)] if r.random() < 0.2 else []) + (["%s + %d" % (r.choice(it), r.randint(1, 3))] if it and r.random() < 0.2 else [])
        if len(it) == 2 and r.random() < 0.2:
            tup = ["A[%s] -> B[%s]" % (it[0], it[1])]
        alts = []
        for _ in range(r.choice([1, 1, 2])):
            cons = []
            for q, v in enumerate(it):
                cons.append("%s <= %s <= %s" % (r.choice(["0", "1", "2"] + it[:q]), v, r.choice((P or ["10"]) + ["20", "8"])))
            if it and r.random() < 0.3:
                cons.append("exists e: %s = %de" % (r.choice(it), r.choice([2, 3])))
            alts.append("(" + " and ".join(cons) + ")" if cons else "(1 = 1)")
        return "set %s{ %s[%s] : %s }%s" % (head, r.choice(["S", "S", "", "stmt_with_name"]), ", ".join(tup), " or ".join(alts), tail)
    for k in range(r.randint(1, 3)):
        d = r.randint(1, 2)
        it = ["i", "j"][:d]
        cons = []
        for q, v in enumerate(it):
            lo = r.choice(["0", "1", "2"] + (["i"] if q else []))
            hi = r.choice((P or ["10"]) + ["20", "8"])
            cons.append("%s <= %s <= %s" % (lo, v, hi))
        if r.random() < 0.3:
            cons.append("exists e: %s = %de" % (r.choice(it), r.choice([2, 3])))
        sc = []
        for q in range(nd):
            sc.append(r.choice(it + [str(k), "0"] + (["i+j"] if d > 1 else ["2i"])))
        parts.append("S%s%d[%s] -> [%s] : %s" % (r.choice(["", "tmt_", "x"]), k, ",".join(it), ",".join(sc), " and ".join(cons)))
    return "%s{ %s }%s" % (head, "; ".join(parts), tail)


def some_names(r, names):
    """all of the names, none of them or only some"""
    t = r.random()
    return names if t < 0.4 else ["-"] * len(names) if t < 0.7 else [r.choice([n, "-"]) for n in names]


def mat_doc(r):
    """an input assembled through the library; see assemble() in sim_script.c"""
    np, ns = r.choice([0, 1, 1, 2]), r.randint(1, 4) if r.random() < 0.97 else 0
    dims = [r.randint(1, 3) for _ in range(ns)]
    nd = r.choice([0, 0, 1, 2, 3]) if ns else 0
    L = [str(np)] + some_names(r, ["N%d" % q for q in range(np)])

    def mat(rows, cols):
        L.append("%d %d" % (len(rows), cols))
        L.extend(" ".join(map(str, w)) for w in rows)
    mat([[1] + [1 if c == q else 0 for c in range(np)] + [-r.choice([1, 2, 5])] for q in range(np) if r.random() < 0.8], np + 2)
    L += [str(ns), str(nd)]
    for k in range(ns):
        d = dims[k]
        L.append(r.choice(["-", "S_%d" % k, "stmt_with_a_rather_long_name_%d" % k]))
        rows = []
        for q in range(d):
            e = [0] * d
            e[q] = 1
            lo = list(e)
            if q and r.random() < 0.3:
                lo[r.randrange(q)] = -1
            rows.append([1] + lo + [0] * np + [-r.choice([0, 1, 2])])
            up = [-v for v in e]
            par = [0] * np
            if np and r.random() < 0.7:
                par[r.randrange(np)] = 1
                c = r.choice([0, 0, 1, -1])
            else:
                c = r.choice([3, 7, 10, 20])
            rows.append([1] + up + par + [c])
        if r.random() < 0.15:
            rows.append([0] + [r.choice([0, 1, -1]) for _ in range(d)] + [0] * np + [r.choice([0, -1, -2])])
        mat(rows, d + np + 2)
        if nd:
            rows = []
            for q in range(nd):
                o = [0] * nd
                o[q] = -1 if r.random() < 0.7 else 1
                e = [0] * d
                c = 0
                if r.random() < 0.6:
                    e[min(q, d - 1) if r.random() < 0.7 else r.randrange(d)] = -o[q]
                else:
                    c = r.choice([0, 1, 2, k]) * -o[q]
                rows.append([0] + o + e + [0] * np + [c])
            mat(rows, nd + d + np + 2)
    if r.random() < 0.4:
        m = max(dims, default=0)
        L += [str(m)] + some_names(r, ["it%d" % q for q in range(m)]) + some_names(r, ["tm%d" % q for q in range(nd)])
    else:
        L.append("0")
    return "\n".join(L) + "\n"


def one_mat(r):
    """a matrix as cloog_matrix_read takes it"""
    n, m = r.randint(1, 8), r.choice([1, 2, 3, 5, 9, 40])
    L = ["# a matrix"] * r.randrange(2) + ["%d %d" % (n, m)]
    for _ in range(n):
        L += ["", "# a row"][:r.choice([0, 0, 0, 1, 2])]
        L.append(" " * r.randrange(3) + r.choice([" ", "  ", "\t"]).join(str(r.choice([0, 1, -1, r.randrange(-99, 99), r.randrange(10 ** 9), -10 ** 30])) for _ in range(m)))
    return "\n".join(L) + "\n"


def tokens(text):
    """the numbers of a matrix document"""
    return [v for l in text.split("\n") if not l.lstrip().startswith("#") for v in l.split()]


def session(r, k, allow_isl=True, allow_cli=True, style=None, opts=None, doc=None, state=None):
    """-> (files, ops) of one client session numbered k"""
    style = style or r.choice((["cli", "cli"] if allow_cli else []) + ["prog", "prog", "clast", "clast", "clastin", "outlive", "mat"] + (["isl"] if allow_isl else []))
    fin, fout = "in%d.cloog" % k, "out%d.c" % k
    ops = []
    if style == "isl":
        files = {fin: doc or isl_doc(r)}
        ops = ["state K isl", "optnew K " + " ".join(flags(r)), "out K " + fout, "iisl K " + fin, "clastin K", "cprint K"]
        if r.random() < 0.3:
            ops.append("cfilter K * 1")
        ops += ["cfree K", "outclose K", "ofree K"]
    elif style == "mat":
        files = {fin: doc or mat_doc(r)}
        ops = ["state K " + (state or r.choice(["own", "isl"])), "optnew K " + " ".join(flags(r)), "out K " + fout, "imat K " + fin]
        if r.random() < 0.3:
            ops.append("domops K")
        t = r.random()
        if t < 0.4:
            ops += ["clastin K", "cprint K"] + (["cpar K %d" % r.randrange(1 << 16), "cprint K"] if r.random() < 0.6 else []) + ["cfree K"]
        elif t < 0.5:
            ops += ["dump K " + fin + ".d", "ifree K"]
        else:
            ops += ["palloc K"] + (["pdump K"] if r.random() < 0.2 else []) + (["struct K"] if r.random() < 0.3 else []) + ["gen K", "print K", "pfree K"]
        ops += ["outclose K"] + ["ofree K"]
    else:
        small = r.random() < 0.75
        files = {fin: doc if doc is not None else gen.pick_input(r, small, 0.6)[1]}
        st = state or r.choice(["own", "own", "isl"])
        ops = ["state K " + st]
        if style == "cli":
            o = [a for a in (opts if opts is not None else gen.gen_opts(r)) if a != "-nosimplify"]
            ops += ["opts K " + " ".join(o + ["-o", fout, fin]), "read K", "inclose K", "gen K"]
            if r.random() < 0.15:
                ops.append("struct K")
            ops += ["print K", "pfree K", "outclose K", "ofree K"]
        else:
            fl = flags(r)
            ops += ["optnew K " + " ".join(fl), "in K " + fin]
            if style == "prog":
                ops += ["read K", "inclose K", "gen K", "out K " + fout] + (["struct K"] if r.random() < 0.1 else []) + (["oprint K"] if r.random() < 0.05 else []) + ["print K"]
                if r.random() < 0.2:
                    ops.append("print K")
                ops += ["outclose K", "pfree K", "ofree K"]
            elif style == "clast":
                ops += ["iread K", "inclose K", "out K " + fout] + (["domops K"] if r.random() < 0.15 else []) + ["palloc K", "gen K", "clast K", "cprint K"]
                if r.random() < 0.2:
                    ops += ["cpar K %d" % r.randrange(1 << 16), "cprint K"]
                if r.random() < 0.5:
                    ops.append("cfilter K " + r.choice(["* 1", "c1", "* 1 2", "t1", "i0"]))
                ops += ["cfree K"]
                if r.random() < 0.25:
                    ops += ["clast K", "cprint K", "cfree K"]
                ops += ["outclose K", "pfree K", "ofree K"]
            elif style == "clastin":
                ops += ["iread K", "inclose K", "clastin K", "out K " + fout, "cprint K", "cfilter K " + r.choice(["* 1", "c1", "* 1 2 3"]), "outclose K", "cfree K", "ofree K"]
            else:  # outlive: the tree is used after the program is released
                ops += ["read K", "gen K", "clast K", "pfree K", "out K " + fout, "cprint K", "cfree K", "inclose K", "outclose K", "ofree K"]
    if r.random() < 0.1:
        j = [q for q, o in enumerate(ops) if o.startswith("cprint")]
        if j:
            ops.insert(j[0], "cdoms K")
    if r.random() < 0.1:
        j = [q for q, o in enumerate(ops) if o.startswith("optnew")]
        if j:
            ops.insert(j[0] + 1, "optfl K " + " ".join("%d %d" % r.choice([(1, 1), (1, 2), (2, 2), (1, -1), (2, 3), (-1, -1), (3, 3)]) for _ in range(r.randint(1, 4))))
    if r.random() < 0.25:
        # the client writes to the same stream, before and after the library
        j = [q for q, o in enumerate(ops) if o in ("cprint K", "print K", "pdump K")]
        if j:
            q = r.choice(j)
            ops[q:q + 1] = ["mark K 1", ops[q], "mark K 2"]
    if r.random() < 0.04:
        ops.insert([q for q, o in enumerate(ops) if o.startswith("outclose")][0], "names K %d %d %d %d" % tuple(r.choice([0, 1, 2, 3]) for _ in range(4)))
    for o in ("ctree", "vecops"):
        if r.random() < 0.05:
            j = [q for q, o_ in enumerate(ops) if o_ == "outclose K" and ops.index("ofree K") > q and any(p.startswith("out K") for p in ops[:q])]
            if j:
                ops.insert(j[0], "%s K %d" % (o, r.randrange(1 << 30)))
    ops += ["counters K", "sfree K"]
    return style, files, [o.replace(" K", " %d" % k, 1) if " K" in o else o for o in ops], fout


def normalise(ops, k):
    return ops


def mask_time(b):
    return re.sub(rb" in \d+\.\d+s", b" in T", b)


# ------------------------------------------------------------------ C05
class C05(Prop):
    """the result depends only on input and options"""
    quick, thorough = 9000, 250000

    def case(self, ctx, r, i):
        if r.random() < 0.6:
            text, opts = self.pick(r, None, 0.55)
            if r.random() < 0.1:
                opts = opts + ["-struct"]
            spec = cli(text, opts, r.choice(["file", "stdout"]), r.choice(["file", "stdin"]), r.randrange(3))
            outs = ["out.c", "<stdout>"]
        else:
            st, files, ops, fo = session(r, 0)
            spec = {"mode": "script", "files": files, "ops": [[0, o] for o in ops]}
            outs = [fo]
        b = ctx.base(spec)
        if b.end in VOID:
            return
        for j in range(4):
            d = {}
            if r.random() < 0.85:
                d["alloc"] = rnd_alloc(r)
            if r.random() < 0.6:
                d["stackfill"] = r.choice([0, 255, 256, 1, 127, 170])
            if r.random() < 0.4:
                d["buf"] = r.choice([1, 7, 100, 1024, 16384])
            if r.random() < 0.4:
                d["chunk"] = [r.choice([1, 5, 60]), r.randrange(1 << 30)]
            if r.random() < 0.4:
                d["clock"] = [r.choice([0, 999999, 3600 * 1000000]), r.choice([0, 1, 4102444800 * 1000000, 1234567890123456]), 0]
                d["pid"] = r.randrange(2, 4000000)
            if r.random() < 0.3:
                d["jumps"] = [[r.randrange(1, b.events + 2), r.choice("ws"), r.choice([-86400000000, 500000, 3600000000])] for _ in range(3)]
            if r.random() < 0.25:
                d["faults"] = [["w", "<stderr>", 0, ERR["EIO"], -1]]
            if r.random() < 0.2:
                d["env"] = [r.choice(["LANG=fr_FR.UTF-8", "LC_ALL=de_DE", "HOME=/nonexistent", "TMPDIR=/x", "CLOOG_DEBUG=1", "COLUMNS=20", "*=1", "*=1", "*=0", "*=2", "*=", "*=/tmp/x", "*=-1"])]
            yield {"prop": "C05", "spec": spec, "delta": d, "outs": outs, "variant": r.choice(["main", "main", "pat", "zero"])}

    def judge(self, ctx, sc):
        v = sc.get("variant", "main")
        b = ctx.base(sc["spec"])
        if b.end in VOID:
            return "skip", {}
        x = ctx.run(merge(sc["spec"], sc["delta"]), v)
        info = {"fired": 1, "x": x}
        if hung(ctx, x, merge(sc["spec"], sc["delta"]), b.steps, v):
            return ("hang", "budget", "in another environment the program does not end"), info
        if x.end in VOID:
            return "skip", info
        if (b.end in BAD) and (x.end in BAD):
            return "skip", info
        if x.end != b.end or x.code != b.code:
            return ("status", "%s/%s" % (where(b), where(x, v)), "ends with %s instead of %s under environment %s" % (describe(x, v), describe(b), sc["delta"])), info
        for n in sc["outs"]:
            if x.out(n) != b.out(n):
                return ("output", n, "%s differs under environment %s (%s): %s" % (n, sc["delta"], v, diffmsg(b.out(n), x.out(n)))), info
        if not sc["delta"].get("faults") and mask_asan(x.stderr) != mask_asan(b.stderr):
            return ("messages", "stderr", "error stream differs under environment %s: %s" % (sc["delta"], diffmsg(b.stderr, x.stderr))), info
        return None, info


def mask_asan(b):
    return re.sub(rb"0x[0-9a-f]+", b"PTR", b)


# ------------------------------------------------------------------ C06
ISLERR = rb"(?m)^syntax error.*\n"


class C06(Prop):
    """calls in one process do not influence each other"""
    quick, thorough = 7000, 150000

    def many(self, ctx, r):
        """a long history: the same few sessions over and over"""
        kinds = []
        for k in range(r.choice([1, 1, 2, 3])):
            st, f, ops, fo = session(r, k)
            solo = {"mode": "script", "files": f, "ops": [[0, o] for o in ops]}
            b = ctx.base(solo)
            if b.end == "done" and b.steps < 60000:
                kinds.append((ops, fo, f, solo))
        if not kinds:
            return
        merged, files, solos, outs, souts = [], {}, [], [], []
        for j in range(r.choice([6, 12, 20, 30])):
            ops, fo, f, solo = kinds[0] if r.random() < 0.5 else r.choice(kinds)
            files.update(f)
            if len(merged) + len(ops) > 630:
                break
            merged += [o.replace(fo, "r%d-%s" % (j, fo)) for o in ops]
            solos.append(solo)
            outs.append("r%d-%s" % (j, fo))
            souts.append(fo)
        spec = {"mode": "script", "files": files, "ops": [[0, o] for o in merged], "maxsteps": MAXSTEPS * 4, "cpu": 60}
        if r.random() < 0.4:
            spec["alloc"] = rnd_alloc(r)
        yield {"prop": "C06", "kind": "long", "solos": solos, "outs": outs, "souts": souts, "spec": spec}

    def case(self, ctx, r, i):
        if r.random() < 0.05:
            for sc in self.many(ctx, r):
                yield sc
            return
        n = r.choice([2, 2, 3, 3, 4])
        mode = r.choice(["seq", "seq", "mix", "mix", "sharestate", "shareopts", "sharectx"])
        files, S, same = {}, [], r.random() < 0.25
        base = None
        fl = flags(r)
        for k in range(n):
            if mode == "sharectx":
                st, f, ops, fo = session(r, k, allow_isl=k == 0, style=r.choice(["prog", "clast", "clastin", "outlive", "mat"]), state="isl")
                ops = [o if o != "state %d isl" % k or not k else "state %d ctx 0" % k for o in ops]
            elif mode == "sharestate":
                st, f, ops, fo = session(r, k, allow_isl=False, state="own" if k == 0 else "0")
            elif mode == "shareopts":
                st, f, ops, fo = session(r, k, style=r.choice(["prog", "clast", "clastin", "outlive"]), state="own" if k == 0 else "0")
                ops = [o if not o.startswith("optnew") else "optnew %d %s" % (k, " ".join(fl)) for o in ops if not o.startswith("optfl")]
            else:
                st, f, ops, fo = session(r, k)
            if same and base and st not in ("isl", "mat"):
                f = {list(f)[0]: base}
            elif st not in ("isl", "mat"):
                base = list(f.values())[0]
            files.update(f)
            S.append((ops, fo, f))
        solos = []
        for k, (ops, fo, f) in enumerate(S):
            so = ["state %d isl" % k if o == "state %d ctx 0" % k else "state %d own" % k if o.startswith("state %d 0" % k) and mode in ("sharestate", "shareopts") and k else o for o in ops]
            solos.append({"mode": "script", "files": f, "ops": [[0, o] for o in so]})
        for s in solos:
            if ctx.base(s).end != "done":
                return
        for _ in range(2):
            L = [list(o) for o, _, _ in S]
            merged = []
            if mode in ("sharestate", "shareopts", "sharectx"):
                merged.append(L[0].pop(0))
                tail = [o for o in L[0] if o.startswith("sfree")]
                L[0] = [o for o in L[0] if not o.startswith("sfree")]
            else:
                tail = []
            if mode == "shareopts":
                opt = [o for o in L[0] if o.startswith("optnew")][0]
                L[0].remove(opt)
                merged.append(opt)
                tail = ["ofree 0"] + tail
                L[0] = [o for o in L[0] if not o.startswith("ofree")]
                for k in range(1, n):
                    L[k] = ["optshare %d 0" % k if o.startswith("optnew") else o for o in L[k]]
            perm = None
            if mode == "mix" or (mode in ("sharestate", "sharectx") and r.random() < 0.5):
                live = [k for k in range(n) if L[k]]
                while live:
                    k = r.choice(live)
                    for _ in range(r.choice([1, 1, 2, 4])):
                        if L[k]:
                            merged.append(L[k].pop(0))
                    live = [k for k in range(n) if L[k]]
            else:
                perm = list(range(n))
                r.shuffle(perm)
                for k in perm:
                    merged += L[k]
            merged += tail
            if r.random() < 0.2 and (mode in ("seq", "mix", "shareopts") or mode == "sharestate" and perm):
                k = r.randrange(n)
                at = [j for j, o in enumerate(merged) if o.startswith(("state %d" % k, "palloc %d" % k, "clastin %d" % k))]
                j = r.choice(at)
                merged.insert(j + 1 if merged[j].startswith("state") else j, "islerr %d" % k)
            spec = {"mode": "script", "files": files, "ops": [[0, o] for o in merged], "maxsteps": MAXSTEPS * 4, "cpu": 60}
            if r.random() < 0.4:
                spec["alloc"] = rnd_alloc(r)
            yield {"prop": "C06", "kind": mode, "solos": solos, "outs": [fo for _, fo, _ in S], "spec": spec}

    def judge(self, ctx, sc):
        bs = [ctx.base(s) for s in sc["solos"]]
        if any(b.end != "done" for b in bs):
            return "skip", {}
        x = ctx.run(sc["spec"])
        info = {"fired": 1, "x": x}
        if hung(ctx, x, sc["spec"], 10 * sum(b.steps for b in bs)):
            return ("hang", "budget", "the session does not end"), info
        if x.end in VOID:
            return "skip", info
        if x.end != "done":
            return ("ending", where(x), "history of %d sessions ends with %s although each session alone succeeds" % (len(bs), describe(x))), info
        for b, fo, so in zip(bs, sc["outs"], sc.get("souts") or sc["outs"]):
            if mask_time(x.out(fo)) != mask_time(b.out(so)):
                return ("output", "history", "%s differs from the same session in a fresh process: %s" % (fo, diffmsg(b.out(fo), x.out(fo)))), info
        if sc["kind"] in ("seq", "mix", "sharectx", "long"):
            # with a state of its own, a session's statistics are its own, too
            have = sorted((o[5] for o in x.oplog if o[5].startswith("balanced")))
            want = sorted(o[5] for b in bs for o in b.oplog if o[5].startswith("balanced"))
            if have != want:
                return ("statistics", "history", "statistics of the states differ from those of the sessions alone: %s instead of %s" % (have, want)), info
        want = b"".join(sorted(b"".join(b.stderr for b in bs).splitlines(True)))
        got = x.stderr
        if any(o.startswith("islerr") for _, o in sc["spec"]["ops"]):
            got = re.sub(ISLERR, b"", got)
            ctx.add("failing_isl_call")
        got = b"".join(sorted(got.splitlines(True)))
        if mask_asan(want) != mask_asan(got):
            return ("messages", "history", "messages differ: %s" % diffmsg(want, got)), info
        return None, info


# ------------------------------------------------------------------ C07
class C07(Prop):
    """independent states in concurrent threads are isolated"""
    quick, thorough = 4000, 100000

    def case(self, ctx, r, i):
        n = r.choice([2, 2, 2, 3, 4])
        same = r.random() < 0.4
        files, solos, outs, S = {}, [], [], []
        doc = None
        twin = r.randrange(1 << 40) if r.random() < 0.3 else None      # every thread makes the same calls
        for k in range(n):
            if twin is not None:
                st, f, ops, fo = session(random.Random(twin), k)
                if st not in ("isl", "mat") and k and r.random() < 0.5:  # on inputs of their own
                    f = {list(f)[0]: gen.pick_input(r, True, 0.6)[1]}
            else:
                st, f, ops, fo = session(r, k, doc=doc if same and doc else None, style=None if not doc else r.choice(["cli", "prog", "clast"]), )
            if same and st not in ("isl", "mat"):
                doc = list(f.values())[0]
            if r.random() < 0.2:
                ops = ops + ["rtclock %d" % k]
            files.update(f)
            solos.append({"mode": "script", "files": f, "ops": [[0, o] for o in ops]})
            outs.append(fo)
            S.append(ops)
        bs = [ctx.base(s) for s in solos]
        if any(b.end != "done" for b in bs):
            return
        tot = sum(b.steps for b in bs)
        if tot > 900000:
            return
        ops = [[k, o] for k in range(n) for o in S[k]]
        for _ in range(3):
            d, turn = r.random(), False
            if d < 0.15:
                g, a = r.choice([4, 15, 60, 250]), r.choice([1, r.randrange(1, tot)])   # the threads take turns
                sw, turn = list(range(a, tot, g))[:3000], True
            elif d < 0.3:
                sw = sorted(r.randrange(1, tot) for _ in range(r.randint(1, 6)))
            elif d < 0.5:
                sw = sorted(r.randrange(1, tot) for _ in range(r.randint(20, 300)))
            elif d < 0.8:
                g = r.choice([3, 10, 40, 150])       # dense burst
                a = r.randrange(1, tot)
                sw, p = [], a
                while len(sw) < 2500 and p < tot:
                    p += r.randint(1, g)
                    sw.append(p)
            else:
                sw = sorted(r.randrange(1, tot) for _ in range(3000))
            spec = {"mode": "script", "files": files, "ops": ops, "switches": [[p, q % n if turn else r.randrange(n)] for q, p in enumerate(sw)], "maxsteps": MAXSTEPS * 4, "cpu": 60}
            if r.random() < 0.3:
                spec["alloc"] = rnd_alloc(r)
            yield {"prop": "C07", "kind": "threads%d" % n, "solos": solos, "outs": outs, "spec": spec}

    def judge(self, ctx, sc):
        bs = [ctx.base(s) for s in sc["solos"]]
        if any(b.end != "done" for b in bs):
            return "skip", {}
        x = ctx.run(sc["spec"])
        info = {"fired": x.switches, "x": x}
        if hung(ctx, x, sc["spec"], sum(b.steps for b in bs)):
            return ("hang", "budget", "a thread does not end"), info
        if x.end in VOID:
            return "skip", info
        if x.end != "done":
            return ("ending", where(x), "concurrent sessions end with %s although each alone succeeds" % describe(x)), info
        if x.switches < 2:
            info["trivial"] = 1
        for k, (b, fo) in enumerate(zip(bs, sc["outs"])):
            if mask_time(x.out(fo)) != mask_time(b.out(fo)):
                return ("output", "threads", "%s differs from the same session alone: %s" % (fo, diffmsg(b.out(fo), x.out(fo)))), info
        if x.leaks or x.live_blocks:
            pc = [p for p, _ in x.leaks][:4]
            if not any(b.leaks or b.live_blocks for b in bs):
                return ("leak", "threads", "memory lost only when run concurrently: %s" % engine.symbolize(pc)), info
        return None, info


# ------------------------------------------------------------------ C08
class C08(Prop):
    """all memory is returned and every access is valid"""
    quick, thorough = 24000, 500000

    def case(self, ctx, r, i):
        if r.random() < 0.55:
            text, opts = self.pick(r, r.random() < 0.5, 0.6)
            if r.random() < 0.08:
                opts = opts + ["-struct"]
            spec = cli(text, opts, "file", "file", 0)
            kind = "cli"
        else:
            kind, files, ops, fo = session(r, 0)
            spec = {"mode": "script", "files": files, "ops": [[0, o] for o in ops]}
            if r.random() < 0.2 and kind not in ("cli", "isl", "mat"):
                # abandoned half way: release what exists
                a = ["state 0 own", "optnew 0 " + " ".join(flags(r)), "in 0 in0.cloog"]
                a += r.choice([["iread 0", "ifree 0"], ["read 0", "pfree 0"], ["iread 0", "palloc 0", "pfree 0"], ["read 0", "gen 0", "pfree 0"],
                               ["read 0", "gen 0", "clast 0", "cfree 0", "pfree 0"], ["iread 0", "clastin 0", "cfree 0"],
                               ["iread 0", "dump 0 d.cloog", "palloc 0", "gen 0", "clast 0", "pfree 0", "cfree 0"]])
                a += ["inclose 0", "ofree 0", "counters 0", "sfree 0"]
                spec["ops"] = [[0, o] for o in a]
                kind = "abandon"
        if r.random() < 0.6:
            spec["alloc"] = rnd_alloc(r)
            if r.random() < 0.5:
                spec["alloc"][6] = 20000
        yield {"prop": "C08", "kind": kind, "spec": spec, "variant": r.choice(["main", "main", "main", "pat"])}

    def judge(self, ctx, sc):
        v = sc.get("variant", "main")
        x = ctx.run(sc["spec"], v)
        info = {"fired": 1, "x": x}
        if x.end in VOID:
            return "skip", info
        if x.end in ("asan", "violation"):
            return (x.vkind, where(x, v), "%s" % describe(x, v)), info
        if x.end == "signal":
            if x.code == 6 and "-nosimplify" in sc["spec"].get("argv", []):
                return "skip", info
            return ("signal", where(x, v), describe(x, v)), info
        if x.end == "exit" and x.code != 0:
            return "skip", info
        if b"internal problem" in x.stderr or b"still reference" in x.stderr:
            return ("imbalance", "counters", "allocation counters do not balance: %s" % describe(x, v)), info
        bad = [o[5] for o in x.oplog if "balanced=0" in o[5]]
        if bad:
            return ("imbalance", "counters", "allocation counters do not balance: %s" % bad[0]), info
        if x.live_blocks:
            pcs = [p for p, _ in x.leaks]
            return ("leak", "leak", "%d blocks (%d bytes) still allocated at the end%s" % (x.live_blocks, x.live,
                    ": " + ", ".join(sorted(set(engine.symbolize(pcs, v)))[:4]) if pcs else "")), info
        return None, info


# ------------------------------------------------------------------ C09
class C09(Prop):
    """dumped input survives the reload"""
    quick, thorough = 7000, 150000

    def case(self, ctx, r, i):
        if r.random() < 0.15:
            # an input assembled through the library (matrices or an isl relation), dumped and read back by the same process
            isl = r.random() < 0.3
            f, dl = ("in0", {"buf": r.choice([1, 64, 4096]), "alloc": rnd_alloc(r)})
            ops = ["state 0 isl", "optnew 0 language=%d" % r.randrange(2), ("iisl 0 in0" if isl else "imat 0 in0"), "dump 0 d.cloog", "state 1 0", "optnew 1", "in 1 d.cloog", "iread 1", "inclose 1", "icmp 0 1",
                   "dump 0 e.cloog", "lang 0", "lang 1", "ifree 0", "ifree 1", "ofree 0", "ofree 1", "sfree 1", "sfree 0"]
            yield {"prop": "C09", "kind": "assembled", "spec": {"mode": "script", "files": {f: isl_doc(r) if isl else mat_doc(r)}, "ops": [[0, o] for o in ops]}, "delta": dl}
            return
        text = gen.pick_input(r, r.random() < 0.6, 0.6)[1]
        fl = " ".join(flags(r))
        gen_ops = ["palloc 0", "gen 0", "out 0 out.c", "print 0", "outclose 0", "pfree 0", "ofree 0", "sfree 0"]
        pre = ["state 0 own", "optnew 0 " + fl]
        direct = {"mode": "script", "files": {"in.cloog": text}, "ops": [[0, o] for o in pre + ["in 0 in.cloog", "iread 0", "inclose 0"] + gen_ops]}
        if ctx.base(direct).end != "done":
            return
        dump = {"mode": "script", "files": {"in.cloog": text},
                "ops": [[0, o] for o in pre + ["in 0 in.cloog", "iread 0", "inclose 0", "dump 0 d.cloog", "ifree 0", "ofree 0", "sfree 0"]]}
        d = ctx.base(dump)
        if d.end in VOID:
            return
        if r.random() < 0.5:
            # one process: dump, go on with the dumped input, then reload and repeat
            dump["ops"] = [[0, o] for o in pre + ["in 0 in.cloog", "iread 0", "inclose 0", "dump 0 d.cloog"] + [o.replace("out.c", "first.c") for o in gen_ops]]
        n = len(d.out("d.cloog"))
        for j in range(3):
            dl = {"buf": r.choice([1, 64, 4096])}
            t = r.random()
            if n and t < 0.35:
                dl["faults"] = [["w", "d.cloog", r.randrange(n), ERR[r.choice(WERR)], r.choice([1, 1, 2])]]
            elif n and t < 0.5:
                dl["faults"] = [["w", "d.cloog", r.randrange(n), ERR["ENOSPC"], -1]]
            elif t < 0.8:
                dl["alloc"] = rnd_alloc(r)
            yield {"prop": "C09", "direct": direct, "dump": dump, "delta": dl, "pre": pre, "post": ["in 0 d.cloog", "iread 0", "inclose 0"] + gen_ops,
                   "rounds": r.choice([1, 1, 2])}

    def judge(self, ctx, sc):
        if sc.get("kind") == "assembled":
            x = ctx.run(merge(sc["spec"], sc["delta"]))
            info = {"fired": 1, "x": x}
            if x.end in VOID:
                return "skip", info
            if x.end != "done":
                return ("reload", where(x), "dumping and reloading an assembled input ends with %s" % describe(x)), info
            res = [o[5] for o in x.oplog]
            if res[9] != "same":
                return ("differs", res[9], "the reloaded dump is not the dumped input: %s" % res[9]), info
            if res[11] != res[12]:
                return ("differs", "language", "the dump has another target language"), info
            return None, info
        b = ctx.base(sc["direct"])
        if b.end != "done":
            return "skip", {}
        x = ctx.run(merge(sc["dump"], sc["delta"]))
        info = {"fired": 1, "x": x}
        if x.end in VOID:
            return "skip", info
        if x.end != "done":
            return ("dump", where(x), "dumping ends with %s" % describe(x)), info
        st = [o[5] for o in x.oplog if "ferror" in o[5] and sc["dump"]["ops"][o[0]][1].startswith("dump")]
        if any("ferror=1" in s or "fclose=-1" in s for s in st):
            ctx.add("dump_failed_and_reported")
            return None, info
        if x.out("first.c") and x.out("first.c") != b.out("out.c"):
            return ("side-effect", "dump", "dumping the input changes the code generated from it: %s" % diffmsg(b.out("out.c"), x.out("first.c"))), info
        d = x.out("d.cloog")
        for k in range(sc["rounds"]):
            if k:
                again = {"mode": "script", "files": {"in.cloog": d.decode("latin-1")}, "ops": sc["dump"]["ops"]}
                y = ctx.run(again)
                if y.end in VOID:
                    return "skip", info
                if y.end != "done":
                    return ("redump", where(y), "dump of a dump ends with %s" % describe(y)), info
                d = y.out("d.cloog")
            y = ctx.run({"mode": "script", "files": {"d.cloog": d.decode("latin-1")}, "ops": [[0, o] for o in sc["pre"] + sc["post"]]})
            if y.end in VOID:
                return "skip", info
            if y.end != "done":
                return ("reload", where(y), "reloading the dump ends with %s" % describe(y)), info
            # isl decides whether the two inputs describe the same sets, relations and names
            fl = sc["pre"][1].split(" ", 2)[2]
            z = ctx.run({"mode": "script", "files": {"in.cloog": sc["direct"]["files"]["in.cloog"], "d.cloog": d.decode("latin-1")},
                         "ops": [[0, o] for o in ["state 0 own", "optnew 0 " + fl, "in 0 in.cloog", "iread 0", "inclose 0", "lang 0", "state 1 0", "optnew 1 " + fl,
                                                  "in 1 d.cloog", "iread 1", "inclose 1", "lang 1", "icmp 0 1", "ifree 0", "ifree 1", "ofree 0", "ofree 1", "sfree 1", "sfree 0"]]})
            if z.end in VOID:
                return "skip", info
            if z.end != "done":
                return ("reload", where(z), "reading the original and the dump ends with %s" % describe(z)), info
            res = [o[5] for o in z.oplog]
            if res[12] != "same":
                return ("differs", res[12], "the reloaded dump is not the dumped input: %s" % res[12]), info
            if res[5] != res[11]:
                return ("differs", "language", "the dump has another target language"), info
            if y.out("out.c") != b.out("out.c"):
                # the constraints of a set may come back in another order, which may change the text of the code
                ctx.add("reload_reordered")
        return None, info


# ------------------------------------------------------------------ C10
class C10(Prop):
    """reported times follow the clock"""
    quick, thorough = 9000, 150000

    def case(self, ctx, r, i):
        if r.random() < 0.15:
            us = [r.choice([0, 1, 999999, 1700000000123456, r.randrange(1 << 51)])]
            spec = {"mode": "script", "ops": [[0, "rtclock 0"], [0, "rtclock 0"]], "clock": [1000000, us[0], 0],
                    "jumps": [[2, "w", r.choice([0, 1, 250000, 999999, 1000000, 3600 * 10**6 + 7, -500000, -1500000])]]}
            yield {"prop": "C10", "kind": "rtclock", "spec": spec}
            return
        text = gen.pick_input(r, r.random() < 0.7, 0.6)[1]
        cliform = r.random() < 0.45
        if cliform:
            ops = ["state 0 own", "opts 0 " + " ".join([a for a in gen.gen_opts(r) if a != "-nosimplify"] + ["-o", "out.c", "in.cloog"]),
                   "read 0", "inclose 0", "gen 0", "print 0", "pfree 0", "outclose 0", "ofree 0", "sfree 0"]
        else:
            ops = ["state 0 own", "optnew 0 " + " ".join(flags(r)), "in 0 in.cloog"]
            ops += r.choice([["read 0", "gen 0", "out 0 out.c", "print 0", "outclose 0", "pfree 0"], ["iread 0", "clastin 0", "cfree 0"]])
            ops += ["inclose 0", "ofree 0", "sfree 0"]
            if r.random() < 0.4:
                # another generation before or after it with the same options
                q = ["in 0 in.cloog"] + r.choice([["read 0", "gen 0", "pfree 0"], ["iread 0", "clastin 0", "cfree 0"]]) + ["inclose 0"]
                at = r.choice([2, len(ops) - 2])
                ops[at:at] = q
        spec = {"mode": "script", "files": {"in.cloog": text}, "ops": [[0, o] for o in ops]}
        b = ctx.base(spec)
        if b.end != "done":
            return
        g = r.choice([o for o in b.oplog if o[5].startswith("time=")])
        gi = g[0]
        a, z = g[1], g[2]
        if z - a < 60:
            return
        lo = a + max(16, int((z - a) * 0.06))   # warnings about the options come before the generation proper
        isclast = ops[gi].startswith("clastin")
        if isclast:
            # the program is set up before and the tree built after the generation proper, in the same call: take the middle of what is measured
            u = [c[2] for c in b.clk if c[0] == "u" and a <= c[2] <= z]
            if len(u) != 2 or u[1] - u[0] < 20:
                return
        for _ in range(3):
            J = []
            tot = 0
            # during the generation: CPU time that must be counted
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                us = r.choice([r.randrange(0, 5000000), r.randrange(0, 1000000), 999999, 1000000, 1, 10000, 3600 * 10**6])
                ev = u[0] + int((u[1] - u[0]) * r.uniform(0.1, 0.9)) if isclast else lo + int((z - lo) * r.uniform(0, 0.94))
                J.append([ev, "u", us])
                tot += us
            # outside of it, and on other clocks: must not be counted
            for _ in range(r.choice([0, 1, 2])):
                ev = r.choice([r.randrange(1, max(2, a)), z + r.randrange(1, max(2, b.events - z))])
                J.append([ev, "u", r.randrange(1, 5000000)])
            for _ in range(r.choice([0, 1, 2, 3])):
                J.append([r.randrange(1, b.events), r.choice("ws"), r.choice([-3600000000, -1, 1, 86400000000, 777777]) if r.random() < 0.7 else -10**12])
            J = [[e, c, abs(u) if c == "s" else u] for e, c, u in J]
            yield {"prop": "C10", "kind": "gen", "spec": dict(spec, jumps=J, clock=[r.choice([0, 1000000, 999999, 500001, 123456789, 86400 * 10**6]), r.choice([0, 1700000000000000]), 0]),
                   "base": spec, "gen": gi, "want": tot, "clast": isclast}

    def judge(self, ctx, sc):
        x = ctx.run(sc["spec"])
        info = {"fired": x.jumps, "x": x}
        if x.end in VOID:
            return "skip", info
        if x.end != "done":
            return ("ending", where(x), describe(x)), info
        if sc["kind"] == "rtclock":
            vals = [float(o[5]) for o in x.oplog]
            wall, j = sc["spec"]["clock"][1], sc["spec"]["jumps"][0][2]
            ok0 = abs(vals[0] - wall / 1e6) < 2e-6 * max(1, 1)
            d = vals[1] - vals[0]
            w = [c[1] for c in x.clk if c[0] in "w"]
            if len(w) != 2:
                return "skip", info
            if abs(vals[0] - w[0] / 1e6) > 3e-6 + abs(w[0] / 1e6) * 4e-16 * 2 or abs(vals[1] - w[1] / 1e6) > 3e-6 + abs(w[1] / 1e6) * 4e-16 * 2:
                return ("rtclock", "rtclock", "wall clock of %s us reported as %s" % (w, vals)), info
            return None, info
        b = ctx.base(sc["base"])
        if b.end != "done":
            return "skip", info
        op = [o for o in x.oplog if o[0] == sc["gen"]][0]
        res = op[5]
        t = float(res.split("=")[1])
        took = (op[4] - op[3]) / 1e6
        if t < -1e-4 or t > took + 1e-4 + took * 2e-6:
            # whatever the events, a generation cannot take more than the call
            return ("time", "bounds", "%.6f s reported for a call that took %.6f s of user time" % (t, took)), info
        if x.events != b.events:
            ctx.add("replaced_event_positions")
            return "skip", info
        want = sc["want"] / 1e6
        if abs(t - want) > 1e-4 + want * 2e-6:
            return ("time", "options", "%.6f s reported for a generation that took %.6f s of user time" % (t, want)), info
        m = re.search(rb" in (-?\d+\.\d+)s", x.out("out.c"))
        ops = [o[1] for o in sc["spec"]["ops"]]
        pr = ops.index("print 0") if "print 0" in ops else -1
        if pr < sc["gen"] or any(o.startswith(("gen", "clastin")) for o in ops[sc["gen"] + 1:pr]):
            m = None   # the header belongs to the other generation
        if m and abs(float(m.group(1)) - want) > 0.00501 + want * 1e-6:
            return ("time", "header", "header says %s s for a generation that took %.6f s" % (m.group(1).decode(), want)), info
        if mask_time(x.out("out.c")) != mask_time(b.out("out.c")):
            return ("output", "code", "the generated code depends on the clock"), info
        return None, info


# ------------------------------------------------------------------ C11
class C11(Prop):
    """a run cut short leaves a prefix, and a rerun is unaffected"""
    level = "fault_enumeration"
    quick, thorough = 4500, 120000
    OLD = "/* previous contents */\nfor (old=0;old<=1;old++) ;\n"

    def case(self, ctx, r, i):
        text, opts = self.pick(r)
        if r.random() < 0.1:
            opts = opts + ["-struct"]
        spec = cli(text, opts, r.choice(["file", "file", "file", "stdout"]), r.choice(["file", "file", "stdin"]), r.randrange(3))
        spec["files"]["keep.c"] = "/* unrelated */\n"
        if r.random() < 0.7:
            spec["files"]["out.c"] = self.OLD
        spec["buf"] = r.choice([1, 16, 64, 512, 4096, 4096])
        b = ctx.base(spec)
        if b.end != "exit" or b.code != 0:
            return
        n = len(b.out("out.c"))
        for _ in range(6):
            t = r.random()
            if t < 0.3:
                d = {"kill": r.randrange(1, b.events + 1)}
            elif t < 0.6:
                d = {"kill": max(1, b.events - r.randrange(0, max(2, min(b.events, 40 + 2 * b.nwrites))))}
            elif t < 0.75 and n:
                d = {"faults": [["w", "out.c", r.randrange(n), ERR[r.choice(WERR)], -1]]}
            elif t < 0.9:
                d = {"faults": [["r", "in.cloog", r.randrange(len(text) + 1), ERR["EIO"], -1]]}
            else:
                d = {"fail": [r.randrange(1, max(2, b.n_any)), 1, 0]}
            yield {"prop": "C11", "spec": spec, "delta": d}

    def judge(self, ctx, sc):
        spec = sc["spec"]
        b = ctx.base(spec)
        if b.end != "exit" or b.code != 0:
            return "skip", {}
        x = ctx.run(merge(spec, sc["delta"]))
        info = {"fired": sum(x.fired.values()) + (x.end == "killed") + x.failed, "x": x}
        if hung(ctx, x, merge(spec, sc["delta"]), b.steps):
            return ("hang", "budget", "the run does not end"), info
        if x.end in VOID:
            return "skip", info
        if not info["fired"]:
            info["trivial"] = 1
        for n in ("in.cloog", "keep.c"):
            if n in x.gone or (n in x.blobs and x.blobs[n] != engine.b(spec["files"][n])):
                return ("other-file", n, "the run changed %s" % n), info
        new = [n for n in x.blobs if not n.startswith("<") and n != "out.c" and n not in spec["files"]]
        if new or ("out.c" in x.blobs and "out.c" not in spec["argv"]):
            return ("created", "file", "the run leaves files nobody asked for: %s" % (new or ["out.c"])), info
        old = engine.b(spec["files"].get("out.c", "")) if "out.c" in spec["files"] else None
        got = x.blobs["out.c"] if "out.c" in x.blobs else (None if "out.c" in x.gone else old)
        want = b.blobs.get("out.c", old)
        if "out.c" in x.gone:
            return ("removed", "out.c", "the output file was removed"), info
        if got is not None and got != old and not (want or b"").startswith(got):
            return ("not-prefix", "out.c", "cut short by %s, the output file holds text the complete run never writes: %s" % (sc["delta"], diffmsg(want or b"", got))), info
        # (with -struct, a debugging aid, internal structures are shown before exhausted memory is noticed)
        if not b.stdout.startswith(x.stdout) and not ("-struct" in spec["argv"] and "fail" in sc["delta"]):
            return ("not-prefix", "stdout", "cut short by %s, standard output is no prefix of the complete output" % sc["delta"]), info
        # restart on what survived
        files = dict(spec["files"])
        for n, c in x.blobs.items():
            if not n.startswith("<"):
                files[n] = c.decode("latin-1")
        y = ctx.run(dict(spec, files=files))
        if hung(ctx, y, dict(spec, files=files), b.steps):
            return ("hang", "rerun", "the rerun does not end"), info
        if y.end in VOID:
            return "skip", info
        if y.end != b.end or y.code != b.code or y.blobs.get("out.c", files.get("out.c", "").encode("latin-1")) != b.blobs.get("out.c", files.get("out.c", "").encode("latin-1")) or y.stdout != b.stdout:
            return ("restart", "rerun", "rerunning after %s ends with %s or other output" % (sc["delta"], describe(y))), info
        return None, info


# ------------------------------------------------------------------ C12
class C12(Prop):
    """a failing message stream changes neither code nor verdict"""
    level = "fault_enumeration"
    quick, thorough = 5000, 120000

    def case(self, ctx, r, i):
        text, opts = self.pick(r)
        t = r.random()
        if t < 0.25:
            text = damage(r, text)[1]
        opts = [o for o in opts if o != "-quiet"] if r.random() < 0.8 else opts
        if r.random() < 0.3:
            opts = opts + r.choice([["-override"], ["-override"], ["-struct"], ["-bogus"], ["-l"], ["-f", "2", "-otl", "0"], ["-leaks", "1"]])
        if r.random() < 0.2:
            ops = r.choice([["iread 0", "clastin 0", "out 0 out.c", "cprint 0", "cfree 0"], ["read 0", "gen 0", "out 0 out.c", "print 0", "pfree 0"],
                            ["iread 0", "dump 0 d.cloog", "palloc 0", "gen 0", "out 0 out.c", "print 0", "pfree 0"]])
            ops = ["state 0 own", "optnew 0 " + " ".join(f for f in flags(r) if not f.startswith("quiet")), "in 0 in.cloog"] + ops + ["outclose 0", "inclose 0", "ofree 0", "sfree 0"]
            spec = {"mode": "script", "files": {"in.cloog": text}, "ops": [[0, o] for o in ops]}
        else:
            spec = cli(text, opts, r.choice(["file", "stdout"]), r.choice(["file", "file", "stdin"]), r.randrange(3))
        spec["buf"] = r.choice([1, 16, 64, 512, 4096, 4096])
        b = ctx.base(spec)
        if b.end in BAD or b.end in VOID:
            return
        first = []
        n = len(b.out("out.c")) or len(b.out("<stdout>"))
        if r.random() < 0.3:
            # something else goes wrong as well
            tgt = "out.c" if len(b.out("out.c")) else "<stdout>"
            if n and r.random() < 0.6:
                first = [["w", tgt, r.randrange(n), ERR[r.choice(WERR)], -1]]
            else:
                first = [["r", "in.cloog", r.randrange(len(text) + 1), ERR["EIO"], -1]]
        m = ctx.base(dict(spec, faults=first)) if first else b
        ne = len(m.stderr)
        if not ne:
            if r.random() < 0.9:
                return
        for _ in range(4):
            f = ["w", "<stderr>", r.choice([0, 0, max(0, ne - 1), r.randrange(ne + 1)]), ERR[r.choice(WERR)], r.choice([-1, -1, -1, 1, 2])]
            yield {"prop": "C12", "spec": spec, "delta": {"faults": first + [f]}}

    def judge(self, ctx, sc):
        rest = [f for f in sc["delta"].get("faults", []) if f[1] != "<stderr>"]
        b = ctx.base(dict(sc["spec"], faults=rest) if rest else sc["spec"])
        if b.end in BAD or b.end in VOID:
            return "skip", {}
        x = ctx.run(merge(sc["spec"], sc["delta"]))
        info = {"fired": sum(x.fired.values()), "x": x}
        if hung(ctx, x, merge(sc["spec"], sc["delta"]), b.steps):
            return ("hang", "budget", "with a failing standard error the program does not end"), info
        if x.end in VOID:
            return "skip", info
        if not any(x.fired.get(k) for k, f in enumerate(sc["delta"].get("faults", [])) if f[1] == "<stderr>"):
            info["trivial"] = 1
        if x.end in BAD:
            return ("crash", where(x), "failing standard error leads to %s" % describe(x)), info
        if x.end != b.end or x.code != b.code:
            return ("status", "stderr", "with a failing standard error (%s) the run ends with %s %d instead of %s %d" % (sc["delta"]["faults"], x.end, x.code, b.end, b.code)), info
        for n in ("out.c", "<stdout>", "d.cloog"):
            if x.out(n) != b.out(n):
                return ("code", n, "with a failing standard error (%s), %s differs: %s" % (sc["delta"]["faults"], n, diffmsg(b.out(n), x.out(n)))), info
        for n in set(x.blobs) | set(b.blobs):
            if n != "<stderr>" and x.blobs.get(n) != b.blobs.get(n):
                return ("code", n, "with a failing standard error, %s differs" % n), info
        for l in b.stderr.split(b"\n"):
            if len(l) > 8 and any(l in o.split(b"\n") for o in (b.out("out.c"), b.out("<stdout>"), b.out("d.cloog"))):
                return ("message", "output", "a message is part of the output: %r" % l[:100]), info
        return None, info


PROPS = dict((c.__name__, c()) for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12))
