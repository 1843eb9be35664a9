"""C12: every crash point, torn write and failing file operation while a checkpoint is written (real files, real system calls)."""
import ctypes
import errno
import os
import subprocess
import sys

import dill
import numpy as np

from . import core, env
from .core import Chooser, Stats, Violation, require
from .world import World

OFF, COUNT, CRASH, TEAR, FAIL, FAILFROM, SHORT = range(7)
SO = os.environ.get("VERIF_FAULT_SO")


def preload():
    """Build the injector and start over with it loaded."""
    if SO:
        return
    d = os.environ.get("VERIF_SCRATCH") or env.scratch()
    so = os.path.join(d, "fault.so")
    subprocess.run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-o", so, os.path.join(core.VERIF, "shim", "fault.c"), "-ldl"], check=True)
    e = dict(os.environ, VERIF_FAULT_SO=so, LD_PRELOAD=so)
    os.execve(sys.executable, [sys.executable, "-m", "mc.run"] + sys.argv[1:], e)


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(SO)
        _lib.fault_trace.restype = ctypes.c_char_p
        _lib.fault_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    return _lib


def child(root, cwd, mode, k, part, err, act, fork):
    """Run act with the fault armed; returns (exit status, count, trace).

    fork: in a process that really dies at a crash; otherwise no file operation has any effect from the crash on, which
    leaves the same files behind."""
    if not fork:
        L = lib()
        back = os.getcwd()
        os.chdir(cwd)
        L.fault_arm(root.encode(), mode + 100, k, part, err)
        try:
            act()
            code = 0
        except Exception:
            code = 3
        finally:
            n, t, dead = L.fault_count(), L.fault_trace(), L.fault_dead()
            L.fault_disarm()
            os.chdir(back)
        return (137 if dead else code), n, t.decode()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.close(r)
            os.chdir(cwd)
            L = lib()
            L.fault_arm(root.encode(), mode, k, part, err)
            try:
                act()
                code = 0
            except Exception:
                code = 3
            n, t = L.fault_count(), L.fault_trace()
            L.fault_disarm()
            os.write(w, ("%d|%s" % (n, t.decode())).encode())
        finally:
            os._exit(code)
    os.close(w)
    out = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1
    n, t = (out.decode().split("|", 1) + [""])[:2] if out else ("-1", "")
    return code, int(n), t


def fingerprint(s):
    return (type(s).__name__, s.num_evals, s.pending_evals, np.array(s.X).tobytes(), np.array(s.fX).tobytes(), np.array(s.Xpend).tobytes(), len(s.fevals),
            tuple((r.status, r.value) for r in s.fevals), len(s.batch_queue), hash(getattr(s, "blob", b"")))


def content(path):
    """None if absent, else the state in the file (Violation if it does not load)."""
    if not os.path.lexists(path):
        return None
    try:
        with open(path, "rb") as f:
            return fingerprint(dill.load(f))
    except Exception as e:
        raise Violation("the checkpoint file is damaged: %s: %s (%d bytes)" % (type(e).__name__, e, os.path.getsize(path)))


LOC = {"abs": None, "rel": "ck.pysot", "dot": "./ck.pysot", "sub": "sub/ck.pysot", "deep": "a.b/c d/ck.v1.pysot", "hidden": ".ck", "up": "../ck.pysot"}


def faults(trace):
    out = []
    for k, op in enumerate(t for t in trace.split(";") if t):
        name, n = op.rsplit(":", 1)
        n = int(n)
        out.append((CRASH, k, 0, 0))
        if n >= 0:
            for p in sorted({1, n // 2, max(0, n - 1), n}):
                out.append((TEAR, k, p, 0))
            if n > 1:
                out.append((SHORT, k, n // 2, 0))
        for e in (errno.ENOSPC, errno.EACCES):
            out.append((FAIL, k, 0, e))
        out.append((FAILFROM, k, 0, errno.EIO))
    return out


def run(ch, cfg):
    from pySOT.controller import CheckpointController

    loc = ch.pick(cfg["locs"], "location", free=True)
    prev = ch.pick([False, True], "previous", free=True)
    via = ch.pick(cfg.get("via", ["save", "ctrl"]), "via", free=True)
    fork = ch.pick(cfg.get('fork', [False]), 'fork', free=True)
    root = os.path.realpath(env.scratch())
    cwd = os.path.join(root, "w")
    for d in (cwd, os.path.join(cwd, "sub"), os.path.join(cwd, "a.b", "c d")):
        os.makedirs(d)
    name = LOC[loc] or os.path.join(root, "abs.pysot")
    path = os.path.normpath(os.path.join(cwd, name))
    w = World(Chooser([], 0), dict(cfg, async_=True))
    s = w.strategy

    class Ctl:  # as much of a controller as the checkpointing needs
        strategy = s

        def add_feval_callback(self, f):
            pass

        def add_term_callback(self, f):
            pass

    def act():
        if via == "save":
            s.save(name)
        else:
            CheckpointController(Ctl(), name).on_terminate()

    def step(n):
        for _ in range(n):
            w.step()
        if cfg.get("blob"):
            s.blob = np.random.RandomState(w.seq).bytes(cfg["blob"])

    step(cfg.get("n1", 4))
    old = None
    if prev:
        code, n, t = child(root, cwd, COUNT, -1, 0, 0, act, fork)
        require(code == 0, "saving a checkpoint to {} fails without any fault", name)
        old = content(path)
        require(old == fingerprint(s), "the checkpoint at {} does not hold the saved state", name)
    step(cfg.get("n2", 3))
    # history of interrupted saves, then a save that must work
    for depth in range(cfg["depth"]):
        # dry run in a copy of the world: the directory is restored afterwards
        keep = snapshot(root)
        code, n, t = child(root, cwd, COUNT, -1, 0, 0, act, fork)
        restore(root, keep)
        require(code == 0, "saving a checkpoint to {} fails without any fault (after {} interrupted saves)", name, depth)
        require(n > 0, "no file operation below the scratch directory was observed while saving to {}", name)
        fs = faults(t)
        if depth:
            fs = [f for f in fs if f[0] in (CRASH, TEAR)]
        f = ch.pick(fs, "fault", free=True)
        now = fingerprint(s)
        code, n, t2 = child(root, cwd, *f, act, fork)
        ch.stats.state(cfg["name"], loc, prev, via, depth, f[:3])
        ch.stats.count("faults")
        what = "%s at operation %d (%s)" % (["", "", "crash", "torn write of %d bytes" % f[2], "error %d" % f[3], "errors from there on", "short write"][f[0]], f[1], t)
        if f[0] in (CRASH, TEAR):
            require(code == 137, "harness: no crash at {}", what)
        elif f[0] == SHORT:
            require(code == 0, "a short write makes saving fail ({})", what)
        require(code in (0, 3, 137), "unexpected end of the saving process: {}", code)
        try:
            c = content(path)
        except Violation as e:
            raise Violation("%s after %s" % (e, what))
        if code == 0:
            require(c == now, "saving reported success but the file does not hold the new state ({})", what)
        require(c == now or c == old, "the checkpoint file holds {} after {}", "nothing" if c is None else "an unrelated state", what)
        old = c
        step(1)
    now = fingerprint(s)
    code, n, t = child(root, cwd, COUNT, -1, 0, 0, act, fork)
    require(code == 0, "saving fails after an interrupted save left {}", sorted(os.listdir(os.path.dirname(path))))
    require(content(path) == now, "the checkpoint does not hold the saved state after an interrupted save")
    ch.stats.case(cfg["name"], loc, prev, via, [c for _, c, _ in ch.trace])


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                out[p] = os.readlink(p)
            else:
                with open(p, "rb") as h:
                    out[p] = h.read()
    return out


def restore(root, keep):
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if p not in keep:
                os.unlink(p)
    for p, c in keep.items():
        if isinstance(c, str):
            continue
        with open(p, "wb") as h:
            h.write(c)


def jobs(tier):
    out = []
    base = dict(dim=1, W=2, n0=3, max_evals=20, max_conv=0)
    base["async"] = True
    every = list(LOC)
    out.append((run, dict(base, name="ckpt-tiny", strat="tiny", locs=every, depth=1), 0))
    out.append((run, dict(base, name="ckpt-tiny-2", strat="tiny", locs=["rel", "sub"], depth=2, via=["save"]), 0))
    out.append((run, dict(base, name="ckpt-fork", strat="tiny", locs=["rel", "sub"], depth=1, via=["save"], fork=[True]), 0))
    out.append((run, dict(base, name="ckpt-big", strat="tiny", blob=200000, locs=["rel", "sub"], depth=1), 0))
    out.append((run, dict(base, name="ckpt-srbf", strat="srbf", num_cand=3, n1=9, locs=["rel", "abs"], depth=1, via=["ctrl"]), 0))
    if tier == "thorough":
        out = [(f, dict(c, fork=[False, True]), b) for f, c, b in out]
        out.append((run, dict(base, name="ckpt-tiny-2t", strat="tiny", locs=["abs", "rel", "sub", "deep"], depth=2, via=["save", "ctrl"]), 0))
        out.append((run, dict(base, name="ckpt-tiny-3", strat="tiny", locs=["rel"], depth=3, via=["save"]), 0))
        out.append((run, dict(base, name="ckpt-big-2", strat="tiny", blob=200000, locs=["rel", "sub"], depth=2, via=["save"]), 0))
        for st in ("srbf", "dycors", "sop", "ei", "lcb"):
            out.append((run, dict(base, name="ckpt-%s-t" % st, strat=st, num_cand=3, n0=5, n1=12, n2=4, locs=["rel", "sub", "abs"], depth=1), 0))
    return out
