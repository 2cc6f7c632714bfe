"""Simulated disk behind the library's file opens.

The seam is the `open` every Python-level reader/writer resolves (builtins.open,
io.open, numpy's captured opener; pandas and pathlib use these too).  Files live
in a real scratch directory (so rename, stat, exists keep their meaning) but all
bytes go through SimFile, a raw file whose every open / read / write / close is
a simulator decision: short transfers, errors, interruptions, full disk, and
actions of *other parties* (writer appends, atomic replacement) between calls.
"""
import builtins
import errno
import io
import os

from .core import SimHang

_real_open = io.open
_active = None  # the Disk receiving I/O, or None

IO_BUDGET = 2_000_000  # raw I/O calls in one library call
EOF_BUDGET = 400  # consecutive reads at end of file


class SimFile(io.FileIO):
    def __init__(self, disk, path, rawmode, tag):
        self.disk = disk
        self.tag = tag
        self.leaked = False
        self.nread = 0
        self.eofs = 0
        super().__init__(path, rawmode)
        # a large file is not moved byte by byte (it would take minutes)
        self.grain = os.fstat(self.fileno()).st_size // 2500 if rawmode[:1] == "r" else 0

    # -- reading
    def readinto(self, b):
        d = self.disk
        n = len(b)
        if n == 0:
            return 0
        k = d.on_read(self, n)
        mv = memoryview(b)[:k]
        got = super().readinto(mv)
        if got == 0:
            self.eofs += 1
            d.eof(self)
        else:
            self.eofs = 0
            self.nread += got
        return got

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        buf = bytearray(n)
        got = self.readinto(buf)
        return bytes(buf[:got])

    def readall(self):
        out = bytearray()
        while True:
            c = self.read(8192)
            if not c:
                return bytes(out)
            out += c

    # -- writing
    def write(self, b):
        d = self.disk
        mv = memoryview(b).cast("B")
        k = d.on_write(self, len(mv))
        if k < 0:  # lost: report nothing written is impossible; error already raised
            raise OSError(errno.EIO, "simulated")
        return super().write(mv[:k])

    def close(self):
        if self.closed:
            return
        d = self.disk
        try:
            err = d.on_close(self)
        finally:
            super().close()
        if err:
            raise err

    def _dealloc_warn(self, source):
        self.leaked = True
        self.disk.leaks.append(self.tag)


class Disk:
    def __init__(self, sim, root, knobs=None):
        self.sim = sim
        self.root = root
        self.extra_roots = []
        self.k = dict(buf=8192, chunk=8192, maxread=0, maxwrite=0)
        self.k.update(knobs or {})
        self.armed = []  # faults of the current library call
        self.files = []  # SimFiles opened in the current library call
        self.leaks = []
        self.other_party = None  # callable(event) run before an I/O call
        self.count = {}
        self.used = 0
        self.begin()

    # -- life cycle ---------------------------------------------------------
    def install(self):
        global _active
        _active = self
        builtins.open = sim_open
        io.open = sim_open
        try:
            from numpy.lib import _datasource

            fo = _datasource._file_openers
            fo._load()
            fo._file_openers[None] = sim_open
        except (ImportError, AttributeError):
            pass

    def path(self, name):
        return os.path.join(self.root, name)

    def begin(self, faults=(), other_party=None):
        """Start of one library call."""
        self.armed = [dict(f) for f in faults]
        self.count = {"open": 0, "read": 0, "write": 0, "close": 0}
        self.written = 0
        self.files = []
        self.leaks = []
        self.ncalls = 0
        self.other_party = other_party
        self.fired = []

    def end(self):
        """Finish the call: returns tags of files it left open or let the
        garbage collector close."""
        self.armed = []
        self.other_party = None
        left = [f.tag for f in self.files if not f.closed]
        return left + self.leaks

    def close_leftovers(self):
        for f in self.files:
            if not f.closed:
                io.FileIO.close(f)

    # -- decisions ----------------------------------------------------------
    def _tick(self, op, f):
        self.ncalls += 1
        self.sim.steps += 1
        if self.ncalls > IO_BUDGET:
            raise SimHang(f"{self.ncalls} I/O calls")
        self.count[op] = self.count.get(op, 0) + 1
        if self.other_party:
            self.other_party(op, self.count[op])
        for ft in self.armed:
            if ft.get("done"):
                continue
            if ft["op"] == op and ft.get("n", 1) == self.count[op]:
                ft["done"] = True
                return ft
        return None

    def _raise(self, ft):
        kind = ft["kind"]
        self.sim.fault(f"{ft['op']}:{kind}")
        self.fired.append(ft)
        if kind == "interrupt":
            raise KeyboardInterrupt("simulated")
        if kind == "memory":
            raise MemoryError("simulated")
        raise OSError(getattr(errno, kind), os.strerror(getattr(errno, kind)))

    def on_open(self, path, mode):
        ft = self._tick("open", None)
        if ft:
            self._raise(ft)

    def on_read(self, f, n):
        ft = self._tick("read", f)
        if ft:
            if ft["kind"] == "short":
                self.sim.fault("read:short")
                return max(1, min(n, ft.get("size", 1)))
            self._raise(ft)
        if self.k["maxread"]:
            lim = max(self.k["maxread"], f.grain)
            if n > lim:
                self.sim.faults["read:short"] = self.sim.faults.get("read:short", 0) + 1
            n = min(n, lim)
        return max(1, n)

    def eof(self, f):
        if f.eofs > EOF_BUDGET:
            raise SimHang(f"{f.eofs} reads past the end of the file")

    def on_write(self, f, n):
        ft = self._tick("write", f)
        if ft:
            if ft["kind"] == "short":
                self.sim.fault("write:short")
                k = max(1, min(n, ft.get("size", 1)))
                self.written += k
                return k
            self._raise(ft)
        for x in self.armed:
            if x["op"] == "space":  # disk full after `after` bytes
                room = x["after"] - self.written
                if room <= 0:
                    x["done"] = True
                    if x not in self.fired:
                        self.fired.append(x)
                    self.sim.fault("write:ENOSPC")
                    raise OSError(errno.ENOSPC, "No space left on device")
                n = min(n, room)
        if self.k["maxwrite"]:
            if n > self.k["maxwrite"]:
                self.sim.faults["write:short"] = self.sim.faults.get("write:short", 0) + 1
            n = min(n, self.k["maxwrite"])
        self.written += n
        return n

    def on_close(self, f):
        ft = self._tick("close", f)
        if ft:
            self.sim.fault(f"close:{ft['kind']}")
            self.fired.append(ft)
            if ft["kind"] == "interrupt":
                return KeyboardInterrupt("simulated")
            return OSError(getattr(errno, ft["kind"]), "simulated at close")
        return None

    def covers(self, path):
        p = os.path.abspath(path)
        return p.startswith(self.root + os.sep) or any(p.startswith(r) for r in self.extra_roots)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = _active
    if d is None or isinstance(file, int) or opener is not None or getattr(d, "bypass", False):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    try:
        path = os.fspath(file)
    except TypeError:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not d.covers(path):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
    updating = "+" in rawmode
    d.on_open(path, mode)
    raw = SimFile(d, path, rawmode, os.path.basename(path) + ":" + mode)
    d.files.append(raw)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = max(d.k["buf"], raw.grain) if buffering in (-1, 1) else buffering
        if updating:
            buf = io.BufferedRandom(raw, size)
        elif rawmode[0] == "r":
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        enc = encoding or "utf-8"
        text = io.TextIOWrapper(buf, enc, errors, newline)
        if d.k["chunk"] != 8192:
            text._CHUNK_SIZE = max(d.k["chunk"], raw.grain)
        text.mode = mode
        return text
    except BaseException:
        io.FileIO.close(raw)
        raise


class bypass:
    """Harness-side I/O on the scratch files, invisible to the simulation."""

    def __init__(self, disk):
        self.d = disk

    def __enter__(self):
        self.old = getattr(self.d, "bypass", False)
        self.d.bypass = True

    def __exit__(self, *a):
        self.d.bypass = self.old


def write_bytes(path, data):
    with _real_open(path, "wb") as f:
        f.write(data)


def read_bytes(path):
    with _real_open(path, "rb") as f:
        return f.read()


def knobs(rng):
    """Randomised buffer / transfer sizes (swarm)."""
    return dict(
        buf=rng.choice([16, 64, 512, 8192, 8192]),
        chunk=rng.choice([1, 7, 64, 512, 8192, 8192]),
        maxread=rng.choice([0, 0, 1, 3, 17, 100, 1000]),
        maxwrite=rng.choice([0, 0, 1, 5, 50, 500]),
    )
