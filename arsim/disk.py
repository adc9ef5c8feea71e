"""Simulated disk: Python side of the simio fault seam (see simio.c).

A Disk owns one scratch directory.  Everything the library does below that
directory goes through simio, which counts events per kind and applies the
planned fault to the planned event.  `fault` dictionaries in a plan are

    {"kind": "write", "at": 0.37, "do": "errno", "arg": 28}

where "at" is a position in [0,1) that is resolved against the number of events
of that kind a fault-free dry run of the same operation produced, so that a
planned fault always lands inside the operation, not after its end.
"""
import ctypes
import errno
import gc
import hashlib
import os
import shutil
import tempfile

KINDS = ["open", "read", "write", "close", "rename", "unlink", "mkdir", "fsync", "trunc", "stat"]
ACTIONS = {"errno": 1, "short": 2, "crash": 3, "torn": 4, "eof": 5}
ERR = errno.errorcode


class NoShim(RuntimeError):
    """simio is not preloaded"""


class Disk:
    """One simulated disk with its scratch directory"""

    def __init__(self, base: str | None = None):
        self.lib = ctypes.CDLL(None)
        try:
            self.lib.simio_reset
        except AttributeError as exc:
            raise NoShim("simio.so is not preloaded") from exc
        for name in ("simio_count", "simio_nlog", "simio_late_writes", "simio_quota_hits", "simio_shorts"):
            getattr(self.lib, name).restype = ctypes.c_long
        self.lib.simio_count.argtypes = [ctypes.c_int]
        self.lib.simio_add.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long]
        self.lib.simio_quota.argtypes = [ctypes.c_long]
        self.lib.simio_chunks.argtypes = [ctypes.c_long, ctypes.c_long]
        self.lib.simio_tag.restype = ctypes.c_char_p
        self.lib.simio_ev.argtypes = [ctypes.c_long, ctypes.POINTER(ctypes.c_long)]
        base = base or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir())
        self.root = tempfile.mkdtemp(prefix="arsim.", dir=base)
        self.dir = os.path.join(self.root, "d")
        self.stats: dict[str, int] = {}
        self._planned: list[tuple[int, dict]] = []
        self.fresh()

    def fresh(self):
        """Empty disk, no faults, zeroed event log"""
        self.lib.simio_off()
        gc.collect()
        shutil.rmtree(self.dir, ignore_errors=True)
        os.mkdir(self.dir)
        self.lib.simio_root(self.dir.encode())
        self.lib.simio_reset()
        self._planned = []

    def close(self):
        """Remove the scratch directory"""
        self.lib.simio_off()
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, *names: str) -> str:
        """Absolute path of a file on this disk"""
        return os.path.join(self.dir, *names)

    # --- faults

    def begin(self, faults=(), counts=None):
        """Start an operation under `faults` (positions resolved against `counts`)"""
        self.harvest()
        self.lib.simio_begin_op()
        self._planned = []
        for fault in faults:
            if fault["kind"] == "quota":
                total = (counts or {}).get("bytes", 0)
                self.lib.simio_quota(int(fault["at"] * total) if total else int(fault.get("arg", 0)))
                self._planned.append((-1, fault))
                continue
            if fault["kind"] == "chunks":
                self.lib.simio_chunks(int(fault.get("r", 0)), int(fault.get("w", 0)))
                self._planned.append((-2, fault))
                continue
            kind = KINDS.index(fault["kind"])
            if "nth" in fault:
                nth = fault["nth"]
            else:
                total = (counts or {}).get(fault["kind"], 0)
                if total <= 0:
                    continue
                nth = min(int(fault["at"] * total), total - 1)
            slot = self.lib.simio_add(kind, nth, ACTIONS[fault["do"]], int(fault.get("arg", 0)))
            if slot >= 0:
                self._planned.append((slot, fault))

    def harvest(self):
        """Count the faults that fired since begin(); returns their names"""
        fired = []
        for slot, fault in self._planned:
            if slot == -1:
                hit = self.lib.simio_quota_hits() > 0
                name = "enospc(quota)"
            elif slot == -2:
                hit = self.lib.simio_shorts() > 0
                name = "chunked-io"
            else:
                hit = bool(self.lib.simio_fired(slot))
                name = fault_name(fault)
            if hit:
                fired.append(name)
                self.stats[name] = self.stats.get(name, 0) + 1
        self._planned = []
        return fired

    def end(self):
        """End of operation: no more faults; returns fired fault names"""
        fired = self.harvest()
        self.lib.simio_clear()
        self.lib.simio_quota(-1)
        self.lib.simio_chunks(0, 0)
        return fired

    def counts(self) -> dict:
        """Events per kind since begin()"""
        return {name: self.lib.simio_count(i) for i, name in enumerate(KINDS)}

    @property
    def crashed(self) -> bool:
        return bool(self.lib.simio_crashed())

    def restart(self):
        """The simulated process is dead; only what reached the disk survives"""
        self.harvest()
        self.lib.simio_restart()
        self.lib.simio_chunks(0, 0)
        gc.collect()

    def open_fds(self) -> int:
        """Descriptors below the root that are still open"""
        return self.lib.simio_open_fds()

    def late_writes(self) -> int:
        """Writes through descriptors opened in an earlier operation"""
        return self.lib.simio_late_writes()

    def log(self) -> list[str]:
        """The I/O event log, as text"""
        out = []
        buf = (ctypes.c_long * 5)()
        for i in range(min(self.lib.simio_nlog(), 65536)):
            if self.lib.simio_ev(i, buf):
                break
            tag = self.lib.simio_tag(buf[2]).decode("utf-8", "replace")
            res = ERR.get(-buf[4], str(buf[4])) if buf[4] < 0 else str(buf[4])
            act = ["", "!errno", "!short", "!crash", "!torn", "!eof"][buf[1]]
            out.append(f"{KINDS[buf[0]]}{act} {tag} n={buf[3]} -> {res}")
        return out

    def digest(self) -> str:
        """Digest of the event log"""
        return hashlib.sha256("\n".join(self.log()).encode()).hexdigest()[:16]

    # --- stored state

    def snapshot(self) -> dict[str, bytes]:
        """All files on the disk, bypassing the seam"""
        self.lib.simio_off()
        out = {}
        for base, dirs, files in os.walk(self.dir):
            dirs.sort()
            for name in sorted(files):
                full = os.path.join(base, name)
                if not os.path.isfile(full):
                    continue
                with open(full, "rb") as handle:
                    out[os.path.relpath(full, self.dir)] = handle.read()
        self._on()
        return out

    def put(self, name: str, data: bytes):
        """Store a file directly (bypassing the seam)"""
        self.lib.simio_off()
        full = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as handle:
            handle.write(data)
        self._on()

    def get(self, name: str) -> bytes | None:
        """Read a file directly (bypassing the seam)"""
        self.lib.simio_off()
        try:
            with open(os.path.join(self.dir, name), "rb") as handle:
                return handle.read()
        except FileNotFoundError:
            return None
        finally:
            self._on()

    def wipe(self):
        """Remove every file, keep log and counters"""
        self.lib.simio_off()
        shutil.rmtree(self.dir, ignore_errors=True)
        os.mkdir(self.dir)
        self._on()

    def mkdir(self, name: str):
        """Create a directory directly"""
        self.lib.simio_off()
        os.makedirs(os.path.join(self.dir, name), exist_ok=True)
        self._on()

    def _on(self):
        self.lib.simio_on()


def fault_name(fault: dict) -> str:
    """Human name of a fault kind"""
    if fault["do"] == "errno":
        return f"{fault['kind']}:{ERR.get(fault['arg'], fault['arg'])}"
    return f"{fault['kind']}:{fault['do']}"
