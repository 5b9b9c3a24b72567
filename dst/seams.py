"""Seams: everything nondeterministic the code under test could touch.

install() imports norfair with scheduler-aware locks, stops OpenCV's thread pool and
replaces rich's refresh threads.  The other seams (clock, video devices, disk, vision
routines) are context managers used by the scenarios inside a forked run.
"""
import builtins
import errno
import functools
import importlib
import io
import logging
import os
import random
import sys
import time

from . import sched

REPO = os.environ.get("DST_REPO", "/repo")
PACKAGE = os.path.join(REPO, "norfair") + os.sep
_installed = False


def install():
    global _installed  # pylint: disable=global-statement
    if _installed:
        return
    _installed = True
    # imported first so that their own locks stay real
    import cv2  # pylint: disable=import-outside-toplevel
    import motmetrics  # noqa: F401 pylint: disable=import-outside-toplevel,unused-import
    import numpy  # noqa: F401 pylint: disable=import-outside-toplevel,unused-import
    import pandas  # noqa: F401 pylint: disable=import-outside-toplevel,unused-import
    import rich.console
    import rich.live
    import rich.progress
    import rich.table  # noqa: F401
    import scipy.spatial.distance  # noqa: F401
    import filterpy.kalman  # noqa: F401

    cv2.setNumThreads(0)
    logging.disable(logging.CRITICAL)
    _wrap_cv2(cv2)
    clock = {n: getattr(time, n) for n in VirtualClock.NAMES}
    with sched.patched_locks(), patch_attrs(
        time, **{n: _clock_shim(n, fn) for n, fn in clock.items()}
    ):
        importlib.import_module("norfair")
        importlib.import_module("norfair.metrics")
        importlib.import_module("norfair.camera_motion")
        importlib.import_module("norfair.drawing")
    import norfair  # pylint: disable=import-outside-toplevel

    if not os.path.realpath(norfair.__file__).startswith(os.path.realpath(PACKAGE)):
        raise RuntimeError(f"norfair imported from {norfair.__file__}, not {PACKAGE}")
    _stub_rich_threads()
    # noise the library prints is not part of any property
    logging.disable(logging.CRITICAL)


# ------------------------------------------------------------------- OpenCV routines
HOOKS = {}  # routine name -> function(real, *args, **kwargs), set by a scenario
WRAPPED = (
    "VideoCapture", "imread", "imwrite", "imshow", "waitKey", "waitKeyEx", "pollKey",
    "destroyAllWindows", "destroyWindow", "namedWindow", "resize",
    "goodFeaturesToTrack", "calcOpticalFlowPyrLK", "findHomography", "cvtColor",
    "perspectiveTransform",
    "circle", "rectangle", "putText", "line", "getTextSize", "addWeighted", "polylines",
)


def _wrap_cv2(cv2):
    def wrap(name, real):
        @functools.wraps(real)
        def shim(*args, **kwargs):
            hook = HOOKS.get(name)
            return real(*args, **kwargs) if hook is None else hook(real, *args, **kwargs)

        return shim

    for name in WRAPPED:
        setattr(cv2, name, wrap(name, getattr(cv2, name)))
    real_writer = cv2.VideoWriter

    class VideoWriter:
        fourcc = staticmethod(real_writer.fourcc)

        def __new__(cls, *args, **kwargs):
            hook = HOOKS.get("VideoWriter")
            if hook is None:
                return real_writer(*args, **kwargs)
            return hook(real_writer, *args, **kwargs)

    cv2.VideoWriter = VideoWriter


class hooks:
    """Replace OpenCV routines for the duration of a run."""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.saved = dict(HOOKS)
        HOOKS.update(self.kw)
        return self

    def __exit__(self, *exc):
        HOOKS.clear()
        HOOKS.update(self.saved)


CLOCK = None  # the active VirtualClock


def _clock_shim(name, real):
    def shim():
        return real() if CLOCK is None else getattr(CLOCK, "time" if name == "time" else "monotonic")()

    return shim


class _NoThread:
    """Stands for rich's refresh threads: refreshes nothing, so no hidden thread runs.

    Threads that are not daemons keep the process from exiting until they are ended.
    """

    daemon = True
    running = set()

    def __init__(self, *args, **kwargs):
        self.completed = 0
        self.done = self

    def start(self):
        if not self.daemon:
            self.running.add(id(self))

    def stop(self):
        self.running.discard(id(self))

    def join(self, timeout=None):
        pass

    def set(self):
        self.stop()

    def __enter__(self):
        self.start()
        return self

    def __exit__(self, *exc):
        self.stop()


class _NoTrackThread(_NoThread):
    daemon = False


def threads_keeping_process():
    """How many (simulated) threads would keep the process from exiting now."""
    return len(_NoThread.running)


def _stub_rich_threads():
    import rich.live  # pylint: disable=import-outside-toplevel
    import rich.progress  # pylint: disable=import-outside-toplevel

    if hasattr(rich.live, "_RefreshThread"):
        rich.live._RefreshThread = _NoThread  # pylint: disable=protected-access
    if hasattr(rich.progress, "_TrackThread"):
        rich.progress._TrackThread = _NoTrackThread  # pylint: disable=protected-access


# --------------------------------------------------------------------------- clock
class VirtualClock:
    """time.time & co. read a simulated clock that the plan moves."""

    NAMES = ("time", "monotonic", "perf_counter")

    def __init__(self, start=1.0e9, wall=None):
        self.now = start
        self.wall_offset = 0.0
        self.reads = 0
        self.on_read = None
        self._saved = {}

    def time(self):
        self.reads += 1
        if self.on_read:
            self.on_read(self)
        return self.now + self.wall_offset

    def monotonic(self):
        return self.now

    def sleep(self, seconds):
        self.now += max(0.0, seconds)

    def __enter__(self):
        for name in ("time", "monotonic", "perf_counter", "sleep", "time_ns"):
            self._saved[name] = getattr(time, name)
        time.time = self.time
        time.monotonic = self.monotonic
        time.perf_counter = self.monotonic
        time.time_ns = lambda: int(self.time() * 1e9)
        time.sleep = self.sleep
        global CLOCK  # pylint: disable=global-statement
        CLOCK = self
        return self

    def __exit__(self, *exc):
        global CLOCK  # pylint: disable=global-statement
        CLOCK = None
        for name, fn in self._saved.items():
            setattr(time, name, fn)


class patch_attrs:
    """Set attributes of a module for the duration of a run."""

    def __init__(self, module, **attrs):
        self.module = module
        self.attrs = attrs
        self.saved = {}

    def __enter__(self):
        for k, v in self.attrs.items():
            self.saved[k] = getattr(self.module, k)
            setattr(self.module, k, v)
        return self

    def __exit__(self, *exc):
        for k, v in self.saved.items():
            setattr(self.module, k, v)


# --------------------------------------------------------------------------- disk
class Crash(BaseException):
    """The simulated process dies here."""


class SimDisk:
    """Files opened for writing below `root` live on a simulated disk.

    Written text stays in the process (user buffer of `buffer_size` bytes) until the
    buffer fills, or flush/close; only then it reaches the disk.  A crash loses the
    buffer.  Faults: transfers to the disk from number `fail_at` on fail (ENOSPC/EIO), the
    process dies during transfer number `crash_at`; in both cases the fraction `short` of
    the bytes of that transfer is written.
    """

    def __init__(self, root, buffer_size=8192, fail_at=None, fail_kind="ENOSPC", short=0.0, crash_at=None):
        self.root = os.path.realpath(root)
        self.buffer_size = buffer_size
        self.fail_at = fail_at
        self.fail_kind = fail_kind
        self.short = short
        self.crash_at = crash_at
        self.dead = False
        self._saved = []
        self.transfers = 0
        self.fired = 0
        self.files = {}
        self.open_files = []
        self.opens = []
        self._open = builtins.open

    def _mine(self, path, mode):
        if not isinstance(path, (str, os.PathLike)):
            return False
        if not any(c in mode for c in "wax+"):
            return False
        return os.path.realpath(os.fspath(path)).startswith(self.root + os.sep)

    def open(self, file, mode="r", *args, **kwargs):
        if self._mine(file, mode):
            path = os.path.realpath(os.fspath(file))
            self.opens.append((path, mode))
            folder = os.path.dirname(path)
            if self.dead:
                raise Crash("the process is gone")
            if not os.path.isdir(folder):
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            if "w" in mode:
                self.files[path] = b""
            elif "x" in mode:
                if path in self.files:
                    raise FileExistsError(errno.EEXIST, "File exists", path)
                self.files[path] = b""
            elif "a" in mode:
                self.files.setdefault(path, b"")
            elif path not in self.files:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            f = SimFile(self, path, binary="b" in mode, newline=kwargs.get("newline"))
            self.open_files.append(f)
            return f
        return self._open(file, mode, *args, **kwargs)

    def transfer(self, path, data):
        if self.dead:
            return
        self.transfers += 1
        if self.crash_at is not None and self.transfers >= self.crash_at:
            self.fired += 1
            self.files[path] = self.files.get(path, b"") + data[: int(len(data) * self.short)]
            self.dead = True
            raise Crash("power loss during a transfer")
        if self.fail_at is not None and self.transfers >= self.fail_at:
            self.fired += 1
            n = int(len(data) * self.short)
            self.files[path] = self.files.get(path, b"") + data[:n]
            code = getattr(errno, self.fail_kind)
            raise OSError(code, os.strerror(code))
        self.files[path] = self.files.get(path, b"") + data

    def crash(self):
        """The process dies: what is buffered is lost, nothing more reaches the disk."""
        self.dead = True

    def reboot(self):
        """A new process starts on what is on the disk; the faults are over."""
        self.dead = False
        self.crash_at = self.fail_at = None
        self.open_files = []

    def _rename(self, real):
        def rename(src, dst, *args, **kwargs):
            a = os.path.realpath(os.fspath(src))
            if a in self.files:
                if not self.dead:
                    self.files[os.path.realpath(os.fspath(dst))] = self.files.pop(a)
                return None
            return real(src, dst, *args, **kwargs)

        return rename

    def _remove(self, real):
        def remove(path, *args, **kwargs):
            a = os.path.realpath(os.fspath(path))
            if a in self.files:
                if not self.dead:
                    del self.files[a]
                return None
            return real(path, *args, **kwargs)

        return remove

    def _exists(self, real):
        def exists(path):
            if isinstance(path, (str, os.PathLike)) and os.path.realpath(os.fspath(path)) in self.files:
                return True
            return real(path)

        return exists

    def __enter__(self):
        self._saved = [
            (builtins, "open", builtins.open),
            (io, "open", io.open),
            (os, "replace", os.replace),
            (os, "rename", os.rename),
            (os, "remove", os.remove),
            (os, "unlink", os.unlink),
            (os, "fsync", os.fsync),
            (os.path, "exists", os.path.exists),
            (os.path, "isfile", os.path.isfile),
        ]
        builtins.open = self.open
        io.open = self.open
        os.replace = self._rename(os.replace)
        os.rename = self._rename(os.rename)
        os.remove = self._remove(os.remove)
        os.unlink = self._remove(os.unlink)
        os.fsync = lambda fd: None
        os.path.exists = self._exists(os.path.exists)
        os.path.isfile = self._exists(os.path.isfile)
        return self

    def __exit__(self, *exc):
        for module, name, fn in self._saved:
            setattr(module, name, fn)


class SimFile(io.TextIOBase):
    def __init__(self, disk, path, binary=False, newline=None):
        super().__init__()
        self._disk = disk
        self._path = path
        self._binary = binary
        self._buffer = b""
        self._shut = False
        self.name = path

    def writable(self):
        return True

    @property
    def closed(self):  # noqa: A003
        return self._shut

    def write(self, text):
        if self._shut:
            raise ValueError("I/O operation on closed file.")
        data = bytes(text) if self._binary else text.encode()
        self._buffer += data
        while len(self._buffer) >= self._disk.buffer_size:
            chunk, self._buffer = (
                self._buffer[: self._disk.buffer_size],
                self._buffer[self._disk.buffer_size :],
            )
            try:
                self._disk.transfer(self._path, chunk)
            except OSError:
                self._buffer = chunk + self._buffer
                raise
        return len(text)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        if self._shut:
            raise ValueError("I/O operation on closed file.")
        if self._buffer:
            chunk, self._buffer = self._buffer, b""
            try:
                self._disk.transfer(self._path, chunk)
            except OSError:
                self._buffer = chunk
                raise

    def close(self):
        if self._shut:
            return
        try:
            self.flush()
        finally:
            self._shut = True

    def fileno(self):
        return 1 << 20  # only good for the simulated fsync

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __del__(self):
        pass


def seed_global_randomness(key):
    """Callers' global generators: fixed, although norfair should not depend on them."""
    import numpy as np  # pylint: disable=import-outside-toplevel
    import cv2  # pylint: disable=import-outside-toplevel

    random.seed(key)
    np.random.seed(key & 0xFFFFFFFF)
    cv2.setRNGSeed(key & 0x7FFFFFFF)


def quiet():
    sys.stdout = io.StringIO()
