"""Scratch directory of one check: created here, removed at the end.  Each
simulated run uses its own sub-directory with a *fixed-length relative layout*;
paths never enter the event log."""
import contextlib
import os
import shutil
import tempfile

ROOT = None


@contextlib.contextmanager
def root():
    global ROOT
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    ROOT = tempfile.mkdtemp(prefix="refellips-verif-", dir=base)
    pid = os.getpid()
    try:
        yield ROOT
    finally:
        if os.getpid() == pid:
            shutil.rmtree(ROOT, ignore_errors=True)


@contextlib.contextmanager
def rundir():
    d = os.path.join(ROOT, f"r{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
