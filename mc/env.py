"""Makes the working tree of /repo the pcollections that is imported; nothing is written there."""
import os, sys, threading, _thread
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.insert(1, VERIF)
# Locks created by the library while a controlled schedule runs must be visible to the scheduler, so
# the lock factories are wrapped before the library is imported (see mc/sched.py).  Outside of a
# controlled schedule they return ordinary locks.
from mc import locks
locks.install()
locks.IMPORTING = True
import pcollections
locks.IMPORTING = False
if not os.path.realpath(pcollections.__file__).startswith(os.path.realpath(REPO) + os.sep):
    print(f"ERROR: imported {pcollections.__file__}, not from {REPO}", file=sys.stderr)
    sys.exit(2)
LIBDIR = os.path.realpath(os.path.dirname(pcollections.__file__)) + os.sep
