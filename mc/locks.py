"""Lock factories that hand out scheduler-controlled locks inside controlled schedules.

`install()` replaces threading.Lock/RLock (and the names other threading primitives are built from)
by factories.  The factories return the genuine lock unless a scheduler is active (ACTIVE is set), or
the library is being imported (a lock of a module or class), in which case they return a lock whose
blocking is decided by the scheduler that is active when it is used.
"""
import sys, threading, _thread
REAL_LOCK = _thread.allocate_lock
REAL_RLOCK = threading.RLock
ACTIVE = None            # the active mc.sched.Execution, if any
IMPORTING = False        # the library is being imported
class CoLock:
    """A lock under a controlled schedule. Reentrant if `re`."""
    def __init__(self, re):
        self.re, self.owner, self.count = re, None, 0
        self.run = ACTIVE
    def _me(self, s):
        k = s.current_key() if s is not None else None
        return 'main' if k is None else k
    def _sched(self):
        s = ACTIVE
        if s is not self.run:              # left over from another execution
            self.owner, self.count, self.run = None, 0, s
        return s
    def acquire(self, blocking=True, timeout=-1):
        s = self._sched()
        me = s.current_key() if s is not None else None
        if self.re and self.owner is not None and self.owner == (me if me is not None else 'main'):
            self.count += 1
            return True
        if me is None:                     # outside of the schedule (set-up or checks)
            if self.owner is not None:
                if not blocking: return False
                raise RuntimeError("lock still held outside of the schedule")
            self.owner, self.count = 'main', 1
            return True
        s.point('acquire')
        if not blocking:
            if self.owner is not None: return False
        elif timeout is not None and timeout >= 0 and self.owner is not None:
            while self.owner is not None:
                if not s.timed(): return False
        else:
            while self.owner is not None:
                s.block(self)
        self.owner, self.count = me, 1
        return True
    def release(self):
        s = self._sched()
        me = self._me(s)
        if self.owner is None:
            raise RuntimeError("release of an un-acquired lock")
        if self.re and self.owner != me:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count <= 0:
            self.owner, self.count = None, 0
            if me != 'main':
                s.unblock(self)
                s.point('release')
    def locked(self):
        self._sched()
        return self.owner is not None
    def __enter__(self):
        self.acquire(); return self
    def __exit__(self, *a):
        self.release()
    def _is_owned(self):
        s = self._sched()
        return self.owner is not None and self.owner == self._me(s)
    def _release_save(self):
        c, o = self.count, self.owner
        self.count = 1 if c else 0
        self.release()
        return (c, o)
    def _acquire_restore(self, s):
        self.acquire()
        self.count = s[0]
    def _at_fork_reinit(self): pass
def _lock():
    return CoLock(False) if ACTIVE is not None or IMPORTING else REAL_LOCK()
def _rlock(*args, **kw):
    return CoLock(True) if ACTIVE is not None or IMPORTING else REAL_RLOCK()
_real = {}
def install():
    if _real: return
    for (m, n, f) in ((threading, 'Lock', _lock), (threading, 'RLock', _rlock),
                      (threading, '_allocate_lock', _lock),
                      (_thread, 'allocate_lock', _lock), (_thread, 'RLock', _rlock)):
        _real[(m.__name__, n)] = getattr(m, n)
        setattr(m, n, f)
