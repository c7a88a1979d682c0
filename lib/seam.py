"""Controlled replacement of the process pool the package uses to solve its orbitals.

The package starts one OS process per orbital solver, joins them and reads their
results from a manager dictionary.  Here the same interface is provided inside one
process under an explicit scheduler, so that

* ordinary checks run quickly and deterministically (default schedule: a worker
  runs when it is joined), and
* C12 enumerates *every* order in which the workers' results can become visible
  between the parent's operations, and every worker death.

A worker runs on a private deep copy of its target (the grid is shared read-only),
exactly what a forked child sees: nothing it does to the solver object is visible
to the parent except what it stores in the manager dictionary, and what it stores
is copied (pickled in reality) at that moment.

If the package is changed to use another mechanism, nothing here is hit and the
real mechanism runs; `USED` tells the checks which of the two happened.
"""
import copy
import multiprocessing
import sys

REAL = {k: getattr(multiprocessing, k) for k in ("Process", "Manager") if hasattr(multiprocessing, k)}
USED = {"process": 0, "manager": 0}


class WorkerDeath(BaseException):
    pass


class Scheduler:
    """Decides at every parent operation which started workers run to completion.

    `choose(enabled)` is called with the tuple of worker ids that could run next,
    preceded by the pseudo-choice 0 ("let the parent continue") when the parent is
    not blocked; it returns an index.  The default always continues the parent, and
    runs the joined worker first when the parent blocks.
    """

    def __init__(self, choose=None, fate=None):
        self.workers = []
        self.choose = choose
        self.fate = fate or {}          # worker id -> "die_before" | "die_after" | "raise"
        self.log = []

    def begin(self):
        self.workers = []

    def step(self, blocked_on=None, timed=False):
        while True:
            run = [w for w in self.workers if w.started and not w.done]
            if blocked_on is not None and blocked_on.done:
                blocked_on = None
                # after the awaited worker is done the parent may continue
                run = [w for w in self.workers if w.started and not w.done]
            if blocked_on is None:
                opts = [None] + run
            else:
                opts = [blocked_on] + [w for w in run if w is not blocked_on] + ([None] if timed else [])
            if self.choose is None or len(opts) == 1:
                pick = opts[0]
            else:
                pick = opts[self.choose([0 if o is None else o.wid for o in opts])]
            if pick is None:
                return
            pick.execute()


SCHED = Scheduler()
GRID_TYPES = []


def _memo(objs):
    """Memo that makes grids and managed dictionaries shared, everything else private."""
    memo = {}
    return memo


def private_copy(x):
    return copy.deepcopy(x)


class FakeDict(dict):
    """Manager dictionary: values are copied on the way in and out; reads by the parent
    are scheduling points."""

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        raise TypeError("managed dictionary")

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, copy.deepcopy(v))

    def __getitem__(self, k):
        if not SCHED_IN_WORKER[0]:
            SCHED.step()
        return copy.deepcopy(dict.__getitem__(self, k))

    def get(self, k, d=None):
        if not SCHED_IN_WORKER[0]:
            SCHED.step()
        return copy.deepcopy(dict.get(self, k, d))

    def __contains__(self, k):
        if not SCHED_IN_WORKER[0]:
            SCHED.step()
        return dict.__contains__(self, k)

    def items(self):
        if not SCHED_IN_WORKER[0]:
            SCHED.step()
        return [(k, copy.deepcopy(v)) for k, v in dict.items(self)]

    def values(self):
        if not SCHED_IN_WORKER[0]:
            SCHED.step()
        return [copy.deepcopy(v) for v in dict.values(self)]

    def update(self, *a, **k):
        for kk, v in dict(*a, **k).items():
            self[kk] = v

    def copy(self):
        return dict(self.items())

    _getvalue = copy


class FakeList(list):
    def __deepcopy__(self, memo):
        return self

    def append(self, v):
        list.append(self, copy.deepcopy(v))


SCHED_IN_WORKER = [False]


class FakeManager:
    def __init__(self, *a, **k):
        USED["manager"] += 1

    def dict(self, *a, **k):
        d = FakeDict()
        d.update(*a, **k)
        return d

    def list(self, *a):
        x = FakeList()
        for v in (a[0] if a else []):
            x.append(v)
        return x

    def shutdown(self):
        pass

    def start(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class FakeProcess:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        USED["process"] += 1
        self._t, self._a, self._k = target, args, kwargs or {}
        self.name = name or "worker"
        self.daemon = daemon
        self.started = self.done = False
        self.exitcode = None
        self.pid = None
        self.wid = None

    def start(self):
        assert not self.started, "cannot start a process twice"
        self.started = True
        SCHED.workers.append(self)
        self.wid = len(SCHED.workers)
        self.pid = 100000 + self.wid
        # fork: the child's view of memory is frozen now
        self._t, self._a, self._k = copy.deepcopy((self._t, self._a, self._k))
        SCHED.log.append(("start", self.wid))
        SCHED.step()

    def execute(self):
        fate = SCHED.fate.get(self.wid)
        SCHED.log.append(("run", self.wid, fate))
        SCHED_IN_WORKER[0] = True
        try:
            if fate == "die_before":
                self.exitcode = -9
            elif fate == "raise":
                self.exitcode = 1
            elif self._t is not None:
                self._t(*self._a, **self._k)
                self.exitcode = -9 if fate == "die_after" else 0
        except Exception as e:                  # a child that raises dies alone
            self.error = e
            self.exitcode = 1
            SCHED.log.append(("error", self.wid, repr(e)))
            LAST_ERROR.append(e)
        finally:
            SCHED_IN_WORKER[0] = False
            self.done = True
            self._t = self._a = self._k = None

    def join(self, timeout=None):
        assert self.started, "can only join a started process"
        SCHED.log.append(("join", self.wid))
        # a wait with a time limit may also end with the worker still running
        SCHED.step(blocked_on=self, timed=timeout is not None)

    def is_alive(self):
        # polling is waiting: a second poll blocks until this worker is done
        self.polls = getattr(self, "polls", 0) + 1
        SCHED.step(blocked_on=self if self.polls > 1 and self.started else None)
        return self.started and not self.done

    def terminate(self):
        if self.started and not self.done:
            self.done = True
            self.exitcode = -15

    kill = terminate

    def close(self):
        pass


LAST_ERROR = []
_orig_deepcopy = {}


def fake_manager(*a, **k):
    return FakeManager()


def install(sched=None):
    """Put the controlled pool in place of multiprocessing's, everywhere in the package."""
    global SCHED
    SCHED = sched or Scheduler()
    from CADMium.psgrid.psgrid import Psgrid
    if "__deepcopy__" not in Psgrid.__dict__:
        Psgrid.__deepcopy__ = lambda self, memo: self        # shared, read-only
    multiprocessing.Process = FakeProcess
    multiprocessing.Manager = fake_manager
    for name, m in list(sys.modules.items()):
        if name.startswith("CADMium") and m is not None:
            if getattr(m, "Process", None) is REAL["Process"]:
                m.Process = FakeProcess
            if getattr(m, "Manager", None) == REAL["Manager"]:
                m.Manager = fake_manager
    return SCHED


def set_sched(s):
    global SCHED
    SCHED = s
    return s


def uninstall():
    multiprocessing.Process = REAL["Process"]
    multiprocessing.Manager = REAL["Manager"]
    for name, m in list(sys.modules.items()):
        if name.startswith("CADMium") and m is not None:
            if getattr(m, "Process", None) is FakeProcess:
                m.Process = REAL["Process"]
            if getattr(m, "Manager", None) is fake_manager:
                m.Manager = REAL["Manager"]
