"""Deterministic scheduling of real Python threads.

threading's locks are replaced by cooperative ones (Condition, Event, Semaphore of the standard library are
built on them), and every source line of the traced files is a point where the scheduler may switch threads."""
import sys, threading, _thread

_real_lock = _thread.allocate_lock


class Stop(BaseException):
    pass


class Sched:
    cur = None   # the active scheduler

    def __init__(self, choose, files):
        self.choose, self.files = choose, files
        self.ts = {}
        self.main = _real_lock()
        self.main.acquire()
        self.running = None
        self.stopping = False
        self.steps = 0

    def spawn(self, tid, fn):
        t = {"id": tid, "lock": _real_lock(), "state": "run", "on": None, "held": False, "timed": False}
        t["lock"].acquire()
        self.ts[tid] = t

        def body():
            t["lock"].acquire()
            try:
                if not self.stopping:
                    sys.settrace(self.tracer)
                    fn()
            except Stop:
                pass
            finally:
                sys.settrace(None)
                t["state"] = "done"
                self.running = None
                self.main.release()
        t["ident"] = _thread.start_new_thread(body, ())

    def tracer(self, frame, event, arg):
        if any(frame.f_code.co_filename.endswith(f) for f in self.files):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line":
            self.switch()
        return self.line

    def me(self):
        return self.ts.get(self.running)

    def switch(self):
        """Called by a managed thread: give control back to the scheduler."""
        t = self.me()
        tr = sys.gettrace()
        sys.settrace(None)
        self.running = None
        self.main.release()
        t["lock"].acquire()
        if self.stopping:
            raise Stop()
        sys.settrace(tr)

    def runnable(self):
        return [i for i, t in sorted(self.ts.items()) if t["state"] == "run"]

    def step(self, tid):
        self.steps += 1
        self.running = tid
        self.ts[tid]["lock"].release()
        self.main.acquire()

    def loop(self, stop=lambda: False, limit=20000):
        """Run until no thread can run (or stop() holds)."""
        while not stop():
            r = self.runnable()
            if not r:
                timed = [t for t in self.ts.values() if t["state"] == "blocked" and t["timed"]]
                if not timed:
                    return
                timed[0]["state"] = "run"
                timed[0]["expired"] = True
                continue
            if self.steps > limit:
                raise RuntimeError("too many steps")
            self.step(self.choose(r))

    def kill(self):
        self.stopping = True
        for t in self.ts.values():
            while t["state"] != "done":
                t["lock"].release()
                self.main.acquire()


class CoopLock:
    def __init__(self):
        self.l = False

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.cur
        while True:
            if not self.l:
                self.l = True
                return True
            if not blocking or timeout == 0:
                return False
            t = s.me() if s else None
            if t is None:
                raise RuntimeError("the main thread would block")
            t["state"], t["on"] = "blocked", self
            t["timed"], t["expired"] = timeout > 0, False
            s.switch()
            t["on"] = None
            if t.get("expired") and self.l:
                t["expired"] = False
                return False

    def release(self):
        if not self.l:
            raise RuntimeError("release unlocked lock")
        self.l = False
        if Sched.cur:
            for t in Sched.cur.ts.values():
                if t["state"] == "blocked" and t["on"] is self:
                    t["state"] = "run"

    def locked(self):
        return self.l

    def _at_fork_reinit(self):
        self.l = False

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def install():
    threading._allocate_lock = CoopLock
    threading.Lock = CoopLock
    threading.RLock = threading._PyRLock


class RandomChoice:
    def __init__(self, rng, stay=.7):
        self.rng, self.stay, self.last = rng, stay, None

    def __call__(self, r):
        if self.last in r and self.rng.random() < self.stay:
            return self.last
        self.last = self.rng.choice(r)
        return self.last


class Bounded:
    """Systematic exploration with at most `bound` preemptions; `prefix` fixes the first choices."""

    def __init__(self, prefix, bound):
        self.prefix, self.bound = list(prefix), bound
        self.log = []      # (choice index, options)
        self.last = None
        self.used = 0

    def __call__(self, r):
        if self.last in r:
            opts = [self.last] + ([x for x in r if x != self.last] if self.used < self.bound else [])
        else:
            opts = list(r)
        k = len(self.log)
        c = self.prefix[k] if k < len(self.prefix) else 0
        c = min(c, len(opts) - 1)
        self.log.append((c, len(opts)))
        if self.last in r and c:
            self.used += 1
        self.last = opts[c]
        return self.last

    def next_prefix(self):
        for k in range(len(self.log) - 1, -1, -1):
            c, n = self.log[k]
            if c + 1 < n:
                return [x for x, _ in self.log[:k]] + [c + 1]
        return None
