"""Cooperative threads: every interleaving of the marked points is a value of
the harness's symbolic choices."""
import threading


class Killed(BaseException):
    pass


class Sched(object):
    def __init__(self, x, preempt=None):
        self.x = x
        self.left = preempt     # preemptive switches (None: any number)
        self.threads = []
        self.cur = None
        self.main = threading.Semaphore(0)
        self.dead = False
        self.order = []

    def run(self, fns):
        """Run all functions; -> list of exceptions (None: finished)."""
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * n
        self.blocked = [None] * n
        self.exc = [None] * n

        def body(i):
            self.sem[i].acquire()
            try:
                if not self.dead:
                    fns[i]()
            except Killed:
                pass
            except BaseException as e:
                self.exc[i] = e
            self.done[i] = True
            self.main.release()
        ts = [threading.Thread(target=body, args=(i,), daemon=True)
              for i in range(n)]
        for t in ts:
            t.start()
        stuck = False
        try:
            step = 0
            while not all(self.done):
                ready = [i for i in range(n) if not self.done[i] and (
                    self.blocked[i] is None or self.blocked[i]())]
                if not ready:
                    stuck = True
                    break
                if self.left is not None and self.cur in ready:
                    # a switch away from a thread that could go on
                    ready.remove(self.cur)
                    ready.insert(0, self.cur)
                    if self.left <= 0:
                        ready = ready[:1]
                i = ready[self.x.choice('sched%d' % step, range(len(ready)))]
                if self.left is not None and self.cur in ready and \
                        i != self.cur:
                    self.left -= 1
                step += 1
                self.cur = i
                self.order.append(i)
                self.blocked[i] = None
                self.sem[i].release()
                self.main.acquire()
                e = self.exc[i]
                if e is not None and not isinstance(e, self.ok):
                    raise e
        finally:
            self.dead = True
            for i in range(n):
                if not self.done[i]:
                    self.sem[i].release()
                    self.main.acquire()
            for t in ts:
                t.join()
        self.cur, self.dead = None, False
        self.x.check(not stuck, 'no deadlock')
        return self.exc

    ok = ()

    def point(self, blocked=None):
        """Let the scheduler switch here."""
        i = self.cur
        if i is None or self.dead:
            if self.dead:
                raise Killed()
            return
        self.blocked[i] = blocked
        self.main.release()
        self.sem[i].acquire()
        if self.dead:
            raise Killed()


class Lock(object):
    def __init__(self, s):
        self.s, self.owner = s, None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def acquire(self, *a):
        self.s.point(lambda: self.owner is None)
        while self.owner is not None:
            self.s.point(lambda: self.owner is None)
        self.owner = (self.s.cur,)
        return True

    def release(self):
        self.owner = None


class Value(object):
    """multiprocessing.Value stand-in: unlocked accesses are switch points."""

    def __init__(self, s, v):
        self.s, self.v, self.lock = s, v, Lock(s)

    def get_lock(self):
        return self.lock

    def _point(self):
        if self.lock.owner is None or self.lock.owner != (self.s.cur,):
            self.s.point()

    @property
    def value(self):
        self._point()
        return self.v

    @value.setter
    def value(self, v):
        self._point()
        self.v = v
