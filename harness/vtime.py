"""Virtual time for threads other than the main one, and single stepping.

install() replaces the clocks and ways to wait before the code under test is
imported.  Threads started by that code block in virtual sleeps; the main
thread moves the clock with Clock.advance and settles all of them before it
goes on, so a run is a deterministic function of the case.
"""
import sys
import threading
import time
import timeit

REAL_SLEEP, REAL_MONO = time.sleep, time.monotonic
REAL_EVENT = threading.Event
LIMIT = 20.0


class Clock:
    def __init__(self):
        self.cond = threading.Condition(threading.Lock())
        self.now = 0.0
        self.sleepers = {}
        self.grants = set()
        self.known = set(threading.enumerate())
        self.errors = []
        self.held = set()        # threads paused by a stepper

    def begin(self):
        """Forget everything before a case."""
        self.settle()
        self.known = set(threading.enumerate())
        self.errors = []

    def time(self):
        return self.now

    def mine(self):
        return threading.current_thread() in self.known or \
            threading.current_thread() is threading.main_thread()

    def sleep(self, dt):
        if self.mine():
            if threading.current_thread() is threading.main_thread():
                return self.advance(dt)
            return REAL_SLEEP(dt)
        me = threading.current_thread()
        with self.cond:
            self.sleepers[me] = self.now + max(dt, 0)
            self.cond.notify_all()
            while me not in self.grants:
                self.cond.wait()
            self.grants.discard(me)

    def quiet(self):
        for t in threading.enumerate():
            if t in self.known or t is threading.main_thread():
                continue
            if t not in self.sleepers and t not in self.held:
                return False
        return True

    def settle(self):
        """Wait until every thread of the code under test sleeps."""
        end = REAL_MONO() + LIMIT
        while not self.quiet():
            if REAL_MONO() > end:
                raise RuntimeError("threads do not settle")
            REAL_SLEEP(0.0002)

    def wake(self, t):
        with self.cond:
            self.now = max(self.now, self.sleepers.pop(t))
            self.grants.add(t)
            self.cond.notify_all()
        end = REAL_MONO() + LIMIT
        while t.is_alive() and t not in self.sleepers and t not in self.held:
            if REAL_MONO() > end:
                raise RuntimeError("thread does not settle")
            REAL_SLEEP(0.0002)

    def advance(self, dt):
        """Move the clock, waking sleepers in the order of their times."""
        self.settle()
        end = self.now + dt
        while True:
            due = sorted((w, t.name, id(t), t)
                         for t, w in list(self.sleepers.items()) if w <= end)
            if not due:
                break
            self.wake(due[0][3])
        self.now = end

    def drain(self, limit=1000):
        """Let the remaining threads run; how many never end."""
        for _ in range(limit):
            self.settle()
            ts = sorted((w, t.name, id(t), t)
                        for t, w in list(self.sleepers.items()))
            if not ts:
                return 0
            self.wake(ts[0][3])
        return len(self.sleepers)


CLOCK = None


def install():
    global CLOCK
    if CLOCK is not None:
        return CLOCK
    CLOCK = clock = Clock()
    time.sleep = clock.sleep

    def now():
        return clock.now
    timeit.default_timer = time.perf_counter = time.time = now

    class Event(REAL_EVENT):
        def wait(self, timeout=None):
            if timeout is None or clock.mine():
                return REAL_EVENT.wait(self, timeout)
            end = clock.now + timeout
            while not self.is_set() and clock.now < end:
                clock.sleep(min(0.25, end - clock.now))
            return self.is_set()
    threading.Event = Event

    def hook(args):
        clock.errors.append(args.exc_type.__name__)
    threading.excepthook = hook
    return clock


class Stepper:
    """Pauses the n-th line executed in a file by a thread started with it."""
    def __init__(self, clock, filename, n):
        self.clock, self.filename, self.n = clock, filename, n
        self.count, self.armed = 0, False
        self.paused, self.go = REAL_EVENT(), REAL_EVENT()
        self.where = None

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename != self.filename:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line" and self.armed:
            self.count += 1
            if self.count == self.n:
                me = threading.current_thread()
                self.where = frame.f_lineno
                self.clock.held.add(me)
                self.paused.set()
                self.go.wait(LIMIT)
        return self.local

    def release(self):
        self.armed = False
        self.clock.held.clear()
        self.go.set()

    def __enter__(self):
        threading.settrace(self.trace)
        return self

    def __exit__(self, *a):
        threading.settrace(None)
        self.release()


def fresh(name):
    sys.modules.pop(name, None)
    import importlib
    return importlib.import_module(name)


class Lockstep:
    """Runs threads line by line in an order the caller chooses.

    Threads whose code lies in one of the files stop before every line; the
    main thread lets one of them execute up to its next line.  A thread that
    does not come back (it waits for a lock) is passed over until it does.
    """
    BLOCKED = 0.03

    def __init__(self, clock, files, choose):
        self.clock, self.files, self.choose = clock, set(files), choose
        self.cond = threading.Condition(threading.Lock())
        self.at, self.turn, self.free = {}, None, True
        self.names = {}

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line" and not self.free:
            me = threading.current_thread()
            with self.cond:
                self.at[me] = frame.f_lineno
                self.clock.held.add(me)
                self.cond.notify_all()
                while self.turn is not me and not self.free:
                    self.cond.wait(1.0)
                self.turn = None
                self.at.pop(me, None)
                self.clock.held.discard(me)
        return self.local

    def run(self, threads, limit=4000):
        """Until every given thread has ended (or sleeps)."""
        def idle(t):
            return not t.is_alive() or t in self.clock.sleepers
        for _ in range(limit):
            live = [t for t in threads if not idle(t)]
            if not live:
                return True
            end = REAL_MONO() + LIMIT
            while True:
                ready = [t for t in live if t in self.at]
                if ready or all(idle(t) for t in live):
                    break
                if REAL_MONO() > end:
                    return False
                REAL_SLEEP(0.0002)
            if not ready:
                continue
            t = ready[self.choose(len(ready))]
            with self.cond:
                self.turn = t
                self.at.pop(t, None)
                self.cond.notify_all()
            end = REAL_MONO() + self.BLOCKED
            while t not in self.at and not idle(t) and REAL_MONO() < end:
                REAL_SLEEP(0.00005)
        return False

    def stop(self):
        with self.cond:
            self.free = True
            self.clock.held.clear()
            self.cond.notify_all()
