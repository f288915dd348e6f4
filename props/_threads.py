"""A scheduler under which the threads of a harness run one at a time and change at lines that the solver chooses.

The code runs unchanged except for its locks and conditions, which know the scheduler. Between any two lines of the watched files another
thread may go on; which line that is, is a symbolic number, and up to `switches` such changes happen besides those that waiting makes necessary;
for those the threads take turns."""
import importlib.machinery
import importlib.util
import sys
import threading
from pathlib import Path


def raw(name, alias):
    """a copy of the module, as it is in the repository, that is not shared with anything else"""
    spec = importlib.util.find_spec(name)
    path = spec.origin
    loader = importlib.machinery.SourceFileLoader(alias, path)
    module = importlib.util.module_from_spec(importlib.util.spec_from_loader(alias, loader))
    sys.modules[alias] = module
    exec(compile(Path(path).read_bytes(), path, 'exec'), module.__dict__)
    return module


class _Threading:
    def __init__(self, sched):
        self._sched = sched

    def __getattr__(self, name):
        return getattr(self._sched if name in ('Lock', 'RLock', 'Condition', 'Event') else threading, name)


class Killed(BaseException):
    pass


class Deadlock(Exception):
    pass


class Scheduler:
    def __init__(self, S, switches, files, steps=400):
        self.S, self.files, self.steps = S, {str(f) for f in files}, steps
        self.threads, self.current, self.killed, self.step = [], None, False, 0
        self.left = switches
        self.next_switch = None

    # what the code under test uses in place of the module threading

    def Lock(self):
        return SchedLock(self, False)

    def RLock(self):
        return SchedLock(self, True)

    def Condition(self, lock=None):
        return SchedCondition(self, lock or self.RLock())

    def Event(self):
        return SchedEvent(self)

    def adopt(self, module):
        """the module uses the primitives of this scheduler"""
        for name, value in list(vars(module).items()):
            if value is threading:
                setattr(module, name, _Threading(self))
            for known in ('Lock', 'RLock', 'Condition', 'Event'):
                if value is getattr(threading, known):
                    setattr(module, name, getattr(self, known))

    # threads

    def spawn(self, f, *args):
        t = Thread(self, f, args)
        self.threads.append(t)
        return t

    def run(self):
        """runs all threads to their end, as the solver schedules them"""
        S = self.S
        started = False
        try:
            current = None
            while True:
                ready = [t for t in self.threads if not t.done and (t.waits is None or t.waits())]
                if not ready:
                    if any(not t.done for t in self.threads):
                        raise Deadlock([t.name for t in self.threads if not t.done])
                    break
                if current is None:
                    current = ready[S.conc(S.int('first', 0, len(ready) - 1))]
                elif current not in ready:  # the next one, in turn
                    i = self.threads.index(current)
                    current = next(t for t in self.threads[i + 1:] + self.threads[:i] if t in ready)
                self.step += 1
                if self.step > self.steps:
                    raise Deadlock('runs for ever')
                if self.left and len(ready) > 1:
                    if self.next_switch is None:
                        self.next_switch = S.int(f'switch{self.left}', 0, self.steps)
                        S.assume(self.next_switch >= self.step)
                    if self.next_switch == self.step:
                        others = [t for t in ready if t is not current]
                        current = others[0] if len(others) == 1 else others[S.conc(S.int(f'to{self.left}', 0, len(others) - 1))]
                        self.left, self.next_switch = self.left - 1, None
                current.waits = None
                self.current = current
                current.resume()
        finally:
            self.killed = True
            for t in self.threads:
                while not t.done:
                    self.current = t
                    t.resume()

    def point(self, waits=None):
        """the running thread lets another one run; with `waits` it does not go on before that holds"""
        t = self.current
        if t is None or t.thread is not threading.current_thread():
            return
        if self.killed:
            if waits and not waits():
                raise Killed()
            return
        t.waits = waits
        t.pause()
        if self.killed and waits and not waits():
            raise Killed()


class Thread:
    def __init__(self, sched, f, args):
        self.sched, self.f, self.args = sched, f, args
        self.done, self.waits, self.result, self.error = False, None, None, None
        self.go, self.paused = threading.Semaphore(0), threading.Semaphore(0)
        self.name = getattr(f, '__name__', str(f))
        self.thread = None

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename not in self.sched.files:
            return None
        if event == 'line':
            self.sched.point()
        return self.trace

    def main(self):
        self.go.acquire()
        if not self.sched.killed:
            sys.settrace(self.trace)
            try:
                self.result = self.f(*self.args)
            except BaseException as e:
                self.error = e
            finally:
                sys.settrace(None)
        self.done = True
        self.paused.release()

    def resume(self):
        if self.thread is None:
            self.thread = threading.Thread(target=self.main, daemon=True)
            self.thread.start()
        self.go.release()
        if not self.paused.acquire(timeout=60):
            raise RuntimeError(f'the thread {self.name} waits for something that is not scheduled')

    def pause(self):
        self.paused.release()
        self.go.acquire()


class SchedLock:
    def __init__(self, sched, reentrant):
        self.sched, self.reentrant, self.owner, self.count = sched, reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = self.sched.current
        free = lambda: self.owner is None or self.reentrant and self.owner is me
        if not blocking:
            if not free():
                return False
        else:
            self.sched.point(free)
        self.owner, self.count = me, self.count + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None
        self.sched.point()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None


class SchedCondition:
    def __init__(self, sched, lock):
        self.sched, self.lock, self.waiting = sched, lock, []
        self.acquire, self.release = lock.acquire, lock.release

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        if self.lock.owner is not self.sched.current:
            raise RuntimeError('cannot wait on un-acquired lock')
        token, count = object(), self.lock.count
        self.waiting.append(token)
        self.lock.count, self.lock.owner = 0, None
        self.sched.point(lambda: token not in self.waiting)
        me = self.sched.current
        self.sched.point(lambda: self.lock.owner is None)
        self.lock.owner, self.lock.count = me, count
        return True

    def notify(self, n=1):
        if self.lock.owner is not self.sched.current:
            raise RuntimeError('cannot notify on un-acquired lock')
        del self.waiting[:n]

    def notify_all(self):
        self.notify(len(self.waiting))


class SchedEvent:
    def __init__(self, sched):
        self.sched, self.value = sched, False

    def is_set(self):
        return self.value

    def set(self):
        self.value = True
        self.sched.point()

    def clear(self):
        self.value = False

    def wait(self, timeout=None):
        self.sched.point(lambda: self.value)
        return True
