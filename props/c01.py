"""C01: what is used by several threads at once works as if they took turns."""
import warnings
from dataclasses import dataclass

import pkm.utils.functionals
import pkm.utils.promises
import pkm.utils.properties

from props._threads import Deadlock, Scheduler, raw
from sx.session import Case

PROPERTY = 'C01'
ASSUMPTIONS = ['a line of python code is executed without interruption', 'locks, conditions and thread pools do what their documentation says']


def promises_of(S, switches):
    m = raw('pkm.utils.promises', 'raw_pkm_promises')
    sched = Scheduler(S, switches, [m.__file__ if hasattr(m, '__file__') else pkm.utils.promises.__file__])
    sched.adopt(m)
    return m, sched


def run(S, sched):
    try:
        sched.run()
        return True
    except Deadlock as e:
        S.check(False, 'no thread waits for ever', info=lambda: str(e))
        return False


class Boom(Exception):
    pass


def promise(S, switches, completers, waiters, registrants):
    """one completes, others wait and register callbacks"""
    m, sched = promises_of(S, switches)
    deferred = m.Deferred()
    p = deferred.promise()
    fails, callback_fails, twice = S.flag('fails'), bool(registrants) and S.flag('callback fails'), completers == 2
    called, seen = [], []

    def outcome(q, *a):
        try:
            return ('value', q.result(*a))
        except Boom as e:
            return ('error', str(e))

    def complete():
        if fails:
            deferred.fail(Boom('failed'))
        else:
            deferred.complete(7)

    def again():
        try:
            complete()
        except ValueError:
            return 'refused'

    def wait():
        return outcome(p)

    def register(i):
        def callback(q):
            called.append((i, q is p, q.is_completed(), outcome(q, False)))
            if callback_fails:
                raise Boom(f'callback {i}')
            return i
        return outcome(p.when_completed(callback))
    want = ('error', 'failed') if fails else ('value', 7)
    completers = [sched.spawn(again) for _ in range(completers)]
    waiters = [sched.spawn(wait) for _ in range(waiters)]
    registrants = [sched.spawn(register, i) for i in range(registrants)]
    S.check(not p.is_completed() and not p.is_failed() and not p.is_succeeded(), 'nothing is done at first')
    if not run(S, sched):
        return
    S.check([t.error for t in sched.threads] == [None] * len(sched.threads), 'nothing else fails', info=lambda: [repr(t.error) for t in sched.threads])
    S.check(sorted(t.result is None for t in completers) == ([False, True] if twice else [True]), 'a promise is completed once', info=lambda: [t.result for t in completers])
    S.check([t.result for t in waiters] == [want] * len(waiters), 'who waits gets the result', info=lambda: [t.result for t in waiters])
    S.check(sorted(c[0] for c in called) == list(range(len(registrants))), 'every callback is called once', info=lambda: called)
    S.check(all(c[1:] == (True, True, want) for c in called), 'callbacks see the completed promise', info=lambda: called)
    S.check([t.result for t in registrants] == [('error', f'callback {i}') if callback_fails else ('value', i) for i in range(len(registrants))],
            'the next promise has the result of the callback', info=lambda: [t.result for t in registrants])
    S.check((p.is_completed(), p.is_failed(), p.is_succeeded()) == (True, bool(fails), not fails), 'the promise knows what has become of it', info=lambda: (p.is_failed(), p.is_succeeded()))
    S.check(outcome(p) == want and outcome(p, False) == want, 'the result stays')
    S.reach('completed')


def pool(S, n, switches):
    """a failing operation: the others end, or never begin, before the failure is reported"""
    m, sched = promises_of(S, switches)
    S.patch(warnings, 'warn', lambda *a, **k: None)
    fails = [bool(S.flag(f'fails {i}')) for i in range(n)]
    runs = []

    class Future:
        """a future as thread pools have them, run by a thread of its own"""

        def __init__(self, i):
            self.i, self.state, self.callbacks, self.lock = i, 'pending', [], sched.Lock()

        def work(self):
            with self.lock:
                if self.state == 'cancelled':
                    return
                self.state = 'running'
            runs.append(('begin', self.i))
            sched.point()
            runs.append(('end', self.i))
            self.finish('done')

        def finish(self, state):
            with self.lock:
                self.state = state
                callbacks = list(self.callbacks)
            for c in callbacks:
                c(self)

        def cancel(self):
            with self.lock:
                if self.state in ('running', 'done'):
                    return False
                if self.state == 'cancelled':
                    return True
                self.state = 'cancelled'
            self.finish('cancelled')
            return True

        def result(self):
            if self.state == 'cancelled':
                raise Cancelled()
            if fails[self.i]:
                raise Boom(str(self.i))
            return self.i

        def add_done_callback(self, c):
            with self.lock:
                if self.state not in ('done', 'cancelled'):
                    self.callbacks.append(c)
                    return
            c(self)

    class Cancelled(Exception):
        pass
    futures = [Future(i) for i in range(n)]

    def main():
        promises = [m.Promise.wrap_future(f, lambda fu: fu.result()) for f in futures]
        started.append(1)
        try:
            m.await_all_promises_or_cancel(promises)
            return None
        except Boom as e:
            return str(e)
        finally:
            at_end.extend(runs)
    started, at_end = [], []
    t = sched.spawn(main)
    for f in futures:
        sched.spawn(f.work)
    if not run(S, sched):
        return
    began, ended = {i for w, i in runs if w == 'begin'}, {i for w, i in at_end if w == 'end'}
    S.check(t.error is None, 'only the failure is reported', info=lambda: repr(t.error))
    S.check((t.result is None) == (not any(fails)), 'a failure is reported', info=lambda: (fails, t.result))
    if t.result is not None:
        S.check(fails[int(t.result)] and int(t.result) in began, 'the failure that is reported has happened', info=lambda: t.result)
    S.check(began == ended, 'nothing runs on when the end is reported', info=lambda: (runs, at_end))
    if not any(fails):
        S.check(ended == set(range(n)), 'all operations are done', info=lambda: runs)
    S.reach('failed' if t.result is not None else 'done')


def cached(S, threads, switches, instances):
    """a property that is computed once, for each instance, and again when it is forgotten"""
    m = raw('pkm.utils.properties', 'raw_pkm_properties')
    sched = Scheduler(S, switches, [pkm.utils.properties.__file__])
    sched.adopt(m)
    frozen, first_fails = S.flag('frozen'), S.flag('the first computation fails')
    computed = []

    @dataclass(frozen=bool(frozen))
    class Thing:
        name: str

        def value(self):
            computed.append(self.name)
            k = len(computed)
            sched.point()
            if first_fails and k == 1:
                raise Boom('first')
            return (self.name, k)

    p = m.cached_property(Thing.value)
    p.__set_name__(Thing, 'value')
    Thing.value = p
    things = [Thing(chr(97 + i)) for i in range(instances)]
    forget = S.flag('forgotten') and not frozen

    def get(i):
        try:
            return things[i % instances].value
        except Boom:
            return 'failed'

    def drop():
        del things[0].value
    getters = [sched.spawn(get, i) for i in range(threads)]
    if forget:
        sched.spawn(drop)
    if not run(S, sched):
        return
    S.check(all(t.error is None for t in sched.threads), 'nothing else fails', info=lambda: [repr(t.error) for t in sched.threads])
    failed = [t for t in getters if t.result == 'failed']
    S.check(len(failed) == (1 if first_fails else 0), 'a failure is seen by who has caused it', info=lambda: [t.result for t in getters])
    for i, t in enumerate(getters):
        if t.result != 'failed':
            S.check(t.result and t.result[0] == things[i % instances].name, 'every instance has its own value', info=lambda: t.result)
    for thing in things:
        mine = [t.result for i, t in enumerate(getters) if things[i % instances] is thing and t.result != 'failed']
        if not (forget and thing is things[0]):
            S.check(len(set(mine)) <= 1, 'all get the same value', info=lambda: mine)
            S.check(computed.count(thing.name) == (1 if mine else 0) + (1 if failed and computed[0] == thing.name else 0), 'the value is computed once', info=lambda: computed)
        else:
            S.check(computed.count(thing.name) <= 3 + len(failed), 'the value is computed no more than it is asked for', info=lambda: computed)
    again = [thing.value for thing in things] if not any(t.done is False for t in sched.threads) else []
    S.check(len(again) == instances, 'the value can be had again')
    S.reach('computed')


def cases(tier):
    t = tier == 'thorough'
    k = 2 if t else 1
    out = [Case(f'promise: {c} complete, {w} wait, {r} register', promise, dict(switches=s, completers=c, waiters=w, registrants=r),
                bounds=f'{c + w + r} threads, {s} switches at any line', reach=['completed'], timeout=2400 if t else 600, best_effort=t)
           for c, w, r, s in ((1, 1, 0, 1 + k), (1, 0, 1, 1 + k if t else 1), (2, 0, 1, k), (1, 1, 1, k), (1, 0, 2, k), (1, 2, 0, k), (2, 1, 1, 1))]
    out += [
           Case('operations 2', pool, dict(n=2, switches=k), bounds=f'two operations, {k} switches at any line', reach=['failed', 'done'], timeout=2400 if t else 600, best_effort=t),
           Case('operations 3', pool, dict(n=3, switches=1), bounds='three operations, one switch at any line', reach=['failed', 'done'], timeout=2400 if t else 600, best_effort=t)]
    for threads, instances in ((2, 1), (3, 1), (3, 2)):
        out.append(Case(f'property of {instances} by {threads}', cached, dict(threads=threads, switches=k if threads == 2 else 1, instances=instances),
                        bounds=f'{threads} threads, {k if threads == 2 else 1} switches at any line', reach=['computed'], timeout=2400 if t else 600, best_effort=t))
    return out
