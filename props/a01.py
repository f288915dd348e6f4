"""A01: commands run in an environment with exactly its variables, and nothing of it stays behind."""
import io
import os
import subprocess
from pathlib import Path

from pkm.api.environments import environment
from pkm.api.environments.environment import Environment
from pkm.utils import processes
from pkm.utils.monitors import Monitor
from pkm.utils.processes import ProcessExecutionExitEvent, ProcessExecutionMonitoredOp, ProcessExecutionOutputLineEvent

from sx.session import Case

PROPERTY = 'A01'
ASSUMPTIONS = ['a process writes its output in any pieces and exits with any code, as the pipe and process objects of the standard library tell']


class Introspection:
    def __init__(self, scripts):
        self.paths = {'scripts': scripts}


def env_of(S, name):
    e = Environment.__new__(Environment)
    e._env_path, e._interpreter_path, e._use_user_site = Path('/envs') / name, Path(f'/envs/{name}/bin/python'), False
    e._introspection = Introspection(f'/envs/{name}/bin')
    return e


class Boom(Exception):
    pass


def variables(S, prefix, n):
    """any variables: each is absent or has any text"""
    out = {}
    for name in ('PATH', 'VIRTUAL_ENV', 'OTHER'):
        if S.flag(f'{prefix}has {name}'):
            out[name] = S.str(f'{prefix}{name}', '/:a', 0, n) if name != 'OTHER' else 'o'
    return out



def equal(S, a, b):
    if set(a) != set(b):
        return False
    return S.all([a[k] == b[k] for k in a])


def activation(S, n, nested):
    env = variables(S, '', n)
    before = dict(env)
    fails = S.flag('fails')
    body = S.pick('body', ['nothing', 'changes the path', 'removes the path', 'removes the environment', 'sets another'])
    outer, inner = env_of(S, 'outer'), env_of(S, 'inner')

    def check_in(e, was):
        bin = f'/envs/{e._env_path.name}/bin'
        S.check(env['VIRTUAL_ENV'] == str(e._env_path), 'the environment is active')
        old = was.get('PATH')
        S.check(env['PATH'] == (bin if old is None or len(old) == 0 else bin + os.pathsep + old), 'its scripts come first, then what was there',
                info=lambda: (str(env['PATH']), str(old)))
        S.check(('OTHER' in env) == ('OTHER' in was), 'the other variables stay')
    try:
        with outer.activate(env):
            check_in(outer, before)
            if nested:
                middle = dict(env)
                with inner.activate(env):
                    check_in(inner, middle)
                S.check(equal(S, env, middle), 'the outer environment is active again', info=lambda: (env, middle))
            if body == 'changes the path':
                env['PATH'] = '/x'
            elif body == 'removes the path':
                del env['PATH']
            elif body == 'removes the environment':
                del env['VIRTUAL_ENV']
            elif body == 'sets another':
                env['NEW'] = 'n'
            if fails:
                raise Boom()
        raised = False
    except Boom:
        raised = True
    S.check(raised == fails, 'a failure is passed on')
    if body == 'sets another':
        S.check(env.pop('NEW', None) == 'n', 'what the command has set stays')
    S.check(equal(S, env, before), 'the variables are what they were', info=lambda: ({k: str(v) for k, v in env.items()}, {k: str(v) for k, v in before.items()}))
    S.reach('activated')


class Pipe:
    def __init__(self, chunks, log):
        self.lines, self.log, self.closed = b''.join(chunks).splitlines(keepends=True), log, False
        self.at = 0

    def readline(self):
        if self.at < len(self.lines):
            self.at += 1
            return self.lines[self.at - 1]
        return b''

    def read(self, *a):
        rest, self.at = b''.join(self.lines[self.at:]), len(self.lines)
        return rest

    def __iter__(self):
        return iter(self.readline, b'')

    def close(self):
        self.closed = True


class Process:
    """subprocess.Popen: ends some time after its output did"""

    def __init__(self, S, args, kwargs, output, code, late):
        self.args, self.kwargs, self.stdout, self.code, self.late = args, kwargs, Pipe(output, []), code, late
        self.returncode, self.stderr, self.stdin, self.waited = None, None, None, False

    def poll(self):
        if self.stdout.at < len(self.stdout.lines):
            return None
        if self.late:
            self.late -= 1
            return None
        self.returncode = self.code
        return self.code

    def wait(self, timeout=None):
        self.waited = True
        self.returncode = self.code
        return self.code

    def kill(self):
        self.returncode = -9

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stdout.close()
        self.wait()


LINES = [b'one\n', b'\xff\xfe\n', 'é ü\n'.encode(), b'\n', b'no end', b'\r\n', b'  x \t\n']


def run(S, n):
    output = [LINES[S.pick(f'line{i}', list(range(len(LINES))))] for i in range(S.conc(S.int('lines', 0, n)))]
    code = S.pick('exit code', [0, 1, -9, 255])
    started, seen, exits = [], [], []

    def popen(cmd, **kwargs):
        started.append(Process(S, cmd, kwargs, output, code, S.conc(S.int('late', 0, 2))))
        return started[-1]
    S.patch(processes.subprocess, 'Popen', popen)
    own = {'PATH': '/usr/bin', 'HOME': '/h'}
    S.patch(environment.os, 'environ', dict(own))
    requested = S.pick('variables', [None, {}, {'A': 'b'}, {'PATH': '/p'}])
    given = None if requested is None else dict(requested)
    kwargs = {'cwd': '/tmp'} if given is None else {'cwd': '/tmp', 'env': given}

    def on_line(e: ProcessExecutionOutputLineEvent):
        seen.append(e.line)

    def on_exit(e: ProcessExecutionExitEvent):
        exits.append(e.exit_code)

    def on_proc(op: ProcessExecutionMonitoredOp):
        op.add_listeners(on_line=on_line, on_exit=on_exit)
    e = env_of(S, 'x')
    with Monitor.listen(on_proc=on_proc):
        done = e.run_proc(['prog', 'a b', '-c'], **kwargs)
    S.check(done.returncode == code and exits == [code], 'the exit code is told', info=lambda: (done, exits, code))
    S.check(len(started) == 1 and list(started[0].args) == ['prog', 'a b', '-c'], 'the command is run with its arguments', info=lambda: started)
    p = started[0]
    S.check(p.kwargs['cwd'] == '/tmp' and p.kwargs['stdout'] == subprocess.PIPE, 'the command runs where it is told')
    want = dict(own if requested is None else requested)
    want['PATH'] = '/envs/x/bin' + (os.pathsep + want['PATH'] if want.get('PATH') else '')
    want['VIRTUAL_ENV'] = '/envs/x'
    S.check(p.returncode == code, 'the command has ended')
    S.check([s for s in seen] == [b.decode(errors='replace').strip() for b in b''.join(output).splitlines(keepends=True)], 'every line of the output is told', info=lambda: (seen, output))
    S.check(environment.os.environ == own and given == requested, 'the variables of others stay as they are', info=lambda: (environment.os.environ, given))
    S.reach('run')


def variables_of_command(S, prefix_n):
    """what a command sees when it is started"""
    own = variables(S, 'own ', prefix_n)
    requested = variables(S, 'requested ', prefix_n) if S.flag('requested') else None
    way = S.pick('way', ['run', 'exec'])
    S.patch(environment.os, 'environ', dict(own))
    seen = []
    e = env_of(S, 'x')

    def started(*a, **k):
        seen.append((a, dict(k['env'] if way == 'run' else a[2])))
        if way == 'exec':
            raise Boom()
    given = None if requested is None else dict(requested)
    if way == 'run':
        S.patch(environment, 'monitored_run', started)
        e.run_proc(['prog', 'x'], **({} if given is None else {'env': given}))
    else:
        S.patch(processes.os, 'execvpe', started)
        try:
            e.exec_proc('prog', ['x'], given)
        except Boom:
            pass
    base = own if requested is None else requested
    want = dict(base)
    old = base.get('PATH')
    want['PATH'] = '/envs/x/bin' if old is None or len(old) == 0 else '/envs/x/bin' + os.pathsep + old
    want['VIRTUAL_ENV'] = '/envs/x'
    S.check(len(seen) == 1 and equal(S, seen[0][1], want), 'the command has the variables of the environment and those that are asked for, or its own',
            info=lambda: ({k: str(v) for k, v in seen[0][1].items()}, {k: str(v) for k, v in want.items()}))
    if way == 'exec':
        S.check(seen[0][0][0] == 'prog' and list(seen[0][0][1]) == ['prog', 'x'], 'the command gets its name and arguments', info=lambda: seen[0][0][:2])
    S.check(equal(S, environment.os.environ, own), 'the own variables stay')
    if given is not None:
        S.check(equal(S, given, requested), 'the given variables stay')
    S.reach('started')


def cases(tier):
    t = tier == 'thorough'
    n = 3 if t else 2
    return [Case('activation', activation, dict(n=n, nested=False), bounds=f'every set of variables with texts of up to {n} characters', reach=['activated'], timeout=600),
            Case('nested activation', activation, dict(n=n, nested=True), bounds=f'every set of variables with texts of up to {n} characters', reach=['activated'], timeout=600),
            Case('variables of commands', variables_of_command, dict(prefix_n=1), bounds='every set of own and requested variables', reach=['started'], timeout=600),
            Case('output of commands', run, dict(n=3 if t else 2), bounds='up to two (thorough: three) lines of seven kinds, four exit codes', reach=['run'], timeout=600)]
