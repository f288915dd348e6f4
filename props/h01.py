"""H01: what is fetched over http is what the server has; what is kept from earlier fetches is complete and current."""
import hashlib
from datetime import datetime, timezone
from email.utils import parsedate_to_datetime
from pathlib import Path

from pkm.utils.http.cache_directive import CacheDirective
from pkm.utils.http.http_client import HttpClient, HttpException, Url

from props._net import Server
from sx.session import Case

PROPERTY = 'H01'
ASSUMPTIONS = ['the server follows the HTTP protocol, apart from the faults listed', 'the clock is real, the dates of answers are fixed']

BIG = b'x' * 300
DATES = ['Mon, 06 Jan 2020 10:00:00 GMT', 'Tue, 07 Jan 2020 10:00:00 GMT', 'Wed, 08 Jan 2020 10:00:00 GMT', 'Thu, 09 Jan 2020 10:00:00 GMT']


class World:
    """resources (path -> number of the present content) and how the server treats requests"""

    def __init__(self, S, validators):
        self.S, self.version, self.n, self.how, self.validators = S, {}, 0, None, validators

    def body(self, path, v=None):
        return f'{path} v{self.version.get(path, 0) if v is None else v} '.encode() * 9

    def answer(self, method, host, path, headers, body):
        how, enc = self.how(path)
        if how in ('silent', 'reset'):
            return 200, {}, b'', 'plain', how
        if how == 'error':
            return 500, {}, BIG, enc, None
        if how == 'missing':
            return 404, {}, BIG, enc, None
        v = self.version.get(path, 0)
        tags = {'ETag': f'"{v}"'} if 'etag' in self.validators else {}
        if 'date' in self.validators:
            tags['Last-Modified'] = DATES[v]
        else:
            tags['Date'] = DATES[3]
        if headers.get('if-none-match') == f'"{v}"' or 'if-none-match' not in headers and 'date' in self.validators and \
                'if-modified-since' in headers and parsedate_to_datetime(headers['if-modified-since']) >= parsedate_to_datetime(DATES[v]):
            self.not_modified()
            return 304, tags, b'', 'plain', None
        return 200, tags, self.body(path), enc, how if how in ('truncated', 'torn') else None


URLS = [('http://h.org/a/file.whl', '/a/file.whl'), ('http://h.org/a/file.whl?v=2#sha256=1', '/a/file.whl?v=2'), ('https://h.org/other', '/other')]


def history(S, n, modes, encodings, directives, urls, events, validators=None):
    """fetches of resources, with anything happening to them and to the server in between"""
    root = S.scratch() / 'cache'
    w = World(S, validators or S.pick('validators', [('etag',), ('date',), ()]))
    server = Server(S, w.answer)
    client = HttpClient(root)
    good = {}  # url -> content of the last fetch that came to an end
    log = []
    for i in range(n):
        url, path = S.pick(f'url{i}', URLS[:urls] if i else URLS[:1])
        directive = S.pick(f'directive{i}', directives)
        tries = []

        def how(p, i=i):
            if len(tries) > 3:
                return 'ok', 'plain'
            k = f'answer{i}.{len(tries)}'
            mode = S.pick(k, modes)
            # what is cut off can only be noticed when the length is known
            tries.append((mode, S.pick(k + ' encoding', [e for e in encodings if (mode, e) != ('truncated', 'close')])))
            return tries[-1]
        w.how = how
        w.not_modified = lambda: tries.__setitem__(-1, ('ok', 'plain'))
        if i:
            for event in [S.pick(f'event{i}', events)]:
                u0, p0 = URLS[0]
                if event == 'changed':
                    w.version[p0] = w.version.get(p0, 0) + 1
                elif event == 'lost data':
                    for p in root.rglob('file.whl'):
                        p.unlink()
                    good.pop(u0, None)
                    good.pop(URLS[1][0], None)
                elif event == 'new client':
                    client = HttpClient(root)
                elif event == 'cleared':
                    client.clear_resources()
                    good.clear()
        d = {'always': CacheDirective.allways(), 'ask': CacheDirective.ask_for_update(), 'never': CacheDirective.never(), 'default': None,
             'since': CacheDirective.if_retrieved_after(datetime(2020, 1, 7, tzinfo=timezone.utc))}[directive]
        before = len(server.requests)
        try:
            res = client.fetch_resource(url, d)
            got = res.data.read_bytes()
        except HttpException as e:
            got = None
            status = e.response.status if e.response is not None else None
        asked = server.requests[before:]
        inf = lambda: [log, url, directive, tries, got, [(r[0], r[2]) for r in asked], {u: str(b) for u, b in good.items()}]
        log.append((url, directive, list(tries)))
        S.trace(got)
        S.check(all(r[2] == path and r[0] == 'GET' and r[1] == 'h.org' for r in asked), 'another resource is asked for', info=inf)
        S.check(all(not ({'if-none-match', 'if-modified-since'} & set(r[3])) or url in good and directive == 'ask' for r in asked), 'an update of nothing is asked for',
                info=inf)
        current = w.body(path)
        cached = directive in ('always', 'default') and url in good
        last = tries[-1][0] if tries else None
        if got is not None:
            if not asked:
                S.check(directive in ('always', 'default', 'since') and url in good, 'a resource is taken from nowhere', info=inf)
                S.check(got == good.get(url), 'what is kept is not what was fetched', info=inf)
                S.reach('kept')
            else:
                S.check(last == 'ok', 'a failed fetch gives a result', info=inf)
                S.check(got == current, 'the result is not what the server has', info=inf)
                S.check(not cached, 'what is kept is asked for again', info=inf)
                S.reach('fetched')
            good[url] = got
            if events and i == n - 1:
                for f in ('sha256', 'md5'):
                    right = hashlib.new(f, got).hexdigest()
                    for _ in range(2):
                        S.check(res.is_hash_valid(f, right) and not res.is_hash_valid(f, right[:-1] + 'g'), 'the digest is another one', info=inf)
        else:
            # two attempts at a time for broken connections
            broken = [t for t, _ in tries if t in ('silent', 'reset')]
            S.check(not cached, 'what is kept is not used', info=inf)
            S.check(last != 'ok' or len(broken) > 1, 'a good answer is an error', info=inf)
            if last in ('silent', 'reset'):
                S.check(len(broken) == len(tries) == 2, 'a broken connection is not tried again', info=inf)
            if last in ('error', 'missing'):
                S.check(status == {'error': 500, 'missing': 404}[last], 'the status is another one', info=inf)
            if last in ('truncated', 'torn'):
                good.pop(url, None)
            S.reach('failed')
    inside = [p for p in root.rglob('*') if p.is_file()]
    S.check(not [p for p in root.parent.iterdir() if p != root], 'files are written outside of the cache', info=lambda: list(map(str, root.parent.iterdir())))


HOPS = [('/to/b.whl', None, '/to/b.whl'), ('b.whl?x=1', None, '/from/b.whl?x=1'), ('../c', None, '/c'), ('http://o.org/d?y=2#z', 'o.org', '/d?y=2'),
        ('//p.org/e', 'p.org', '/e'), ('https://h.org', 'h.org', '/'), ('?q=1', None, '/from/a.whl?q=1'), (None, None, None), ('http://h.org/from/a.whl', 'h.org', '/from/a.whl')]


def redirects(S, limit):
    """redirections to anywhere"""
    root = S.scratch() / 'cache'
    path = [('h.org', '/from/a.whl')]
    kinds = []

    def answer(method, host, p, headers, body):
        S.check((host, p) == path[-1], 'a redirection leads elsewhere', info=lambda: [kinds, path, host, p])
        i = len(kinds)
        stop = S.flag(f'end{i}') if i < limit else True
        if stop:
            kinds.append('end')
            return 200, {}, b'content', 'plain', None
        loc, h, target = S.pick(f'to{i}', HOPS) if i == 0 else S.pick(f'to{i}', [HOPS[0], HOPS[3]])
        kinds.append(loc)
        path.append((h or path[-1][0], target))
        return S.pick(f'status{i}', [301, 302, 303, 307, 308]) if i == 0 else 302, {'Location': loc} if loc else {}, BIG, 'plain', None

    server = Server(S, answer)
    client = HttpClient(root)
    try:
        got = client.fetch_resource('http://h.org/from/a.whl#frag').data.read_bytes()
    except HttpException:
        got = None
    S.trace(got)
    inf = lambda: [kinds, path]
    if kinds[-1] == 'end':
        S.check(got == b'content', 'redirections are not followed', info=inf)
        S.reach('arrived')
    else:
        S.check(got is None, 'a result without an answer', info=inf)
        S.check(kinds[-1] is None or len(kinds) == 4, 'redirections are not followed', info=inf)
        S.reach('given up')
    again = None
    kinds[:], path[1:] = [], []
    if got is not None:
        n = len(server.requests)
        S.check(client.fetch_resource('http://h.org/from/a.whl#frag').data.read_bytes() == got and len(server.requests) == n, 'what was found is not kept', info=inf)


def places(S, n):
    """where what is fetched is kept"""
    root = S.scratch() / 'deep' / 'er' / 'cache'
    parts = [S.pick(f'part{i}', ['a', '..', 'b.whl', '.', '']) for i in range(n)]
    tail = S.pick('query', ['', '?x=../../y', '?a=/b'])
    p = '/' + '/'.join(parts)
    url = 'http://h.org' + (p if p != '/' else S.pick('root', ['', '/'])) + tail
    bodies = {}

    def answer(method, host, path, headers, body):
        S.check(path == ((p if url.startswith('http://h.org/') else '/') + tail), 'another resource is asked for', info=lambda: [url, path])
        return 200, {}, path.encode(), 'plain', None
    server = Server(S, answer)
    client = HttpClient(root)
    res = client.fetch_resource(url)
    S.trace(res.data.read_bytes())
    top = root.parents[2]
    files = [f for f in top.rglob('*') if f.is_file()]
    S.check(all(root in f.resolve().parents for f in files), 'files are written outside of the cache', info=lambda: [url, list(map(str, files))])
    S.check(res.data.is_file() and res.fetch_info.is_file() and len(files) == 2, 'something else is written', info=lambda: [url, list(map(str, files))])
    S.check(client.fetch_resource(url).data == res.data and len(server.requests) == 1, 'what was fetched is not found again', info=lambda: url)
    res.delete()
    S.check(not any(f.is_file() for f in top.rglob('*')), 'deleting leaves files', info=lambda: [url, list(map(str, files))])
    S.check(root.is_dir() and not any(root.iterdir()), 'deleting leaves directories', info=lambda: url)
    S.reach('kept')


def apart(S):
    """two resources that differ in any part of their urls"""
    def url(i):
        scheme = S.pick(f'scheme{i}', ['http', 'https'])
        port = S.pick(f'port{i}', [None, 80, 443, 8080])
        host = S.pick(f'host{i}', ['h.org', 'o.org'])
        path = S.pick(f'path{i}', ['/a/f.whl', '/b/f.whl', '/f.whl', '/a/f.tar'])
        query = S.pick(f'query{i}', ['', 'x=1', 'x=2'])
        text = f'{scheme}://{host}' + (f':{port}' if port else '') + path + (f'?{query}' if query else '')
        return text, (host, port or (443 if scheme == 'https' else 80), path + (f'?{query}' if query else ''))
    content = lambda host, port, path: f'{host} {port} {path}'.encode()
    server = Server(S, lambda method, host, path, headers, body: (200, {'ETag': '"1"'}, content(host, server.port, path), 'plain', None))
    root = S.scratch() / 'cache'
    client = HttpClient(root)
    (u, a), (v, b) = ('http://h.org/a/f.whl', ('h.org', 80, '/a/f.whl')), url(1)
    first = client.fetch_resource(u)
    second = client.fetch_resource(v)
    info = lambda: [u, v, second.data.read_bytes()]
    S.check(second.data.read_bytes() == content(*b), 'a resource is taken for another one', info=info)
    S.check(first.data.read_bytes() == content(*a), 'a resource is replaced by another one', info=info)
    n = len(server.requests)
    S.check(n == 1 + (u != v) or a == b, 'resources are fetched once', info=info)
    S.check(HttpClient(root).fetch_resource(v).data.read_bytes() == content(*b) and len(server.requests) == n, 'what was fetched is not found again', info=info)
    S.reach('same' if u == v else 'other')


def ports(S):
    scheme, port = S.pick('scheme', ['http', 'https']), S.int('port', 1, 65535)
    text = str(Url(scheme, 'h.org', port, '/p', '', ''))
    if port == (443 if scheme == 'https' else 80):
        S.reach('default')
        S.check(text == f'{scheme}://h.org/p', 'a url is printed differently', info=lambda: text)
    else:
        S.reach('port')
        S.check(text == f'{scheme}://h.org:{port}/p', 'a url is printed differently', info=lambda: text)


def urls(S):
    scheme, host = S.pick('scheme', ['http', 'https']), S.pick('host', ['h.org', 'a-b.c'])
    path, q = S.pick('path', ['', '/', '/a/b%20c', '/a//b']), S.pick('query', ['', 'x=1&y=/?'])
    f, port = S.pick('fragment', ['', 'sha256=0', 'a?b']), S.pick('port', [None, 1, 80, 443, 8080])
    default = 443 if scheme == 'https' else 80
    t = f'{scheme}://{host}' + ('' if port is None else f':{port}') + path + (f'?{q}' if q else '') + (f'#{f}' if f else '')
    v = Url.parse(t)
    S.trace(str(v))
    S.check((v.scheme, v.host, v.port, v.path, v.query_string, v.fragment) == (scheme, host, port or default, path, q, f), 'a url is read differently', info=lambda: [t, v])
    S.check(Url.parse(str(v)) == v, 'a printed url is another one', info=lambda: [t, str(v)])
    S.check(v.connection_part() == f'{scheme}://{host}:{port or default}', 'another server is connected to', info=lambda: [t, v.connection_part()])
    S.check(v.resource_part() == (path or '/') + (f'?{q}' if q else ''), 'the server is asked for something else', info=lambda: v.resource_part())
    S.reach('read')


def cases(tier):
    deep = tier == 'thorough'
    T = 1500 if deep else 300
    D = ['always', 'ask', 'never']
    out = [Case(f'history {" ".join(v) or "none"}', history, dict(n=3, modes=['ok'], encodings=['plain'], directives=[*D, 'since', 'default'] if deep else D, urls=2,
                                                                validators=v, events=['changed', 'none', 'lost data', 'new client', 'cleared']),
                'sequences of three fetches and what happens in between', reach=('kept', 'fetched'), timeout=T, sandbox=True, weight=9)
           for v in ([('etag',), ('date',), ('none',), ('etag', 'date')] if deep else [('etag',), ('date',), ('none',)])]
    out += [
           Case('faults', history, dict(n=2, modes=['ok', 'error', 'missing', 'truncated', 'torn', 'silent', 'reset'], encodings=['plain'], directives=D, urls=3 if deep else 1,
                                        validators=None if deep else ('etag',),
                                        events=['none', 'changed']),
                'two fetches with any faults', reach=('kept', 'fetched', 'failed'), timeout=T, sandbox=True, weight=9),
           Case('encodings', history, dict(n=2, modes=['ok', 'missing', 'truncated', 'torn'], validators=('date',), encodings=['plain', 'chunked', 'gzip', 'close'], directives=['ask'], urls=3, events=['none']),
                'two fetches of the same or other resources with any encodings of the answers', reach=('fetched', 'failed'), timeout=T, sandbox=True, weight=6),
           Case('redirects', redirects, dict(limit=4), 'up to five redirections', reach=('arrived', 'given up'), timeout=T, sandbox=True, weight=3),
           Case('places', places, dict(n=3), 'paths of three parts', reach=('kept',), timeout=T, sandbox=True, weight=3),
           Case('apart', apart, {}, 'two urls that differ in any parts', reach=('same', 'other'), timeout=T, sandbox=True),
           Case('urls', urls, {}, 'urls of any form', reach=('read',), timeout=T),
           Case('ports', ports, {}, 'any port', reach=('default', 'port'), timeout=T)]
    if deep:
        out.append(Case('faults 3', history, dict(n=3, modes=['ok', 'error', 'truncated', 'torn', 'silent', 'reset'], encodings=['plain'], directives=['always', 'ask'], urls=2,
                                                  events=['none', 'changed', 'lost data']),
                        'three fetches with faults', reach=('kept', 'fetched', 'failed'), timeout=T, sandbox=True, weight=9, best_effort=True))
    return out
