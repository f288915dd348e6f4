"""U01: publishing uploads every distribution of the version whole, with its metadata, and to the chosen repository only."""
import hashlib
import builtins
from base64 import b64encode

from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package_metadata import PackageMetadata
from pkm.api.projects.project import Project, ProjectDirectories
from pkm.api.repositories.repository import AuthParam, AuthParamType, RepositoryPublisher
from pkm.repositories.pypi_repository import PypiRepositoryBuilder
from pkm.utils.commons import UnsupportedOperationException
from pkm.utils.http.http_client import HttpClient, HttpException
from pkm.utils.http.mfd_payload import FormField, MultipartFormDataPayload

from props._fs import snap
from props._net import Server
from props.a01 import Boom
from sx.session import Case

PROPERTY = 'U01'
ASSUMPTIONS = ['servers understand HTTP/1.1 and multipart forms as RFC 7578 defines them; the boundary is not part of the content',
               'the cipher of the store of credentials is sound: what is not encrypted with the same password is refused']


def parts_of(content_type, body):
    """the parts of a form: [(name, filename, headers, content)], or None when it is not complete"""
    kind, _, rest = content_type.partition(';')
    key, _, boundary = rest.strip().partition('=')
    if kind != 'multipart/form-data' or key != 'boundary' or not 0 < len(boundary) <= 70:
        return None
    delimiter = b'--' + boundary.encode()
    first, *parts = (b'\r\n' + body).split(b'\r\n' + delimiter)
    if first or not parts or parts[-1] not in (b'--', b'--\r\n'):
        return None
    out = []
    for p in parts[:-1]:
        head, sep, content = p.partition(b'\r\n\r\n')
        if not sep or not head.startswith(b'\r\n'):
            return None
        headers = {k.lower(): v.strip() for k, _, v in (line.partition(':') for line in head[2:].decode().split('\r\n'))}
        disposition = [x.strip() for x in headers.get('content-disposition', '').split(';')]
        names = {k: v.strip('"') for k, _, v in (x.partition('=') for x in disposition[1:])}
        if disposition[0] != 'form-data' or 'name' not in names:
            return None
        out.append((names['name'], names.get('filename'), headers, content))
    return out


CONTENTS = [b'', b'PK\x03\x04 wheel', b'a\r\n--b\r\n\r\n--' * 9, bytes(range(256)) * 32, bytes(range(256)) * 32 + b'x', b'0123456789' * 2000 + b'\r\n']
METADATA = {'Metadata-Version': '2.1', 'Name': 'my-p', 'Version': '1.2', 'Summary': 'é "x"; y', 'Requires-Dist': ['a >=1', 'b; extra == "x"'],
            'Provides-Extra': ['x'], 'Classifier': [], 'Description': '# T\r\n\n--x\n', 'Description-Content-Type': 'text/markdown', 'Requires-Python': '>=3.8'}
FILES = {'my_p-1.2-py3-none-any.whl': ('bdist_wheel', 'py3'), 'my_p-1.2-3fix-cp39.cp310-abi3-linux_x86_64.whl': ('bdist_wheel', 'cp39.cp310'),
         'my-p-1.2.tar.gz': ('sdist', 'source')}


def upload(S, answers, sends, contents):
    root = S.scratch()
    S.patch(builtins, 'print', lambda *a, **k: None)
    name = S.pick('file', list(FILES) if len(contents) < 3 and not sends else list(FILES)[:1])
    file = root / name
    file.write_bytes(S.pick('content', contents))
    tries, count = [], []
    broken = S.free_int('fails at', 0, None) if sends else -1

    def on_send(sock):
        count.append(1)
        if broken == len(count) - 1:
            raise BrokenPipeError('broken')

    def answer(method, host, path, headers, body):
        k = S.pick(f'answer{len(tries)}', answers) if len(tries) < 3 else ('ok', 200)
        tries.append(k)
        how, status = k
        extra = {'Location': 'http://other.org/steal'} if 300 <= status < 400 else {}
        return status, extra, b'said', 'plain' if how != 'close' else 'close', how if how in ('silent', 'reset') else None
    server = Server(S, answer, on_send)
    url, where = S.pick('repository', [('http://h.org/up', ('h.org', '/up/')), ('https://h.org/a?b=c', None)][:1])
    from pkm.api.pkm import pkm
    S.patch(type(pkm), 'httpclient', HttpClient(root / 'cache'))
    repo = PypiRepositoryBuilder().build('mine', 'http://h.org/json/', url)
    auth = {'username': 'me', 'password': S.pick('password', ['p:ä', '']) if len(contents) < 3 and not sends else 'p'}
    metadata = PackageMetadata.from_config(dict(METADATA))
    raised = None
    try:
        repo.publisher.publish(auth, metadata, file)
    except (HttpException, OSError) as e:
        raised = e
    inf = lambda: (name, tries, len(count), repr(raised), [(r[:3], len(r[4])) for r in server.requests])
    content = file.read_bytes()
    want = {k.replace('-', '_').lower(): v if isinstance(v, list) else [v] for k, v in METADATA.items()}
    want['requires_dist'] = [str(Dependency.parse(d)) for d in want['requires_dist']]
    want |= {'filetype': [FILES[name][0]], 'pyversion': [FILES[name][1]], 'md5_digest': [hashlib.md5(content).hexdigest()],
             'sha256_digest': [hashlib.sha256(content).hexdigest()], 'blake2_256_digest': [hashlib.blake2b(content, digest_size=32).hexdigest()],
             ':action': ['file_upload'], 'protocol_version': ['1']}
    for method, host, path, headers, body in server.requests:
        S.check((method, host, path) == ('POST', *where), 'only the repository is sent anything', info=inf)
        S.check(headers.get('authorization') == 'Basic ' + b64encode(f'me:{auth["password"]}'.encode()).decode(), 'the credentials are sent', info=inf)
        parts = parts_of(headers.get('content-type', ''), body)
        S.check(parts is not None, 'what is uploaded is a complete form', info=inf)
        got = {}
        for n, f, h, c in parts:
            if n == 'content':
                S.check(f == name and c == content, 'the file is uploaded as it is', info=lambda: (inf(), f, len(c), len(content)))
            else:
                got.setdefault(n, []).append(c.decode())
        S.check([p[0] for p in parts].count('content') == 1, 'the file is uploaded', info=inf)
        S.check(got == {k: v for k, v in want.items() if v}, 'the metadata and the digests are uploaded', info=lambda: (inf(), got, want))
    answered = [t for t in tries if t[0] in ('ok', 'close')]
    S.check((raised is None) == (len(answered) == 1 and answered[0][1] == 200), 'publishing succeeds when the repository says so', info=inf)
    S.check(len(answered) <= 1, 'what has been answered is not uploaded again', info=inf)
    S.check(len(tries) <= 3, 'it is not tried for ever', info=inf)
    if tries and tries[0] == ('ok', 200):
        S.check(raised is None, 'what the repository takes is published', info=inf)
    if sends and not (broken >= len(count)):
        S.check(tries[:1] != [('ok', 200)] or raised is None, 'a connection that breaks is tried again', info=inf)
    S.check(file.read_bytes() == content and file.exists(), 'the file is left alone')
    S.reach('failed' if raised else 'published')


def forms(S, n):
    """forms of any fields"""
    fields, want, again = [], [], 0
    count = S.pick('fields', [0, 1, 2])
    for i in range(count):
        kind = S.pick(f'kind{i}', ['text', 'bytes', 'stream', 'file'])
        text = S.conc(S.str(f'value{i}', 'aé\r\n-', 0, n if count == 1 else 1))
        name = f'f{i}'
        if kind == 'text':
            fields.append(FormField(name, text))
        elif kind == 'bytes':
            fields.append(FormField(name, text.encode()))
        else:
            import io

            class Stream(io.BytesIO):
                """gives any number of the bytes that are asked for"""
                def readinto(self, b, i=i):
                    m = 1 if again or len(b) < 2 or S.flag(f'read{i}.{self.tell()}') else 2
                    part = self.read(min(m, len(b)))
                    b[:len(part)] = part
                    return len(part)
            fields.append(FormField(name, Stream(text.encode()), filename='x.whl' if kind == 'file' else None))
        want.append((name, 'x.whl' if kind == 'file' else None, text.encode()))
    payload = MultipartFormDataPayload(fields, chunk_size=S.pick('chunk', [1, 2, 64]))
    for again in range(2):
        body = b''.join(bytes(c) for c in payload)
        parts = parts_of(payload.content_type(), body)
        S.check(parts is not None, 'a form is complete', info=lambda: body)
        S.check([(a, b, d) for a, b, c, d in parts] == want, 'a form has its fields', info=lambda: (again, body, want))
    S.reach('formed')


class Publisher(RepositoryPublisher):
    def __init__(self, S, params, fails=-1):
        super().__init__('there')
        self.S, self.params, self.fails, self.got = S, params, fails, []

    def authentication_params(self):
        return self.params

    def publish(self, auth_args, package_meta, distribution):
        self.got.append((auth_args, package_meta, distribution))
        if self.fails == len(self.got) - 1:
            raise Boom()


def project_of(S, root):
    path = root / 'project'
    path.mkdir()
    (path / 'pyproject.toml').write_text('[project]\nname = "my-p"\nversion = "1.2"\ndescription = "d"\ndependencies = ["a"]\n')
    project = Project.load(path)
    return project, path


def files_of(root):
    return {k: v for k, v in snap(root).items() if v is not None}


def projects(S):
    """what is in the directory of the version is published"""
    root = S.scratch()
    project, path = project_of(S, root)
    names = [n for n in FILES if S.flag(n)]
    built = S.flag('built')
    dist = path / 'dist'
    other = dist / '1.1'
    other.mkdir(parents=True)
    (other / 'my-p-1.1.tar.gz').write_text('old')
    explicit = S.pick('directory', [False, True])
    into = root / 'elsewhere' if explicit else dist / '1.2'
    if built:
        into.mkdir()
        for n in names:
            (into / n).write_text(n)
        if S.flag('has directory'):
            (into / 'editable').mkdir()
            (into / 'editable' / 'x-1.2-py3-none-any.whl').write_text('')
    fails = S.int('fails', -1, 2)
    publisher = Publisher(S, [], fails)

    class Repo:
        name = 'there'

        def __init__(self, p):
            self.publisher = p
    can = S.flag('can publish')
    to = S.pick('to', [publisher, Repo(publisher)]) if can else Repo(None)
    before = files_of(root)
    raised = None
    try:
        project.publish(to, {'u': 'v'}, into if explicit else None)
    except (FileNotFoundError, UnsupportedOperationException, Boom) as e:
        raised = e
    inf = lambda: (names, built, explicit, can, repr(raised), publisher.got)
    failing = S.all([built, can, fails >= 0, fails < len(names)])
    S.check((raised is None) == S.all([built, can, S.not_(failing)]), 'publishing fails when it is not possible', info=inf)
    files = [d for _, _, d in publisher.got]
    if raised is None:
        S.check(sorted(files) == sorted(into / n for n in names), 'exactly the distributions of the version are published', info=inf)
        S.reach('published')
    else:
        S.check(len(set(files)) == len(files) and set(files) <= {into / n for n in names}, 'only distributions of the version are published', info=inf)
        S.check(not files or failing, 'nothing is published when it is not possible', info=inf)
        S.reach('failed')
    for auth, meta, _ in publisher.got:
        raw = meta.to_config()
        S.check(auth == {'u': 'v'} and (raw['Name'], str(raw['Version']), raw['Summary'], [str(d) for d in raw['Requires-Dist']]) == ('my-p', '1.2', 'd', ['a']),
                'the metadata is that of the project', info=lambda: raw)
    after = files_of(root)
    S.check(after == before, 'publishing changes no file', info=lambda: (inf(), sorted({k for k in {*after, *before} if after.get(k, 0) != before.get(k, 0)})))


def commands(S):
    """the command asks for what it needs"""
    from pkm_cli.controllers import prj_controller
    from pkm_cli.controllers.prj_controller import PrjController
    root = S.scratch()
    project, path = project_of(S, root)
    types = [AuthParamType.STRING, AuthParamType.PASSWORD, AuthParamType.FILE]
    params = [AuthParam(f'p{i}', S.pick(f'type{i}', types)) for i in range(S.pick('parameters', [0, 1, 2]))]
    known = {p.name: S.str(f'known {p.name}', 'a', 0, 1) for p in params if S.flag(f'has {p.name}')}
    publishable = S.flag('publishable')
    built = S.flag('built')
    calls, asked = [], []
    publisher = Publisher(S, params)
    S.patch(Project, 'build', lambda self, *a, **k: calls.append('build'))
    S.patch(Project, 'is_built_in_default_location', lambda self: bool(built))
    S.patch(Project, 'publish', lambda self, p, auth, *a: calls.append((p, dict(auth), *a)))

    class Management:
        def publisher_for(self, name):
            return publisher if name == 'there' and publishable else None
    S.patch(Project, 'repository_management', Management())

    class Ask:
        def __init__(self, kind):
            self.kind = kind

        def __call__(self, name):
            asked.append((name, self.kind))
            return self

        def unsafe_ask(self):
            return 'asked'

    class Q:
        text, password, path = Ask(AuthParamType.STRING), Ask(AuthParamType.PASSWORD), Ask(AuthParamType.FILE)
    S.patch(prj_controller, 'q', Q)
    given = dict(known)
    raised, result = None, None
    try:
        result = PrjController(project).publish('there', known)
    except UnsupportedOperationException as e:
        raised = e
    inf = lambda: (params, known, bool(publishable), bool(built), calls, asked, result)
    S.check((raised is None) == publishable, 'a repository that does not take packages is refused', info=inf)
    S.check(known == given, 'what is known is left alone', info=inf)
    if raised is None:
        need = [p for p in params if not (p.name in known and known[p.name] != '')]
        want = {p.name: 'asked' if p in need else known[p.name] for p in params}
        S.check(asked == [(p.name, p.type) for p in need], 'what is not known is asked for', info=inf)
        S.check([c for c in calls if c == 'build'] == ([] if built else ['build']) and calls[-1] == (publisher, want), 'what is built is published with the credentials', info=inf)
        S.check(result == want, 'the credentials are told', info=inf)
        S.reach('published')
    else:
        S.check(not [c for c in calls if c != 'build'], 'nothing is published', info=inf)
        S.reach('failed')


def store(S, n):
    """credentials that are kept"""
    from pkm_cli.auth import publish_auth_store
    from pkm_cli.auth.publish_auth_store import InvalidToken, PublishAuthenticationStore

    class Cipher:
        def __init__(self, password):
            self.key = hashlib.sha256(password.encode()).digest()[:4]

        def encrypt(self, b):
            return self.key + b[::-1]

        def decrypt(self, b):
            if b[:4] != self.key:
                raise InvalidToken()
            return b[4:][::-1]
    S.patch(publish_auth_store, '_make_cipher', Cipher)
    prompts, answers = [], []
    S.patch(publish_auth_store, 'Display', type('D', (), {'ask_password': staticmethod(lambda p: (prompts.append(p), answers.pop(0))[1]),
                                                         'print': staticmethod(lambda *a: None)}))
    path = S.scratch() / 'etc' / 'store'
    mine, wrong = 'secret', S.pick('try', ['secret', 'other', 'secret '])
    S.check(not PublishAuthenticationStore(path).is_configuration_exists(), 'nothing is kept at first')
    answers = [mine, 'misspelled', mine, mine]
    st = PublishAuthenticationStore(path)
    want = {}
    for i in range(S.pick('edits', [1, 2, 3])):
        repo = S.pick(f'repository{i}', ['pypi', 'my repo'])
        if S.pick(f'edit{i}', ['add', 'remove']) == 'add':
            want[repo] = {'username': 'u', 'password': S.conc(S.str(f'password{i}', 'a"\\é\n=', 0, n)) if i == 0 else 'another'}
            st.add_auth_args(repo, want[repo])
        elif repo in want:
            st.rm_auth_args(repo)
            del want[repo]
        if i == 0 and path.exists() and S.flag('again'):
            st = PublishAuthenticationStore(path)
            st.unlock(mine)
    S.check(path.exists() or not want, 'credentials are kept')
    if not path.exists():
        return
    later = PublishAuthenticationStore(path)
    raised = None
    S.check(not later.is_unlocked() and later.is_configuration_exists(), 'a store has to be unlocked')
    try:
        later.unlock(wrong)
    except OSError as e:
        raised = e
    S.check((raised is None) == (wrong == mine), 'the password is needed', info=lambda: (wrong, raised))
    if raised is None:
        for repo in ('pypi', 'my repo', 'unknown'):
            S.check(later.auth_args_for(repo) == want.get(repo), 'credentials are found again', info=lambda: (repo, want, later.auth_args_for(repo)))
        S.reach('found')
    else:
        S.check(not later._unlocked_configuration, 'nothing is told without the password')
        S.reach('refused')


def cases(tier):
    t = tier == 'thorough'
    both = ['published', 'failed']
    kinds = [('ok', 200), ('ok', 201), ('ok', 400), ('ok', 303), ('close', 200), ('close', 500), ('silent', 0), ('reset', 0)]
    return [
        Case('upload answers', upload, dict(answers=kinds, sends=False, contents=CONTENTS[1:3]), bounds='three files, answers of eight kinds', reach=both, timeout=800, sandbox=True),
        Case('upload contents', upload, dict(answers=[('ok', 200), ('silent', 0), ('ok', 403)], sends=False, contents=CONTENTS), bounds='contents around the size of a block',
             reach=both, timeout=800, sandbox=True),
        Case('upload breaks', upload, dict(answers=[('ok', 200), ('ok', 400), ('reset', 0)], sends=True, contents=CONTENTS[1:3] if t else CONTENTS[1:2]),
             bounds='connections that break anywhere', reach=both, timeout=800, sandbox=True),
        Case('forms', forms, dict(n=3 if t else 2), bounds='up to two fields of any kind, streams that give any part of what is asked for', reach=['formed'], timeout=800),
        Case('projects', projects, {}, bounds='any distributions, failures', reach=both, timeout=800, sandbox=True),
        Case('commands', commands, {}, bounds='up to two parameters', reach=both, timeout=800, sandbox=True),
        Case('store', store, dict(n=2 if t else 1), bounds='up to three edits', reach=['found', 'refused'], timeout=800, sandbox=True),
    ]
