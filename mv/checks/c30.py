"""C30: files of remote registries are what their listing promises, however the download goes."""
import contextlib, hashlib, http.server, io, json, os, resource, shutil, signal, socket, struct, sys, tempfile, threading, time
from pathlib import Path
from ..core import Result, rng, short_tb

RULE = ('remote registries of both kinds (listing at the address of the files, at another address, given as a dictionary, in a local file) are used against an HTTP server of the monitor on the loopback network, which has two versions of the same '
        'files and answers single requests with errors (404, 500, 503), other contents, too few bytes, or nothing, for files and for listings; a history of uses (construct, look up, read, ask for availability, damage the local copy, empty it, change '
        'the version, server away and back) is compared with a model: the right contents of the right version, or an error while a fault is in effect, and never more requests than needed; '
        'the first use is also ended at every line by SIGKILL, or by a full disk (file size limit), and done by several processes at once with random delays, after which (and in which) everything must be found; '
        'the registries of the package itself are started with lists of tags (pre-releases, other tags) and a tag or the latest to use; '
        'distinct = histories, non-trivial = at least one fault, ending or concurrent use')
ASSUMPTIONS = ['that two processes make the same folder at once, of which pooch itself takes no care, is tried again', 'a listing that is cut without notice (no length given) or replaced by other well-formed text is not noticed', 'names of files have no blanks', 'a file of an unchanged listing is fetched once, the listing once']
MINIMUM = {'quick': dict(evaluations=250, distinct=200, requests=1200, contents=1800, faults=150, killed=100, limited=3, together=100, started=40),
           'thorough': dict(evaluations=2500, distinct=2000, requests=20000, killed=800, together=800, started=300)}


def chunks(tier, seed):
    n, per = (32, 10) if tier == 'quick' else (200, 20)
    return [dict(seed=seed, n=i, per=per, start=[1, 6]) for i in range(n)]


class Server:
    """files by path; faults: path -> list of the coming answers; log of requests"""

    def __init__(self):
        outer = self
        self.files, self.faults, self.log, self.lock, self.down = {}, {}, [], threading.Lock(), False

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = 'HTTP/1.1'

            def log_message(self, *a):
                pass

            def reset(self):
                self.close_connection = True
                with contextlib.suppress(OSError):
                    self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                    self.connection.close()

            def answer(self, body):
                with outer.lock:
                    outer.log.append((self.command, self.path))
                    fault = outer.faults[self.path].pop(0) if outer.faults.get(self.path) else None
                    data = outer.files.get(self.path)
                    if outer.down:
                        fault = 'reset'
                    delay = outer.delay() if outer.delay else 0
                time.sleep(delay)
                if fault == 'reset':
                    return self.reset()
                if isinstance(fault, int) or data is None:
                    text = b'<html>no such thing</html>\n'
                    self.send_response(fault or 404)
                    self.send_header('Content-Length', str(len(text)))
                    self.end_headers()
                    return self.wfile.write(text) if body else None
                if fault == 'other':
                    data = bytes(reversed(data)) + b'?'
                self.send_response(200)
                self.send_header('Content-Type', 'text/plain; charset=utf-8')
                self.send_header('Content-Length', str(len(data)))
                self.end_headers()
                if body and fault == 'short':
                    self.wfile.write(data[:len(data) // 2])
                    return self.reset() if outer.hard else self.close()
                if body:
                    self.wfile.write(data)

            def close(self):
                self.close_connection = True

            def do_GET(self):
                self.answer(True)

            def do_HEAD(self):
                self.answer(False)

        class S(http.server.ThreadingHTTPServer):
            daemon_threads = True
            request_queue_size = 64

            def handle_error(self, *a):
                pass
        self.delay, self.hard = None, False
        self.http = S(('127.0.0.1', 0), H)
        self.url = f'http://127.0.0.1:{self.http.server_port}'
        self.thread = threading.Thread(target=self.http.serve_forever, kwargs=dict(poll_interval=.02), daemon=True)
        self.thread.start()

    def close(self):
        self.http.shutdown()
        self.http.server_close()


class World:
    def __init__(self, r, server, root):
        self.r, self.server, self.root = r, server, root
        self.name = f'reg{r.randint(0, 1 << 40)}'
        self.kind = r.choice(['github', 'github', 'elsewhere', 'dict', 'module'])
        self.versions = r.choice([['v1.2.3', 'v1.3.0'], ['v3.5.20', 'v3.5.2'], ['v10.0.0', 'v9.9'], ['v1.2.0', 'v1.2.0-rc1'], ['v2.0.0-rc1', 'v2.0.0-rc2'], ['v1.2', 'v1.2.0'], ['v4.0.0-beta', 'v4.0.0']])
        self.owner = f'/{r.choice(["own", "a.b"])}/{self.name}'
        self.listing_owner = self.owner if self.kind != 'elsewhere' else f'/lists/{self.name}'
        names = r.sample(['Arm.comp', 'optics/Arm2.comp', 'optics/Guide.comp', 'share/lib.h', 'share/lib.c', 'data/Al.laz', 'x.y.txt', 'sources/Source.comp', 'monitors/deep/er/L_mon.comp', 'long_name_' + 'n' * 60 + '.txt'], r.randint(2, 8))
        self.files = {}
        self.listing_name = r.choice([None, 'list.txt', f'{self.name}-registry.txt']) if self.kind != 'module' else None
        many = r.random() < .3
        for v in self.versions:
            mine = {}
            for n in names:
                if r.random() < .1 and len(mine):
                    continue
                mine[n] = self.text(n, v)
            if many:     # a listing of some size
                mine.update({f'bulk/file{i}.txt': f'{v} {i}\n' for i in range(400)})
            self.files[v] = mine
            for n, t in mine.items():
                server.files[self.path(v, n)] = t.encode()
            if self.kind in ('github', 'elsewhere'):
                lines = [f'{n} {self.hash(t)}' for n, t in mine.items()]
                server.files[self.listing_path(v)] = ('\n'.join(lines) + r.choice(['', '\n', '\n', '\n\n'])).encode()

    def text(self, n, v):
        stem = n.split('/')[-1].rsplit('.', 1)[0]
        mark = self.r.randint(1, 10 ** 6)
        if n.endswith('.comp'):
            return f'DEFINE COMPONENT {stem}\nSETTING PARAMETERS (int mark={mark})\nTRACE %{{ /* {v} é */ %}}\nEND\n'
        return f'{v} {n} {mark} é\n' * self.r.choice([1, 1, 3, 3000])

    def hash(self, t):
        how = self.r.choice(['sha256', 'sha256', 'md5', 'sha1', ''])
        h = hashlib.new(how or 'sha256', t.encode()).hexdigest()
        return f'{how}:{h}' if how else h

    def path(self, v, n):
        return f'{self.owner}/{n}' if self.kind == 'module' else f'{self.owner}/raw/{v}/{n}'

    def listing_path(self, v):
        return f'{self.listing_owner}/raw/{v}/{self.listing_name or self.name + "-registry.txt"}'

    def make(self, v):
        from mccode_antlr.reader.registry import GitHubRegistry, ModuleRemoteRegistry
        if self.kind == 'module':
            f = self.root / f'{v}.txt'
            if not f.exists():
                f.write_text(''.join(f'{n} {self.hash(t)}\n' for n, t in self.files[v].items()))
            # the files at one address are those of one version
            self.server.files.update({self.path(v, n): t.encode() for n, t in self.files[v].items()})
            for n in self.files[self.versions[0]].keys() | self.files[self.versions[1]].keys():
                if n not in self.files[v]:
                    self.server.files.pop(self.path(v, n), None)
            return ModuleRemoteRegistry(self.name, f'{self.server.url}{self.owner}/', f)
        kw = dict(filename=self.listing_name) if self.listing_name else {}
        if self.kind == 'elsewhere':
            kw['registry'] = self.server.url + self.listing_owner
        if self.kind == 'dict':
            kw['registry'] = {n: self.hash(t) for n, t in self.files[v].items()}
        return GitHubRegistry(self.name, self.server.url + self.owner, v, **kw)


class Monitor:
    """the model of what is in the local cache, and the comparison"""

    def __init__(self, w, res):
        self.w, self.res, self.history, self.bad = w, res, [], False
        self.have, self.listed = set(), set()      # (version, file), version
        self.seen = 0

    def case(self):
        w = self.w
        return dict(kind=w.kind, versions=w.versions, files={v: sorted(f)[:12] for v, f in w.files.items()}, listing=w.listing_name, history=self.history[-25:])

    def fail(self, mech, msg):
        self.bad = True
        self.res.violate(mech, msg, self.case())

    def requests(self):
        with self.w.server.lock:
            new = self.w.server.log[self.seen:]
            self.seen = len(self.w.server.log)
        self.res.count('requests', len(new))
        return new

    def expect_requests(self, what, want):
        got = self.requests()
        if sorted(got) != sorted(want):
            self.fail('requests', f'{what}: the server was asked for {got}, expected {want}')

    def construct(self, v, fault=None):
        w = self.w
        self.history.append(['construct', v, fault])
        remote = w.kind in ('github', 'elsewhere') and v not in self.listed
        if fault is not None:
            w.server.faults[w.listing_path(v)] = [fault]
            self.res.count('faults')
        faulty = (fault is not None or w.server.down) and remote
        want = [('GET', w.listing_path(v))] if remote else []
        try:
            reg = w.make(v)
        except Exception as ex:
            w.server.faults.clear()
            if not faulty:
                self.fail('construct', f'constructing the registry of version {v} failed: {short_tb(ex)}')
            self.requests()
            return None
        w.server.faults.clear()
        if faulty:
            self.fail('construct:fault', f'the listing could not be retrieved ({fault or "server away"}), but there is a registry with the files {reg.filenames()[:5]}')
            return None
        self.listed.add(v)
        if sorted(reg.filenames()) != sorted(w.files[v]):
            self.fail('listing', f'the files are {sorted(reg.filenames())[:9]}, listed are {sorted(w.files[v])[:9]}')
        self.expect_requests('constructing', want)
        return reg

    def read(self, reg, v, n, fault=None, how='contents'):
        w = self.w
        self.history.append([how, v, n, fault])
        stored = (v, n) in self.have or (w.kind == 'module' and any(n in w.files[o] and (o, n) in self.have and w.files[o][n] == w.files[v].get(n) for o in w.versions))
        if fault is not None:
            w.server.faults[w.path(v, n)] = [fault]
            self.res.count('faults')
        faulty = n not in w.files[v] or (not stored and (fault is not None or w.server.down))
        want = [('GET', w.path(v, n))] if n in w.files[v] and not stored else []
        self.res.count('contents')
        try:
            if how == 'component':
                from mccode_antlr.reader import Reader
                stem = n.split('/')[-1].rsplit('.', 1)[0]
                got = int(str(Reader(registries=[reg]).get_component(stem).get_parameter('mark').value))
            elif how == 'path':
                got = Path(reg.path(n)).read_text()
            elif how == 'short':
                got = reg.contents(n.split('/')[-1])
            else:
                got = reg.contents(n)
        except Exception as ex:
            w.server.faults.clear()
            if not faulty:
                self.fail('read', f'{how} of {n} in version {v} failed: {short_tb(ex)}')
            self.requests()
            if (v, n) in self.have and not stored:
                self.have.discard((v, n))
            return
        w.server.faults.clear()
        if faulty:
            self.fail('read:fault', f'{how} of {n} in version {v} could not be retrieved ({fault or "server away"}), but is {str(got)[:60]!r}')
            return
        good = w.files[v][n]
        if how == 'component':
            good = int(good.split('mark=')[1].split(')')[0])
        if got != good:
            self.fail('contents', f'{how} of {n} in version {v} is {str(got)[:80]!r}, expected {str(good)[:80]!r}')
        self.expect_requests(f'{how} of {n}', want)
        self.have.add((v, n))
        if w.kind == 'module':      # both versions have one place
            self.have -= {(o, n) for o in w.versions if o != v}

    def available(self, reg, v, n):
        w = self.w
        self.history.append(['available', v, n])
        gone = self.w.r.random() < .5
        if gone:
            w.server.faults[w.path(v, n)] = [404]
        try:
            got = bool(reg.is_available(n))
        except Exception as ex:
            w.server.faults.clear()
            if not w.server.down:
                self.fail('available', f'is_available({n!r}) failed: {short_tb(ex)}')
            self.requests()
            return
        w.server.faults.clear()
        if got is not (not gone and not w.server.down):
            self.fail('available', f'is_available({n!r}) is {got}, although the server {"does not have" if gone else "has"} it')
        bad = [x for x in self.requests() if x[0] != 'HEAD' or x[1] != w.path(v, n)]
        if bad:
            self.fail('available', f'is_available({n!r}) asked the server for {bad}')

    def local(self, reg, n):
        return Path(reg.pooch.abspath) / n


FAULTS = [404, 500, 503, 'other', 'short', 'reset']


def history(r, server, root, res):
    w = World(r, server, root)
    m = Monitor(w, res)
    server.hard = r.random() < .5
    regs = {}
    faults = 0
    for _ in range(r.randint(6, 20)):
        if m.bad:
            break
        v = r.choice(w.versions)
        if w.kind == 'module':
            v = w.versions[0] if not regs else r.choice(list(regs)) if r.random() < .85 else v
        reg = regs.get(v)
        if reg is None or r.random() < .15 or (w.kind == 'module' and server.files.get(w.path(v, next(iter(w.files[v])))) != next(iter(w.files[v].values())).encode()):
            fault = r.choice(FAULTS) if r.random() < .35 and w.kind in ('github', 'elsewhere') and v not in m.listed else None
            if fault == 'other':
                fault = 404     # other well-formed text is not noticed
            faults += fault is not None
            reg = m.construct(v, fault)
            if reg is None:
                continue
            if w.kind == 'module':
                regs.clear()
            regs[v] = reg
            continue
        names = sorted(w.files[v])
        n = r.choice(names[:6] if len(names) > 100 and r.random() < .5 else names)
        k = r.random()
        if k < .12 and (v, n) in m.have:
            f = m.local(reg, n)
            m.history.append(['damage', v, n])
            faults += 1
            f.write_text(r.choice(['', 'something else\n', f.read_text()[:-1]]))
            m.have.discard((v, n))
        elif k < .18 and (v, n) in m.have:
            m.history.append(['remove', v, n])
            m.local(reg, n).unlink()
            m.have.discard((v, n))
        elif k < .26:
            server.down = not server.down
            m.history.append(['server', 'away' if server.down else 'back'])
        elif k < .36:
            m.available(reg, v, n)
        elif k < .42:
            m.read(reg, v, r.choice(['No.comp', 'rm.comp', 'nothing.h', 'list.txt']) + 'x')
        else:
            fault = r.choice(FAULTS) if r.random() < .35 and (v, n) not in m.have else None
            faults += fault is not None
            how = r.choice(['contents', 'contents', 'path', 'short'] + (['component'] * 3 if n.endswith('.comp') else []))
            m.read(reg, v, n, fault, how)
    server.down = False
    for v, reg in list(regs.items()):
        for n in r.sample(sorted(w.files[v]), min(5, len(w.files[v]))):
            if not m.bad:
                m.read(reg, v, n)
    res.case([m.case()['kind'], m.history], faults > 0, dict(kind=w.kind, history=m.history[:6]))


def in_child(work, tracer=None, before=None, wait=True):
    """run `work` in a forked process -> (pid, pipe); its result comes through the pipe"""
    a, b = os.pipe()
    pid = os.fork()
    if pid:
        os.close(b)
        return pid, a
    os.close(a)
    code = 3
    try:
        signal.alarm(60)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        with open(os.devnull, 'w') as null:
            os.dup2(null.fileno(), 1)
            os.dup2(null.fileno(), 2)
        if before:
            before()
        if tracer:
            threading.settrace(tracer)
            sys.settrace(tracer)
        try:
            out = ['ok', work()]
        except BaseException as ex:
            out = ['error', f'{type(ex).__name__}: {str(ex)[:300]}']
        sys.settrace(None)
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY,) * 2)
        data = json.dumps(out).encode()
        while data:
            data = data[os.write(b, data):]
        code = 0
    finally:
        os._exit(code)


def result_of(pid, pipe):
    data = b''
    while True:
        part = os.read(pipe, 1 << 16)
        if not part:
            break
        data += part
    os.close(pipe)
    _, status = os.waitpid(pid, 0)
    return (json.loads(data) if data else None), status


def lines_of(packages, act):
    """a trace function which calls act at every line of the given packages"""
    def local(frame, event, arg):
        if event == 'line':
            act()
        return local

    def tracer(frame, event, arg):
        f = frame.f_code.co_filename
        return local if any(p in f for p in packages) else None
    return tracer


def use(w, v, names):
    def work():
        reg = w.make(v)
        return {n: contents(reg, n) for n in names}

    def contents(reg, n):
        try:
            return reg.contents(n)
        except FileExistsError as ex:
            # pooch itself makes the folder of a file which is not there yet, and another process was faster
            tb = ex.__traceback__
            inside = []
            while tb:
                inside.append(tb.tb_frame.f_code.co_filename)
                tb = tb.tb_next
            if not any(f.endswith('/pooch/core.py') for f in inside):
                raise
            return reg.contents(n)
    return work


def ended(r, server, root, res):
    """the first use is ended somewhere; the next one must find everything"""
    w = World(r, server, root)
    v = w.versions[0]
    names = r.sample(sorted(w.files[v]), min(3, len(w.files[v])))
    want = {n: w.files[v][n] for n in names}
    if w.kind == 'module':
        w.make(v)
    steps = []

    def count():
        steps.append(1)
    way = r.choice(['kill', 'kill', 'kill', 'limit'])
    case = dict(kind=w.kind, way=way, names=names, listed=len(w.files[v]))
    packages = ['mccode_antlr/reader'] if r.random() < .7 else ['mccode_antlr/reader', '/pooch/']
    if way == 'kill':
        # how many lines there are
        def counted():
            use(w, v, names)()
            return len(steps)
        cache = os.environ['XDG_CACHE_HOME']
        os.environ['XDG_CACHE_HOME'] = cache + '-count'
        got, status = result_of(*in_child(counted, lines_of(packages, count)))
        os.environ['XDG_CACHE_HOME'] = cache
        if got is None or got[0] != 'ok':
            res.violate('first-use', f'the first use fails: {got} {status}', case)
            return
        n = got[1]
        points = sorted(r.sample(range(1, n + 1), min(6, n)))
        res.count('lines', n)
    else:
        points = [r.choice([0, 1, 40, 100, 300, 1000])]
    for point in points:
        shutil.rmtree(os.environ['XDG_CACHE_HOME'], ignore_errors=True)
        case['point'] = point
        if way == 'kill':
            left = [point]

            def step():
                left[0] -= 1
                if left[0] == 0:
                    os.kill(os.getpid(), signal.SIGKILL)
            got, status = result_of(*in_child(use(w, v, names), lines_of(packages, step)))
            if os.WIFSIGNALED(status):
                res.count('killed')
        else:
            def limit():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (point, resource.RLIM_INFINITY))
            got, status = result_of(*in_child(use(w, v, names), None, limit))
            if got and got[0] == 'error':
                res.count('limited')
            elif got and got[1] != want:
                res.violate('limited:contents', f'with files of at most {point} bytes the contents are {str(got)[:200]}', case)
        got, status = result_of(*in_child(use(w, v, names)))
        res.count('contents', len(names))
        if got != ['ok', want]:
            res.violate('after-end', f'after a use ended by {way} at {point}, the next one gives {str(got)[:300]} ({status}), expected the contents of {names}', case)
            return
        res.case([case['kind'], way, point, names, v, len(w.files[v])], True, None)


def together(r, server, root, res):
    """several processes use a registry for the first time at once"""
    w = World(r, server, root)
    v = w.versions[0]
    if w.kind == 'module':
        w.make(v)
    names = r.sample(sorted(w.files[v]), min(3, len(w.files[v])))
    want = {n: w.files[v][n] for n in names}
    seeds = [r.randrange(1 << 30) for _ in range(r.choice([2, 4, 6]))]
    scale = r.choice([0, .0005, .002, .01])
    delays = rng('c30-delay', seeds[0])
    server.delay = lambda: delays.random() * r.choice([0, .01])
    running = []
    go = time.monotonic() + .05
    for s in seeds:
        q = rng('c30-child', s)

        def pause(q=q):
            if q.random() < .3:
                time.sleep(q.random() * scale)

        def before(q=q):
            time.sleep(max(0, go - time.monotonic()) + q.random() * scale * 10)
        running.append(in_child(use(w, v, names), lines_of(['mccode_antlr/reader'], pause) if scale else None, before))
    results = [result_of(*x) for x in running]
    server.delay = None
    case = dict(kind=w.kind, processes=len(seeds), names=names, listed=len(w.files[v]), delay=scale)
    res.count('together', len(seeds))
    res.count('contents', len(names) * len(seeds))
    res.case([case, seeds], True, None)
    for got, status in results:
        if got != ['ok', want]:
            res.violate('together', f'of {len(seeds)} processes which use the registry at once, one gets {str(got)[:300]} ({status}), expected the contents of {names}', case)
            return


STARTED = """
import json, sys
try:
    from mccode_antlr.reader.registry import MCSTAS_REGISTRY, MCXTRACE_REGISTRY, LIBC_REGISTRY
    out = ['ok', [[x.name, x.version, x.contents(n)] for x, n in zip((MCSTAS_REGISTRY, MCXTRACE_REGISTRY, LIBC_REGISTRY), sys.argv[1:])]]
except Exception as ex:
    out = ['error', f'{type(ex).__name__}: {str(ex)[:300]}']
print('\\n' + json.dumps(out))
"""


def startup(r, server, root, res):
    """the registries of the package itself: of the version which is asked for, or of the latest"""
    import subprocess
    versions = {tuple(r.choice([r.randint(0, 12), r.choice([1, 3, 10])]) for _ in range(3)) for _ in range(r.randint(1, 6))}
    tags = ['v' + '.'.join(map(str, v)) for v in versions]
    best = 'v' + '.'.join(map(str, max(versions)))
    extra = []
    if r.random() < .6:
        top = max(versions)
        later = f'v{top[0] + 1}.0.0'
        extra = r.sample([f'{later}-rc1', f'{later}-beta', f'release-{later}', 'nightly', 'w99', f'{later}.dev1', 'before-v99', f'{r.choice(tags)}-rc2'], r.randint(1, 3))
    lines = [f'{r.getrandbits(160):040x}\trefs/tags/{t}' for t in r.sample(tags + extra, len(tags + extra))]
    lines = [x for line in lines for x in ([line, line + '^{}'] if r.random() < .3 else [line])]
    server.files['/lists/info/refs?service=git-upload-pack'] = ('\n'.join(lines) + '\n').encode()
    which = [r.choice(['Arm.comp', 'share/lib.h', f'{n}.txt']) for n in ('mcstas', 'mcxtrace', 'libc')]
    text = {}
    for t in tags + extra:
        for name, f in zip(('mcstas', 'mcxtrace', 'libc'), which):
            # one folder of files for all three, as they are in one repository
            text[t, f] = f'{t} {f}\n'
            server.files[f'/src/raw/{t}/{f}'] = text[t, f].encode()
            server.files[f'/lists/raw/{t}/{name}-registry.txt'] = f'{f} sha256:{hashlib.sha256(text[t, f].encode()).hexdigest()}\n'.encode()
    asked = r.choice(['latest', 'latest', 'Latest', r.choice(tags), r.choice(tags), 'v77.1.0', 'main'])
    expect = best if asked.lower() == 'latest' else asked if asked in tags else None
    env = dict(os.environ, XDG_CACHE_HOME=str(root / 'cache'), MCCODEANTLR_MCCODE_POOCH__REGISTRY=f'{server.url}/lists', MCCODEANTLR_MCCODE_POOCH__SOURCE=f'{server.url}/src',
               MCCODEANTLR_MCCODE_POOCH__TAG=asked, GIT_TERMINAL_PROMPT='0')
    case = dict(tags=tags + extra, asked=asked)
    for _ in range(r.choice([1, 1, 2])):
        done = subprocess.run([sys.executable, '-c', STARTED, *which], env=env, capture_output=True, text=True, timeout=120)
        out = (done.stdout.strip().split('\n') or [''])[-1]
        got = json.loads(out) if out.startswith('[') else ['nothing', done.stderr[-300:]]
        res.count('started')
        res.case([case, which], bool(extra), case)
        if expect is None:
            if got[0] != 'error':
                res.violate('startup', f'{asked!r} is not one of the tags {tags}, and is used: {str(got)[:300]}', case)
                return
        elif got != ['ok', [[name, expect, text[expect, f]] for name, f in zip(('mcstas', 'mcxtrace', 'libc'), which)]]:
            res.violate('startup', f'asked for {asked!r} of the tags {tags} and {extra} the registries are {str(got)[:400]}, expected those of {expect!r}', case)
            return


def run(desc, res: Result):
    import requests, pooch, mccode_antlr.reader, mccode_antlr.comp, mccode_antlr.grammar  # noqa: what the forked processes use
    old = os.environ.get('XDG_CACHE_HOME')
    server = Server()
    try:
        for n in range(desc['per']):
            r = rng('c30', desc['seed'], desc['n'], n)
            root = Path(tempfile.mkdtemp(prefix='remote'))
            os.environ['XDG_CACHE_HOME'] = str(root / 'cache')
            server.files.clear(), server.faults.clear(), server.log.clear()
            server.down = server.hard = False
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    if n % 5 == 3:
                        ended(r, server, root, res)
                    elif n % 5 == 4:
                        together(r, server, root, res)
                    else:
                        history(r, server, root, res)
                if n in desc['start']:
                    startup(rng('c30-start', desc['seed'], desc['n'], n), server, root, res)
            finally:
                shutil.rmtree(root, ignore_errors=True)
    finally:
        server.close()
        if old is not None:
            os.environ['XDG_CACHE_HOME'] = old
