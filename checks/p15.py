"""P15: hostile command lines and malformed input end in results or in a clean refusal."""
import os, sys, re, json, struct, subprocess, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, report
ck = vlib.Check('P15', rule='one evaluation = one run of the real program (AddressSanitizer + UndefinedBehaviorSanitizer build, unprivileged user, scratch directory) on a generated hostile command line or malformed input; the run must end by itself with an ordinary '
                'status, say something, raise no sanitizer report, and every number a test drew must be the value of some entry of the input; distinct = distinct command line + input',
                assumptions=['sizes asked for fit in memory and in the time allowed', 'decimal entries are reduced modulo 2^32', 'writing without end is what "-o -t 0" asks for and is not run'])
R = ck.rng
eva = vlib.evmain('asan')
NOBODY = 65534
base = os.path.join(vlib.scratch(), 'p15')
os.mkdir(base)
os.chmod(base, 0o755)
os.chmod(eva, 0o755)
CHEAP = [0, 2, 3, 8, 9, 13, 15, 16, 100, 101, 102, 200, 201, 202, 203, 205, 207, 208, 209, 210]
GENS = [13, 14, 2, 22, 40, 203, 204, 205, 206, 208, 209, 400, 401, 402, 403, 404, 405, 501]
JUNK = ['', ' ', '-1', '0', '1', '-0', '+3', 'abc', '1e9', '0x10', '3.7', 'nan', 'inf', '-inf', '1e-400', '%s%n%d', '\xff\xfe', 'a' * 127, 'a' * 128, 'a' * 129, 'b' * 1023, 'c' * 1024, 'd' * 5000,
        '2147483647', '2147483648', '-2147483648', '4294967295', '4294967296', '9223372036854775807', '99999999999999999999999', '-99999999999999999999999', '--', '-', '#', "'", '\t7', '7\n']
_n = [0]


class Job:
    def __init__(self, kind, args, files=(), stdin=b'', env=None, entries=None, note='', timeout=40):
        self.kind, self.args, self.files, self.stdin, self.env, self.entries, self.note, self.timeout = kind, args, dict(files), stdin, env or {}, entries, note, timeout


def go(j):
    _n[0] += 1
    d = os.path.join(base, '%d_%d' % (os.getpid(), id(j)))
    os.mkdir(d, 0o700)
    for n, c in j.files.items():
        p = os.path.join(d, n)
        if c is None:
            os.mkdir(p)
        else:
            open(p, 'wb').write(c)
        os.chown(p, NOBODY, NOBODY)
        if n.startswith('unreadable'):
            os.chmod(p, 0)
    os.chown(d, NOBODY, NOBODY)
    e = dict(vlib.ASAN_ENV)
    e['ASAN_OPTIONS'] += ':max_allocation_size_mb=6000'
    e.update(PATH=os.environ.get('PATH', ''), VP_LOG=os.path.join(d, 'log'), VP_WORDS=os.path.join(d, 'words'))
    e.update(j.env)
    if 'VP_NOWORDS' in e:
        e.pop('VP_WORDS')
    r = vlib.R()
    r.timeout, r.sig = False, 0
    av = [eva.encode()] + [a.encode('latin-1') if isinstance(a, str) else a for a in (str(x) if not isinstance(x, bytes) else x for x in j.args)]
    try:
        with open(os.path.join(d, '.out'), 'wb') as fo, open(os.path.join(d, '.err'), 'wb') as fe:
            p = subprocess.run(av, input=j.stdin, stdout=fo, stderr=fe, env=e, cwd=d, user=NOBODY, group=NOBODY, extra_groups=[], timeout=j.timeout, preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_FSIZE, (1 << 26, 1 << 26)))
        r.rc = p.returncode
        r.sig = -p.returncode if p.returncode < 0 else 0
    except subprocess.TimeoutExpired:
        r.timeout = True
        r.rc = None
    r.out = open(os.path.join(d, '.out'), 'rb').read(1 << 20).decode('latin-1')
    r.err = open(os.path.join(d, '.err'), 'rb').read(1 << 20).decode('latin-1')
    w = os.path.join(d, 'words')
    words = open(w, 'rb').read() if os.path.exists(w) else b''
    ev = []
    if os.path.exists(os.path.join(d, 'log')):
        for l in open(os.path.join(d, 'log')):
            try:
                ev.append(json.loads(l))
            except ValueError:
                pass
    same = all(c is None or n.startswith('unreadable') or n == 'target' or open(os.path.join(d, n), 'rb').read() == c for n, c in j.files.items())
    subprocess.run(['chmod', '-R', 'u+rwX', d])
    shutil.rmtree(d, True)
    return r, words, ev, same


jobs = []
T = vlib.THOROUGH


# ------------------------------------------------ single options with hostile values
def common(d=None):
    return ['-g', R.choice(GENS), '-S', R.getrandbits(31) + 1, '-d', R.choice(CHEAP) if d is None else d, '-t', R.choice([20, 50, 100]), '-p', R.choice([1, 2, 3])]


NOFILE = 'cDdFgiklLmnOsSvWXxYyZz'
for o in 'acDdgiklLmnOPpSstvWXxYyzZf':
    vals = [None] if o in 'al' else [v for v in JUNK]
    if o == 't':
        vals = ['0', '-1', '-2147483648', 'abc', '', 'nan', ' ', '1', '3.7', '0x10', '+3', '-99999999999999999999999']
    if o == 'p':
        vals = ['0', '-1', 'abc', '', ' ', '1', '3.7', '0x10', '+3', '-5', '-2147483648']
    if o == 'P':
        vals = ['0', '-1', 'abc', '1', '10', '1000']
    if o == 'm':
        vals = ['0', '-1', 'abc', '', 'nan', '-inf', '1e-400', '0.001', '0.5', '3.7', '-1e300', '-0']
    if o == 'n':
        vals = ['0', '-1', 'abc', '', '1', '2', '5', '13', '21', '33', '64', '65', '100', '170', '171', '-2147483648', '4294967295', '4294967296', '2147483648', '3.7', '0x10', '-99999999999999999999999', '9223372036854775807']
    if o == 'Y':
        vals = [v for v in vals if v.strip()[:1] not in '23456789']
    if o == 'g':
        vals = [v for v in vals if v not in ('',)] + ['200', '201', '202', '207', '600', '62', '210', '406', '502', '999', '1000']
    if o == 'd':
        vals = [v for v in vals] + ['18', '99', '103', '199', '212', '899', '999', '1000', '-200']
    for v in vals if len(vals) < 30 or T else R.sample(vals, 24):
        for _ in range(1 if not T else 6):
            a = common()
            extra = ['-' + o] + ([v] if v is not None else [])
            env = {}
            if o == 'a':
                env = {'VP_FAST': '1'}
            if o == 'g':       # replaced, so that no default generator runs
                a = a[2:]
            if o == 'd':
                a = a[:4] + a[6:]
            if o in 'tp':
                q = a.index('-' + o); a[q:q + 2] = []
                q = a.index('-d'); a[q + 1] = R.choice([100, 15, 203, 2])
                env = {'VP_FAST': '1'}
            if o == 'm':
                q = a.index('-p'); a[q:q + 2] = []
                env = {'VP_FAST': '1'}
            if o == 'n':
                q = a.index('-d'); a[q + 1] = R.choice([x for x in CHEAP if x not in (203,)] + [206] + [202, 202])
            if o == 'Y' or o == 'P':
                env = {'VP_FAST': '1'}
            jobs.append(Job('option', (a + extra) if R.random() < 0.7 else (extra + a), env=dict(env, VP_NOWORDS='1'), stdin=R.randbytes(100000), note=o))
# every -n value for every tuple test
for d in [200, 201, 202, 203, 205, 206, 207, 208, 209, 210, 102, 0]:
    ns = [0, 1, 2, 3, 5, 8, 11, 16, 17, 31, 32, 33, 63, 64, 65, 128, 170, 171, 255, 256, 257, 1000, 4097, 65536]
    if d == 200:
        ns = [n for n in ns if not 16 < n < 32]
    if d == 202:
        ns = [n for n in ns if not 8 < n <= 12]
    if d == 203:
        ns = [n for n in ns if n <= 1000]
    if d == 206:
        ns = [n for n in ns if n <= 257]
    for n in ns if T else R.sample(ns, 10):
        jobs.append(Job('tuple', ['-g', R.choice([13, 205, 2, 41, 35, 22]), '-S', 5, '-d', d, '-n', n, '-t', R.choice([10, 20, 33]), '-p', R.choice([1, 2])], env={'VP_NOWORDS': '1'}, note='%d' % d))

# ------------------------------------------------ random argument vectors
OPT0 = 'aBFhlVo'
OPT1 = 'cDdfgikLmnOPpSstvWXxYyzZ'


def goodval(o):
    return {'c': lambda: R.choice([',', '|', ' ', '']), 'D': lambda: R.choice(list(report.FL) + ['default', '511', '0', '262143', '1', '-1', 'nosuch']), 'd': lambda: R.choice([R.choice(CHEAP), 'sts_runs', 'diehard_runs', 18, 'zz']), 'f': lambda: R.choice(['f1', 'nofile', 'dir', 'f1']),
            'g': lambda: R.choice([R.choice(GENS), 'mt19937', 'AES_OFB', 201, 202, 200, 207, 62]), 'i': lambda: 1, 'k': lambda: R.choice([-1, 0, 1, 2, 3, 4]), 'L': lambda: R.choice([-1, 0, 1, 2]), 'm': lambda: R.choice([0.1, 1, 2]),
            'n': lambda: R.choice([0, 1, 2, 3, 5, 8]), 'O': lambda: R.choice([-1, 0, 1, 2, 3, 4]), 'P': lambda: R.choice([0, 10, 200]), 'p': lambda: R.choice([0, 1, 2, 3]), 'S': lambda: R.choice([0, 1, -1, 4294967295, 4294967296, R.getrandbits(33)]),
            's': lambda: R.choice([-1, 0, 1, 2]), 't': lambda: R.choice([1, 2, 10, 50]), 'v': lambda: R.choice([0, 0, 1, -1, R.randint(2, 60)]), 'W': lambda: R.choice([0.01, 0, 1, -1, 'x']), 'X': lambda: R.choice([0.001, 0, 2]), 'x': lambda: R.choice([0, 1, 10, 0.5]),
            'Y': lambda: R.choice([0, 1, 2, 0, -1]), 'y': lambda: R.choice([0, 1, 'q']), 'z': lambda: 3, 'Z': lambda: 4}[o]()


RAW = R.randbytes(4096)
TXT = b'type: d\ncount: 50\nnumbit: 32\n' + b''.join(b'%d\n' % R.getrandbits(32) for _ in range(50))
for i in range(500 if not T else 8000):
    a = []
    for _ in range(R.choice([0, 1, 1, 2, 3, 4, 6, 9, 14])):
        k = R.random()
        if k < 0.12:
            a.append('-' + R.choice(OPT0))
        elif k < 0.9:
            o = R.choice(OPT1)
            v = goodval(o)
            if R.random() < 0.12 and o not in 'tpPmnY':
                v = R.choice(JUNK)
            if o == 'f' and isinstance(v, str) and ('/' in v):
                v = 'nofile'
            a += ['-%s%s' % (o, v)] if R.random() < 0.2 and str(v) else ['-' + o, v]
        elif k < 0.94:
            a.append(R.choice(JUNK))
        elif k < 0.97:
            a.append('-' + R.choice('bCeEGHjJKMNqQrRTuUw@?:='))
        else:
            a.append('-' + R.choice(OPT1))
    a = [str(x).replace('\0', '') for x in a]
    # sizes that end
    full = ['-t', R.choice([1, 5, 20, 40]), '-p', R.choice([1, 2, 3])] if '-o' in a or R.random() < 0.8 else []
    if R.random() < 0.7:
        full += ['-d', R.choice(CHEAP)]
    a = a + [str(x) for x in full] if R.random() < 0.8 or '-o' in a else a
    if any(str(x).startswith('-Y') for x in a):
        a += ['-P', '200']
    jobs.append(Job('vector', a, files={'f1': R.choice([RAW, TXT]), 'dir': None}, stdin=R.randbytes(20000), env={'VP_FAST': '1', 'VP_NOWORDS': '1'}))
# many of the same
for o, v in [('-g', '13'), ('-S', '5'), ('-D', '8'), ('-g', 'mt19937'), ('-d', '2'), ('-f', 'f1'), ('-v', '0'), ('-n', '2')]:
    for n in (15, 16, 17, 50, 99, 100, 101, 128, 400):
        jobs.append(Job('many', [o, v] * n + ['-d', 100, '-t', 10, '-p', 1], files={'f1': RAW}, env={'VP_FAST': '1', 'VP_NOWORDS': '1'}))
for n in (2, 3, 15, 16, 50, 98, 99, 100, 101, 120):
    jobs.append(Job('many', ['-g', '207'] + ['-g', R.choice(['13', 'rand48', '205'])] * n + sum([['-S', str(R.getrandbits(20))] for _ in range(R.choice([0, 1, n]))], []) + ['-d', 100, '-t', 10, '-p', 1], env={'VP_FAST': '1', 'VP_NOWORDS': '1'}))


# ------------------------------------------------ raw files and standard input
def rawset(data):
    return set(struct.unpack('<%dI' % (len(data) // 4), data[:len(data) // 4 * 4]))


for i in range(60 if not T else 1000):
    n = R.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 60, 63, 64, 65, 66, 67, 68, 100, 1000, R.randint(0, 5000)])
    data = R.choice([R.randbytes(n), bytes(n), b'\xff' * n, b'type: d\ncount: 3\n' * (n // 16), b'\n' * n])
    nm = R.choice(['f', 'f', 'f', 'x' * 100, 'x' * 127, 'x' * 128, 'x' * 250, 'a b', '%s%n', 'unreadable', 'nofile', 'dir', ''])
    files = {nm: data} if nm not in ('nofile', 'dir', '') else {}
    if nm == 'dir':
        files = {'dir': None}
    d, t, p = R.choice([2, 100, 15]), R.choice([1, 10, 100, 3000]), R.choice([1, 2, 3])
    if R.random() < 0.7:
        a = ['-g', R.choice([201, 'file_input_raw']), '-f', nm if R.random() < 0.9 else './' + nm]
        jobs.append(Job('raw', a + ['-d', d, '-t', t, '-p', p], files=files, env={'VP_FAST': '1'}, entries=rawset(data)))
    else:
        a = ['-g', R.choice([200, 'stdin_input_raw'])]
        jobs.append(Job('stdin', a + ['-d', d, '-t', t, '-p', p], stdin=data, env={'VP_FAST': '1'}, entries=rawset(data)))
for nm in ['/dev/null', '/dev/zero', '/dev/full', '/proc/self/mem', '/nonexistent/x', '.', '..', '/']:
    for g in (201, 202):
        jobs.append(Job('special', ['-g', g, '-f', nm, '-d', 100, '-t', 5, '-p', 1], env={'VP_FAST': '1', 'VP_NOWORDS': '1'}, timeout=20))

# ------------------------------------------------ formatted files


def ents(data):
    """every number some line of the file could stand for"""
    s = set()
    for l in data.split(b'\n'):
        t = l.decode('latin-1').lstrip(' \t\r\v\f\n')
        m = re.match(r'[-+]?\d+', t)
        if m:
            v = int(m.group(0))
            v = max(-(1 << 64) + 1, min((1 << 64) - 1, v))
            s.add(v & 0xffffffff)
        m = re.match(r'([-+]?)(?:0[xX])?([0-9a-fA-F]+)', t)
        if m:
            v = int(m.group(2), 16); v = min(v, (1 << 64) - 1); v = -v if m.group(1) == '-' and v < (1 << 64) - 1 else v
            s.add(v & 0xffffffff)
        m = re.match(r'([-+]?)([0-7]+)', t)
        if m:
            v = int(m.group(2), 8); v = min(v, (1 << 64) - 1); v = -v if m.group(1) == '-' and v < (1 << 64) - 1 else v
            s.add(v & 0xffffffff)
        m = re.match(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', t)
        if m:
            f = float(m.group(0))
            if 0 <= f <= 1:
                s.add(int(f * 4294967295))
        m = re.match(r'[-+]?0[xX][0-9a-fA-F.]*(?:[pP][-+]?\d+)?', t)
        if m:
            s.add(0); s.add(4294967295)
        m = re.match(r'[01]+', t)
        if m:
            for k in range(1, 33):
                if len(m.group(0)) >= k:
                    s.add(int(m.group(0)[:k], 2))
    return s


def num(ty):
    v = R.getrandbits(R.choice([32, 32, 16, 4]))
    if ty in 'diu':
        return '%d' % v
    if ty in 'xX':
        return '%x' % v
    if ty == 'o':
        return '%o' % v
    if ty == 'b':
        return format(v, '032b')
    return '%.10f' % R.random()


def hostile_text():
    ty = R.choice('diuxXobeEfFgdubf')
    n = R.choice([1, 3, 10, 60])
    h = [b'type: ' + ty.encode(), b'count: %d' % n, b'numbit: 32']
    body = [num(ty).encode() for _ in range(n)]
    for _ in range(R.choice([1, 1, 1, 2, 3])):
        k = R.choice(['type', 'count', 'numbit', 'drop', 'dup', 'order', 'junkhead', 'longhead', 'garbage', 'empty', 'negative', 'big', 'long', 'trunc', 'nul', 'crlf', 'binary', 'comment', 'toomany', 'few', 'novalue', 'fields', 'real', 'blank', 'bits', 'nonl', 'longcomment', 'longnumber'])
        pos = R.randrange(len(body)) if body else 0
        if k == 'type':
            h = [x if not x.startswith(b'type') else b'type: ' + R.choice([b'z', b'', b'q', b'dd', b'0', b'\xff', b'D', b'%s', b'uint']) for x in h]
        elif k == 'count':
            h = [x if not x.startswith(b'count') else b'count: ' + R.choice([b'0', b'-1', b'abc', b'99999999999', b'2147483648', b'1', b'%d' % (n + 1), b'%d' % (n + 100), b'', b'1e3', b'%d' % max(1, n - 1)]) for x in h]
        elif k == 'numbit':
            h = [x if not x.startswith(b'numbit') else b'numbit: ' + R.choice([b'0', b'-1', b'33', b'64', b'abc', b'1', b'31', b'100000', b'', b'-2147483648']) for x in h]
        elif k == 'drop':
            h.pop(R.randrange(len(h))) if h else 0
        elif k == 'dup' and h:
            h.insert(R.randrange(len(h)), R.choice(h))
        elif k == 'order':
            R.shuffle(h)
        elif k == 'junkhead':
            h.insert(R.randrange(len(h) + 1), R.choice([b'', b' ', b'hello', b':::', b'a b c', b'\t', b'\x00', b'seed: 4', b'typeset: x', b'counter 7', b'=' * 300]))
        elif k == 'longhead':
            h.insert(R.randrange(len(h) + 1), R.choice([b'count: ' + b'1' * R.choice([127, 128, 200, 1100]), b'x' * R.choice([127, 128, 1016, 1022, 1023, 1024, 3000]) + b' 5', b'type:' + b' ' * 1100 + b'd', b','.join([b'a'] * 300), b'numbit ' + b'z' * 500]))
        elif k == 'garbage' and body:
            body[pos] = R.choice([b'abc', b'-', b'+', b'.', b'e', b'0x', b'0b1', b'--5', b'#3', b'\xff\xff', b'%d', b'nan', b'inf', b'-inf', b'1e400', b'2', b'201', b'0120a', b'9', b'g', b'8'])
        elif k == 'empty':
            body = []
        elif k == 'negative' and body:
            body[pos] = R.choice([b'-1', b'-5', b'-0.5', b'-4294967296', b'-0'])
        elif k == 'big' and body:
            body[pos] = R.choice([b'4294967296', b'99999999999999999999', b'1.5', b'1e10', b'777777777777777', b'fffffffff', b'1' * 40])
        elif k == 'long' and body:
            body[pos] = R.choice([b'1' * R.choice([1000, 1022, 1023, 1024, 1025, 4000]), b' ' * R.choice([1015, 1022, 1023, 1030]) + b'12345', b'5' + b' ' * 2000 + b'77777'])
        elif k == 'longcomment':
            h.insert(R.randrange(len(h) + 1), b'#' + R.choice([b'x', b' ', b'type: b ', b'5\t']) * R.choice([200, 1021, 1022, 1023, 1024, 2500]))
        elif k == 'longnumber' and body:
            body[pos] = b'0' * R.choice([100, 900, 1010, 1100]) + b'1'
        elif k == 'comment' and body:
            body.insert(pos, R.choice([b'# note', b'#12', b'#']))
        elif k == 'blank' and body:
            body.insert(pos, R.choice([b'', b' ', b'\t', b'\r']))
        elif k == 'toomany':
            body += [num(ty).encode() for _ in range(5)]
        elif k == 'few':
            body = body[:len(body) // 2]
        elif k == 'novalue' and h:
            q = R.randrange(len(h)); h[q] = h[q].split(b':')[0] + R.choice([b'', b':', b': '])
        elif k == 'fields' and h:
            q = R.randrange(len(h)); h[q] += b' extra'
        elif k == 'bits' and body:
            body[pos] = R.choice([b'0101', b'01' * 15, b'01' * 40, b'2' * 32, b'0' * 31 + b'2', b'1' * 31])
        elif k == 'binary':
            body.insert(pos, R.randbytes(R.choice([1, 10, 100, 2000])))
        elif k == 'nul' and body:
            body[pos] = R.choice([b'\x00', b'5\x007', b'\x00' * 50])
    eol = b'\r\n' if R.random() < 0.1 else b'\n'
    data = eol.join(h + body) + (eol if R.random() < 0.8 else b'')
    k = R.random()
    if k < 0.08:
        data = data[:R.randrange(len(data) + 1)]
    elif k < 0.14:
        q = R.randrange(len(data) + 1)
        data = data[:q] + bytes([R.getrandbits(8)]) + data[q + 1:]
    elif k < 0.16:
        data = R.randbytes(R.choice([0, 1, 50, 5000]))
    return data, n


for i in range(500 if not T else 12000):
    data, n = hostile_text()
    t = R.choice([1, n, n + 1, 3 * n, max(1, n // 2), 200])
    jobs.append(Job('formatted', ['-g', R.choice([202, 'file_input']), '-f', 'f', '-d', 100, '-t', t, '-p', R.choice([1, 2])] + R.choice([[], ['-D', report.ROWFLAGS], ['-s', 1], ['-D', 'file_rng_stat'], ['-v', 1], ['-S', 7]]), files={'f': data}, env={'VP_FAST': '1'}, entries=ents(data)))

# ------------------------------------------------ dumping: bad targets, bad formats
for fm in [0, 1, 2, 3, -1, 99]:
    for tgt in ['target', 'nofile/x', 'dir', '/dev/full', 'x' * 300, 'new', None, 'unreadable']:
        for g in R.sample([13, 205, 207, 200, 201, 403], 2):
            a = ['-o', '-O', fm, '-t', R.choice([1, 7, 1000]), '-S', 3, '-g', g] + (['-f', tgt] if tgt else []) + (['-g', 13] if g == 207 else [])
            jobs.append(Job('dump', a, files={'target': b'old', 'dir': None, 'unreadable': b'x'}, stdin=R.randbytes(2000), env={'VP_FAST': '1', 'VP_NOWORDS': '1'}))

R.shuffle(jobs)
kinds = {}
for j, (r, words, ev, same) in zip(jobs, vlib.pmap(go, jobs)):
    ck.evals += 1
    brief = ' '.join(repr(str(a))[1:-1][:60] for a in j.args)[:600]
    k = kinds.setdefault(j.kind, dict(runs=0, tests_ran=0, refused=0, numbers=0))
    rep = {'args': [str(a) for a in j.args], 'files': {n: (c or b'')[:3000].decode('latin-1') for n, c in j.files.items()}, 'env': j.env}
    if r.timeout or r.sig == 25:      # too long, or more output than the limit
        ck.inconclusive.append(j.kind + ': ' + brief); continue
    m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error: [^\n]*)', r.err)
    if m or r.sig or r.rc not in (0, 1):
        fr = re.findall(r'#\d+ 0x\w+ in (\w+) [^\n]*?(\w+\.c:\d+)', r.err)
        ck.violation('%s %s %s' % (j.kind, j.note, fr[:1] or r.rc), '%s: status %s %s %s' % (brief, r.rc, m.group(1)[:150] if m else r.err[-200:], fr[:3]), rep); continue
    if not (r.out + r.err).strip():
        if '-o' not in j.args and not ([x for x in ev if x['ev'] == 'test']):
            ck.violation('silent ' + j.kind, '%s: ended with status %s and said nothing' % (brief, r.rc), rep); continue
    if not same and j.kind in ('formatted', 'raw'):
        ck.violation('input changed', '%s: the input file was changed' % brief, rep); continue
    k['runs'] += 1
    if [x for x in ev if x['ev'] == 'test']:
        k['tests_ran'] += 1
    else:
        k['refused'] += 1
    if j.entries is not None and words:
        ws = struct.unpack('<%dI' % (len(words) // 4), words)
        alien = [w for w in ws if w not in j.entries]
        k['numbers'] += len(ws)
        if alien:
            ck.violation('alien number ' + j.kind, '%s: the test was given %s, which the input does not contain' % (brief, alien[:3]), rep); continue
    ck.seen((brief, hash(tuple(sorted((n, c or b'') for n, c in j.files.items())))))
ck.extra['by_kind'] = kinds
shutil.rmtree(base, True)
ck.finish(1500, 1200)
