"""Reference model of the file statements, and differential runs over several interpreter runs sharing one directory."""
from common import *


class FObj:
    """contents of a file: kind 'text' (data: str) or 'rand' (recs: list of records)"""
    __slots__ = ('kind', 'data', 'recs')

    def __init__(self, kind='text', data=''):
        self.kind, self.data, self.recs = kind, data, []


class Handle:
    __slots__ = ('mode', 'obj', 'pos', 'fresh')

    def __init__(self, mode, obj):
        self.mode, self.obj, self.pos, self.fresh = mode, obj, 0, True


def same_type(a, b):
    if a is b:
        return True
    if type(a) is not type(b) or a.name != b.name:
        return False
    if isinstance(a, EnumT) and a.names == b.names:
        return True
    if isinstance(a, RecT) and len(a.fields) == len(b.fields) and all(
            x[0] == y[0] and x[2] == y[2] and same_type(x[1], y[1]) for x, y in zip(a.fields, b.fields)):
        return True
    raise Unspec('type redefined between runs')


def storable(t):
    if isinstance(t, PtrT):
        return False
    if isinstance(t, RecT):
        return all(storable(f[1]) for f in t.fields)
    return True


def has_default_date(t, v):
    if t is DATE:
        return v is None
    if isinstance(t, RecT):
        for n, ft, b in t.fields:
            if b is None:
                if has_default_date(ft, v.f[n].v):
                    return True
            elif any(has_default_date(ft, v.f[n].at(x).v) for x in v.f[n].tuples()):
                return True
    return False


class FInterp(Interp):
    """fs: name -> FObj, shared by the runs.  noopen: name -> modes in which the path cannot be opened."""
    def __init__(self, stdin=(), pedantic=False, echo=False, fs=None, noopen=None):
        super().__init__(stdin, pedantic, echo)
        self.fs = {} if fs is None else fs
        self.noopen = noopen or {}
        self.handles = {}
        self.touched = set()

    def fname(self, e):
        t, v = self.ev(e)
        if t is CHAR:
            raise Unspec('CHAR as a file name')
        if t is not STRING:
            self.err('file name type')
        return v

    def handle(self, name):
        h = self.handles.get(name)
        if h is None:
            self.err('file not open')
        return h

    def callfn(self, name, args):
        if name != 'EOF':
            return super().callfn(name, args)
        if len(args) != 1:
            self.err('number of arguments')
        t, v = self.ev(args[0])
        if t is CHAR:
            raise Unspec('CHAR as a file name')
        if t is not STRING:
            self.err('argument type')
        h = self.handle(v)
        if h.mode != 'READ':
            self.err('EOF on a file not open for reading')
        self.cov.add('EOF')
        if h.obj.kind == 'rand' and h.obj.recs:
            raise Unspec('random file read as text')
        return BOOLEAN, h.pos >= len(h.obj.data)

    def file_stmt(self, s):
        k = s.k
        if k == 'open':
            name = self.fname(s.f)
            if name in self.handles:
                self.err('already open')
            if s.mode in self.noopen.get(name, ()):
                self.err('cannot be opened')
            o = self.fs.get(name)
            if o is None:
                if s.mode in ('READ', 'APPEND'):
                    self.err('no such file')
                o = self.fs[name] = FObj()
            if s.mode == 'WRITE':
                o.kind, o.data, o.recs = 'text', '', []
            elif s.mode == 'RANDOM':
                if o.kind == 'text' and o.data:
                    raise Unspec('text file opened as random file')
                o.kind = 'rand'
            elif o.kind == 'rand':
                if o.recs:
                    raise Unspec('random file opened as text')
                o.kind = 'text'
            self.handles[name] = Handle(s.mode, o)
            self.cov.add('open ' + s.mode)
            return
        if k == 'closefile':
            name = self.fname(s.f)
            self.handle(name)
            del self.handles[name]
            self.cov.add('close')
            return
        if k == 'seek':
            t, v = self.ev(s.e)
            if t is not INTEGER:
                self.err('seek address type')
            name = self.fname(s.f)
            if v < 1:
                self.err('seek address')
            h = self.handle(name)
            if h.mode != 'RANDOM':
                self.err('seek on a text file')
            if v > len(h.obj.recs) + 1:
                self.err('seek address')
            h.pos = v - 1
            self.cov.add('seek')
            return
        name = self.fname(s.f)
        if k == 'readfile':
            v = self.find(s.name)
            if isinstance(v, Arr) or v is None and self.enum_elem(s.name):
                self.handle(name)
                raise Unspec('READFILE into an array or enum name')
            if v is not None and v.t is not STRING:
                if v.t is CHAR:
                    raise Unspec('READFILE into CHAR')
                self.err('READFILE target type')
            if v is not None and v.const:
                self.err('constant')
            h = self.handle(name)
            if h.mode != 'READ':
                self.err('not open for reading')
            d = h.obj.data
            if h.pos >= len(d):
                raise Unspec('READFILE past the end')
            e = d.find('\n', h.pos)
            line = d[h.pos:] if e < 0 else d[h.pos:e]
            h.pos = len(d) if e < 0 else e + 1
            if v is None:
                v = self.act.vars[s.name] = Cell(STRING, '', self.act, name=s.name)
            v.v = line
            self.cov.add('read')
            return
        if k == 'writefile':
            # the line is evaluated first: it may call something that closes the file
            r = self.ev(s.e)
            h = self.handle(name)
            if h.mode not in ('WRITE', 'APPEND'):
                self.err('not open for writing')
            if r is None:
                self.err('no value')
            t, v = r
            if not isinstance(t, Prim):
                raise Unspec('WRITEFILE of a %s' % t)
            if t is REAL:
                raise Unspec('WRITEFILE of a REAL')
            x = out_text(t, v)
            if '\n' in x:
                raise Unspec('line break in a line')
            o = h.obj
            if h.fresh and h.mode == 'APPEND' and o.data and not o.data.endswith('\n'):
                o.data += '\n'
            h.fresh = False
            o.data += x + '\n'
            self.cov.add('write')
            return
        if k in ('getrecord', 'putrecord'):
            h = self.handle(name)
            if h.mode != 'RANDOM':
                self.err('not a random file')
            v = self.find(s.name)
            if v is None:
                if self.enum_elem(s.name):
                    raise Unspec('record of an enum name')
                self.err('undefined')
            if isinstance(v.t, PtrT):
                self.err('pointer record')
            if not storable(v.t):
                raise Unspec('record with a pointer')
            if k == 'putrecord':
                if isinstance(v, Arr):
                    for x in v.tuples():
                        if has_default_date(v.t, v.at(x).v):
                            raise Unspec('default DATE')
                    a = Arr(v.t, v.bounds, self.g)
                    a.copy_from(v)
                    rec = ('arr', v.t, v.bounds, a)
                else:
                    if has_default_date(v.t, v.v):
                        raise Unspec('default DATE')
                    rec = ('var', v.t, None, copy(v.t, v.v, self.g))
                if h.pos == len(h.obj.recs):
                    h.obj.recs.append(rec)
                    self.cov.add('append record')
                else:
                    h.obj.recs[h.pos] = rec
                    self.cov.add('replace record')
                return
            if isinstance(v, Cell) and v.const:
                self.err('constant')
            if h.pos >= len(h.obj.recs):
                self.err('no record')
            kind, t, b, val = h.obj.recs[h.pos]
            arr = isinstance(v, Arr)
            same = same_type(t, v.t)
            if same and (kind == 'arr') != arr:
                raise Unspec('array record of another shape')
            if same and arr and v.bounds != b:
                if size(b) == size(v.bounds):
                    raise Unspec('array record of another shape')
            if not same or arr and v.bounds != b:
                self.err('record of another type')
            if arr:
                v.copy_from(val)
            else:
                store(v, copy(t, val) if not isinstance(t, RecT) else val)
            self.cov.add('get record')
            return
        raise Unspec('statement ' + k)


def size(b):
    n = 1
    for lo, hi in b:
        n *= hi - lo + 1
    return n


def same_files(fs, real, text, ignore=(), key=''):
    """compares the directory with the model: text files byte for byte, random files by name"""
    want = {n: o for n, o in fs.items() if n not in ignore}
    got = {n: d for n, d in real.items() if n not in ignore}
    if set(want) != set(got):
        raise Fail('other files exist than the reference says', key, program=text, expected=sorted(want), observed=sorted(got))
    for n, o in want.items():
        if o.kind == 'text' and o.data.encode('latin-1') != got[n]:
            raise Fail('contents of %s differ from the reference' % n, key, program=text, expected=repr(o.data), observed=repr(got[n].decode('latin-1')))
        if o.kind == 'rand' and not o.recs and got[n]:
            raise Fail('contents of %s differ from the reference: no records' % n, key, program=text, observed=repr(got[n].decode('latin-1')))


def fruns(env, progs, fs, initial=(), variant='plain', noopen=None, key='', stdin=(), ignore=(), setup=None, interp=None):
    """Runs the programs one after another in one directory, each judged against the model.  -> list of models"""
    s = env.server(variant)
    s.fresh()
    for n, d in initial:
        s.put(n, d)
    if setup:
        setup(s)
    ms, texts = [], []
    for p in progs:
        p = unshare(p)
        text = render(p)
        texts.append(text)
        m = model(p, stdin, interp=lambda i, ped: (interp or FInterp)(i, ped, fs=fs, noopen=noopen))
        r = env.file(text, to_stdin(stdin), variant=variant, fresh=False)
        compare(m, Obs(r), '\n=== next run\n'.join(texts), stdin, key)
        same_files(fs, s_files(env, variant), numbered('\n=== next run\n'.join(texts)), ignore, key)
        ms.append(m)
    env.digest = '\n==='.join(texts)
    if env.sample is None:
        env.sample = dict(runs=[t[:900] for t in texts], outcomes=['%s%s' % (m.kind, '' if m.exc is None else ': %s' % m.exc) for m in ms],
                          output=[m.text()[:300] for m in ms], files={n: (o.data[:200] if o.kind == 'text' else '%d records' % len(o.recs)) for n, o in fs.items()})
    return ms


def s_files(env, variant):
    return env.server(variant).files()


def fopen(f, mode):
    return St('open', f=f, mode=mode)


def fclose(f):
    return St('closefile', f=f)


def fseek(f, n):
    return St('seek', f=f, e=L(n) if isinstance(n, int) else n)


def fput(f, name):
    return St('putrecord', f=f, name=name)


def fget(f, name):
    return St('getrecord', f=f, name=name)


def fread(f, name):
    return St('readfile', f=f, name=name)


def fwrite(f, e):
    return St('writefile', f=f, e=e)


def eof(f):
    return ('call', 'EOF', [f])
