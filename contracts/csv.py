"""C19: CSV reader and writer. The stream functions are assumed to follow the documentation of eml_io.h (read gives the number of
characters read, at most the size asked for, or a negative error); what they transfer is recorded in ghost buffers."""
from vc.contract import *
from vc import engine as En
from vc.cfront import CT

MAX = 2**31 - 1
COMMA, NL = 44, 10
CHAR, INT = CT('int', 8, True), CT('int', 32, True)
COUNT = spec.Fold('csv_commas', lambda t, k: If(eq(t[k], COMMA), 1, 0), real=False)
EOLS = spec.Fold('csv_eols', lambda t, k: If(eq(t[k], NL), 1, 0), real=False)
# start of the column that position i belongs to
START = spec.Rec('csv_start', lambda t, i: If(le(i, 0), 0, lambda: If(eq(t[sub(i, 1)], COMMA), i, START(t, sub(i, 1)))))
OP = P(0, opaque=True)


def ghost_setup(eng, st):
    for nm, ct, n in (('ghost text', CHAR, MAX), ('ghost', INT, 8), ('ghost out', CHAR, MAX)):
        if nm not in eng.regions: eng.new_region(st, nm, ct, n)
    st.mem[('ghost', '')] = z3.K(T.I, z3.IntVal(0))


def gget(st, i): return z3.Select(st.mem[('ghost', '')], i)
def gset(st, i, v): st.mem[('ghost', '')] = z3.Store(st.mem[('ghost', '')], i, T.zi(v))
GREAD, GSEEK, GSEEKS, GREADS, GOUT = range(5)


class Io(Contract):
    props = ('C19',)
    inline = ('eml_csv_reader_read_internal',)
    ms = 6000

    def setup(self, eng, st, c): ghost_setup(eng, st)

    def indirect(self, e, fr, args, rt, st):
        nm = e.callee
        if nm == 'read':
            _, buf, size = args
            if len(buf.alts) != 1 or buf.alts[0][1] is None: raise En.Unsupported('read buffer')
            _, r, i, o = buf.alts[0]
            e.check(st, 'bounds', 'the stream may write the whole size into %s' % r.name, And(ge(o, 0), le(add(o, size), r.len_at(i))))
            R = T.fresh('read', T.I)
            st.assume(And(ge(R, -2**31), le(R, MAX), le(R, size)))
            old, new, text = st.mem[(r.name, '')], T.fresh(r.name, T.AI), T.fresh('text', T.AI)
            st.mem[(r.name, '')] = new
            st.mem[('ghost text', '')] = text
            gset(st, GREAD, R)
            gset(st, GREADS, add(gget(st, GREADS), 1))
            if not e.dry:
                j = T.fresh('j', T.I)
                st.assume(z3.ForAll([j], z3.Select(new, j) == z3.If(z3.And(T.zi(o) <= j, j < T.zi(add(o, R))), z3.Select(text, T.zi(sub(j, o))), z3.Select(old, j)), patterns=[z3.Select(new, j)]))
                j2 = T.fresh('j', T.I)
                st.assume(z3.ForAll([j2], z3.Implies(z3.And(0 <= j2, j2 < R), z3.Select(text, j2) == z3.Select(new, T.zi(add(o, j2)))), patterns=[z3.Select(text, j2)]))
            return R
        if nm == 'seek':
            gset(st, GSEEK, args[1])
            gset(st, GSEEKS, add(gget(st, GSEEKS), 1))
            return T.fresh('seek_status', T.I)
        if nm == 'write':
            _, p, n = args
            if isinstance(p, En.Str): p = e.strptr(st, p)
            if len(p.alts) != 1 or p.alts[0][1] is None: raise En.Unsupported('write buffer')
            _, r, i, o = p.alts[0]
            e.check(st, 'bounds', 'written characters are inside %s' % r.name, And(ge(o, 0), ge(n, 0), le(add(o, n), r.len_at(i))))
            src = st.mem[(r.name, '')]
            if r.fam: src = z3.Select(src, T.zi(i))
            old, new, k0 = st.mem[('ghost out', '')], T.fresh('out', T.AI), gget(st, GOUT)
            st.mem[('ghost out', '')] = new
            gset(st, GOUT, add(k0, n))
            if not e.dry:
                j = T.fresh('j', T.I)
                st.assume(z3.ForAll([j], z3.Select(new, j) == z3.If(j < k0, z3.Select(old, j), z3.If(j < k0 + T.zi(n), z3.Select(src, T.zi(add(sub(j, k0), o))), z3.Select(old, j))), patterns=[z3.Select(new, j)]))
                if T.num(n) and n == 1: st.assume(z3.Select(new, k0) == z3.Select(src, T.zi(o)))
            return T.fresh('write_status', T.I)
        raise En.Unsupported('indirect call of %s' % nm)


READER = P(1, read=OP, seek=OP, stream=OP)


class Internal(Io):
    fn = 'eml_csv_reader_read_internal'
    args = ['self', 'buf', 'n', 'cols', 'm', 'ocols', 'ooff']
    shape = dict(self=READER, buf=P(lambda c, o: c.n), cols=P(lambda c, o: c.m, into='buf'), ocols=P(1), ooff=P(1))

    def requires(self, c): return [('sizes', And(le(c.n, MAX), le(c.m, MAX)))]
    def assigns(self, c): return [(c.buf, 0, c.n), (c.cols, 0, c.m), (c.ocols, 0, 1), (c.ooff, 0, 1)]

    def row(self, c, ok, n, o):
        """The row in the text that was read: n columns, ending at position o."""
        st = c._post
        R, t = gget(st, GREAD), spec.ArrRef(st.mem[('ghost text', '')])
        b, cols, m = c.post(c.buf), c.post(c.cols).ref(), c.m
        yield 'the stream was read once', eq(gget(st, GREADS), 1)
        yield 'a failed read is an error', Implies(ok, ge(R, 0))
        if n is not None:
            yield 'the row ends at the first line end, or at the end of a file', Implies(ok, And(ge(o, 0), le(o, R), eq(EOLS(0, o, t), 0), Or(eq(t[o], NL), And(eq(o, R), Or(lt(R, c.n), eq(R, 0))))))
            yield 'one column more than delimiters', Implies(ok, eq(n, If(eq(R, 0), 0, add(COUNT(0, o, t), 1))))
            yield 'not more columns than supported', Implies(ok, le(n, m))
            yield 'every column starts after the delimiter before it and ends with NUL', Implies(ok, forall(0, o, lambda p: Implies(eq(t[p], COMMA), And(eq(cols[COUNT(0, p, t)], START(t, p)), eq(b[p], 0)))))
            yield 'the last column starts after the last delimiter and ends with NUL', Implies(And(ok, gt(R, 0)), And(eq(cols[COUNT(0, o, t)], START(t, o)), eq(b[o], 0)))
            yield 'the characters of the columns are those read', Implies(ok, forall(0, o, lambda p: Implies(ne(t[p], COMMA), eq(b[p], t[p]))))
        yield 'no error for a row that fits', Implies(And(Not(ok), ge(R, 0)), exists(0, add(R, 1), lambda p: And(eq(EOLS(0, p, t), 0), Or(And(lt(p, R), ge(COUNT(0, p, t), m)), And(eq(p, R), gt(R, 0), Or(ge(R, c.n), ge(COUNT(0, p, t), m)))))))

    def ensures(self, c): return list(self.row(c, eq(c.ret, c.E('EmlOk')), c.post(c.ocols)[0], c.post(c.ooff)[0]))

    def invs(self, c, L):
        st = L.h
        R, t = gget(st, GREAD), spec.ArrRef(st.mem[('ghost text', '')])
        b, cols = L.cur(c.buf), L.cur(c.cols).ref()
        b0 = L.start(c.buf)
        if not L.changed(c.buf): return
        for i in L.ints:
            yield 'offset', And(ge(i, 0), Or(le(i, R), eq(i, 0)))
            yield 'no line end', eq(EOLS(0, i, t), 0)
            yield 'columns so far', forall(0, i, lambda p: Implies(eq(t[p], COMMA), And(eq(cols[COUNT(0, p, t)], START(t, p)), eq(b[p], 0))))
            yield 'characters so far', forall(0, i, lambda p: Implies(ne(t[p], COMMA), eq(b[p], t[p])))
            yield 'characters to come', forall(i, R, lambda p: eq(b[p], t[p]))
            for k in L.ints:
                if k is i: continue
                yield 'count', eq(k, COUNT(0, i, t))
                yield 'start', eq(k, START(t, i))
                yield 'count grows', forall(0, i, lambda p: Implies(eq(t[p], COMMA), lt(COUNT(0, p, t), k)))
                yield 'not too many', le(k, c.m)


class Header(Internal):
    fn = 'eml_csv_reader_read_header'
    args = ['self', 'buf', 'n', 'cols', 'm']
    shape = dict(self=READER, buf=P(lambda c, o: c.n), cols=P(lambda c, o: c.m, into='buf'))
    def assigns(self, c): return [(c.buf, 0, c.n), (c.cols, 0, c.m), (c.self, 0, 1, ('n_columns', 'stream_location'))]

    def ensures(self, c):
        s, st = c.post(c.self), c._post
        ok = eq(c.ret, c.E('EmlOk'))
        o = sub(s.stream_location, 1)
        for l, f in self.row(c, ok, s.n_columns, o):
            if l != 'no error for a row that fits': yield l, f
        yield 'the stream moves to the character after the row', Implies(ok, And(eq(gget(st, GSEEK), s.stream_location), eq(gget(st, GSEEKS), 1)))
    def invs(self, c, L): return []


class Data(Internal):
    fn = 'eml_csv_reader_read_data'
    args = ['self', 'buf', 'n', 'cols', 'm']
    shape = Header.shape
    def requires(self, c): return [('sizes', And(le(c.n, MAX), le(c.m, MAX), le(c.self.stream_location, 2**60)))]
    def assigns(self, c): return [(c.buf, 0, c.n), (c.cols, 0, c.m), (c.self, 0, 1, ('stream_location',))]

    def ensures(self, c):
        s, st = c.post(c.self), c._post
        ok = gt(c.ret, 0)
        o = sub(sub(s.stream_location, c.self.stream_location), 1)
        for l, f in self.row(c, ok, c.ret, o):
            if l == 'the stream was read once': f = Implies(ok, f)
            if l != 'no error for a row that fits': yield l, f
        yield 'exactly the expected number of columns', Implies(ok, eq(c.ret, c.self.n_columns))
        yield 'the stream moves to the character after the row', Implies(ok, And(eq(gget(st, GSEEK), s.stream_location), eq(gget(st, GSEEKS), 1)))
        yield '0 only at the end of the file', Implies(eq(c.ret, 0), And(eq(gget(st, GREAD), 0), eq(gget(st, GREADS), 1)))
        yield 'too few column pointers are an error', Implies(lt(c.m, c.self.n_columns), lt(c.ret, 0))
    def invs(self, c, L): return []


# ---------------------------------------------------------------- writer
NAMELEN = spec.Fun('csv_name_length', None, real=False)
POSN = spec.Fold('csv_name_position', lambda k: add(NAMELEN(k), 1), real=False)
WRITER = P(1, write=OP, seek=OP, stream=OP)


def _strlen(e, st, a, cts, rt):
    p = a[0]
    _, r, i, o = p.alts[0]
    n = sub(sub(r.len_at(i), o), 1)
    return n


class WriteHeader(Io):
    fn = 'eml_csv_writer_write_header'
    args = ['self', 'cols', 'n']
    shape = dict(self=WRITER, cols=P(lambda c, o: c.n, const=True, **{'*': P(lambda c, o: add(NAMELEN(sub(o._p.alts[0][3], 0)), 1), const=True)}))
    models = dict(strlen=_strlen)       # assumed contract of strlen: the columns are NUL-terminated strings of NAMELEN characters

    def requires(self, c): return [('sizes', And(le(c.n, MAX), forall(0, c.n, lambda i: And(ge(NAMELEN(i), 0), lt(NAMELEN(i), MAX)))))]
    def assigns(self, c): return [(c.self, 0, 1, ('n_columns',))]

    def out(self, c, st, n, last):
        """The first n names with their delimiters."""
        o = spec.ArrRef(st.mem[('ghost out', '')])
        yield 'every name is written in place', forall(0, n, lambda i: forall(0, NAMELEN(i), lambda k: eq(o[add(POSN(0, i), k)], c.cols[i][k])))
        yield 'one delimiter after every name but the last', forall(0, last, lambda i: eq(o[add(POSN(0, i), NAMELEN(i))], COMMA))

    def ensures(self, c):
        st, n = c._post, c.n
        o = spec.ArrRef(st.mem[('ghost out', '')])
        yield 'ok', eq(c.ret, c.E('EmlOk'))
        yield 'the number of columns is kept', eq(c.post(c.self).n_columns, n)
        yield from self.out(c, st, n, sub(n, 1))
        yield 'the line ends once, at the end', And(eq(gget(st, GOUT), If(eq(n, 0), 1, POSN(0, n))), eq(o[sub(gget(st, GOUT), 1)], NL))

    def invs(self, c, L):
        st, n = L.h, c.n
        for i in L.ints:
            yield 'length', eq(gget(st, GOUT), If(And(eq(i, n), gt(n, 0)), sub(POSN(0, i), 1), POSN(0, i)))
            yield 'range', And(ge(i, 0), le(i, n))
            yield 'positions', forall(0, i, lambda k: le(add(POSN(0, k), NAMELEN(k)), If(And(eq(i, n), eq(k, sub(i, 1))), gget(st, GOUT), sub(gget(st, GOUT), 1))))
            yield from self.out(c, st, i, If(eq(i, n), sub(i, 1), i))


_FMT = z3.Function('csv_format_char', T.R, T.I, T.I)


def FMTCH(x, k): return _FMT(T.zr(x), T.zi(k))
def flen(x):
    d = z3.Function('csv_format_length_of', T.R, T.I)
    return d(T.zr(x))


FPOS = spec.Fold('csv_value_position', lambda x, k: add(flen(x[k]), 1), real=False)
SIZE = 20


def _snprintf(e, st, a, cts, rt):
    buf, size, fmt, v = a
    if not isinstance(fmt, En.Str): raise En.Unsupported('format')
    _, r, i, o = buf.alts[0]
    e.check(st, 'bounds', 'snprintf stays inside %s' % r.name, And(ge(o, 0), le(add(o, size), r.len_at(i))))
    old, new = st.mem[(r.name, '')], T.fresh(r.name, T.AI)
    st.mem[(r.name, '')] = new
    n = flen(v)
    st.assume(And(ge(n, 0), le(n, 1000)))
    if not e.dry:
        j = T.fresh('j', T.I)
        m = If(lt(n, size), n, sub(size, 1))
        st.assume(z3.ForAll([j], z3.Select(new, j) == z3.If(z3.And(T.zi(o) <= j, j < T.zi(add(o, m))), FMTCH(v, sub(j, o)), z3.If(j == T.zi(add(o, m)), z3.IntVal(0), z3.Select(old, j))), patterns=[z3.Select(new, j)]))
    return n


class WriteData(Io):
    fn = 'eml_csv_writer_write_data'
    args = ['self', 'x', 'n']
    shape = dict(self=WRITER, x=P(lambda c, o: c.n, const=True))
    models = dict(snprintf=_snprintf)
    def requires(self, c): return [('sizes', le(c.n, MAX))]

    def out(self, c, st, n, last):
        o, x = spec.ArrRef(st.mem[('ghost out', '')]), c.x.ref()
        yield 'every value is written in place', forall(0, n, lambda i: forall(0, flen(x[i]), lambda k: eq(o[add(FPOS(0, i, x), k)], FMTCH(x[i], k))))
        yield 'one delimiter after every value but the last', forall(0, last, lambda i: eq(o[add(FPOS(0, i, x), flen(x[i]))], COMMA))

    def ensures(self, c):
        st, n, x = c._post, c.n, c.x.ref()
        o = spec.ArrRef(st.mem[('ghost out', '')])
        ok = eq(c.ret, c.E('EmlOk'))
        yield 'wrong number of values is an error, with nothing written', Implies(ne(n, c.self.n_columns), And(Not(ok), eq(gget(st, GOUT), 0)))
        yield 'a value too long for the buffer is an error', Implies(ok, forall(0, n, lambda i: lt(flen(x[i]), SIZE)))
        yield 'no other error', Implies(And(Not(ok), eq(n, c.self.n_columns)), exists(0, n, lambda i: ge(flen(x[i]), SIZE)))
        for l, f in self.out(c, st, n, sub(n, 1)): yield l, Implies(ok, f)
        yield 'the line ends once, at the end', Implies(ok, And(eq(gget(st, GOUT), If(eq(n, 0), 1, FPOS(0, n, x))), eq(o[sub(gget(st, GOUT), 1)], NL)))

    def invs(self, c, L):
        st, n, x = L.h, c.n, c.x.ref()
        for i in L.ints:
            yield 'length', eq(gget(st, GOUT), If(And(eq(i, n), gt(n, 0)), sub(FPOS(0, i, x), 1), FPOS(0, i, x)))
            yield 'range', And(ge(i, 0), le(i, n))
            yield 'fits', forall(0, i, lambda k: And(ge(flen(x[k]), 0), lt(flen(x[k]), SIZE)))
            yield 'positions', forall(0, i, lambda k: le(add(FPOS(0, k, x), flen(x[k])), If(And(eq(i, n), eq(k, sub(i, 1))), gget(st, GOUT), sub(gget(st, GOUT), 1))))
            yield from self.out(c, st, i, If(eq(i, n), sub(i, 1), i))


CONTRACTS = [Internal(), Header(), Data(), WriteHeader(), WriteData()]
