"""C19 on the compiled functions: in-memory streams, buffers of exactly the size given (address sanitizer)."""
import os, struct, subprocess, tempfile
from common import main
import cc

CODE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <stdbool.h>
#include <eml_csv.h>
static FILE *out;
static unsigned char *text; static long length, pos, fail_at, calls, chunk;
static int rd(void *s, uint8_t *b, size_t n) { if (calls++ == fail_at) return -7; long k = length - pos; if (k > (long)n) k = n; if (k < 0) k = 0; memcpy(b, text + pos, k); pos += k; return k; }
static int sk(void *s, size_t p) { pos = p; return 0; }
static int wr(void *s, const uint8_t *b, size_t n) { for (size_t i = 0; i < n; i++) fprintf(out, "%02x", b[i]); return n; }
static char *unhex(const char *h, long *n) { *n = strlen(h) / 2; char *t = malloc(*n + 1); for (long i = 0; i < *n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); t[i] = v; } t[*n] = 0; return t; }
int main(int c, char **v) {
    out = fopen(v[c-1], "w");
    if (v[1][0] == 'r') {
        long n = atol(v[2]), m = atol(v[3]); fail_at = atol(v[4]); int rows = atoi(v[5]); text = (unsigned char *)unhex(v[6], &length);
        unsigned char *t2 = malloc(length ? length : 1); memcpy(t2, text, length); text = t2;
        char *buf = malloc(n); char **cols = malloc(m * sizeof(char *));
        EmlCsvReader r = { 77, 0, rd, sk, NULL };
        for (int k = 0; k < rows; k++) {
            memset(buf, 'Z', n);
            int e = k ? eml_csv_reader_read_data(&r, buf, n, cols, m) : eml_csv_reader_read_header(&r, buf, n, cols, m);
            fprintf(out, "%d %ld %ld %ld", e, (long)r.n_columns, (long)r.stream_location, pos);
            long q = k ? e : (e ? 0 : (long)r.n_columns);
            for (long i = 0; i < q; i++) { fprintf(out, " %ld:", (long)(cols[i] - buf)); for (char *p = cols[i]; *p; p++) fprintf(out, "%02x", (unsigned char)*p); }
            fprintf(out, "\n");
            if (k ? e <= 0 : e) break;
        }
    } else {
        int n = atoi(v[2]), d = atoi(v[3]);
        const char **names = malloc(n * sizeof(char *)); float *x = malloc(d * sizeof(float)); long l;
        for (int i = 0; i < n; i++) names[i] = unhex(v[4 + i] + 1, &l);
        for (int i = 0; i < d; i++) { unsigned u = strtoul(v[4 + n + i], 0, 16); memcpy(&x[i], &u, 4); }
        EmlCsvWriter w = { 0, wr, sk, NULL };
        int e = eml_csv_writer_write_header(&w, names, n);
        fprintf(out, " %d %ld\n", e, (long)w.n_columns);
        e = eml_csv_writer_write_data(&w, x, d);
        fprintf(out, " %d\n", e);
    }
}
'''
_dir = tempfile.TemporaryDirectory(prefix='c19_')
EXE = os.path.join(_dir.name, 'csv')


def build():
    if os.path.exists(EXE): return None
    open(EXE + '.c', 'w').write(CODE)
    for san in (['-fsanitize=address,undefined', '-fno-sanitize-recover=all'], []):
        r = subprocess.run(['gcc', '-O1', '-g', '-w', '-std=gnu99', *san, '-I', cc.INC, EXE + '.c', '-o', EXE, '-lm'], capture_output=True, text=True)
        if r.returncode == 0: return None
    return 'compile: ' + r.stderr[:1000]


def run(args):
    r = subprocess.run([EXE] + args + [EXE + '.out'], capture_output=True, text=True, timeout=20, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    if r.returncode: return None, 'crash: exit %d, %s' % (r.returncode, ' '.join(r.stderr.split('\n')[:4])[:500])
    return open(EXE + '.out').read().split('\n')[:-1], None


def row(t, n, m):
    """(columns, position of the line end) of the row at the start of t, or None for an error."""
    part = t[:n]
    o = part.find(b'\n')
    if o < 0:
        if len(part) >= n and part: return None
        o = len(part)
        if not part: return [], 0
    cols = part[:o].split(b',')
    return (cols, o) if len(cols) <= m else None


def check(x):
    e = build()
    if e: return e
    if x['op'] == 'w':
        vals = [struct.unpack('<f', struct.pack('<f', v))[0] for v in x['values']]
        lines, err = run(['w', str(len(x['names'])), str(len(vals))] + ['_' + s.encode('latin1').hex() for s in x['names']] + ['%08x' % struct.unpack('<I', struct.pack('<f', v)) for v in vals])
        if err: return err
        out, st = lines[0].split(' ', 1)
        want = ','.join(x['names']).encode('latin1') + b'\n'
        if bytes.fromhex(out) != want or st.split() != ['0', str(len(x['names']))]: return 'header: wrote %r (%s), not %r' % (bytes.fromhex(out), st, want)
        out, st = lines[1].split(' ', 1)
        texts = ['%.6f' % v for v in vals]
        if len(vals) != len(x['names']):
            return None if int(st) != 0 and out == '' else 'mismatch: %d values for %d columns gave %s and wrote %r' % (len(vals), len(x['names']), st, bytes.fromhex(out))
        if any(len(s) >= 20 for s in texts): return None if int(st) != 0 else 'too long: no error for %s' % texts
        want = ','.join(texts).encode() + b'\n'
        return None if bytes.fromhex(out) == want and int(st) == 0 else 'data: wrote %r (%s), not %r' % (bytes.fromhex(out), st, want)
    t, n, m, fail = x['text'].encode('latin1'), x['n'], x['m'], x.get('fail', -1)
    lines, err = run(['r', str(n), str(m), str(fail), str(x['rows']), t.hex()])
    if err: return err
    loc, ncols = 0, 77
    for k, l in enumerate(lines):
        f = l.split(' ')
        e, nc, sl, pos = (int(v) for v in f[:4])
        want = None if fail == k else row(t[loc:], n, m)
        if k and m < ncols: want = None
        if k and want is not None and want[0] and len(want[0]) != ncols: want = None
        if k and want is not None and not want[0]:
            return None if e == 0 else 'end: %d at the end of the file' % e
        if want is None:
            bad = e < 0 if k else e != 0
            return None if bad else 'no error: row %d of %s gave %s' % (k, x, l)
        cols, o = want
        if (e != len(cols) if k else e != 0): return 'status: row %d of %s gave %s' % (k, x, l)
        loc += o + 1
        ncols = len(cols)
        got = [v.split(':') for v in f[4:]]
        at, p = [], 0
        for c in cols:
            at.append(p)
            p += len(c) + 1
        # a NUL in the text ends the string early; the position of the column is still right
        if [(int(a), bytes.fromhex(b)) for a, b in got] != [(a, c.split(b'\0')[0]) for a, c in zip(at, cols)]: return 'columns: row %d of %s gave %s' % (k, x, l)
        if nc != ncols or sl != loc or pos != loc: return 'position: row %d of %s gave %s, expected location %d' % (k, x, l, loc)
    return None if len(lines) == x['rows'] else 'rows: %d of %d' % (len(lines), x['rows'])


def gen(tier, rng):
    r = lambda text, n=64, m=6, rows=4, fail=-1: dict(op='r', text=text, n=n, m=m, rows=rows, fail=fail)
    for t in ('a,b,c\n1,2,3\n4,5,6\n', 'a,b,c\n1,2,3\n4,5,6', 'a\n1\n', 'a', '', '\n', '\n\n', 'a,b\n1\n', 'a,b\n1,2,3\n', 'a,b\n,\n', ',\n,\n', 'a,b\n1,2\n\n', 'ab,cd\n12,345\n', 'a,b\n1,', 'a,b\n1,2,', 'a\r\n', 'a,\0b,c\n'):
        for m in (1, 2, 3, 6): yield r(t, m=m)
        for n in range(1, 14): yield r(t, n=n, m=3)
        for f in (0, 1, 2): yield r(t, fail=f)
    w = lambda names, values: dict(op='w', names=names, values=values)
    for names, vals in ((['a'], [1]), (['a', 'bb', 'ccc'], [1.5, -2.25, 1e6]), ([], []), (['', ''], [0, -0.0]), (['x'] * 9, [float(i) for i in range(9)]), (['a', 'b'], [1]), (['a'], [1, 2]),
                        (['a', 'b'], [123456789012, 1]), (['a', 'b'], [1, 1e12]), (['a', 'b'], [1, -99999997952]), (['a', 'b'], [1, 999999995904]), (['a', 'b', 'c'], [1, 1e30, 2]), (['a'], [-123456789504])):
        yield w(names, vals)
    for k in range(350 if tier == 'quick' else 6000):
        if k % 4 == 0:
            n = rng.randint(0, 6)
            yield w([''.join(rng.choice('abc _') for _ in range(rng.randint(0, 9))) for _ in range(n)], [rng.choice([0, 1, -1, rng.random(), -rng.random() * 10 ** rng.randint(-7, 13)]) for _ in range(rng.choice([n, n, n, n + 1, max(0, n - 1)]))])
            continue
        cols = rng.randint(1, 5)
        lines = [','.join(''.join(rng.choice('ab1. ') for _ in range(rng.choice([0, 1, 3, 7]))) for _ in range(rng.choice([cols] * 5 + [cols + 1, max(1, cols - 1)]))) for _ in range(rng.randint(1, 4))]
        text = '\n'.join(lines) + rng.choice(['', '\n', '\n', '\n\n'])
        longest = max(len(l) for l in lines)
        yield r(text, n=max(1, rng.choice([longest, longest + 1, longest + 2, 64, len(text), rng.randint(1, 40)])), m=rng.choice([cols, cols, cols + 1, max(1, cols - 1), 8]), rows=6, fail=rng.choice([-1] * 8 + [0, 1, 2]))


if __name__ == '__main__': main(gen, check)
