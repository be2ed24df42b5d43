#!/usr/bin/env python3
"""Writes data/unicode_v<N>.h from the Unicode Character Database files of the
Unicode Consortium (UnicodeData.txt).  Run once, by hand:
    gen_unicode.py DIR_WITH_bits7..bits16
Its output is committed: the checks compare the library with these pinned
tables, never with files read from /repo."""
import sys, os
def load(path):
    assigned, low, first = set(), {}, None
    for line in open(path, encoding='latin1'):
        f = line.rstrip('\n').split(';')
        if len(f) < 14: continue
        c = int(f[0], 16)
        if f[1].endswith('First>'): first = c; continue
        rng = range(first, c + 1) if f[1].endswith('Last>') else (c,)
        if f[2] not in ('Cs', 'Co'): assigned.update(rng)
        if f[13]: low[c] = int(f[13], 16)
    return assigned, low
def toggles(s):
    out, prev = [], None
    for c in sorted(s):
        if prev is None or c != prev + 1:
            if prev is not None: out.append(prev + 1)
            out.append(c)
        prev = c
    if prev is not None: out.append(prev + 1)
    return out
def runs(low):
    out, cs, i = [], sorted(low), 0
    while i < len(cs):
        best = 1
        for stride in (1, 2):
            k = 1
            while i + k < len(cs) and cs[i + k] == cs[i] + stride * k and low[cs[i + k]] - cs[i + k] == low[cs[i]] - cs[i]: k += 1
            if k > best: best, bs = k, stride
        out.append((cs[i], cs[i + best - 1], bs if best > 1 else 1, low[cs[i]] - cs[i]))
        i += best
    return out
root, here, prevset = sys.argv[1], os.path.dirname(os.path.abspath(__file__)), None
sets = {v: load(f'{root}/bits{v}/UnicodeData.txt') for v in range(7, 17)}
for v in range(7, 17):
    a, low = sets[v]
    new = a - sets[v - 1][0] if v > 7 else set()
    gone = (sets[v - 1][0] - a) if v > 7 else set()
    assert not gone
    with open(f'{here}/unicode_v{v}.h', 'w') as o:
        o.write(f'// generated by gen_unicode.py from UnicodeData.txt {v}.0.0\n#define UNICODE_VERSION {v}\n')
        t = toggles(a)
        o.write('static const uint32_t kAssignedToggles[] = {' + ','.join(hex(x) for x in t) + '};\n')
        r = runs(low)
        o.write('struct LowerRun { uint32_t first, last, stride; int32_t delta; };\nstatic const LowerRun kLowerRuns[] = {' + ','.join('{0x%x,0x%x,%d,%d}' % x for x in r) + '};\n')
        print(v, len(t), len(r), len(low))
