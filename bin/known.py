"""The committed list of known findings: what the harnesses may accept, and the
KNOWN-FINDING lines, printed only for findings that still reproduce natively."""
import re
def findings(verif):
    out = []
    for l in open(verif + '/known_findings.txt'):
        if not l.startswith('finding: '): continue
        head, what = l[len('finding: '):].rstrip('\n').split(' what=', 1)
        d = dict(kv.split('=', 1) for kv in head.split()); d['what'] = what
        out.append(d)
    return out

def header(verif):
    low, flags = [], []
    for d in findings(verif):
        if d['kind'] == 'lower':
            a, b = d['versions'].split('-')
            low.append('{%s,%s,0x%s,0x%s,0x%x}' % (a, b, d['first'], d['last'], int(d['observed'], 16)))
        else: flags.append('#define KNOWN_%s 1\n' % d['id'].upper())
    return '#pragma once\n#include <stdint.h>\n' + ''.join(flags) + \
        'struct KnownLower { unsigned v0, v1; uint32_t first, last, delta; };\n' + \
        'static const KnownLower kKnownLower[] = {%s};\n' % ','.join(low + ['{0,0,1,0,0}'])

def lines(verif, prop, builder, run, work):
    out = []
    for d in findings(verif):
        if d['property'] != prop: continue
        vers = range(*(lambda a, b: (int(a), int(b) + 1))(*d['versions'].split('-'))) if 'versions' in d else [16]
        hit = []
        for v in vers:
            exe = builder.native('known', 'known_' + d['kind'], v, 'std', 'plain')
            fn = '%s/known-%s-%d.txt' % (work, d['id'], v)
            p = 'param first %d\nparam last %d\n' % (int(d['first'], 16), int(d['last'], 16)) if d['kind'] == 'lower' else 'param wide %d\n' % (d['id'] == 'cut16')
            open(fn, 'w').write(p + 'run\n')
            rc, o, e = run([exe, fn], 60)
            if rc == 42: hit.append(v)
        if hit: out.append('%s: %s' % (d['id'], d['what']))
    return out
