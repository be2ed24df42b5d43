"""What each property's check runs: harness entries, their parameters (the bounds)
and the labels that must be reached."""
from runs import Run, Prop
ALL = list(range(7, 17))
ASSUMPTIONS = [
    'the IR that clang 18 -O1 emits for the sources means what the compiled library does (sampled models of explored paths are also run in a g++ -O2 build and compared)',
    'libstdc++ 13 templates are executed as compiled from its headers; the few out-of-line libc/libstdc++ functions (strlen, memcmp, list and tree hooks, ...) as written in rt/rt.cpp',
    'memory allocation succeeds; strings are shorter than 4 GiB',
    'Z3 4.8.12 is right about QF_BV (thorough: a sample of its answers is checked with cvc5 and a newer Z3)',
]
# ---------------------------------------------------------------- strings
# Inputs are `pre` filler characters (one symbolic character of kind `fill`,
# repeated), a window of `len` arbitrary units, and `suf` fillers of kind `fill2`.
KINDS = {8: [1, 2, 3, 4, 5, 6, 7], 16: [1, 2], 32: [1, 2, 3]}
def texts(h, e, unit, tier, W=None, w2=3, ver=16, cfg='std', fills=None, hist=True, ov=(0, 1), long=True, big=True, most=None, groups=True, **kw):
    """The standard set for a function of one string. W: largest all-symbolic length, w2: window used next to fillers."""
    R = []
    W = W if W is not None else {8: 8, 16: 7, 32: 4}[unit]
    if tier == 'thorough': W += {8: 3, 16: 2, 32: 1}[unit]
    fills = fills or KINDS[unit]
    for o in ov:
        k = dict(kw, ov=o) if len(ov) > 1 else dict(kw)
        R.append(Run(h, e, ver, cfg, cost=W - 1, len=0, lenhi=W - 1, **k))
        R.append(Run(h, e, ver, cfg, cost=W + 2, len=W, **k))
    R += mixed(h, e, unit, tier, ver, cfg, most, groups, **kw)
    if hist: R.append(Run(h, e, ver, cfg, cost=2, hist=3 if unit == 8 else 2, len=4 if unit == 8 else 3, **kw))
    deep = tier == 'thorough'
    for f in fills:
        hi = {8: {1: 36}, 16: {1: 36}, 32: {1: 36}}[unit].get(f, 14)
        if deep: hi *= 3
        # the window after, before and between fillers
        R.append(Run(h, e, ver, cfg, cost=3, pre=1, prehi=hi, fill=f, len=w2, **kw))
        R.append(Run(h, e, ver, cfg, cost=3, pre=0, len=w2, suf=1, sufhi=hi // 2, fill2=f, **kw))
        R.append(Run(h, e, ver, cfg, cost=2, pre=1, prehi=6 if f != 1 else 17, fill=f, len=max(1, w2 - 1), suf=1, sufhi=2 if f != 1 else 9, fill2=fills[(fills.index(f) + 1) % len(fills)], **kw))
        if long:
            w = 1 if w2 < 3 else 2
            for a in ((63, 65), (127, 129), (255, 257), (511, 513), (1023, 1025)) + (((2047, 2049), (4095, 4097)) if deep or f == 1 else ()):
                R.append(Run(h, e, ver, cfg, cost=1 + a[0] // 300, pre=a[0], prehi=a[1], fill=f, len=w, **kw))
    if long: R += misplaced(h, e, unit, w2=2 if w2 > 2 else 1, ver=ver, cfg=cfg, aligns=h != 'p15', **kw)
    if big:
        for a in (65535, 65536, 65537): R.append(Run(h, e, ver, cfg, cost=8, steps=4000000000, pre=a, fill=1, len=1, **kw))
    return R
def misplaced(h, e, unit, w2=1, ver=16, cfg='std', n=1030, aligns=True, **kw):
    """Strings that do not start at an aligned address, and long ones whose characters lie across every even boundary."""
    R = []
    for a in {8: (1, 2, 3, 5, 7), 16: (1, 2, 3), 32: (1, 3)}[unit] if aligns else ():
        R += [Run(h, e, ver, cfg, cost=2, align=a, pre=0, prehi=24 // (unit // 8), fill=1, len=w2, **kw), Run(h, e, ver, cfg, cost=2, align=a, pre=0, prehi=9, fill=2, len=1, **kw)]
    return R + [Run(h, e, ver, cfg, cost=3, len=1, suf=n, fill2=f, **kw) for f in KINDS[unit]]
def mixed(h, e, unit, tier, ver=16, cfg='std', most=None, groups=True, **kw):
    """Characters of mixed kinds, and repeated groups of two characters, with a window next to them."""
    n = most or {8: 3, 16: 5, 32: 4}[unit]
    if tier == 'thorough': n += 1
    R = [Run(h, e, ver, cfg, cost=6, mixed=n, len=0, **kw), Run(h, e, ver, cfg, cost=4, mixed=n - 1, len=1, **kw), Run(h, e, ver, cfg, cost=4, mixed=1, len=1, mixed2=max(1, n - 2), **kw)]
    if not groups: return R
    for f in KINDS[unit]:
        for g in KINDS[unit]:
            if f != g and (groups is True or (f, g) in groups): R.append(Run(h, e, ver, cfg, cost=1, pre=2, prehi=6 if tier == 'quick' else 20, fill=f, fillg=g, len=1, **kw))
    return R
STR_OUT = 'strings whose parts outside the window are not one repeated character; strings longer than the stated lengths'
def strb(W, w2=3, extra=None):
    def f(tier):
        d = {'all-symbolic strings': 'every string up to %s units, any contents' % W[0 if tier == 'quick' else 1],
             'long strings': 'any %d units after, before or between repetitions of one arbitrary character of each kind: every count up to %d, and 63-65, 127-129, 255-257, 511-513, 1023-1025, 2047-2049, 4095-4097 and 65535-65537 (window 1 or 2)' % (w2, 36 if tier == 'quick' else 108),
             'positions': 'one arbitrary unit before 1030 characters of each kind; any unit in a string that starts 1 to 7 bytes past an aligned address', 'mixtures': 'every sequence of 2 to 5 characters of any kinds, and up to 6 groups of two, with an arbitrary unit',
             'history': 'one earlier call with any short string', 'overloads': 'pointer and basic_string'}
        if extra: d.update(extra)
        return d
    return f
ST = ['well-formed', 'cut short', 'malformed']
PROPS = {}
PROPS['P01'] = Prop(lambda t: texts('p01', 'p01', 8, t), ST, strb((8, 11)), STR_OUT)
PROPS['P02'] = Prop(lambda t: texts('p02', 'p02', 32, t, W=4), ['encodable', 'not encodable'], strb((4, 5)), STR_OUT)
PROPS['P03'] = Prop(lambda t: texts('p03', 'p03_8', 16, t, W=5) + texts('p03', 'p03_32', 16, t), ST, strb((7, 9)), STR_OUT)
PROPS['P04'] = Prop(lambda t: texts('p04', 'p04_8', 8, t, W=7) + texts('p04', 'p04_32', 32, t), ST, strb(('7 (UTF-8), 4 (UCS-4)', '10 (UTF-8), 5 (UCS-4)')), STR_OUT)
PROPS['P05'] = Prop(lambda t: texts('p05', 'p05_8', 8, t, W=7) + texts('p05', 'p05_32', 32, t), ST, strb(('7 (UTF-8), 4 (UCS-4)', '10 (UTF-8), 5 (UCS-4)')), STR_OUT)
def p06(t):
    d = t == 'thorough'; R = []
    for ucs2 in (0, 1):
        for hops in (2, 3, 4) + ((5, 6) if d else ()):
            top = {2: 4, 3: 3, 4: 2, 5: 2, 6: 1}[hops] + (1 if d else 0)
            for n in range(0, top + 1): R.append(Run('p06', 'p06', cost=n * hops, chars=n, hops=hops, ucs2=ucs2))
        for hops in (2, 3):
            R.append(Run('p06', 'p06', cost=4, pre=1, prehi=40, chars=1, hops=hops, ucs2=ucs2))
            for a in (63, 127, 255, 511, 1023) + ((2047, 4095) if d else ()): R.append(Run('p06', 'p06', cost=6, pre=a, prehi=a + 2, chars=1, hops=hops, ucs2=ucs2))
    return R
PROPS['P06'] = Prop(p06, ['converted back'], lambda t: {'texts': 'every text of up to %d Unicode characters; one arbitrary character repeated 1-40, 63-65, 127-129, 255-257, 511-513, 1023-1025 times plus another' % (4 if t == 'quick' else 5), 'chains': 'every chain of up to %d conversions that ends in the starting encoding (shorter texts for longer chains)' % (4 if t == 'quick' else 6), 'encodings': 'UTF-8, UTF-16, UCS-4, and UCS-2 for texts up to FFFF'}, STR_OUT + '; longer chains')
def p07(t):
    R = []; d = t == 'thorough'
    for e, u, W in (('p07_8', 8, 4), ('p07_16', 16, 4), ('p07_2', 16, 4), ('p07_32', 32, 3)):
        if d: W += 1
        for ov in (0, 1):
            for r in range(7): R.append(Run('p07', e, cost=W, len=0, lenhi=W, ov=ov, r0=r, r1=r))
        for r in range(6): R.append(Run('p07', e, cost=W + 3, len=W + (2 if u == 8 else 1), r0=r, r1=r))
        R.append(Run('p07', e, cost=2, len=2, hist=2)); R += mixed('p07', e, u, t, most={8: 2, 16: 3, 32: 3}[u]) + misplaced('p07', e, u)
        for f in KINDS[u]:
            R.append(Run('p07', e, cost=3, pre=1, prehi=24, fill=f, len=2))
            R.append(Run('p07', e, cost=3, len=2, suf=1, sufhi=8, fill2=f))
            for a in (63, 127, 255, 511, 1023): R.append(Run('p07', e, cost=3, pre=a, prehi=a + 2, fill=f, len=1))
        for a in (65535, 65536): R.append(Run('p07', e, cost=8, steps=4000000000, pre=a, fill=1, len=1, r0=5, r1=5))
    R.append(Run('p07', 'p07_null'))
    return R
PROPS['P07'] = Prop(p07, ST + ['valid', 'invalid', 'null pointer'], lambda t: {'strings': 'every UTF-8 string up to %d bytes, UTF-16 and UCS-2 up to %d units, UCS-4 up to %d; any 1 or 2 units around repetitions (up to 24, 63-65, 127-129, 255-257, 511-513, 1023-1025, 65535, 65536) of one arbitrary character of each kind' % ((6, 5, 4) if t == 'quick' else (7, 6, 5)), 'ranges': 'all six, and every other int (longest all-symbolic length: the six)', 'positions': 'one arbitrary unit before 1030 characters of each kind; strings that do not start at an aligned address', 'mixtures': 'every sequence of 2 or 3 characters of any kinds with an arbitrary unit', 'history': 'one earlier call', 'overloads': 'pointer and basic_string, null pointer'}, STR_OUT)
def p08(t):
    R = []; d = t == 'thorough'
    for e, u, W, k in (('p08_8', 8, 7, {}), ('p08_16', 16, 5, {}), ('p08_16', 16, 4, {'as2': 1}), ('p08_32', 32, 4, {})):
        if d: W += 1
        for r in range(6):
            R.append(Run('p08', e, cost=W - 1, len=0, lenhi=W - 1, r0=r, r1=r, **k))
            R.append(Run('p08', e, cost=W + 3, len=W, r0=r, r1=r, **k))
        R += mixed('p08', e, u, t, most={8: 2, 16: 3, 32: 3}[u], **k) + misplaced('p08', e, u, **k)
        for f in KINDS[u]:
            R.append(Run('p08', e, cost=3, pre=1, prehi=24, fill=f, len=2, **k))
            R.append(Run('p08', e, cost=3, len=2, suf=1, sufhi=8, fill2=f, **k))
            for a in (63, 127, 255, 511, 1023): R.append(Run('p08', e, cost=3, pre=a, prehi=a + 2, fill=f, len=1, **k))
    return R
PROPS['P08'] = Prop(p08, ['accepted', 'converted'], lambda t: {'strings': 'every UTF-8 string up to %d bytes, UTF-16 up to %d units, UCS-2 and UCS-4 up to %d; any 1 or 2 units around repetitions (up to 24, 63-65, 127-129, 255-257, 511-513, 1023-1025) of one arbitrary character of each kind' % ((7, 5, 4) if t == 'quick' else (8, 6, 5)), 'positions': 'one arbitrary unit before 1030 characters of each kind; strings that do not start at an aligned address', 'mixtures': 'every sequence of 2 or 3 characters of any kinds with an arbitrary unit', 'targets': 'all six ranges'}, STR_OUT)
def p09(t):
    R = []; N = 3 if t == 'quick' else 4
    for ver in (7, 11, 16) if t == 'quick' else ALL:
        for w in (1, 2, 4):
            for n in range(0, N + 1 if ver == 16 else 3):
                for fa in (0, 1): R.append(Run('p09', 'p09', ver, cost=4 ** n, n=n, w=w, factory=fa))
            if ver == 16: R.append(Run('p09', 'p09', ver, cost=30, n=N + 1, w=w, factory=0, types=4))
    return R
PROPS['P09'] = Prop(p09, ['contradictory', 'conditions', 'no conditions'], lambda t: {'chains': 'every chain of up to %d conditions over the four classes, none and two unknown classes; up to %d over the known ones; also reversed, with a repetition' % ((3, 4) if t == 'quick' else (4, 5)), 'characters': 'every value of 8, 16 and 32 bits', 'versions': '7, 11 and 16 (7, 11: chains of two)' if t == 'quick' else 'all ten'}, 'longer chains; other unknown enumerator values than -1 and 5')
def p10(t):
    R = []; d = t == 'thorough'
    for e, u, W, k in (('p10_8', 8, 4, {}), ('p10_16', 16, 3, {}), ('p10_16', 16, 3, {'as2': 1}), ('p10_32', 32, 2, {})):
        if d: W += 1
        for c in range(1, 5):
            R.append(Run('p10', e, cost=W, len=0, lenhi=W, t0=c, t1=c, **k))
            R.append(Run('p10', e, cost=W + 3, len=W + 1, t0=c, t1=c, r0=4, r1=5, **k))
            for f in KINDS[u]:
                R.append(Run('p10', e, cost=2, pre=1, prehi=12, fill=f, len=1, t0=c, t1=c, r0=4, r1=5, **k))
                R.append(Run('p10', e, cost=2, len=1, suf=1, sufhi=4, fill2=f, t0=c, t1=c, r0=4, r1=5, **k))
        R.append(Run('p10', e, cost=4, len=0, lenhi=2, two=1, **k)); R += misplaced('p10', e, u, n=260, r0=4, r1=5, t0=1, t1=1, **k) + mixed('p10', e, u, t, most=2, groups=False, r0=5, r1=5, t0=2, t1=2, **k)
        for a in (127, 255, 1023): R.append(Run('p10', e, cost=3, pre=a, prehi=a + 2, fill=1, len=1, r0=4, r1=5, **k))
    for n in (1, 2): R.append(Run('p10', 'p10_same', cost=8 * n, chars=n)); R.append(Run('p10', 'p10_same', cost=8 * n, chars=1, two=1))
    return R
PROPS['P10'] = Prop(p10, ['invalid anyway', 'valid for the range', 'same text'], lambda t: {'strings': 'every UTF-8 string up to %d bytes, UTF-16 and UCS-2 up to %d units, UCS-4 up to %d (longest: ranges UCS-4 and Unicode); any unit around up to 12 (and 127-129, 255-257, 1023-1025) repetitions of one arbitrary character of each kind' % ((5, 4, 3) if t == 'quick' else (6, 5, 4)), 'predicates': 'each class required or excluded, and each pair of conditions on short strings', 'positions': 'one arbitrary unit before 260 characters of each kind; strings that do not start at an aligned address', 'agreement': 'every text of one or two Unicode characters in four encodings', 'version': '16'}, STR_OUT + '; predicates with more conditions (P09 reduces them to their conjunction)')
VT = {'versions': 'all ten Unicode versions'}
PROPS['P11'] = Prop(lambda t: [Run('p11', 'p11', v, cost=w, w=w) for v in ALL for w in (1, 2, 4)] + [Run('p11', 'p11_text', v, cost=5) for v in ([7, 16] if t == 'quick' else ALL)], ['assigned', 'unassigned', 'text'], lambda t: dict(VT, characters='every value of 8, 16 and 32 bits', text='one-character strings in three encodings, versions %s' % ('7 and 16' if t == 'quick' else 'all')), 'nothing for single characters', ['data/unicode_v*.h, generated once from the repository\'s UnicodeData.txt files and then pinned, is the character database'])
PROPS['P12'] = Prop(lambda t: [Run('p12', 'p12', v, w=w) for v in ALL for w in (1, 2, 4)] + [Run('p12', 'p12_widths', v) for v in ALL], ['in a class', 'not in a class', 'widths'], lambda t: dict(VT, characters='every value of 8, 16 and 32 bits'), 'nothing for single characters')
PROPS['P13'] = Prop(lambda t: [Run('p13', 'p13', v, cost=5) for v in ALL], ['has a lower-case form', 'has none'], lambda t: dict(VT, characters='every 32-bit value'), 'strings (P15)', ['data/unicode_v*.h, generated once from the repository\'s UnicodeData.txt files and then pinned, is the character database', 'the results listed in known_findings.txt are accepted for exactly those characters and versions, as is the database\'s own value'])
PROPS['P14'] = Prop(lambda t: [Run('p14', 'p14', v, cost=4, len=0, lenhi=3 if t == 'quick' and v not in (7, 16) else 4) for v in ALL] + [Run('p14', 'p14', 16, cost=5, len=5, lenhi=6 if t == 'quick' else 8), Run('p14', 'p14', 16, cost=5, len=2, lenhi=3, more=2)] +
    [Run('p14', 'p14_near', 16, cost=3, before=a, after=b) for a, b in ((0, 1), (0, 2), (0, 5), (0, 9), (0, 30), (1, 0), (2, 0), (1, 1))] + [Run('p14', 'p14_null', v) for v in ALL] + [Run('p14', 'p14_enc', v) for v in ALL], ['Turkic', 'other language', 'null language', 'encodings'],
    lambda t: dict(VT, languages='every string up to %d bytes (versions other than 7 and 16: %d), each code with up to 30 bytes after it or 2 before it, null' % ((6, 3) if t == 'quick' else (8, 4)), characters='every 32-bit value; in UTF-8 and UTF-16: I, dotted I, i, dotless i, T'), 'longer language strings that do not begin with a code')
def p15(t):
    R = []
    for e, u, W in (('p15_8', 8, 5), ('p15_16', 16, 4), ('p15_32', 32, 3)):
        R += texts('p15', e, u, t, W=W, w2=2, ov=(0,), long=True, big=False, most=2 if u == 8 and t == 'quick' else None, groups=True if t != 'quick' or u != 8 else [(1, 3), (3, 1), (1, 2), (4, 2), (7, 1)], **({'nz': 1} if u == 32 else {}))
    R += [Run('p15', 'p15_same', v, cost=2, chars=n) for v in (7, 11, 16) for n in (1, 2)]
    if t == 'thorough': R += [Run('p15', 'p15_same', v, cost=3, chars=n) for v in ALL for n in (1, 2, 3)]
    return R
PROPS['P15'] = Prop(p15, ST + ['same text'], strb(('5 (UTF-8), 4 (UTF-16), 3 (UCS-4)', '8, 6, 4'), 2, {'overloads': 'basic_string', 'languages': 'none and tr', 'agreement': 'every text of up to 2 Unicode characters in three encodings'}), STR_OUT + '; other languages (P14)')
def p16(t):
    R = []
    for e, u, W in (('p16_8', 8, 6), ('p16_16', 16, 6), ('p16_32', 32, 4)): R += texts('p16', e, u, t, W=W, ov=(0, 1, 2))
    return R + [Run('p16', 'p16_null')]
PROPS['P16'] = Prop(p16, ST + ['beyond 10FFFF', 'null pointer'], strb(('6 (UTF-8, UTF-16), 4 (UCS-4)', '9, 8, 5'), 3, {'overloads': 'pointer, pointer with length 0, basic_string; null pointers'}), STR_OUT, ['the results listed in known_findings.txt (one character too few before a cut-short end) are accepted, as is the right count'])
def p17(t):
    R = []; d = t == 'thorough'
    for e, u, W in (('p17_is8', 8, 6), ('p17_len8', 8, 6), ('p17_len16', 16, 5), ('p17_len32', 32, 4)):
        if d: W += 2
        R += [Run('p17', e, cost=W - 1, len=1, lenhi=W - 1), Run('p17', e, cost=W + 2, len=W)] + mixed('p17', e, u, t) + [r for r in misplaced('p17', e, u) if r.params.get('pre') != 0] + [Run('p17', e, cost=2, align=a, pre=1, prehi=20, fill=1, len=1) for a in (1, 2, 3)]
        for f in KINDS[u]:
            R.append(Run('p17', e, cost=3, pre=1, prehi=24, fill=f, len=3)); R.append(Run('p17', e, cost=3, pre=0, len=2, suf=1, sufhi=12, fill2=f))
            R.append(Run('p17', e, cost=2, pre=1, prehi=40, fill=f, len=0))
            for a in (63, 127, 255, 511, 1023): R.append(Run('p17', e, cost=3, pre=a, prehi=a + 2, fill=f, len=1))
    R += [Run('p17', 'p17_is8', cost=5, len=1, lenhi=4 if not d else 5, preds=4)]
    for e, u, n in (('p17_beyond8', 8, 4), ('p17_beyond16', 16, 3), ('p17_beyond32', 32, 2)):
        R.append(Run('p17', e, cost=4, len=1, lenhi=n)); R += [Run('p17', e, cost=3, pre=1, prehi=10 if f == 1 else 4, fill=f, len=1) for f in KINDS[u]]
    for e, u, n in (('p17_part8', 8, 3), ('p17_part16', 16, 3), ('p17_part32', 32, 2)):
        for part in range(1, n + 1): R.append(Run('p17', e, cost=4, len=part + (2 if u == 8 else 1), part=part))
    return R
PROPS['P17'] = Prop(p17, ST + ['null inside', 'ends before the length', 'part of a longer text'], lambda t: {'buffers': 'exact-size, unterminated: every content up to %d bytes, %d 16-bit units, %d 32-bit units; any 1 to 3 units around repetitions (up to 24, 63-65, 127-129, 255-257, 511-513, 1023-1025) of one arbitrary character of each kind; only repetitions up to 40' % ((6, 5, 4) if t == 'quick' else (8, 7, 6)), 'following data': 'any; up to 3 units plus 1 or 2 arbitrary ones; texts of up to 4 units, or any unit after up to 4 (ASCII: 10) characters, that end before any greater length', 'predicates': 'none, and each excluded class on short buffers'}, STR_OUT)
GEN = list(range(50, 62))
def p18(t):
    R = []; d = t == 'thorough'
    PRED = {8: (4, 5), 16: (3, 5), 32: (4,)}
    for e, u, ops, W in (('p18_8', 8, list(range(15)) + GEN, 4), ('p18_16', 16, list(range(9)) + GEN, 3), ('p18_32', 32, list(range(10)) + GEN, 3)):
        if d: W += 1
        for op in ops:
            pred = op in PRED[u]; table = u == 8 and op == 7; low = op in (55, 56); slow = op in (51, 53, 54, 59)
            if pred or low:     # class and case tables: unmerged in raw, so short there
                R.append(Run('p18', e, cfg='raw', cost=4, len=0, lenhi={8: 3, 16: 1, 32: 1}[u], op=op)); R.append(Run('p18', e, cost=4, len=0, lenhi=W - 1, op=op))
                if low: R += [Run('p18', e, cost=2, pre=1, prehi=20, fill=f, len=1, op=op) for f in KINDS[u]] + [Run('p18', e, cost=2, pre=255, prehi=257, fill=f, len=1, op=op) for f in KINDS[u]]
                continue
            if table:
                R.append(Run('p18', e, cfg='raw', cost=3, len=0, lenhi=2, op=op)); R.append(Run('p18', e, cost=3, len=0, lenhi=W, op=op))
                for f in KINDS[u]: R.append(Run('p18', e, cost=3, pre=1, prehi=3, fill=f, len=1, op=op))
                R.append(Run('p18', e, cfg='raw', cost=3, pre=1, prehi=257 if d else 40, fill=1, len=1, op=op)); continue
            w = min(W, 3) if slow else W
            R.append(Run('p18', e, cfg='raw', cost=w + (2 if u == 8 else 0), len=0, lenhi=w, op=op))
            if op == 52:
                for f in KINDS[u]: R += [Run('p18', e, cfg='raw', cost=3, pre=1, prehi=6, fill=f, len=1, op=op), Run('p18', e, cfg='raw', cost=2, len=1, suf=1, sufhi=6, fill2=f, op=op)] + [Run('p18', e, cfg='raw', cost=3, pre=a, fill=f, len=0, op=op) for a in (20, 64, 256)]
                continue
            for f in KINDS[u]:
                R.append(Run('p18', e, cfg='raw', cost=2, pre=1, prehi=(20 if f == 1 else 4) if slow else 36 if f == 1 else 10, fill=f, len=1, op=op))
                if slow: continue
                for a in ((63, 65), (127, 129), (255, 257)) + (((1023, 1025),) if f == 1 or d else ()): R.append(Run('p18', e, cfg='raw', cost=3, pre=a[0], prehi=a[1], fill=f, len=1, op=op))
                R.append(Run('p18', e, cfg='raw', cost=2, len=1, suf=1, sufhi=10, fill2=f, op=op))
            if not slow: R += mixed('p18', e, u, t, cfg='raw', most={8: 2, 16: 3, 32: 3}[u], groups=False, op=op) + [Run('p18', e, cfg='raw', cost=2, align=a, pre=0, prehi=17, fill=1, len=1, op=op) for a in (1, 3)]
    R.append(Run('p18', 'p18_null', cfg='raw'))
    R.append(Run('p18', 'p18_null', cfg='std'))
    return R
PROPS['P18'] = Prop(p18, ['returned', 'null pointers'], lambda t: {'operations': 'every public function and decodeUtf8, each with every enumerator argument', 'strings': 'every string up to %d bytes, %d 16-bit or 32-bit units; any unit after up to 6 (conversions, validators: also 255-257) repetitions of one arbitrary character of each kind; buffers of exactly that size' % ((4, 3) if t == 'quick' else (5, 4)), 'code': 'unoptimised IR with every UBSan check as an assertion, so that no access is optimised away (predicates, lower-casing and code pages: up to 1 to 3 units there, the rest on optimised IR)'}, STR_OUT + '; failing memory allocation', ['a loop that exceeds the step bound counts as endless'])
def p19(t):
    R = []; d = t == 'thorough'
    for x, u, W in (('8', 8, 5), ('16', 16, 5), ('32', 32, 5), ('w', 32, 4)):
        if d: W += 2
        R += [Run('p19', 'p19_split' + x, cost=W - 1, len=0, lenhi=W - 1), Run('p19', 'p19_split' + x, cost=W + 1, len=W)]
        if x != 'w':
            for f in KINDS[u][:2]:
                R += [Run('p19', 'p19_split' + x, cost=3, pre=1, prehi=20, fill=f, len=2), Run('p19', 'p19_split' + x, cost=3, len=2, suf=1, sufhi=20, fill2=f), Run('p19', 'p19_split' + x, cost=3, pre=1, prehi=17, fill=f, len=1, suf=17, fill2=f)]
                R += [Run('p19', 'p19_split' + x, cost=4, pre=a, prehi=a + 1, fill=f, len=1) for a in (255, 1023)]
            R += [Run('p19', 'p19_many' + x, cost=4, n=1, nhi=24 if not d else 60), Run('p19', 'p19_many' + x, cost=6, n=32, nhi=33)] + [Run('p19', 'p19_many' + x, cost=6, n=a, nhi=a + k, few=1) for a, k in ((63, 2), (127, 2), (255, 2))]
            R.append(Run('p19', 'p19_split' + x, cost=3, hist=2, len=2))
        for k, each in ((0, 0), (1, 4), (2, 3), (3, 2), (4, 1), (6, 1)) + (((3, 3), (4, 2), (8, 1)) if d else ()): R.append(Run('p19', 'p19_join' + x, cost=k * each, k=k, each=each))
        R.append(Run('p19', 'p19_join' + x, cost=3, k=2, each=2, pad=15))
    for x in 'bsl': R += [Run('p19', 'p19_split' + x, cost=4, len=0, lenhi=3), Run('p19', 'p19_split' + x, cost=3, pre=1, prehi=20, len=1), Run('p19', 'p19_join' + x, cost=4, k=2, each=2), Run('p19', 'p19_join' + x, cost=4, k=3, each=1)]
    return R
PROPS['P19'] = Prop(p19, ['empty string', 'one piece', 'several pieces', 'many pieces', 'invertible', 'not invertible'], lambda t: {'split': 'every string up to %d characters of char, char16_t, char32_t (wchar_t: one less; unsigned char, short, long: 3) and every delimiter; any 1 or 2 characters around up to 20 (and 255, 256, 1023, 1024) repetitions of one character; up to %d delimiters with one other character anywhere (63-65, 127-129, 255-257: at the ends or in the middle)' % ((5, 24) if t == 'quick' else (7, 60)), 'join': 'up to %d pieces; any contents, sizes 0-4 for one, 0-3 for two, 0-2 for three, 0-1 for more pieces; two pieces of 15 to 17' % (6 if t == 'quick' else 8), 'delimiters': 'any, null included'}, STR_OUT + '; more pieces')
def p20(t):
    R = []; d = t == 'thorough'
    for x, u, W in (('8', 8, 7), ('16', 16, 6), ('32', 32, 6), ('w', 32, 5)):
        if d: W += 2
        R += [Run('p20', 'p20_' + x, cost=W - 1, len=0, lenhi=W - 1), Run('p20', 'p20_' + x, cost=W, len=W)]
        for k in range(4): R.append(Run('p20', 'p20_set' + x, cost=4 + k, len=0, lenhi=W - 2 if k < 3 else W - 3, k=k))
        if x == 'w': continue
        for f in KINDS[u][:3]:
            R += [Run('p20', 'p20_' + x, cost=3, pre=1, prehi=20, fill=f, len=2), Run('p20', 'p20_' + x, cost=3, len=2, suf=1, sufhi=20, fill2=f), Run('p20', 'p20_' + x, cost=3, len=2, suf=1, sufhi=20, pre=1, prehi=3, fill=f, fill2=f)]
        if x != 'w': R += [Run('p20', 'p20_' + x, cost=3, len=1, suf=1030, fill2=f) for f in KINDS[u]] + [Run('p20', 'p20_' + x, cost=3, pre=a, prehi=a + 1, fill=1, len=1) for a in (63, 255, 1023)] + [Run('p20', 'p20_' + x, cost=3, len=1, suf=a, sufhi=a + 1, fill2=1) for a in (63, 255)]
        R += [Run('p20', 'p20_runs' + x, cost=4, n=0, nhi=20, m=0, mhi=20, inside=i) for i in (0, 1)] + [Run('p20', 'p20_runs' + x, cost=6, n=a, nhi=a + 1, m=b, mhi=b + 1) for a, b in ((255, 0), (0, 255), (127, 127))]
    for x in 'bsl': R += [Run('p20', 'p20_' + x, cost=4, len=0, lenhi=4), Run('p20', 'p20_' + x, cost=3, pre=1, prehi=20, len=1), Run('p20', 'p20_' + x, cost=3, len=1, suf=1, sufhi=20), Run('p20', 'p20_set' + x, cost=4, len=0, lenhi=3, k=2)]
    R += [Run('p20', 'p20_self', cost=4, len=0, lenhi=3), Run('p20', 'p20_self', cost=4, pre=16, prehi=17, len=1)]
    R += [Run('p20', 'p20_ascii', cost=5, len=0, lenhi=6 if not d else 8), Run('p20', 'p20_ascii', cost=3, pre=1, prehi=20, fill=1, len=2), Run('p20', 'p20_ascii', cost=3, len=2, suf=1, sufhi=20, fill2=1), Run('p20', 'p20_ascii', cost=3, len=2, pre=1, prehi=4, fill=2, suf=1, sufhi=4, fill2=3)]
    R += [Run('p20', 'p20_set8', cost=6, len=2, k=6), Run('p20', 'p20_set32', cost=6, len=2, k=6), Run('p20', 'p20_set8', cost=6, len=1, k=20)]
    return R
PROPS['P20'] = Prop(p20, ['nothing left', 'trimmed', 'unchanged', 'long runs'], lambda t: {'strings': 'every string up to %d characters (char), %d (char16_t, char32_t), %d (wchar_t), 4 (unsigned char, short, long); any 2 characters around up to 20 repetitions of one; any character after 63, 64, 255, 256, 1023, 1024 or before 63, 64, 255, 256, 1030; runs of up to 20 (and 127, 128, 255, 256) members before and after' % ((7, 6, 5) if t == 'quick' else (9, 8, 7)), 'sets': 'every set up to 3 characters (of 6 and 20 on short strings); the defaults'}, STR_OUT + '; larger sets')
def p21(t):
    R = []; d = t == 'thorough'
    for e, n in (('p21_8', 3), ('p21_16', 4), ('p21_32', 4)):
        if d: n += 1
        R += [Run('p21', e, cost=n, chars=0, charshi=n - 1), Run('p21', e, cost=n + 2, chars=n), Run('p21', e, cost=4, pre=1, prehi=12, chars=1, suf=0, sufhi=1), Run('p21', e, cost=4, pre=0, prehi=1, chars=1, suf=0, sufhi=12)]
        R += [Run('p21', e, cost=4, pre=1, prehi=40, chars=1), Run('p21', e, cost=4, chars=1, suf=1, sufhi=40), Run('p21', e, cost=4, pre=16, chars=1, suf=16), Run('p21', e, cost=4, pre=3, chars=2), Run('p21', e, cost=4, chars=2, suf=3)]
        R += [Run('p21', e, cost=4, pre=a, chars=c, mid=m, midhi=m + k, suf=b) for a, c, b in ((0, 1, 0), (1, 0, 1), (0, 1, 1)) for m, k in (((2, 18), (63, 2), (255, 2), (1024, 1)) if not b or d else ((3, 0), (15, 1), (64, 0), (130, 0)))]
        if d: R += [Run('p21', e, cost=9, pre=15, prehi=17, chars=2, suf=15, sufhi=17)]
    return R
PROPS['P21'] = Prop(p21, ['nothing left', 'trimmed', 'unchanged'], lambda t: {'texts': 'every text of up to %d Unicode characters (UTF-8: %d); any 1 or 2 characters among up to 40 repetitions of any blank; 2-20, 63-65, 255-257, 1024, 1025 (with a blank after them: 3, 15, 16, 64, 130) repetitions of one other character after any character or blank' % ((4, 3) if t == 'quick' else (5, 4))}, STR_OUT)

def p22(t):
    R = [Run('p22', 'p22_null')]; d = t == 'thorough'
    for e in range(4):
        W = (7 if e in (0, 3) else 4) + (2 if d else 0)
        R += [Run('p22', 'p22', cost=W, enc=e, len=0, lenhi=W - 1), Run('p22', 'p22', cost=W + 2, enc=e, len=W), Run('p22', 'p22', cost=2, enc=e, len=2, hist=2)]
        for f in (1, 8, 2):
            R += [Run('p22', 'p22', cost=3, enc=e, pre=1, prehi=24, fill=f, len=2 if f != 2 else 1), Run('p22', 'p22', cost=3, enc=e, len=2 if f != 2 else 1, suf=1, sufhi=12, fill2=f)]
            R += [Run('p22', 'p22', cost=3, enc=e, pre=a, prehi=a + 2, fill=f, len=1) for a in (63, 127, 255, 511, 1023)]
        R += [Run('p22', 'p22', cost=8, steps=4000000000, enc=e, pre=a, fill=1, len=1) for a in (65535, 65536)]
    return R
PROPS['P22'] = Prop(p22, ['as it is', 'unknown encoding', 'unassigned byte', 'converted', 'null pointer'], lambda t: {'strings': 'every string up to %d bytes for the code pages, %d otherwise; any 1 or 2 bytes around repetitions of one ASCII or other byte or two-byte group: up to 24, 63-65, 127-129, 255-257, 511-513, 1023-1025, 65535, 65536' % ((4, 7) if t == 'quick' else (6, 9)), 'encodings': 'every int', 'history': 'one earlier call'}, STR_OUT, ['data/codepages.h, written by Python\'s codecs, is the definition of the two code pages'])
def p23(t):
    R = []; d = t == 'thorough'
    for ov in (0, 1):
        for op in range(10):
            W = 4 + d
            R += [Run('p23', 'p23_wide', cost=W, op=op, ov=ov, len=0, lenhi=W)] + [Run('p23', 'p23_wide', cost=3, op=op, ov=ov, pre=1, prehi=24, fill=f, len=2) for f in KINDS[32]] + [Run('p23', 'p23_wide', cost=3, op=op, ov=ov, pre=a, prehi=a + 2, fill=f, len=1) for f in KINDS[32] for a in (127, 255, 1023)]
        for e, u, W in (('p23_8', 8, 7), ('p23_16', 16, 6)):
            if d: W += 2
            for op in (0, 1): R += [Run('p23', e, cost=W, op=op, ov=ov, len=0, lenhi=W)] + [Run('p23', e, cost=3, op=op, ov=ov, pre=1, prehi=24 if f == 1 else 8, fill=f, len=2) for f in KINDS[u]] + [Run('p23', e, cost=3, op=op, ov=ov, pre=a, prehi=a + 2, fill=f, len=1) for f in KINDS[u] for a in (127, 255, 1023)] + mixed('p23', e, u, t, op=op, ov=ov) + misplaced('p23', e, u, op=op, ov=ov)
    return R
PROPS['P23'] = Prop(p23, ['compared', 'copied', 'not copied'], lambda t: {'strings': 'every wide and UCS-4 string up to %d units, UTF-8 up to %d, UTF-16 up to %d; any 1 or 2 units after up to 24, 127-129, 255-257, 1023-1025 repetitions of one arbitrary character of each kind' % ((4, 7, 6) if t == 'quick' else (5, 9, 8)), 'overloads': 'pointer and basic_string'}, STR_OUT)
def p24(t):
    d = t == 'thorough'
    return [Run('p24', 'p24', cost=n, len=n) for n in range(1, 12 if d else 10)] + [Run('p24', 'p24_walk', cost=n, len=n) for n in range(1, 10 if d else 8)] + [Run('p24', 'p24_walk', cost=3, pre=1, prehi=12, fill=f, len=3) for f in KINDS[8]]
PROPS['P24'] = Prop(p24, ST, lambda t: {'one character': 'every string of 1 to %d bytes (no sequence is longer than 6), and the consumed bytes alone' % (9 if t == 'quick' else 11), 'walks': 'every string of up to %d bytes; any 3 bytes after up to 12 characters of each kind' % (7 if t == 'quick' else 9)}, 'longer walks')
PROPS['P25'] = Prop(lambda t: [Run('p25', 'p25', v, cost=4) for v in ALL] + [Run('p25', 'p25_name', v) for v in ALL], ['added in this version', 'added later', 'version'], lambda t: dict(VT, characters='every 32-bit value'), 'nothing', ['data/unicode_v*.h, generated once from the repository\'s UnicodeData.txt files and then pinned, is the character database'])
def p27(t):
    R = []; d = t == 'thorough'
    for e, u, ops, W in (('p27_8', 8, range(7), 6), ('p27_16', 16, range(5), 5), ('p27_16', 16, (), 4), ('p27_32', 32, range(9), 3)):
        k = {'as2': 1} if e == 'p27_16' and not ops else {}; W += d
        for op in list(ops) + [20, 21]:
            low = op == {8: 5, 16: 4, 32: 5}[u] and op < 20
            w = W - 2 if low or op == 20 else W
            R += [Run('p27', e, cost=w, op=op, len=0, lenhi=w, **k)]
            for f in KINDS[u]: R += [Run('p27', e, cost=3, op=op, pre=1, prehi=8, fill=f, len=2 if not low else 1, **k), Run('p27', e, cost=3, op=op, len=1, suf=1, sufhi=5, fill2=f, **k)] + [Run('p27', e, cost=3, op=op, pre=a, prehi=a + 2, fill=f, len=1, **dict(k, **({'r0': 2, 'r1': 5} if op == 20 else {}))) for a in (127, 255, 1023)]
        for op in (22, 23, 24): R += [Run('p27', e, cost=4, op=op, len=0, lenhi={8: 3, 16: 2, 32: 1}[u], **k)]
    return R
PROPS['P27'] = Prop(p27, ['compared', 'null inside'], lambda t: {'strings': 'every UTF-8 string up to %d bytes, UTF-16 up to %d, UCS-2 up to %d, UCS-4 and wide up to %d units, null characters inside included (two fewer with a range or for lower-casing; 3, 2, 2, 1 with a predicate); any 1 or 2 units around repetitions of one character of each kind' % ((6, 5, 4, 3) if t == 'quick' else (7, 6, 5, 4)), 'predicates': 'each class required or excluded', 'ranges': 'all six and one unknown'}, STR_OUT)
def p28(t):
    R = []; d = t == 'thorough'
    for e, u, n, W, low in (('p28_8', 8, 9, 7, (3, 4)), ('p28_16', 16, 5, 6, (2, 3)), ('p28_32', 32, 8, 4, ())):
        for op in range(n):
            w = W + d
            if op in low: w = 4 if u == 8 else 3
            if u == 8 and op in (6, 7): w = 3 + d
            if u == 8 and op == 5: w = 5 + d
            R += [Run('p28', e, cost=w, op=op, len=0, lenhi=w - 1), Run('p28', e, cost=w + 2, op=op, len=w)]
            for f in KINDS[u]:
                if u == 8 and op in (6, 7) and f > 3: continue
                R += [Run('p28', e, cost=3, op=op, pre=1, prehi=8, fill=f, len=1 if op in low else 2), Run('p28', e, cost=3, op=op, len=1, suf=1, sufhi=5, fill2=f)]
                R += [Run('p28', e, cost=3, op=op, pre=a, prehi=a + 2, fill=f, len=1) for a in ((127, 255, 1023) if not op in low else (127,))] + ([Run('p28', e, cost=3, op=op, len=1, suf=1030, fill2=f)] if op not in low and not (u == 8 and op in (5, 6, 7)) else [])
            if op not in low and not (u == 8 and op in (5, 6, 7)): R += mixed('p28', e, u, t, op=op, groups=False)
    return R
PROPS['P28'] = Prop(p28, ['empty', 'not empty'], lambda t: {'strings': 'every UTF-8 string up to %d bytes, UTF-16 up to %d units, UCS-4 and wide up to %d (lower-casing: 4, 3; trimming: 5; code pages: 3); any 1 or 2 units around repetitions of one character of each kind (up to 8, 127-129, 255-257, 1023-1025)' % ((7, 6, 4) if t == 'quick' else (8, 7, 5))}, STR_OUT)
def p29(t):
    R = []; d = t == 'thorough'
    for cfg in ('w16', 'w16u', 'w16m'):
        R.append(Run('p29', 'p29_null', cfg=cfg))
        for e, u, ops, W in (('p29_wide', 16, range(6), 5), ('p29_8', 8, range(2), 6), ('p29_32', 32, range(2), 3)):
            ops = list(ops) + ([] if cfg == 'w16' else [6, 7] + ([2, 3] if u == 8 else []))
            for op in ops:
                for ov in (0, 1):
                    R += [Run('p29', e, cfg=cfg, cost=W, op=op, ov=ov, len=0, lenhi=W + d)]
                    for f in KINDS[u]: R += [Run('p29', e, cfg=cfg, cost=3, op=op, ov=ov, pre=1, prehi=8, fill=f, len=1)]
                for f in KINDS[u]: R += [Run('p29', e, cfg=cfg, cost=3, op=op, pre=a, prehi=a + 2, fill=f, len=1) for a in (127, 255)]
                R += mixed('p29', e, u, t, cfg=cfg, groups=False, op=op)
    return R
PROPS['P29'] = Prop(p29, ['compared', 'copied', 'not copied', 'null pointer'], lambda t: {'strings': 'every wide string up to %d units, UTF-8 up to %d bytes, UCS-4 up to %d; any unit after up to 8, 127-129, 255-257 repetitions of one character of each kind' % ((5, 6, 3) if t == 'quick' else (6, 7, 4)), 'builds': '16-bit wchar_t; with WIN32 and _UNICODE; with WIN32 and _MBCS'}, STR_OUT, ['clang -fshort-wchar stands for a platform with 16-bit wchar_t'])

def p26(t):
    R = []; d = t == 'thorough'; N8, N16, N32 = 17, 8, 9; N = N8 + N16 + N32 + 2
    kinds = lambda f: (1, 2, 3, 4, 7) if f < N8 else (1, 2) if f < N8 + N16 else (1, 2, 3) if f < N - 2 else (0,)
    slow = (4, 5, 8, 9, N8 + 3, N8 + 4, N8 + 6, N8 + N16 + 4, N8 + N16 + 6, N8 + N16 + N32); trims = (12, N8 + 7, N8 + N16 + 7)
    for f in range(N):
        fl = 1 if f in slow + trims else 2
        R += [Run('p26', 'p26_hist', cost=6, f=f, fl=1, fk=0, gk=k, gl=1, first=0) for k in ((0, 2, 3) if d else (0,) if f in slow else (0, 3))]
        R += [Run('p26', 'p26_hist', cost=5, f=f, fk=0, fl=1, gk=1, gl=0, gtimes=1100, first=0, g0=f, g1=f), Run('p26', 'p26_hist', cost=5, f=f, fk=1, fl=0, ftimes=40, gk=1, gl=0, gtimes=1100, first=0), Run('p26', 'p26_hist', cost=5, f=f, fk=1, fl=0, ftimes=90, gk=0, gl=1)]
        R += [Run('p26', 'p26_reuse', cost=5, f=f, fl=fl, fk=0, gl=fl)] + [Run('p26', 'p26_reuse', cost=5, f=f, fk=k, fl=0, gk=k, gl=0) for k in kinds(f) if k]
        R += [Run('p26', 'p26_hist', cost=6, f=f, fl=fl, fk=0, gk=k, gl=1 if not d else 2) for k in (0, 7)]
        R += [Run('p26', 'p26_hist', cost=6, f=f, fl=1 if f not in trims or d else 0, fk=k, gk=g, gl=0 if not d else 1) for k in kinds(f)[-2:] for g in ((1, 4) if not d else (1, 2, 3, 4, 7))]
        R += [Run('p26', 'p26_threads', cost=6, f=f, fl=fl, fk=0, alone=1)] + [Run('p26', 'p26_threads', cost=6, f=f, fl=1, fk=k, alone=1) for k in kinds(f)]
        R += [Run('p26', 'p26_threads', cost=6, f=f, fl=1 if f not in trims or d else 0, fk=k, gk=g, gl=1 if d else 0) for k in kinds(f)[-1:] for g in ((2, 4) if d else (4,) if f % 2 else (2,))]
        R += [Run('p26', 'p26_again', cost=5, f=f, fl=1 if f in slow else 4 if f < N8 else 3, reps=2), Run('p26', 'p26_again', cost=5, f=f, fl=1, reps=300 if f not in slow else 40)]
        R += [Run('p26', 'p26_again', cost=5, f=f, fk=k, fl=1, reps=3) for k in kinds(f)]
    R += [Run('p26', 'p26_hist', v, cost=6, f=f, fl=1, gk=k, gl=1, g0=g, g1=g) for v in (ALL if d else (7, 11)) for f in (8, N - 2) for g in (4, 8, N - 2, N - 1) for k in (0, 2)]
    return R
PROPS['P26'] = Prop(p26, ['repeated', 'two threads'], lambda t: {'functions': '36 calls that together use every public function group', 'history': 'f(x), g(y), f(x) for every pair of calls; x: one character of each kind and one unit, or 2 units (1 for white-space trims and where case or class tables are used); y: one character of each kind or one unit (thorough: and another); the same call up to 300 times; after y of 1100 characters, x of 40 or 90', 'reuse': 'the second call is on the same buffer with other contents', 'fresh process': 'after reuse and after long texts the result is compared with that of a process which made no other call', 'schedules': 'two threads: one after the other, and all of the second at any access of the first to a global that the code may write; every pair of calls, and each with itself on the same arguments', 'races': 'conflicting accesses to globals or heap without a common lock, outside guarded initialisation'}, STR_OUT + '; more than one preemption, more than two threads; shared state reached only through the C library')
def p30(t):
    R = []; d = t == 'thorough'; N = 36
    for f in range(N):
        for k in (((1, 2, 3, 4, 7) if f < 17 else (1, 2) if f < 25 else (1, 2, 3)) if f < 34 else (0,)):
            R += [Run('p30', 'p30', cost=3, f=f, fk=k, fl=l, times=n, faults=10 if not d else 16) for n, l in ((20, 0), (17, 1)) + (((33, 1), (3, 2)) if d else ())]
    for x, ks in (('trim8', (1, 2, 3, 4)), ('trim16', (1, 2)), ('trim32', (1, 2, 3)), ('ascii', (1, 3)), ('set', (1, 3))):
        R += [Run('p30', 'p30_' + x, cost=4, fk=k, fl=1, times=n) for k in ks for n in (17,)]
    R += [Run('p30', 'p30_pieces' + x, cost=4, faults=16, first=a, second=b, third=c) for x in ('8', '16', '32') for a, b, c in ((20, 3, 0), (0, 17, 20), (20, 20, 20))]
    return R
PROPS['P30'] = Prop(p30, ['an allocation failed', 'enough memory'], lambda t: {'functions': '36 calls that together use every public function group, the trims in place, split and join', 'faults': 'any one of the first 10 allocations of the call (pieces: 16, trims: 8) fails', 'strings': '17 or 20 repetitions of one arbitrary character of each kind, and one arbitrary unit'}, STR_OUT + '; more than one failing allocation')
def p31(t):
    R = []; d = t == 'thorough'
    for f in range(36):
        fl = 1 if f in (4, 5, 8, 9, 12, 20, 21, 23, 24, 29, 31, 32) else 2
        for k in (((0, 1, 2, 3, 4, 7) if f < 17 else (0, 1, 2) if f < 25 else (0, 1, 2, 3)) if f < 34 else (0,)):
            R += [Run('p31', 'p31', cost=3, f=f, fk=k, fl=(fl if k == 0 else 1) + (1 if d and fl > 1 else 0), early=1)]
            if k and f not in (12, 24, 32): R += [Run('p31', 'p31', cost=3, f=f, fk=k, fl=0, times=20, early=1)]
    R += [Run('p31', 'p31', v, cost=2, f=f, fk=0, fl=1, early=1) for v in ALL for f in (4, 8, 34, 35)]
    return R
PROPS['P31'] = Prop(p31, ['called early'], lambda t: {'functions': '36 calls that together use every public function group', 'strings': 'one arbitrary character of each kind and one unit, or %d units; 20 repetitions of one character' % (2 if t == 'quick' else 3), 'time': 'no global object of the library is constructed', 'versions': '16; predicates, lower-casing and the version string: all ten'}, STR_OUT + '; calls after global objects are destroyed')
def p32(t):
    R = []; d = t == 'thorough'
    for f in range(36):
        fl = 1 if f in (4, 5, 8, 9, 12, 20, 21, 23, 24, 29, 31, 32) else 2
        for k in (((0, 1, 2, 3, 4, 7) if f < 17 else (0, 1, 2) if f < 25 else (0, 1, 2, 3)) if f < 34 else (0,)):
            for first in (0, 1):
                R += [Run('p32', 'p32', cost=3, f=f, fk=k, fl=(fl if k == 0 else 1) + (1 if d and fl > 1 else 0), first=first)]
                if k and f not in (12, 24, 32): R += [Run('p32', 'p32', cost=3, f=f, fk=k, fl=0, times=20, first=first)]
    R += [Run('p32', 'p32', v, cost=2, f=f, fk=0, fl=1, first=1) for v in ALL for f in (4, 8, 34, 35)]
    return R
PROPS['P32'] = Prop(p32, ['another locale'], lambda t: {'functions': '36 calls that together use every public function group', 'strings': 'one arbitrary character of each kind and one unit, or %d units; 20 repetitions of one character' % (2 if t == 'quick' else 3), 'surroundings': 'the C locale with an empty environment; a Turkish single-byte locale with LANG and every other variable set and errno ERANGE (rt/surroundings.h), set before the process starts, between two calls, and reset', 'versions': '16; predicates, lower-casing and the version string: all ten'}, STR_OUT + '; other locales; C++ locale objects')
def p33(t):
    R = []; d = t == 'thorough'; slow = (8, 9, 10, 11, 4, 5, 20, 21, 23, 29, 31)
    for f in range(34):
        for k in (1, 2, 3, 4, 7) if f < 17 else (1, 2) if f < 25 else (1, 2, 3):
            R.append(Run('p33', 'p33', cost=6, steps=4000000000, f=f, fk=k, n=1024 if f not in slow or d else 256, q=4))
            for p in (1, 2): R.append(Run('p33', 'p33', cost=4, steps=4000000000, f=f, fk=k, n=(64 if f in slow + (12, 24, 32) else 256) * (4 if d else 1), q=4, place=p))
    return R
PROPS['P33'] = Prop(p33, ['three lengths'], lambda t: {'functions': '34 calls that together use every function of a string', 'texts': 'n, 4n and 16n repetitions of one arbitrary character of each kind, n = 1024 (class and case tables, code pages: %d); with one arbitrary unit before or after them, n = %d (tables: %d)' % ((256, 256, 64) if t == 'quick' else (1024, 1024, 256)), 'cost': 'IR instructions executed plus bytes moved; bytes allocated: from 4n to 16n characters at most 7 times more (plus 10000 instructions, 2048 bytes)'}, STR_OUT + '; growth that shows only in longer texts; time spent in the C library and the allocator', ['the cost of a merged call is that of its longest path'])
