"""Structured text: every small document in every layout, read back by the real reader."""
import itertools
from .. import ref
TECHNIQUE = 'model checking: exhaustive enumeration of all documents (depth <= 2 levels of braces, length <= 3) x all layout combinations; the abstract document is the oracle'
RULE = ('document = every sequence of <= 3 items over the item alphabet (numbers, quoted text with separators, words, one-line / multi-line / pointer arrays, tables, text blocks, '
        'blocks of values, arrays and tables, repeated keys and blocks); layout = every combination of {comment lines, trailing comments, blank lines, spacing, indentation, BOM, CRLF, missing final newline} '
        '(single items: all 2^8; pairs, triples: pairwise flags); column orders and key orders = all permutations; state = text written')
LIMIT = 20

# ---- abstract values: ('s',text,quote) scalar, ('a',[..],style) array, ('t',{col:[..]}) table, ('b',[(k,v)..]) block, ('x',text) text block
def _cells(): return ['1.5', '"a b"', "'x;y'", '-3e-2', 'wo#rd', '"k=v"', "'c, d'"]
ITEMS = [
    ('num', ('s', '-12.5E-3', '')),
    ('unit', ('s', '11.46 <km^2>', '')),
    ('word', ('s', 'Equirect_Moon', '')),
    ('txt', ('s', 'Neukum, G. (1983); area=7 {x}', "'")),
    ('txt2', ('s', "it's 5; #3", '"')),
    ('empty', ('s', '', "'")),
    ('arr', ('a', ['1', '-2.5e-3', '+3.'], '[')),
    ('ptr', ('a', ['1', '2', '3', '4'], '*[')),
    ('par', ('a', ['x', 'y'], '(')),
    ('arr1', ('a', ['7'], '[')),
    ('qarr', ('a', ['a b', 'c;d'], "['")),
    ('tab', ('t', [('id', ['1', '2', '3']), ('name', ['"a b"', "'x;y'", 'p#q']), ('lon', ['-1.5', '2e3', '"k=v, w"'])])),
    ('tab0', ('t', [('diam', []), ('lon', [])])),
    ('tab1', ('t', [('fraction', ['0.25'])])),
    ('blk', ('b', [('name', ('s', 'Moon; (1983)', "'")), ('range', ('a', ['.01', '300.'], '['))])),
    ('blk2', ('b', [('n', ('s', '50', '')), ('k', ('s', '3', '')), ('tb', ('t', [('bin', ['-3', '2']), ('v', ['.1', '.2'])])), ('z', ('s', 'a b', '"'))])),
]
REP = [('r', ('s', '1', '')), ('r', ('b', [('name', ('s', 'A', "'"))])), ('r', ('b', [('name', ('s', 'B', "'")), ('name', ('s', 'C', '')), ('arr', ('a', ['1', '2'], '[')) ]))]
FLAGS = ['hash', 'semi', 'blank', 'spaces', 'indent', 'bom', 'crlf', 'nonl']

def scenarios(tier):
    out = []
    for i in range(len(ITEMS)):
        for m in range(256): out.append(dict(doc=[i], lay=[m]))
    base = [0, 1, 2, 4, 8, 16, 32, 64, 128, 3, 5, 9, 17, 6, 10, 24, 255, 127, 63, 0b10111, 0b1010101]
    masks = list(range(256)) if tier == 'thorough' else base
    for p in itertools.permutations(range(len(ITEMS)), 2): out.append(dict(doc=list(p), lay=masks))
    masks3 = base if tier == 'thorough' else [0, 31, 96]
    for p in itertools.permutations(range(len(ITEMS)), 3): out.append(dict(doc=list(p), lay=masks3))
    for n in (1, 2, 3, 4):
        for p in itertools.product(range(len(REP)), repeat=n):
            for pos in ([None] + list(range(n + 1))):
                out.append(dict(rep=list(p), pos=pos, lay=base))
    out += [dict(big=n, lay=[0, 31]) for n in (50, 1000, 20000)]
    out += [dict(perm=True, lay=base if tier == 'quick' else list(range(256)))]
    return out

def unq(s): return s[1:-1] if len(s) > 1 and s[0] == s[-1] and s[0] in '"\'' else s

def value(v):
    t = v[0]
    if t == 's': return v[1]
    if t == 'a': return list(v[1])
    if t == 't': return {c: [unq(x) for x in xs] for c, xs in v[1]}
    if t == 'b': return fold(v[1])

def fold(items):
    d = {}
    n = {}
    for k, v in items: n[k] = n.get(k, 0) + 1
    for k, v in items:
        if n[k] == 1: d[k] = value(v)
        else: d.setdefault(k, []).append(value(v))
    return d

def lines(items, f, depth=0):
    L = []
    ind = ('\t' if depth % 2 else '   ') * (depth + 1) if f['indent'] else ''
    eq = '  =  ' if f['spaces'] else '='
    end = ' ; note: k = 5, [x] \'q\'' if f['semi'] else ''
    com = ['# comment, a = 3 {', '   #x=[1'] if f['hash'] else []
    bl = ['', '   '] if f['blank'] else []
    for k, v in items:
        L += com[:1] + bl
        if v[0] == 's': L.append(ind + k + eq + v[2] + v[1] + v[2] + end)
        elif v[0] == 'a':
            o = {'[': '[', '*[': '*[', '(': '(', "['": '['}[v[2]]; c = ')' if o == '(' else ']'
            q = "'" if v[2].endswith("'") else ''
            xs = [q + x + q for x in v[1]]
            if f['blank'] and len(xs) > 1:     # over several lines
                L.append(ind + k + eq + o + xs[0] + ',' + end)
                L += com[1:]
                L.append(ind + (', ' if f['spaces'] else ',').join(xs[1:]) + c + end)
            else: L.append(ind + k + eq + o + (', ' if f['spaces'] else ',').join(xs) + c + end)
        elif v[0] == 't':
            cols = v[1]
            L.append(ind + k + eq + '{' + (', ' if f['spaces'] else ',').join(c for c, _ in cols) + (' ' if f['spaces'] else '') + end)
            L += com
            for r in range(len(cols[0][1])):
                L.append(ind + ('\t' if f['indent'] else '  ' if f['spaces'] else ' ').join(xs[r] for _, xs in cols) + end)
                if r == 0: L += com[1:]
            L.append(ind + '}' + end)
        elif v[0] == 'b':
            L.append(ind + k + eq + '{' + ('  ' if f['spaces'] else '') + end)
            L += lines(v[1], f, depth + 1)
            L.append(ind + '}' + end)
    return L

def check(R, items, mask):
    import craterstats.gm as gm
    f = {n: bool(mask >> i & 1) for i, n in enumerate(FLAGS)}
    L = lines(items, f)
    nl = '\r\n' if f['crlf'] else '\n'
    s = nl.join(L) + ('' if f['nonl'] else nl)
    if not R.state(s): return
    with open('t.txt', 'w', encoding='utf-8-sig' if f['bom'] else 'utf-8', newline='') as h: h.write(s)
    got = gm.read_textstructure('t.txt'); R.step(); R.trace()
    want = fold(items)
    def norm(x):
        if isinstance(x, dict): return {k: norm(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)): return [norm(v) for v in x]
        return x
    if norm(got) != want: R.expect(False, 'read-back', f'file:\n{s}\nread {got}\nmeant {want}')
    R.outcome(repr(sorted(want)))

def run(s, R):
    if s.get('perm'):
        t = ITEMS[11][1][1]
        for p in itertools.permutations(t):
            for a, b in itertools.product((6, 14, 0), repeat=2):
                for m in s['lay']:
                    check(R, [(ITEMS[a][0] + '1', ITEMS[a][1]), ('crater', ('t', list(p))), (ITEMS[b][0] + '2', ITEMS[b][1])], m)
        return
    if 'big' in s:
        n = s['big']
        items = [('a', ('s', '1', '')), ('crater', ('t', [('diam', [repr(i * .5) for i in range(n)]), ('lon', ['"p q"'] * n), ('f', ['1'] * n)])), ('b', ('a', ['5'] * n, '['))]
        if n <= 50: items += [(f'k{i}', ('s', str(i), '')) for i in range(150)]
        for m in s['lay']: check(R, items, m)
        return
    if 'rep' in s:
        items = [REP[i] for i in s['rep']]
        if s['pos'] is not None: items.insert(s['pos'], ITEMS[11])
        # a list of one repeated table/array key is outside the format
    else:
        items = [ITEMS[i] for i in s['doc']]
    for m in s['lay']: check(R, items, m)
