"""The type universe on the Python side: enumerated by TLC from spec/Values.tla, mapped
to C++ types, extended with larger random values."""
import json, os, random, re, sys
sys.setrecursionlimit(20000)
from vlib import *

CPP_LEAF = {
    'bool': 'bool', 'char': 'char', 'i8': 'std::int8_t', 'u8': 'std::uint8_t', 'i16': 'std::int16_t', 'u16': 'std::uint16_t',
    'i32': 'std::int32_t', 'u32': 'std::uint32_t', 'i64': 'std::int64_t', 'u64': 'std::uint64_t', 'wchar': 'wchar_t',
    'c16': 'char16_t', 'c32': 'char32_t', 'f32': 'float', 'f64': 'double', 'f80': 'long double', 'E8': 'E8', 'EU16': 'EU16',
    'E32': 'E32', 'E64': 'E64', 'EPlain': 'EPlain', 'PodTr': 'PodTr', 'PodIn': 'PodIn', 'PodMac': 'PodMac', 'PodNi': 'PodNi',
    'PodSp': 'PodSp', 'PodAl': 'PodAl', 'PodBig': 'PodBig', 'll': 'long long', 'ull': 'unsigned long long', 'Eb': 'Eb', 'Ec': 'Ec', 'EL': 'EL', 'byte': 'std::byte',
    'durd': 'std::chrono::duration<double, std::ratio<1, 3>>', 'durh': 'std::chrono::hours', 'duri': 'std::chrono::duration<int, std::deci>', 'durms': 'std::chrono::milliseconds', 'durf': 'std::chrono::duration<float>', 'str': 'std::string', 'Prog': 'Prog', 'ProgPoly': 'ProgPoly'}
WIDTH = {'bool': 1, 'char': 1, 'i8': 1, 'u8': 1, 'E8': 1, 'i16': 2, 'u16': 2, 'c16': 2, 'EU16': 2, 'i32': 4, 'u32': 4, 'wchar': 4,
         'c32': 4, 'E32': 4, 'f32': 4, 'durf': 4, 'EPlain': 4, 'i64': 8, 'u64': 8, 'f64': 8, 'E64': 8, 'durms': 8, 'f80': 10,
         'PodTr': 5, 'PodIn': 9, 'PodMac': 6, 'PodNi': 10, 'PodSp': 5, 'PodAl': 9, 'PodBig': 1004,
         'll': 8, 'ull': 8, 'Eb': 1, 'Ec': 1, 'EL': 8, 'byte': 1, 'durd': 8, 'durh': 8, 'duri': 4}
CPP = {
    'vec': 'std::vector<{0}>', 'vecA': 'std::vector<{0}, CountingAlloc<{0}>>', 'list': 'std::list<{0}>', 'deque': 'std::deque<{0}>',
    'queue': 'std::queue<{0}>', 'arr0': 'std::array<{0}, 0>', 'arr1': 'std::array<{0}, 1>', 'arr3': 'std::array<{0}, 3>', 'arr17': 'std::array<{0}, 17>',
    'set': 'std::set<{0}>', 'setG': 'std::set<{0}, Rev>', 'mset': 'std::multiset<{0}>',
    'uset': 'std::unordered_set<{0}, PHash>', 'umset': 'std::unordered_multiset<{0}, PHash>',
    'map': 'std::map<{0}, {1}>', 'mapG': 'std::map<{0}, {1}, Rev>', 'mmap': 'std::multimap<{0}, {1}>',
    'umap': 'std::unordered_map<{0}, {1}, PHash>', 'ummap': 'std::unordered_multimap<{0}, {1}, PHash>',
    'opt': 'std::optional<{0}>', 'ptr': 'std::unique_ptr<{0}>', 'ptrD': 'std::unique_ptr<{0}, Del<{0}>>',
    'var2': 'std::variant<{0}, {1}>', 'var3': 'std::variant<{0}, {1}, {2}>', 'var5': 'std::variant<{0}, {1}, {2}, {3}, {4}>', 'tup5': 'std::tuple<{0}, {1}, {2}, {3}, {4}>', 'Tree': 'Tree<{0}>', 'Link': 'Link<{0}>', 'Bush': 'Bush<{0}>', 'pair': 'std::pair<{0}, {1}>',
    'tup0': 'std::tuple<>', 'tup1': 'std::tuple<{0}>', 'tup2': 'std::tuple<{0}, {1}>', 'tup3': 'std::tuple<{0}, {1}, {2}>',
    'Box': 'Box<{0}>', 'NiBox': 'NiBox<{0}>', 'TBox': 'TBox<{0}>', 'RBox': 'RBox<{0}>', 'RnBox': 'RnBox<{0}>', 'CArr': 'CArr<{0}>',
    'Rec': 'Rec<{0}, {1}>', 'Der': 'Der<{0}, {1}>', 'RPtr': 'RPtr<{0}>', 'SPtr': 'SPtr<{0}>', 'Poly': 'Poly',
    'shp': 'std::shared_ptr<{0}>', 'raw': 'Raw<{0}>', 'stack': 'std::stack<{0}>', 'pq': 'std::priority_queue<{0}>', 'opaq': 'Opaque', 'func': 'Func',
    'atom': 'Whole<std::atomic<int>>', 'thr': 'Whole<std::thread>', 'file': 'PtrLeaf<FILE*>', 'vptr': 'PtrLeaf<void*>'}


def cpp(t):
    if t['c'] in CPP_LEAF:
        return CPP_LEAF[t['c']]
    return CPP[t['c']].format(*[cpp(x) for x in t['a']])


def tname(t):
    return t['c'] + ('<' + ','.join(tname(x) for x in t['a']) + '>' if t['a'] else '')


def text(v):
    return '[%s %d %s%s]' % (v['t'], v['n'], v['v'] or '-', ''.join(' ' + text(x) for x in v['k']))


def N(t, n=0, v='', k=()):
    return {'t': t, 'n': n, 'v': v, 'k': list(k)}


def bushval(a, m, l, d, o, v, num, more=False):
    return N('tup', 0, '', [a, N('seq', 0, '', [N('tup', 0, '', [num(i), x]) for i, x in enumerate(m)]), N('seq', 0, '', l), N('seq', 0, '', d),
                            N('vec', len(o) + more, '', [N('opt', 0, '', [x]) for x in o] + [N('opt')] * more), N('vec', len(v) + more, '', [N('var', 1, '', [x]) for x in v] + [N('var', 0, '', [num(99)])] * more)])


def rnd(t, r, size, depth=0):
    """A random value of type t whose outermost containers have about `size` elements."""
    c, a = t['c'], t['a']

    def inner(i=0):
        return rnd(a[i], r, r.choice([0, 1, 2, 3, 5]), depth + 1)
    if c == 'str':
        n = size if depth == 0 else r.choice([0, 1, 15, 16, size])
        return N('str', n, ''.join('%02x' % r.randrange(256) for _ in range(n)))
    if c in ('bool', 'Eb'):
        return N('b', 0, r.choice(['00', '01']))
    if c in ('f32', 'f64', 'f80', 'durf', 'durd'):
        import struct
        x = r.uniform(-1e9, 1e9)
        if c == 'f80':
            return N('b', 0, r.choice(['00000000000000000000', '000000000000008000c0', '35c26821a2da0fc90040', '35c26821a2da0fc9ff3f']))
        return N('b', 0, struct.pack('<d' if c in ('f64', 'durd') else '<f', x).hex())
    if c == 'EPlain':
        return N('b', 0, r.choice(['00000000', '70110100']))
    if c in WIDTH:
        return N('b', 0, ''.join('%02x' % r.randrange(256) for _ in range(WIDTH[c])))
    if c in ('vec', 'vecA'):
        return N('vec', r.choice([0, size + 3, 2 * size] + ([300, 5000] if depth == 0 else [])), '', [inner() for _ in range(size)])
    if c in ('list', 'deque', 'queue', 'set', 'setG', 'mset'):
        return N('seq', 0, '', [inner() for _ in range(size)])
    if c in ('uset', 'umset'):
        return N('bag', 0, '', [inner() for _ in range(size)])
    if c in ('arr0', 'arr1', 'arr3', 'arr17'):
        return N('seq', 0, '', [inner() for _ in range(int(c[3:]))])
    if c in ('map', 'mapG', 'mmap', 'umap', 'ummap'):
        return N('bag' if c[0] == 'u' else 'seq', 0, '', [N('tup', 0, '', [inner(0), inner(1)]) for _ in range(size)])
    if c == 'opt':
        return N('opt', 0, '', [rnd(a[0], r, size, depth + 1)] if size else [])
    if c in ('ptr', 'ptrD'):
        return N('ptr', 0, '', [rnd(a[0], r, size, depth)] if size else [])
    if c in ('RPtr', 'SPtr'):
        return N('tup', 0, '', [N('ptr', 0, '', [rnd(a[0], r, size, depth)] if size else [])])
    if c in ('Box', 'NiBox', 'TBox', 'RBox', 'RnBox', 'tup1'):
        return N('tup', 0, '', [rnd(a[0], r, size, depth)])
    if c == 'Poly':
        return r.choice(POLYVALS)
    if c in ('shp', 'stack', 'pq', 'raw', 'opaq', 'func', 'atom', 'thr', 'file', 'vptr'):
        raise KeyError(c)
    if c == 'CArr':
        return N('tup', 0, '', [inner() for _ in range(3)])
    if c in ('pair', 'tup2', 'Rec', 'tup3', 'tup5', 'tup0'):
        return N('tup', 0, '', [rnd(x, r, size, depth) for x in a])
    if c == 'Der':
        return N('tup', 0, '', [rnd(x, r, size, depth) for x in a] + [N('b', 0, '%04x' % r.randrange(65536))])
    if c == 'Tree':
        def grow(k):
            kids, k = [], k - 1
            while k > 0:
                m = r.randrange(1, k + 1)
                kids.append(grow(m))
                k -= m
            return N('tup', 0, '', [inner(), N('vec', len(kids) + r.choice([0, 0, 2]), '', kids)])
        return grow(size + 1)
    if c == 'Bush':
        def bush(k):
            ks = [[], [], [], [], []]
            k -= 1
            while k > 0:
                m = r.randrange(1, k + 1)
                ks[r.randrange(5)].append(bush(m))
                k -= m
            return bushval(inner(), *ks, lambda i: rnd(I32, r, 1), r.random() < .3)
        return bush(min(size, 60) + 1)
    if c == 'Link':
        x = N('tup', 0, '', [inner(), N('ptr')])
        for _ in range(min(size, 100)):
            x = N('tup', 0, '', [inner(), N('ptr', 0, '', [x])])
        return x
    if c in ('var2', 'var3', 'var5'):
        i = r.randrange(len(a))
        return N('var', i, '', [rnd(a[i], r, size, depth)])
    raise HarnessError('unknown type constructor ' + c)


_s = N('str', 3, '780079')
POLYVALS = [N('tup', 0, '', [N('ptr')]), N('tup', 0, '', [N('ptr', 0, '', [N('var', 0, '', [N('b', 0, '01000000')])])]),
            N('tup', 0, '', [N('ptr', 0, '', [N('var', 1, '', [N('b', 0, '01000000'), _s])])]),
            N('tup', 0, '', [N('ptr', 0, '', [N('var', 2, '', [N('b', 0, '01000000'), _s, N('vec', 1, '', [N('b', 0, '0700')])])])])]
SIZABLE = {'str', 'vec', 'vecA', 'list', 'deque', 'queue', 'set', 'setG', 'mset', 'uset', 'umset', 'map', 'mapG', 'mmap', 'umap', 'ummap'}


def nodes(v):
    return 1 + len(v['v']) // 128 + sum(nodes(x) for x in v['k'])


def universe(which, d):
    out = f'{d}/universe_{which}.json'
    r = tlc('GenUniverse', 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n', d, workers=1, env={'UNIVERSE': which, 'OUTFILE': out})
    if not os.path.exists(out):
        raise HarnessError('universe generation failed\n' + r.out[-3000:])
    data = json.load(open(out))
    data.sort(key=lambda x: tname(x['ty']))
    for i, x in enumerate(data):
        x['id'] = i + 1
        x['name'] = tname(x['ty'])
        x['cpp'] = cpp(x['ty'])
    return data


def has_poly(t):
    return t['c'] in ('Poly', 'ProgPoly') or any(has_poly(x) for x in t['a'])


def overlay_ok(old, new):
    """In-place deserialization needs polymorphic pointees of the serialized dynamic type
    (or null): a condition on the caller in property C05."""
    def classes(v):
        if v['t'] == 'ptr':
            return [v['k'][0]['n'] if v['k'] else None]
        r = [(v['t'], len(v['k']))] if v['t'] != 'tup' else []
        for x in v['k']:
            r += classes(x)
        return r
    a, b = classes(old), classes(new)
    return all(x is None or isinstance(x, tuple) for x in a) and len(a) == len(b) or a == b


def codegen(types, d, per=7, prefix='types', inc='ops.h'):
    """Write translation units instantiating the API for the types; returns the sources.
    Expensive types are spread evenly."""
    poly = [x for x in types if has_poly(x['ty'])]
    types = [x for x in types if not has_poly(x['ty'])]
    n = max(1, min((len(types) + per - 1) // per, max(8, len(types) // per)))
    groups = [types[i::n] for i in range(n)] + [poly[i:i + 3] for i in range(0, len(poly), 3)]
    groups = [g for g in groups if g]
    srcs = []
    for i, g in enumerate(groups):
        p = f'{d}/{prefix}{i}.cpp'
        with open(p, 'w') as f:
            # library limitation: polymorphic objects only through streams derived from the standard ones
            f.write(f'#include "{inc}"\nusing namespace vt;\n')
            for x in g:
                own = ', false, true' if x.get('mem') else ', false' if has_poly(g[0]['ty']) else ''
                f.write(f'using T{x["id"]} = {x["cpp"]};\nstatic RegisterType r{x["id"]}({x["id"]}, new Ops<T{x["id"]}{own}>);\n')
        srcs.append((p, g))
    return srcs


# ------------------------------------------------- classes with run-time programs in every context
def T(c, *a):
    return {'c': c, 'a': list(a)}


PROG = T('Prog')
I32 = T('i32')
# (type, number of Prog objects in it)
CONTEXTS = [(PROG, 1), (T('Box', PROG), 1), (T('NiBox', PROG), 1), (T('vec', PROG), 3), (T('list', PROG), 3), (T('deque', PROG), 3), (T('queue', PROG), 3),
            (T('arr3', PROG), 3), (T('CArr', PROG), 3), (T('map', I32, PROG), 3), (T('umap', I32, PROG), 3), (T('map', PROG, I32), 3), (T('set', PROG), 3), (T('uset', PROG), 3),
            (T('opt', PROG), 1), (T('ptr', PROG), 1), (T('RPtr', PROG), 1), (T('SPtr', PROG), 1), (T('var2', I32, PROG), 1), (T('tup2', PROG, PROG), 2), (T('pair', I32, PROG), 1),
            (T('Der', PROG, I32), 1), (T('ProgPoly'), 1), (T('vec', T('ProgPoly')), 3), (T('vec', T('Box', PROG)), 3), (T('opt', T('vec', T('ptr', PROG))), 3), (T('map', I32, T('list', PROG)), 4),
            (T('Rec', T('ProgPoly'), T('vec', PROG)), 3), (T('Tree', PROG), 4), (T('Bush', PROG), 7), (T('vec', T('Link', PROG)), 3), (T('var5', I32, T('bool'), T('str'), T('vec', PROG), PROG), 3), (T('arr3', T('opt', T('list', PROG))), 3)]


def progval(t, nxt):
    """A value of a context type; nxt() numbers the Prog objects."""
    c, a = t['c'], t['a']

    def sub(i=0):
        return progval(a[i], nxt)
    if c == 'Prog':
        return N('tup', 0, '', [N('b', 0, '%02x000000' % nxt())])
    if c == 'ProgPoly':
        return N('tup', 0, '', [N('tup', 0, '', [N('b', 0, '%02x000000' % nxt())])])
    if c == 'i32':
        return N('b', 0, '%02x000000' % nxt())
    if c == 'Tree':
        def leaf(*ks):
            return N('tup', 0, '', [sub(), N('vec', len(ks), '', ks)])
        return leaf(leaf(leaf()), leaf())
    if c == 'Bush':
        def bleaf(*ks):
            return bushval(sub(), *(ks or [[]] * 5), lambda i: N('b', 0, '%02x000000' % nxt()))
        return bleaf([bleaf()], [bleaf([bleaf()], [], [], [], [])], [bleaf()], [bleaf()], [bleaf()])
    if c == 'Link':
        return N('tup', 0, '', [sub(), N('ptr')])
    if c == 'var5':
        return N('var', 3, '', [sub(3)])
    if c == 'arr3' and a[0]['c'] == 'opt':
        return N('seq', 0, '', [N('opt', 0, '', [N('seq', 0, '', [progval(PROG, nxt)])]) for _ in range(3)])
    if c == 'vec':
        k = [sub() for _ in range(2 if nxt.two else 3)]
        return N('vec', len(k), '', k)
    if c in ('list', 'deque', 'queue', 'set', 'arr3'):
        return N('seq', 0, '', [sub() for _ in range(nxt.n)])
    if c == 'uset':
        return N('bag', 0, '', [sub() for _ in range(3)])
    if c == 'CArr':
        return N('tup', 0, '', [sub() for _ in range(3)])
    if c in ('map', 'umap'):
        n = 2 if a[1]['c'] == 'list' else 3
        if n == 2:
            nxt.n = 2
        return N('seq' if c == 'map' else 'bag', 0, '', [N('tup', 0, '', [sub(0), sub(1)]) for _ in range(n)])
    if c == 'opt':
        return N('opt', 0, '', [sub()])
    if c == 'ptr':
        return N('ptr', 0, '', [sub()])
    if c in ('RPtr', 'SPtr'):
        return N('tup', 0, '', [N('ptr', 0, '', [sub()])])
    if c == 'var2':
        return N('var', 1, '', [sub(1)])
    if c in ('Box', 'NiBox'):
        return N('tup', 0, '', [sub()])
    if c == 'Der':
        return N('tup', 0, '', [sub(0), sub(1), N('b', 0, '%02x00' % nxt())])
    return N('tup', 0, '', [sub(i) for i in range(len(a))])


class Counter:
    def __init__(self, start=1):
        self.i, self.n, self.two = start, 3, False

    def __call__(self):
        self.i += 1
        return self.i


def contexts():
    out = []
    for i, (t, n) in enumerate(CONTEXTS):
        nx, ny = Counter(), Counter(60)
        if t['c'] == 'Rec':
            nx.two = ny.two = True
        out.append({'id': i + 1, 'ty': t, 'name': tname(t), 'cpp': cpp(t), 'n': n, 'vals': [progval(t, nx), progval(t, ny)]})
    return out
