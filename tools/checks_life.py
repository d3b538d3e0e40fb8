"""C11, C12, C13, C18: the life of every object the library touches (spec/Life.tla)."""
from storelib import *

RECS = {'n': '', 'm': 'member', 'f': 'free', 's': 'specialization'}
KINDS = {}      # name -> caps
for t in 'tx':
    for m in 'nmfs':
        for dd in 'dx':
            for c in 'co':
                if t == 'x' and m == 'n' and dd == 'x':
                    continue
                KINDS['K' + t + m + dd + c] = {'tag': t == 't', 'rec': m != 'n', 'def': dd == 'd', 'copy': c == 'c', 'root': '', 'levels': 1}
OVER = ('KtnxcA', 'KxndcA', 'KxmxoA', 'KtfdcA')      # over-aligned classes
for t in OVER:
    KINDS[t] = dict(KINDS[t[:-1]])
NAMED = {'FreeSer': 1, 'SplitSer': 3, 'NotBytes': 1}
POLY = {'M0': '', 'M1': '', 'A0': 'd', 'A1': 'd', 'A2': 'td', 'A3': 'r', 'M2': 'd', 'M3': 't', 'M4': 'd', 'V0': 'd', 'V1': 'd'}
BYTES = ['BMem', 'BInh', 'BTr', 'BSp', 'BFree', 'BMac', 'BNone']


def kind_table():
    k = dict(KINDS)
    for n, l in NAMED.items():
        k[n] = {'tag': False, 'rec': False, 'def': True, 'copy': True, 'root': '', 'levels': l}
    for n, c in POLY.items():
        k[n] = {'tag': 't' in c, 'rec': 'r' in c, 'def': 'd' in c, 'copy': n[0] == 'V', 'root': n[0] + '0', 'levels': 0}
    return k


ALLK = kind_table()
for _k in list(ALLK) + BYTES + ['Holder', 'M0', 'M1']:
    CPP_LEAF[_k] = _k
del _k


def kinds_header(d):
    out = ['#pragma once', '#include "lifeops.h"', 'namespace vt {']
    free, spec = [], []
    for n, c in KINDS.items():
        m = n[2]
        body = [f'LIFE_COMMON({n})', 'LIFE_COPY(%s)' % n if c['copy'] else 'LIFE_MOVE(%s)' % n, f'LIFE_SER({n})']
        if c['def']:
            body.append(f'LIFE_DEF({n})')
        if c['tag']:
            body.append(f'LIFE_TAG({n})')
        if c['rec']:
            body.append(f'LIFE_RECCTOR({n})')
        if m == 'm':
            body.append(f'LIFE_MEMREC({n})')
        out.append(f'struct {"alignas(64) " if n in OVER else ""}{n} : Life {{ ' + ' '.join(body) + ' };')
        if m == 'f':
            out.append(f'LIFE_FREEREC({n})')
        if m == 's':
            spec.append(f'LIFE_SPECREC({n})')
    out.append('}')
    open(d + '/kinds.h', 'w').write('\n'.join(out + spec) + '\n')


def P(t):
    return t['c'] in ALLK or t['c'] in BYTES


class Num:
    def __init__(self, i=0):
        self.i = i

    def __call__(self):
        self.i += 1
        return '%02x000000' % self.i


def value(t, nx, n=2, alt=0):
    """A value of type t; containers have n elements; alt: which alternative / whether present."""
    c, a = t['c'], t['a']

    def sub(i=0):
        return value(a[i], nx, n, alt)
    if c in ALLK and ALLK[c]['root'] == '':
        return N('pb', 0, '', [N('b', 0, nx()), N('b', 0, nx())])
    if c in BYTES:
        return N('bc', 0, '', [N('b', 0, nx()), N('b', 0, nx())])
    if c == 'i32':
        return N('b', 0, nx())
    if c == 'vec':
        return N('vec', n, '', [sub() for _ in range(n)])
    if c in ('list', 'deque', 'queue', 'set', 'mset'):
        return N('seq', 0, '', [sub() for _ in range(n)])
    if c in ('uset', 'umset'):
        return N('bag', 0, '', [sub() for _ in range(n)])
    if c in ('map', 'mmap', 'umap', 'ummap'):
        return N('bag' if c[0] == 'u' else 'seq', 0, '', [N('tup', 0, '', [sub(0), sub(1)]) for _ in range(n)])
    if c == 'arr3':
        return N('seq', 0, '', [sub() for _ in range(3)])
    if c == 'CArr':
        return N('tup', 0, '', [sub() for _ in range(3)])
    if c == 'opt':
        return N('opt', 0, '', [sub()] if n else [])
    if c == 'ptr':
        return N('ptr', 0, '', [sub()] if n else [])
    if c in ('RPtr', 'SPtr'):
        return N('tup', 0, '', [N('ptr', 0, '', [sub()] if n else [])])
    if c == 'var2':
        return N('var', alt, '', [sub(alt)])
    if c in ('Box', 'NiBox', 'pair', 'tup2', 'Rec'):
        return N('tup', 0, '', [sub(i) for i in range(len(a))])
    raise KeyError(c)


def has_default(t):
    c = t['c']
    if c in ALLK:
        return ALLK[c]['def']
    if c in ('Box', 'pair', 'arr3', 'CArr', 'tup2'):
        return all(has_default(x) for x in t['a'])
    if c == 'var2':
        return has_default(t['a'][0])
    return True


def can_copy(t):
    if t['c'] in ALLK:
        return ALLK[t['c']]['copy']
    return t['c'] not in ('ptr', 'RPtr', 'SPtr') and all(can_copy(x) for x in t['a'])


def wf(t):
    """Types that are inside the library's documented domain (they have to compile)."""
    c, a = t['c'], t['a']
    if not all(wf(x) for x in a):
        return False
    if c in ('Box', 'arr3', 'CArr', 'pair') and not all(has_default(x) for x in a):
        return False
    if c in ('map', 'umap', 'mmap', 'ummap') and not (all(has_default(x) for x in a) and can_copy(a[0])):
        return False
    if c == 'var2' and not has_default(a[0]):
        return False
    if c == 'queue' and not can_copy(a[0]):
        return False
    if c in ('list', 'deque', 'vec') and a[0]['c'] not in ALLK and not can_copy(a[0]):
        return a[0]['c'] in ('ptr', 'RPtr')
    if c == 'tup2' and not all(has_default(x) or x['c'] in ALLK for x in a):
        return False
    return True


def ctx(k):
    K, i = T(k), I32
    return [T('Box', K), T('vec', K), T('list', K), T('deque', K), T('queue', K), T('arr3', K), T('CArr', K), T('set', K), T('mset', K), T('uset', K),
            T('map', i, K), T('map', K, i), T('umap', i, K), T('pair', K, i), T('tup2', K, i), T('tup2', K, K), T('opt', K), T('ptr', K), T('RPtr', K), T('SPtr', K),
            T('var2', i, K), T('var2', K, i)]


def deep(k):
    K, i = T(k), I32
    return [T('vec', T('opt', K)), T('opt', T('vec', K)), T('list', T('vec', K)), T('ptr', T('Box', K)), T('vec', T('Box', K)), T('opt', T('tup2', K, i)), T('map', i, T('vec', K)),
            T('vec', T('ptr', K)), T('ptr', T('list', K)), T('vec', T('tup2', K, K)), T('queue', T('Box', K)), T('ptr', T('ptr', K)), T('map', i, T('ptr', K)), T('deque', T('opt', K)), T('tup2', T('opt', K), T('vec', K)),
            T('var2', i, T('vec', K)), T('set', T('Box', K)), T('arr3', T('opt', K)), T('opt', T('opt', K)), T('umap', i, T('list', K))]


def mk_types(terms):
    seen, out = set(), []
    for t in terms:
        n = tname(t)
        if n in seen or not wf(t):
            continue
        seen.add(n)
        out.append({'id': len(out) + 1, 'ty': t, 'name': n, 'cpp': cpp(t)})
    return out


def build(ck, types, per=14, cfgs=('ec', 'rel')):
    d = ck.d
    kinds_header(d)
    b = Build(d, flags=['-DWITH_STREAMS', '-DNO_OWN_STREAM'], pch='lifeops.h')
    b.compile_pch(cfgs)
    srcs = codegen(types, d, per, inc='kinds.h')
    objs = {c: [b.obj(s, c) for s, _ in srcs] + [b.obj(HARN + '/life.cpp', c)] + b.lib(c) for c in cfgs}
    owner = {f'{c}_{os.path.basename(s)}.o': g for c in cfgs for s, g in srcs}
    with ThreadPoolExecutor(1) as ex:
        f = ex.submit(design, ck)
        for o, out in b.run(fatal=False):
            # every type here is inside the documented domain
            raise HarnessError('compilation failed: ' + o + '\n' + out[-5000:])
        f.result()
    exes = {c: b.link(f'life_{c}', objs[c]) for c in cfgs}
    with open(d + '/types.json', 'w') as f:
        json.dump({'types': [x['ty'] for x in types], 'kinds': ALLK}, f)
    return exes


class Life:
    """A script; operands of op 4 is the type number where one is needed."""

    def __init__(self, tag):
        self.tag, self.ops, self.lines = tag, [], []

    def op(self, op, a=0, b=0, x=0, txt=''):
        self.ops.append([op, a, b, x])
        self.lines.append(f'{op} {a} {b} {txt or x or ""}'.rstrip())
        return self

    def mk(self, s, ty, v):
        return self.op('mk', s, ty, txt=text(v))

    def arm(self, p, n):
        self.lines.append(f'arm {p} {n}')
        return self


CFG = 'INIT TraceInit\nNEXT TraceNext\nVIEW View\nCHECK_DEADLOCK TRUE\nCONSTANT Props = {"%s"}\n'
EMPTYV = {'t': '', 'n': 0, 'v': '', 'k': []}


def clean_ev(evs):
    out = []
    for e in evs:
        if 'op' in e:      # a crash
            out.append({'e': 'crash', 'a': 0, 'b': 0, 'k': e.get('what', ''), 'h': e['out']})
        else:
            out.append({k: e[k] for k in ('e', 'a', 'b', 'k', 'h', 'val') if k in e})
    return out


def record(ck, exes, scripts, tag=''):
    res = {}
    with ThreadPoolExecutor(len(exes)) as ex:
        futs = {c: ex.submit(run_cases, ck.d, exe, list(enumerate(scripts)), tag + c) for c, exe in exes.items()}
        for c, f in futs.items():
            res[c] = f.result()
    return res


def decide_life(ck, exes, types, scripts):
    res = record(ck, exes, scripts)
    traces, where, seen, nev = [], [], set(), 0
    for c in exes:
        for i, s in enumerate(scripts):
            if res[c].get(i, []) is None:
                continue
            ev = clean_ev(res[c].get(i, []))
            nev += len(ev)
            key = hashlib.md5(json.dumps([s.ops, ev]).encode()).digest()
            if key in seen:
                continue
            seen.add(key)
            traces.append({'ops': s.ops + [['fin', 0, 0, 0]], 'ev': ev})
            where.append((c, i))
    env = {'TYPEFILE': ck.d + '/types.json'}
    t0 = time.time()
    rej, r = validate(ck.d, 'LifeTrace', CFG % ck.prop, traces, 'trace', env=env)
    ck.traces += len(scripts) * len(exes)
    ck.states += r.distinct
    ck.transitions += r.generated
    ck.extra['events'] = ck.extra.get('events', 0) + nev
    ck.extra['trace_validation_s'] = round(time.time() - t0, 1)
    ck.extra['types'] = len(types)
    ck.extra['scripts'] = len(scripts)
    for s in scripts[:: max(1, len(scripts) // 3)][:3]:
        ck.samples.append({'case': s.tag, 'script': [x[:200] for x in s.lines]})
    if rej is None:
        return True

    def again(t):
        c, i = where[t]
        r = run_cases(ck.d, exes[c], [(i, scripts[i])], 'confirm', shards=1)
        return {'ops': scripts[i].ops + [['fin', 0, 0, 0]], 'ev': clean_ev(r.get(i, []))}
    t, ev, l = confirm(ck, rej, traces, again, lambda ts: validate(ck.d, 'LifeTrace', CFG % ck.prop, ts, 'confirm', env=env)[0])
    if t is None:
        return True
    c, i = where[t]
    bad = ev[l] if l < len(ev) else {'e': 'missing event'}
    log(f'[{ck.prop}] rejected: config={c} case={scripts[i].tag} event {l}: {json.dumps(bad)[:500]}')
    for e in ev[max(0, l - 25):l]:
        log('      ' + json.dumps(e)[:200])
    ck.violation({'property': ck.prop, 'config': c, 'case': scripts[i].tag, 'script': scripts[i].lines, 'event': l, 'observed': bad, 'events': ev, 'specification': 'LifeTrace'})
    return False


FLAWS = {'leak': 'C13', 'unwind': 'C13', 'ctor': 'C12', 'extra': 'C12', 'early': 'C12', 'twice': 'C18', 'skip': 'C18', 'order': 'C18'}


def design(ck):
    """The reference algorithm against the rules; every flawed one must break a rule."""
    d, p = ck.d, ck.prop
    ks = ['Ktmdc', 'Ktnxo', 'Kxmdc', 'Kxndo', 'SplitSer']
    tys = []
    for k in (ks if THOROUGH else ks[:2] + ks[4:]):
        K = T(k)
        tys += [K, T('vec', K), T('list', K), T('opt', K), T('ptr', K), T('ptr', T('ptr', K)), T('list', T('opt', K)), T('ptr', T('list', K))]
        if has_default(K):
            tys += [T('Box', K), T('pair', K, K), T('var2', K, K), T('vec', T('Box', K)), T('opt', T('pair', K, K)), T('vec', T('opt', K)), T('vec', T('vec', K)), T('var2', T('opt', K), T('list', K))]
        tys += [T('var2', I32, K), T('pair', T('opt', K), T('vec', K))]
    f = d + '/model_types.json'
    json.dump({'types': tys, 'kinds': ALLK}, open(f, 'w'))
    cfg = 'INIT MInit\nNEXT MNext\nCHECK_DEADLOCK TRUE\nINVARIANTS Accepted NoLeak Restored\nCONSTANTS Props = {%s} Flaw = "%s" MaxN = %d\n'
    r = tlc('LifeModel', cfg % (f'"{p}"', '', 3 if THOROUGH else 2), d, workers=2, env={'TYPEFILE': f})
    if not r.ok:
        raise HarnessError('the design model fails\n' + r.out[r.out.find('Error'):][:6000])
    ck.model(r, f'LifeModel (reference algorithm, {len(tys)} types)')
    n = 0
    for fl, q in FLAWS.items():
        if p == q or p == 'C11' and q == 'C18':
            x = tlc('LifeModel', cfg % (f'"{p}"', fl, 2), d, workers=2, env={'TYPEFILE': f})
            if x.ok or x.rc == 'timeout' or 'Deadlock reached' not in x.out and 'is violated' not in x.out:
                raise HarnessError(f'the specification accepts the flawed algorithm {fl}\n' + x.out[-3000:])
            n += 1
    ck.extra['flawed_algorithms_rejected'] = n


def happy(x, vs, tag, full=True):
    """Every way to write and read the first value; in place over the others."""
    s = Life(f'{x["name"]}#{tag}')
    i = x['id']
    s.mk(1, i, vs[0]).op('gs', 1).op('se', 1, 1).op('dm', 1, 2, i)
    if full:
        s.op('wf', 1, 1).op('ns', 1, 0).op('ws', 1, 1).op('ws', 2, 1)
        s.op('rf', 1, 4, i).op('rs', 1, 5, i).op('du', 1, 3, i).op('su', 1, 2).op('sr', 1, 6)
    for k, v in enumerate(vs[1:]):
        s.mk(10 + k, i, v).op('di', 1, 10 + k)
        if full and k == 0:
            s.op('ri', 1, 10)
        if full and k == 1:
            s.op('rt', 1, 11)
    s.op('rm', 2)
    if full:
        s.op('se', 10, 3).op('rm', 10).op('dm', 3, 12, i)
    return s


# ---------------------------------------------------------------- values of class hierarchies
def lv(nx, *more):
    return N('lv', 0, '', [N('b', 0, nx())] + list(more))


def up(x):
    return N('ptr', 0, '', [x] if x else [])


def sp(x):
    return N('tup', 0, '', [up(x)])


def po(cls, nx, kids=()):
    """An object of a class; kids: its pointees, in order (None: null)."""
    k = list(kids) + [None] * 4
    if cls == 'A0':
        l = [lv(nx)]
    elif cls == 'A1':
        l = [lv(nx), lv(nx, up(k[0]))]
    elif cls == 'A2':
        l = [lv(nx), lv(nx, up(k[0])), lv(nx, N('vec', 0, '', [up(x) for x in kids[1:]]))]
    elif cls == 'A3':
        l = [lv(nx), lv(nx, up(k[0])), lv(nx)]
    elif cls == 'M2':
        l = [lv(nx), lv(nx, sp(k[0])), lv(nx, sp(k[1]))]
    elif cls == 'M3':
        l = [lv(nx), lv(nx, sp(k[0])), lv(nx, sp(k[1])), lv(nx)]
    elif cls in ('M4', 'V1'):
        l = [lv(nx), lv(nx)]
    elif cls == 'V0':
        l = [lv(nx)]
    return N('po', 0, cls, l)


def forest(root, nx):
    """Objects of every class below root, with every kind of pointee."""
    if root == 'A0':
        return [po('A0', nx), po('A1', nx), po('A1', nx, [po('A3', nx)]), po('A2', nx, [None, None]), po('A2', nx, [po('A0', nx), po('A3', nx, [po('A1', nx)]), po('A2', nx, [None, po('A0', nx)]), None, po('A0', nx)]),
                po('A3', nx, [po('A2', nx, [po('A1', nx), po('A1', nx)])])]
    if root == 'A1':
        return [po('A1', nx), po('A2', nx, [po('A0', nx), po('A2', nx)]), po('A3', nx, [po('A0', nx)])]
    if root == 'M2':
        return [po('M2', nx, [po('M4', nx), None]), po('M3', nx)]
    if root == 'V0':
        return [po('V0', nx)]
    if root == 'V1':
        return [po('V1', nx)]
    k = [po('M2', nx), po('M2', nx, [po('M4', nx), po('M3', nx)]), po('M3', nx, [None, po('M2', nx, [po('M4', nx)])]), po('M3', nx, [po('M3', nx), None])]
    return k + ([po('M4', nx)] if root == 'M0' else [])


def pvalue(t, nx, j, n=2):
    """Value number j of a type with polymorphic parts."""
    c, a = t['c'], t['a']
    if c in POLY:
        f = forest(c, nx)
        return f[j % len(f)]
    if c == 'Holder':
        p = forest('A0', nx)[j % 6]
        return N('tup', 0, '', [N('b', 0, nx()), up(p if j else None), po('V1', nx), po('V1', nx), po('V1', nx), N('b', 0, nx())])
    if c in ('ptr', 'opt') or c in ('RPtr', 'SPtr'):
        x = up(pvalue(a[0], nx, j, n)) if c != 'opt' else N('opt', 0, '', [pvalue(a[0], nx, j, n)])
        if j == 99:
            x['k'] = []
        return x if c in ('ptr', 'opt') else N('tup', 0, '', [x])
    if c == 'i32':
        return N('b', 0, nx())
    if c == 'vec':
        return N('vec', n, '', [pvalue(a[0], nx, j + i, n) for i in range(n)])
    if c in ('list', 'deque'):
        return N('seq', 0, '', [pvalue(a[0], nx, j + i, n) for i in range(n)])
    if c in ('arr3', 'CArr'):
        return N('seq' if c == 'arr3' else 'tup', 0, '', [pvalue(a[0], nx, j + i, n) for i in range(3)])
    if c in ('map', 'umap'):
        return N('seq' if c == 'map' else 'bag', 0, '', [N('tup', 0, '', [N('b', 0, nx()), pvalue(a[1], nx, j + i, n)]) for i in range(n)])
    if c == 'var2':
        return N('var', 1, '', [pvalue(a[1], nx, j, n)])
    return N('tup', 0, '', [pvalue(x, nx, j + i, n) for i, x in enumerate(a)])


def poly_types():
    u, r, s = (lambda x: T('ptr', T(x))), (lambda x: T('RPtr', T(x))), (lambda x: T('SPtr', T(x)))
    out = []
    for root in ('A0', 'M0', 'V0'):
        out += [u(root), r(root), s(root), T('vec', u(root)), T('map', I32, u(root))]
    out += [u('A1'), s('M1'), r('M2'), T('list', u('A0')), T('opt', u('A0')), T('arr3', u('M0')), T('tup2', u('A0'), s('M0')), T('var2', I32, u('A0')), T('ptr', u('A0')), T('pair', r('A0'), u('M0')),
            T('vec', T('Box', u('M0'))), T('umap', I32, s('A0')), T('CArr', u('A0')), T('opt', T('vec', s('M0'))), T('Holder'), T('V0'), T('V1'), T('vec', T('V1')), T('CArr', T('V1')), T('arr3', T('V0')),
            T('list', T('V1')), T('opt', T('V1')), T('map', I32, T('V1')), T('pair', T('V1'), T('V0')), T('tup2', T('V1'), I32), T('ptr', T('Holder')), T('vec', T('Holder')), T('deque', T('V0')), T('Box', T('V1')), T('ptr', T('Box', u('A0')))]
    return out


def same_classes(a, b):
    """May b be read in place over a (a condition on the caller: same dynamic types)?"""
    def cl(v):
        if v['t'] == 'po':
            return [v['v']] + [y for x in v['k'] for y in cl(x)]
        if v['t'] in ('ptr', 'opt', 'vec', 'seq', 'bag', 'var'):
            return [v['t'], len(v['k'])] + [y for x in v['k'] for y in cl(x)]
        return [y for x in v['k'] for y in cl(x)]
    return cl(a) == cl(b)


def polyish(t):
    return t['c'] in POLY or t['c'] in ('Holder', 'M0', 'M1') or any(polyish(x) for x in t['a'])


def happy_scripts(types, full=True, which=(2, 0, 3)):
    scripts = []
    for x in types:
        t = x['ty']
        nx = Num()
        if polyish(t):
            for j in range(6) if len(which) > 1 else (2, 4):
                v = pvalue(t, nx, j)
                vs = [v] + [w for w in (pvalue(t, nx, j), pvalue(t, nx, 99)) if same_classes(v, w) or w['t'] == 'ptr' and not w['k']]
                scripts.append(happy(x, vs, f'{j}', full))
            v = pvalue(t, nx, 99)
            scripts.append(happy(x, [v, v, pvalue(t, nx, 4)], 'null', full))
            continue
        for n in which:
            for alt in [0, 1] if 'var2' in x['name'] else [0]:
                vs = [value(t, nx, n, alt), value(t, nx, 1, 1 - alt), value(t, nx, 3, alt)]
                scripts.append(happy(x, vs, f'{n}.{alt}', full))
    return scripts


def visits(v):
    return (1 if v['t'] == 'pb' else len(v['k']) if v['t'] == 'po' else 0) + sum(visits(x) for x in v['k'])


REPS4 = ('Ktnxc', 'Kxndc', 'Kxmxc', 'Ktmdo')


def c18(ck):
    ks = [k for k in ALLK if ALLK[k]['root'] == '']
    terms = [T(k) for k in ks] + [T(b) for b in BYTES]
    for i, k in enumerate(REPS4 if THOROUGH else ('Kxndc', 'Ktmdo')):
        terms += ctx(k) + deep(k)
    some = [T('Box', I32)]
    for i, k in enumerate(list(NAMED) + BYTES + (ks if THOROUGH else [])):
        c = ctx(k)
        terms += c if THOROUGH or k == 'SplitSer' else [c[(i * 5 + j * 3) % len(c)] for j in range(6)] + [T('vec', T(k)), T('arr3', T(k)), T('CArr', T(k))]
    terms += [T('Holder'), T('V1'), T('vec', T('V1')), T('vec', T('ptr', T('A0'))), T('map', I32, T('SPtr', T('M0')))]
    types = mk_types(terms)
    exes = build(ck, types)
    decide_life(ck, exes, types, happy_scripts(types))


def c11(ck):
    types = mk_types(poly_types())
    exes = build(ck, types, per=5)
    decide_life(ck, exes, types, happy_scripts(types))


def c12(ck):
    ks = [k for k in ALLK if ALLK[k]['root'] == '' and k not in NAMED]
    types = mk_types([T(k) for k in ks] + [T('ptr', T('A0')), T('SPtr', T('M0')), T('V1'), T('opt', T('Ktnxo'))])
    terms = []
    for i, k in enumerate(ks):
        c = [t for t in ctx(k) + deep(k) if wf(t)]
        terms += c if THOROUGH else [c[(i * 7 + j * 5) % len(c)] for j in range(9)]
    more = [dict(x, mem=True) for x in mk_types([x['ty'] for x in types] + terms)[len(types):]]
    types += more
    cfgs = ('ec', 'rel') if THOROUGH else ('rel',)
    exes = build(ck, types, per=16, cfgs=cfgs)
    decide_life(ck, exes, types, [s for x in types for s in happy_scripts([x], not x.get('mem'))])


def failing(x, v, w, other, rot=0):
    """Failures of every kind at every point of reading and writing v."""
    s = Life(f'{x["name"]}#fail')
    i = x['id']
    s.mk(1, i, v).op('se', 1, 1).op('wf', 1, 1)
    n = 2 * visits(v)
    pts = list(range(n)) if n <= 6 or THOROUGH else sorted({0, 1, rot % n, (n // 2 + rot) % n, n - 2, n - 1})
    for p in pts:
        s.arm(0, p).op('se', 1, 3).arm(1, p).op('se', 1, 3)
    for p in pts[:: max(1, len(pts) // 4)]:
        s.arm(1, p).op('su', 1, 3).arm(1, p).op('wf', 1, 2).op('ns', 2, 0).arm(1, p).op('ws', 1, 2).arm(0, p).op('gs', 1).arm(0, p).op('ws', 1, 2)
    for p in pts:
        s.arm(2, p).op('dm', 1, 2, i).mk(3, i, w).arm(2, p).op('di', 1, 3).op('rm', 3)
    for p in pts[:: max(1, len(pts) // 5)]:
        s.arm(2, p).op('du', 1, 2, i).arm(2, p).op('rf', 1, 2, i).op('ns', 1, 0).op('ws', 1, 1).arm(2, p).op('rs', 1, 2, i)
        s.arm(2, p).op('sr', 1, 2).mk(3, i, w).arm(2, p).op('ri', 1, 3).op('ns', 1, 0).op('ws', 1, 1).arm(2, p).op('rt', 1, 3).op('rm', 3)
    cuts = (0, 4, 9, -1, -4, -8, -12, -20, -30)
    for k in cuts if THOROUGH else (-1, -4, cuts[rot % 3], cuts[5 + rot % 4]):
        s.op('wf', 1, 2).op('cf', 2, k).op('rf', 2, 2, i).mk(3, i, w).op('ri', 2, 3).op('rm', 3)
        s.op('ns', 1, 0).op('ws', 1, 1).op('cs', 1, k).op('rs', 1, 2, i)
        s.op('ns', 1, 0).op('ws', 1, 1).op('cs', 1, k).mk(3, i, w).op('rt', 1, 3).op('rm', 3)
    if other:
        s.op('dm', 1, 2, other).op('du', 1, 2, other).op('rf', 1, 2, other).op('ns', 1, 0).op('ws', 1, 1).op('rs', 1, 2, other)
    # and everything still works
    s.op('dm', 1, 2, i).mk(3, i, w).op('di', 1, 3)
    return s


def c13(ck):
    ks = ('Ktnxc', 'Kxndc', 'Kxmxo', 'SplitSer', 'KtnxcA', 'KxndcA') if not THOROUGH else [k for k in ALLK if ALLK[k]['root'] == '']
    terms = []
    for i, k in enumerate(ks):
        c = ctx(k) + deep(k)
        terms += [T(k)] + (c if i < 2 or THOROUGH else c[i::2])
    terms += poly_types() if THOROUGH else poly_types()[::2] + [T('Holder'), T('vec', T('ptr', T('A0')))]
    types = mk_types(terms)
    exes = build(ck, types, per=10, cfgs=('ec', 'rel') if THOROUGH else ('ec', 'rel'))
    scripts = happy_scripts(types, which=(2, 0))
    for q, x in enumerate(types):
        t, nx = x['ty'], Num()
        other = types[(q + 1) % len(types)]['id']
        if polyish(t):
            for j in (4, 2) if THOROUGH else (4,):
                v = pvalue(t, nx, j)
                scripts.append(failing(x, v, pvalue(t, nx, j), other, q))
            scripts.append(failing(x, pvalue(t, nx, 1), pvalue(t, nx, 3), other, q + 3))
        else:
            scripts.append(failing(x, value(t, nx, 2, 1), value(t, nx, 1, 0), other, q))
            if THOROUGH or q % 2:
                scripts.append(failing(x, value(t, nx, 3, 0), value(t, nx, 3, 1), other, q + 5))
    decide_life(ck, exes, types, scripts)
