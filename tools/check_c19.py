"""C19: Kokkos objects (spec/Views.tla), with harness/kokkos in the place of Kokkos."""
from storelib import *

EL = {'i32': 'int', 'f64': 'double', 'u8': 'unsigned char', 'str': 'std::string', 'cls': 'kk::Cls', 'vec': 'std::vector<int>'}
KEY = {'i16': 'short', 'u32': 'unsigned', 'i64': 'long', **EL}
LAY = {'L': 'Kokkos::LayoutLeft', 'R': 'Kokkos::LayoutRight', 'S': 'Kokkos::LayoutStride'}
FLAWS = ('raw', 'asread', 'nomirror', 'touch', 'squeeze', 'exists', 'merge')
PLAIN = ['made', 'size', 'write', 'write', 'write', 'kept', 'read', 'read', 'read', 'old', 'into', 'again', 'apart']
# objects around views and the scalars: (type, how it is made from a salt), both versions unless said
V1, V2 = 'Kokkos::View<int*>', 'Kokkos::View<double**, Kokkos::LayoutLeft>'
FIXED = [
    ('Kokkos::pair<int, double>', 'K(5 + s, 0.25 * s + 1)', ''),
    ('Kokkos::pair<std::string, int>', 'K(std::string(40 + s, \'p\'), s - 7)', ''),
    ('Kokkos::pair<int, void>', 'K(11 + s)', 'old'),
    ('Kokkos::pair<int, kk::Cls>', 'K(3 - s, kk::Cls{s, "c"})', ''),
    ('Kokkos::complex<float>', 'K(1.5f + s, -2.5f)', ''),
    ('Kokkos::complex<double>', 'K(-1.0 / 3, 1e300 + s)', ''),
    ('Kokkos::complex<long double>', 'K(1.0L / 3, -7.5L * s)', ''),
    ('Kokkos::Array<int, 3>', 'K{{7 + s, -8, s * 9}}', ''),
    ('Kokkos::Array<double, 0>', 'K{}', ''),
    ('Kokkos::Array<std::string, 2>', 'K{{std::string(s * 30, \'x\'), "y"}}', ''),
    ('Kokkos::Array<Kokkos::pair<int, double>, 2>', 'K{{{1 + s, 2.5}, {3, 4.5 * s}}}', ''),
    ('std::vector<Kokkos::complex<double>>', 'K(3 + s, Kokkos::complex<double>(s, -1))', ''),
    ('kk::Graph', 'kk::graph(s, s % 2)', ''),
    ('kk::Matrix', 'kk::matrix(s)', ''),
    ('kk::Holder', 'kk::holder(s)', ''),
    (f'std::vector<{V1}>', 'K{kk::some(s), ' + V1 + '(), kk::some(s + 2)}', ''),
    (f'std::pair<int, {V2}>', 'K(s, kk::some2(s))', ''),
    (f'std::optional<{V1}>', 'K(kk::some(s))', ''),
    (f'std::optional<{V2}>', 's == 0 ? K() : K(kk::some2(s))', ''),
    (f'std::unique_ptr<{V1}>', f'K(new {V1}(kk::some(s)))', ''),
    (f'std::map<int, {V2}>', 'K{{s, kk::some2(s)}, {9, kk::some2(1)}}', ''),
    (f'Kokkos::View<{V1}*>', 'kk::nested(s)', 'host'),
]


def data(t):
    return ('const ' if t['cons'] else '') + EL[t['el']] + '*' * t['dyn'] + ''.join(f'[{n}]' for n in t['stat'])


def name(t):
    k = t['kind']
    more = ', ' + LAY[t['lay']] + (', Kokkos::DevSpace' if t['space'] == 'dev' else '') + (', Kokkos::MemoryTraits<Kokkos::Atomic>' if t['trait'] else '')
    if k == 'view':
        return f'Kokkos::View<{data(t)}{more}>'
    if k == 'rank':
        return f'Kokkos::DynRankView<{EL[t["el"]]}{more}>'
    if k == 'dynamic':
        return f'Kokkos::Experimental::DynamicView<{EL[t["el"]]}*>'
    a, b = t['el'].split(',')
    return f'Kokkos::UnorderedMap<{KEY[a]}, {KEY[b]}>'


def steps(t, v):
    if t['kind'] != 'view' or not v['alloc']:
        return PLAIN + ['left']
    r, plain = t['dyn'] + len(t['stat']), not t['cons'] and not t['trait']
    dynamic = not t['stat']
    s = list(PLAIN)
    if plain and dynamic and t['lay'] != 'S' and 1 <= r <= 4:
        s.append('extent')
    if plain:
        s.append('contents')
    if plain and dynamic and t['space'] == 'host' and 1 <= r <= 3 and t['el'] in ('i32', 'f64', 'u8', 'str'):
        s.append('equal')
    return s + ['left']


def words(v):
    return ' '.join(map(str, [int(v['alloc']), v['label'] or '-', len(v['ext'])] + v['ext'] + [len(v['str'])] + v['str'] + [len(v['ops'])] + v['ops']))


def design(ck):
    cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxRank = %d MaxExt = %d Flaw = "%s"\nINVARIANTS Faithful Announced HostOnly\n'
    r = tlc('ViewsModel', cfg % ((3, 3, '') if THOROUGH else (3, 2, '')), ck.d, workers=4)
    if not r.ok:
        raise HarnessError('the design model fails\n' + r.out[-4000:])
    ck.model(r, 'ViewsModel')
    for f in FLAWS:
        r = tlc('ViewsModel', cfg % (2, 2, f), ck.d, workers=2)
        if not r.violated:
            raise HarnessError(f'the specification accepts the flawed algorithm {f}\n' + r.out[-3000:])
    ck.extra['flawed_algorithms_rejected'] = len(FLAWS)


def c19(ck):
    d = ck.d
    kflags = ['-DMAGISTRATE_KOKKOS_ENABLED=1', '-DMAGISTRATE_KOKKOS_KERNELS_ENABLED=1', '-I' + HARN + '/kokkos']
    cfgs = {'ec': ('ec', ()), 'rel': ('rel', ('-DKOKKOS_VERSION=40500',))}
    with ThreadPoolExecutor(1) as ex:
        dm = ex.submit(design, ck)
        r = tlc('GenViews', f'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS Thorough = {"TRUE" if THOROUGH else "FALSE"} Seed = {SEED}\n', d, workers=1, env={'OUTFILE': d + '/gen.json'})
        if not os.path.exists(d + '/gen.json'):
            raise HarnessError('GenViews failed\n' + r.out[-3000:])
        gen = sorted(json.load(open(d + '/gen.json'))['types'], key=lambda g: name(g['ty']))
        for g in gen:
            g['vals'].sort(key=lambda v: json.dumps(v))
        # sources
        per, units = 12, []
        for u, i in enumerate(range(0, len(gen), per)):
            part = gen[i:i + per]
            open(f'{d}/v{u}.cpp', 'w').write('#include "kok.h"\nnamespace kk { Fn table' + str(u) + '(int n) { switch (n) {\n' +
                                            ''.join(f'case {i + k}: return &run<{name(g["ty"])}>;\n' for k, g in enumerate(part)) + '} return nullptr; } }\n')
            units.append(f'{d}/v{u}.cpp')
        nu = len(units)
        open(f'{d}/vtable.cpp', 'w').write('#include "kok.h"\nnamespace kk {\n' + ''.join(f'Fn table{u}(int);\n' for u in range(nu)) +
                                          'Fn table(int n) { switch (n / ' + str(per) + ') {\n' + ''.join(f'case {u}: return table{u}(n);\n' for u in range(nu)) + '} return nullptr; } }\n')
        groups = [FIXED[i::2] for i in range(2)]
        for gi, g in enumerate(groups):
            open(f'{d}/vfixed{gi}.cpp', 'w').write('#include "kok.h"\nnamespace kk { void fixed%d(int n, int id) { switch (n) {\n' % gi + ''.join(
                ('#if KOKKOS_VERSION_LESS(4, 4, 0)\n' if w == 'old' else '') + f'case {FIXED.index((t, m, w))}: {{ using K = {t}; int s = 0; K a = {m}; s = 3; K b = {m}; trip(id, a, b); return; }}\n' + ('#endif\n' if w == 'old' else '') for t, m, w in g) + '} } }\n')
        open(f'{d}/vfixed.cpp', 'w').write('namespace kk { void fixed0(int, int); void fixed1(int, int); void fixed(int n, int id) { if (n % 2) fixed1(n, id); else fixed0(n, id); } }\n')
        b = Build(d, pch='kok.h', flags=kflags)
        base, objs = b.flags, {}
        for c, (_, extra) in cfgs.items():
            b.flags = base + list(extra)
            b.compile_pch([c])
        b.flags = base
        for c, (_, extra) in cfgs.items():
            objs[c] = [b.obj(s, c, extra) for s in units + [f'{d}/vtable.cpp', f'{d}/vfixed0.cpp', f'{d}/vfixed1.cpp', f'{d}/vfixed.cpp', HARN + '/kok.cpp']] + b.lib(c, extra)
        b.run()
        exes = {c: b.link(f'kok_{c}', objs[c]) for c in cfgs}
        dm.result()
    # cases
    cases, lines = [], []
    rng = random.Random(SEED)
    for n, g in enumerate(gen):
        t, vs = g['ty'], g['vals']
        for i, v in enumerate(vs):
            p = vs[(i * 7 + 3 + SEED) % len(vs)]
            cases.append({'kind': t['kind'], 'lay': t['lay'], 'type': name(t), 'v': v, 'p': p, 'script': steps(t, v)})
            lines.append(f'{len(lines)} {n} {words(v)} {words(p)}')
    none = {'alloc': False, 'label': '', 'ext': [], 'str': [], 'ops': []}
    nfix = len(cases)
    for i, (t, _, w) in enumerate(FIXED):
        cases.append({'kind': 'fixed', 'lay': 'R', 'type': t, 'v': none, 'p': none, 'script': PLAIN + ['left'], 'only': 'ec' if w == 'old' else ''})
        lines.append(f'{len(lines)} {-1 - i}')
    shards = 4

    def go(a):
        c, i = a
        sp, tp = f'{d}/{c}_{i}.script', f'{d}/{c}_{i}.trace'
        mine = [k for k in range(i, len(lines), shards) if not (cases[k].get('only') and cases[k]['only'] != c)]
        open(sp, 'w').write(''.join(lines[k] + '\n' for k in mine))
        last = run_driver(exes[c], sp, tp, f'{d}/scr_{c}_{i}')
        evs = {}
        for line in open(tp, errors='replace'):
            if line.startswith('{'):
                e = json.loads(line)
                evs.setdefault(e['c'], []).append({'e': 'crash', 'what': e['out'] + ' ' + e['what']})
            else:
                n, e = line.split(' ', 1)
                evs.setdefault(int(n), []).append(json.loads(e))
        if last is not None:
            mine = [k for k in mine if k <= last]
        return {(c, k): evs.get(k, []) for k in mine}
    res = {}
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(go, [(c, i) for c in cfgs for i in range(shards)]):
            res.update(r)
    traces, where, seen = [], [], set()
    for (c, k), ev in sorted(res.items(), key=lambda x: (x[0][1], x[0][0])):
        ck.traces += 1
        h = hashlib.md5(json.dumps([k, ev]).encode()).digest()
        if h in seen:
            continue
        seen.add(h)
        x = cases[k]
        traces.append({'kind': x['kind'], 'lay': x['lay'], 'v': x['v'], 'p': x['p'], 'script': x['script'], 'ev': ev})
        where.append((c, k))
    rej, r = validate(d, 'ViewsTrace', 'INIT TraceInit\nNEXT TraceNext\nVIEW View\nCHECK_DEADLOCK TRUE\n', traces, 'trace')
    ck.states += r.distinct
    ck.transitions += r.generated
    ck.extra.update(types=len(gen) + len(FIXED), values=len(cases), configurations=len(cfgs))
    ck.samples += traces[:: max(1, len(traces) // 3)][:3]
    ck.assumptions.append('harness/kokkos (written from Kokkos\' documentation) stands in for Kokkos, which is not installed')
    if rej is not None:
        t, l = rej
        c, k = where[t]
        log(f'[{ck.prop}] rejected: config={c} {cases[k]["type"]} {lines[k]} event {l}: {json.dumps(traces[t]["ev"][l:l + 1])[:600]}')
        ck.violation({'property': ck.prop, 'config': c, 'type': cases[k]['type'], 'script': lines[k], 'case': cases[k], 'event': l, 'observed': traces[t]['ev'], 'specification': 'ViewsTrace'})
