"""C16: operations side by side (spec/Isolation.tla)."""
from storelib import *

FLAWS = ('sharedmark', 'threadmark', 'sharedpos', 'lock')


def b4(i):
    return N('b', 0, '%02x000000' % (i % 251))


def G(i):
    return N('tup', 0, '', [b4(i)])


def S(s):
    return N('str', len(s), s.encode().hex())


def seq(*k):
    return N('seq', 0, '', k)


def vec(*k):
    return N('vec', len(k), '', k)


def tup(*k):
    return N('tup', 0, '', k)


def ptr(*k):
    return N('ptr', 0, '', k)


def P0(i):
    return N('po', 0, '', [b4(i)])


def P1(i, *kid):
    return N('po', 1, '', [b4(i), b4(i + 1), ptr(*kid)])


def P2(i, *kid):
    return N('po', 2, '', [b4(i), b4(i + 1), ptr(*kid), b4(i + 2), G(i + 3)])


def M1(i, s):
    return N('po', 1, '', [b4(i), S(s)])


def M2(i, s, *o):
    return N('po', 2, '', [b4(i), S(s), ptr(*o)])


# name, C++ type, two values (the second may be deserialized over the first and vice versa), two more
TYPES = [
    ('G', 'G', [G(1), G(2)]),
    ('vec', 'std::vector<G>', [vec(G(1), G(2)), vec(G(3)), vec(), vec(G(7), G(8), G(9))]),
    ('map', 'std::map<std::int32_t, G>', [seq(tup(b4(1), G(5)), tup(b4(2), G(6))), seq(tup(b4(3), G(7)))]),
    ('umap', 'std::unordered_map<std::int32_t, G>', [N('bag', 0, '', [tup(b4(1), G(5)), tup(b4(9), G(6))]), N('bag', 0, '', [tup(b4(3), G(7))])]),
    ('opt', 'std::optional<G>', [N('opt', 0, '', [G(4)]), N('opt', 0, '', [G(5)]), N('opt')]),
    ('ptr', 'std::unique_ptr<G>', [ptr(G(4)), ptr(G(5)), ptr()]),
    ('list', 'std::list<H>', [seq(tup(S('ab'), vec(b4(1), b4(2)), G(3))), seq(tup(S('x' * 40), vec(), G(4)), tup(S(''), vec(b4(7)), G(5)))]),
    ('arr', 'std::array<G, 3>', [seq(G(1), G(2), G(3)), seq(G(4), G(5), G(6))]),
    ('tup', 'std::tuple<G, std::int16_t, G>', [tup(G(1), N('b', 0, '0200'), G(3)), tup(G(4), N('b', 0, '0500'), G(6))]),
    ('var', 'std::variant<G, std::int32_t, H>', [N('var', 0, '', [G(1)]), N('var', 2, '', [tup(S('qq'), vec(b4(5)), G(6))]), N('var', 1, '', [b4(9)])]),
    ('queue', 'std::queue<G>', [seq(G(1), G(2)), seq(G(3))]),
    ('dptr', 'std::deque<std::unique_ptr<G>>', [seq(ptr(G(1)), ptr()), seq(ptr(G(2)), ptr(G(3)))]),
    ('set', 'std::set<G>', [seq(G(1), G(2)), seq(G(3))]),
    ('P', 'std::unique_ptr<P0>', [ptr(P2(10, P1(20, P0(30)))), ptr(P2(40, P1(50, P0(60)))), ptr(P0(5)), ptr(P1(8))]),
    ('vP', 'std::vector<std::unique_ptr<P0>>', [vec(ptr(P0(1)), ptr(P1(2)), ptr(P2(5))), vec(ptr(P0(11)), ptr(P1(12)), ptr(P2(15))), vec()]),
    ('M', 'vt::SPtr<M0>', [tup(ptr(M2(1, 'abc', P1(4)))), tup(ptr(M2(2, 'defghi', P1(5)))), tup(ptr(M1(3, 'z')))]),
    ('R', 'vt::RPtr<M0>', [tup(ptr(M2(1, 'abc', P2(4)))), tup(ptr(M2(2, 'defghi', P2(5)))), tup(ptr())]),
    ('Mix', 'Mix', [tup(G(1), ptr(P1(2, P0(3))), b4(4), b4(5), b4(6), tup(ptr(M1(7, 'rs')))), tup(G(11), ptr(P1(12, P0(13))), b4(14), b4(15), b4(16), tup(ptr(M1(17, 'tuv'))))]),
    ('str', 'std::vector<std::string>', [vec(S('a' * 50), S('b')), vec(S('cc'), S(''), S('d' * 30))]),
    ('big', 'std::map<std::string, std::vector<std::int32_t>>', [seq(tup(S('k1'), vec(*[b4(i) for i in range(20)])), tup(S('k2'), vec())), seq(tup(S('kk'), vec(b4(1))))]),
    ('bits', 'std::vector<bool>', [vec(*[N('b', 0, '0%d' % (i % 3 // 2)) for i in range(70)]), vec(N('b', 0, '01'))]),
]
KINDS = ('gs', 'fp', 'se', 'su', 'sr', 'tr', 'wf', 'ws', 'de', 'du', 'di', 'rf', 'ri', 'rs', 'rt')
EMPTY = N('')


def model(ck, flaw=''):
    two = flaw != 'threadmark'
    return tlc('IsolationModel', f'INIT Init\nNEXT Next\nCHECK_DEADLOCK TRUE\nCONSTANTS Flaw = "{flaw}"\n Threads = {"{1, 2}" if two else "{1}"}\n Ops = {1 if two else 2}\nINVARIANT Isolated\n', ck.d, workers=2, heap='4g')


def schedules(ck, threads, length, switches):
    r = tlc('GenSched', f'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Threads = {threads}\n Length = {length}\n Switches = {switches}\nINVARIANT Emit\n', ck.d, workers=1)
    if not r.ok:
        raise HarnessError('schedule generation failed\n' + r.out[-3000:])
    ck.model(r, f'GenSched threads={threads} length={length} switches<={switches}')
    return [json.loads(x) for x in re.findall(r'SCHED (\[.*?\])', r.out)]


def make_jobs():
    jobs = []

    def add(kind, ti, val, other=EMPTY, tp=-1, ta=-1):
        jobs.append({'id': len(jobs) + 1, 'kind': kind, 'ty': ti + 1, 'val': val, 'other': other, 'tp': tp, 'ta': ta, 'bad': tp >= 0, 'name': f'{kind} {TYPES[ti][0]}' + (f' fails in pass {tp} at {ta}' if tp >= 0 else '')})
        return jobs[-1]
    for ti, (nm, _, vs) in enumerate(TYPES):
        for k in KINDS:
            add(k, ti, vs[0], vs[1] if k in ('di', 'ri', 'rt') else EMPTY)
        if len(vs) > 2 and nm not in ('P', 'M', 'R'):
            for k in ('sr', 'di', 'tr', 'rt'):
                add(k, ti, vs[2], vs[1] if nm in ('vec', 'opt', 'ptr', 'var') else vs[2])
        for k in ('de', 'se', 'di'):
            add(k, ti, vs[1], vs[0] if k == 'di' else EMPTY)
        # failing: user code in every pass, at several calls of serialize
        for k, p in (('se', 0), ('se', 1), ('wf', 1), ('ws', 0), ('de', 2), ('di', 2), ('rf', 2), ('rt', 2), ('tr', 4), ('fp', 3), ('du', 2)):
            for a in (0, 1, 3):
                add(k, ti, vs[0], vs[1] if k in ('di', 'rt') else EMPTY, p, a)
        # failing: input cut off, missing file
        add('cut', ti, vs[0])['bad'] = True
        add('cuf', ti, vs[1])['bad'] = True
        if ti == 0:
            add('nof', ti, vs[0])['bad'] = True
    # over an object of another dynamic class
    p = [i for i, t in enumerate(TYPES) if t[0] == 'P'][0]
    m = [i for i, t in enumerate(TYPES) if t[0] == 'M'][0]
    for k in ('di', 'ri', 'rt'):
        add(k, p, TYPES[p][2][0], TYPES[p][2][2])['bad'] = True
        add(k, p, TYPES[p][2][3], TYPES[p][2][0])['bad'] = True
        add(k, m, TYPES[m][2][0], TYPES[m][2][2])['bad'] = True
    return jobs


def c16(ck):
    ex = ThreadPoolExecutor(3)
    base = ex.submit(model, ck)
    flawed = [(f, ex.submit(model, ck, f)) for f in FLAWS]
    f2 = ex.submit(schedules, ck, 2, 24 if THOROUGH else 16, 3)
    f3 = ex.submit(schedules, ck, 3, 9 if THOROUGH else 7, 9 if THOROUGH else 4)
    cfgs = ('ec', 'rel')
    b = Build(ck.d, flags=['-pthread'], pch='iso.h')
    b.compile_pch(cfgs)
    srcs = []
    for i in range(7):
        p = f'{ck.d}/is{i}.cpp'
        with open(p, 'w') as f:
            f.write('#include "iso.h"\nusing namespace iso;\n' + ''.join(f'using T{j} = {TYPES[j][1]};\nstatic RegisterIso r{j}({j + 1}, new IsoOpsOf<T{j}>);\n' for j in range(i, len(TYPES), 7)))
        srcs.append(p)
    objs = {c: [b.obj(s, c) for s in srcs] + [b.obj(HARN + '/iso.cpp', c)] + b.lib(c) for c in cfgs}
    b.run()
    exes = {c: b.link(f'iso_{c}', objs[c], extra=['-pthread']) for c in cfgs}
    jobs = make_jobs()
    head = [f'JOB {j["id"]} {j["kind"]} {j["ty"]} {j["tp"]} {j["ta"]} {text(j["val"])} {text(j["other"])}' for j in jobs]

    # what each operation does on its own
    solos = []
    for j in jobs:
        s = Script('alone')
        s.lines = [f'SOLO {j["id"]}']
        solos.append(s)
    with ThreadPoolExecutor(2) as e2:
        res = dict(zip(cfgs, e2.map(lambda c: run_cases(ck.d, exes[c], [(j['id'], s) for j, s in zip(jobs, solos)], 'solo_' + c, head=head), cfgs)))
    alone = {c: {} for c in cfgs}
    for c in cfgs:
        for j in jobs:
            ev = res[c].get(j['id']) or []
            if ev and ev[0].get('e') == 'b' and ev[-1].get('e') == 'e' and len(ev) < 400:
                alone[c][j['id']] = [e['s'] for e in ev[1:]]
    usable = [j for j in jobs if all(j['id'] in alone[c] for c in cfgs)]
    ck.extra['operations_alone'] = {'jobs': len(jobs), 'usable': len(usable), 'observations': sum(len(h) for h in alone['ec'].values()), 'failing': sum(1 for h in alone['ec'].values() if not h[-1].startswith('ok'))}
    if len(usable) < len(jobs) // 2:
        raise HarnessError('most operations do not complete on their own')
    good = [j for j in usable if not j['bad']]
    bad = [j for j in usable if j['bad']]
    gates = {j['id']: min(sum(1 for x in alone[c][j['id']][:-1] if not x.startswith('buf')) for c in cfgs) for j in usable}
    gated = [j for j in good if gates[j['id']] > 1]
    r = random.Random(SEED)
    cases = []

    def case(tag, lines, ids, want, total=''):
        s = Script(tag)
        s.lines, s.ids, s.want, s.total = lines, sorted(set(ids)), want, total
        cases.append(s)

    def run(tag, threads, sched, allocs=0, warm=0, nest=()):
        lines = ['NEST ' + ' '.join('%d %d %d %d' % x for x in nest)] if nest else []
        lines.append(f'RUN {allocs} {warm} | ' + ' | '.join(' '.join(str(j['id']) for j in t) for t in threads) + ' | ' + ' '.join(map(str, sched)))
        case(tag, lines, [j['id'] for t in threads for j in t] + [x[3] for x in nest], sum(len(t) for t in threads) + len(nest))

    two, three = f2.result(), f3.result()
    r.shuffle(two)
    r.shuffle(three)
    # pairs of operations under every schedule; each operation several times in turn
    firsts = gated * (1 + len(two) // len(gated))
    for i, s in enumerate(two):
        run('two threads', [[firsts[i]], [r.choice(gated)]], s)
    for s in three[:len(three) if THOROUGH else 250]:
        run('three threads', [[r.choice(gated)] for _ in range(3)], s)
    # the same type on both sides
    for j in gated:
        run('same operation twice', [[j], [j]], [1 + (i // k) % 2 for k in (r.choice([1, 2, 3]),) for i in range(60)])
    # failures before and between
    for _ in range(1500 if THOROUGH else 250):
        run('after failures', [sum(([r.choice(bad)] * r.choice([1, 1, 2]) + [r.choice(good)] for _ in range(3)), [])], [])
    for _ in range(1500 if THOROUGH else 300):
        ts = [sum(([r.choice(bad), r.choice(good)] for _ in range(2)), []) for _ in range(r.choice([2, 2, 3]))]
        run('failing threads', ts, [r.randrange(1, len(ts) + 1) for _ in range(60)])
    # the failing operation and then the same type
    for j in bad:
        run('again after failure', [[j] + r.sample([x for x in good if x['ty'] == j['ty']], 3)], [])
    # nested
    for j in gated * (4 if THOROUGH else 1):
        g = r.randrange(gates[j['id']])
        n = r.choice(usable)
        nest = [(0, j['id'], g, n['id'])]
        if gates[n['id']] > 0 and r.random() < .5:
            nest.append((1, n['id'], r.randrange(gates[n['id']]), r.choice(usable)['id']))
        run('nested', [[j]], [], nest=nest)
        same = r.choice([x for x in usable if x['ty'] == j['ty']])
        run('nested same type', [[j]], [], nest=[(0, j['id'], r.randrange(gates[j['id']]), same['id'])])
    # ... the same operation on another object, inside every step
    for j in gated:
        if j['kind'] in ('de', 'di', 'se') and j['val'] is TYPES[j['ty'] - 1][2][0]:
            for x in usable:
                if x['ty'] == j['ty'] and not x['bad'] and x['val'] is TYPES[j['ty'] - 1][2][1] and (x['kind'] == j['kind'] or THOROUGH and x['kind'] in ('de', 'di', 'se')):
                    for g in range(min(gates[j['id']], 30 if THOROUGH else 12)):
                        run('nested same operation', [[j]], [], nest=[(0, j['id'], g, x['id'])])
    for i in range(2000 if THOROUGH else 250):
        j, k = r.sample(gated, 2)
        nest = [(0, x['id'], g, r.choice(usable)['id']) for x in (j, k) for g in sorted(r.sample(range(gates[x['id']]), min(2, gates[x['id']])))]
        run('nested on threads', [[j], [k]], [r.randrange(1, 3) for _ in range(60)], nest=nest)
    # allocations are scheduling points as well
    for i in range(3000 if THOROUGH else 300):
        ts = [[r.choice(usable if i % 2 else good) for _ in range(r.choice([1, 2]))] for _ in range(2)]
        run('allocations', ts, [x for _ in range(60) for x in [r.randrange(1, 3)] * r.choice([1, 1, 2, 5])], allocs=1, warm=1)
    # threads that run freely
    for i in range(60 if THOROUGH else 14):
        same = i % 3 == 0
        pick = [x for x in usable if x['ty'] == r.choice([3, 14, 15, 16, 18, 20])] if same else usable if i % 3 == 1 else good
        pick = pick or usable
        ts = [[r.choice(pick) for _ in range(12)] for _ in range(8)]
        k = 150 if THOROUGH else 25
        case('free', [f'FREE {k} | ' + ' | '.join(' '.join(str(j['id']) for j in t) for t in ts)], [j['id'] for t in ts for j in t], 0, str(k * 8 * 12))

    with ThreadPoolExecutor(2) as e2:
        res = dict(zip(cfgs, e2.map(lambda c: run_cases(ck.d, exes[c], list(enumerate(cases)), c, head=head), cfgs)))

    def trace(c, i, ev):
        return {'alone': [{'j': j, 'hist': alone[c][j]} for j in cases[i].ids], 'want': cases[i].want, 'total': cases[i].total,
                'ev': [{'e': e['e'], 'i': e['i'], 'j': e['j'], 's': e['s']} if 'e' in e else {'e': 'crash', 'i': 0, 'j': 0, 's': e.get('out', '')} for e in ev]}
    traces, where = [], []
    for c in cfgs:
        for i in range(len(cases)):
            if res[c].get(i, []) is None:
                continue
            traces.append(trace(c, i, res[c].get(i, [])))
            where.append((c, i))
    cfg = 'INIT TraceInit\nNEXT TraceNext\nVIEW View\nCHECK_DEADLOCK TRUE\n'
    t0 = time.time()
    rej, tr = validate(ck.d, 'IsolationTrace', cfg, traces, 'trace')
    ck.traces += len(traces)
    ck.states += tr.distinct
    ck.transitions += tr.generated
    tags = {}
    for s in cases:
        tags[s.tag] = tags.get(s.tag, 0) + 1
    ck.extra.update(trace_validation_s=round(time.time() - t0, 1), cases=tags, events=sum(len(t['ev']) for t in traces))
    for s in cases[:: max(1, len(cases) // 4)][:4]:
        ck.samples.append({'case': s.tag, 'script': [x[:200] for x in s.lines]})
    m = base.result()
    if not m.ok:
        raise HarnessError('the design model fails\n' + m.out[-4000:])
    ck.model(m, 'IsolationModel')
    for f, x in flawed:
        y = x.result()
        if not (y.violated or f == 'lock' and 'Deadlock reached' in y.out):
            raise HarnessError(f'the flawed design {f} is not rejected\n' + y.out[-3000:])
    ck.extra['flawed_designs_rejected'] = list(FLAWS)
    ck.assumptions += ['switches between threads happen at calls of serialize functions, of the buffer callback and (after a first run) at allocations, and anywhere in the free-running cases',
                       'operations on distinct objects, buffers, files and streams']
    if rej is None:
        return

    def again(t):
        c, i = where[t]
        return trace(c, i, run_cases(ck.d, exes[c], [(i, cases[i])], 'confirm', shards=1, head=head).get(i) or [])
    t, ev, l = confirm(ck, rej, traces, again, lambda ts: validate(ck.d, 'IsolationTrace', cfg, ts, 'confirm')[0])
    if t is None:
        return
    c, i = where[t]
    evs = ev['ev'] if isinstance(ev, dict) else ev
    bad = evs[l] if l < len(evs) else {'e': 'missing event'}
    log(f'[C16] rejected: config={c} {cases[i].tag} {str(cases[i].lines)[:600]} step {l}\n   observed: {json.dumps(bad)[:600]}\n   alone: {json.dumps(alone[c].get(bad.get("j"), []))[:600]}')
    ck.violation({'property': 'C16', 'config': c, 'case': cases[i].tag, 'script': cases[i].lines, 'jobs': [head[j - 1] for j in cases[i].ids], 'step': l, 'observed': bad, 'specification': 'IsolationTrace', 'events': evs})
