"""C14: user-defined traversals (spec/Traverse.tla)."""
from storelib import *

FLAWS = ('skiplast', 'reverse', 'again', 'twice', 'nested', 'descend', 'frame', 'copy')
LEAVES = set(WIDTH) - {'durms', 'durf', 'durd', 'durh', 'duri'}


def plain(t):
    return t['c'] in LEAVES or t['c'] in ('var2', 'var3', 'var5') and all(plain(x) for x in t['a'])


def parts(t):
    out = [] if plain(t) else [t]
    for x in t['a']:
        out += parts(x)
    if t['c'] in ('Tree', 'Link'):
        out.append(T('vec' if t['c'] == 'Tree' else 'ptr', t))
    if t['c'] == 'Bush':
        out += [T('map', I32, t), T('list', t), T('deque', t), T('vec', T('opt', t)), T('opt', t), T('vec', T('var2', I32, t)), T('var2', I32, t)]
    if t['c'] == 'Poly':
        out += [T('str'), T('vec', T('i16'))]
    return out


def has(t, cs):
    return t['c'] in cs or any(has(x, cs) for x in t['a'])


def model(ck, flaw=''):
    return tlc('TraverseModel', f'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Depth = 2\n Flaw = "{flaw}"\nINVARIANTS Progress OneTraverser\n', ck.d, workers=2)


def c14(ck):
    ex = ThreadPoolExecutor(2)
    base = ex.submit(model, ck)
    flawed = [(f, ex.submit(model, ck, f)) for f in FLAWS]
    types = [x for x in universe('deep+poly' if THOROUGH else 'core+poly', ck.d) if not has(x['ty'], {'f80'})]
    # bytes of padding are not kept by the copies a queue's elements are shown from
    types = [x for x in types if not (x['ty']['c'] == 'queue' and has(x['ty'], {'PodTr', 'PodIn', 'PodMac', 'PodNi', 'PodSp', 'PodAl', 'PodBig'}))]
    cfgs = ('ec', 'rel')
    b = Build(ck.d, pch='trav.h')
    b.compile_pch(cfgs)
    names = {}
    for x in types:
        for t in parts(x['ty']):
            names[tname(t)] = cpp(t)
    srcs = []
    n = 16
    keys = sorted(names)
    for i in range(n):
        p = f'{ck.d}/tr{i}.cpp'
        with open(p, 'w') as f:
            f.write('#include "trav.h"\nusing namespace vt;\n')
            for j, x in enumerate(types[i::n]):
                f.write(f'using T{x["id"]} = {x["cpp"]};\nstatic tv::RegisterType r{x["id"]}({x["id"]}, new tv::Ops<T{x["id"]}>);\n')
            for j, k in enumerate(keys[i::n]):
                f.write(f'using N{j} = {names[k]};\nstatic tv::RegisterName n{j}(typeid(N{j}), "{k}");\n')
        srcs.append(p)
    objs = {c: [b.obj(s, c) for s in srcs] + [b.obj(HARN + '/trav.cpp', c)] + b.lib(c) for c in cfgs}
    b.run()
    exes = {c: b.link(f'trav_{c}', objs[c]) for c in cfgs}
    r = random.Random(SEED)
    cases = []
    for x in types:
        vs = list(x['vals']) + [rnd(x['ty'], r, k) for k in ((1, 2, 3, 6) if THOROUGH else (2, 4))]
        stops = sorted({tname(t) for t in parts(x['ty'])} | ({'PolyPtr', 'PolyBase', 'PolyMid', 'PolyLeaf'} if has_poly(x['ty']) else set()))
        for v in vs:
            if nodes(v) > 60:
                continue
            s = Script(x['name'])
            s.lines = [f'RUN {x["id"]} {text(v)}', 'STOP ' + ' '.join(stops)]
            s.x, s.expect = x, 1 + 9 + len(stops) + 1 + 1
            cases.append(s)
    res = {}
    with ThreadPoolExecutor(2) as e2:
        for c, y in zip(cfgs, e2.map(lambda c: run_cases(ck.d, exes[c], list(enumerate(cases)), c), cfgs)):
            res[c] = y

    def trace(c, i, ev):
        rel = res['rel'].get(i) or []
        first = next((e for e in rel if e.get('how') == 'image'), None)
        n = len(first['bytes']) - first['framing'] if first else -1
        return {'ty': cases[i].x['ty'], 'cfg': c, 'datalen': n, 'expect': cases[i].expect,
                'ev': [{k: e[k] for k in ('how', 'stop', 'same', 'framing', 'bytes', 'opens', 'val')} if 'how' in e else
                       {'how': 'crash', 'stop': '', 'same': False, 'framing': 0, 'bytes': [], 'opens': [], 'val': N('')} for e in ev]}
    traces, where = [], []
    for c in cfgs:
        for i in range(len(cases)):
            if res[c].get(i, []) is None:
                continue
            traces.append(trace(c, i, res[c].get(i, [])))
            where.append((c, i))
    cfg = 'INIT TraceInit\nNEXT TraceNext\nVIEW View\nCHECK_DEADLOCK TRUE\n'
    t0 = time.time()
    rej, tr = validate(ck.d, 'TraverseTrace', cfg, traces, 'trace')
    ck.traces += len(traces)
    ck.states += tr.distinct
    ck.transitions += tr.generated
    ck.extra.update(trace_validation_s=round(time.time() - t0, 1), types=len(types), traversals=sum(len(t['ev']) for t in traces), consultations=sum(len(e['opens']) for t in traces for e in t['ev']))
    for k in cases[:: max(1, len(cases) // 3)][:3]:
        ck.samples.append({'type': k.tag, 'script': [y[:200] for y in k.lines]})
    m = base.result()
    if not m.ok:
        raise HarnessError('the design model fails\n' + m.out[-4000:])
    ck.model(m, 'TraverseModel')
    for f, x in flawed:
        if not x.result().violated:
            raise HarnessError(f'the flawed design {f} is not rejected\n' + x.result().out[-3000:])
    ck.extra['flawed_designs_rejected'] = list(FLAWS)
    ck.assumptions += ['types without padding bytes of unspecified value (long double, queues of padded structs) in the comparison of bytes',
                       'in a build with error checking the data is compared with the image as a subsequence of equal length']
    if rej is None:
        return

    def again(t):
        c, i = where[t]
        return trace(c, i, run_cases(ck.d, exes[c], [(i, cases[i])], 'confirm', shards=1).get(i) or [])
    t, ev, l = confirm(ck, rej, traces, again, lambda ts: validate(ck.d, 'TraverseTrace', cfg, ts, 'confirm')[0])
    if t is None:
        return
    c, i = where[t]
    bad = ev[l] if l < len(ev) else {'how': 'missing event'}
    log(f'[C14] rejected: config={c} {cases[i].lines[0][:300]} step {l}\n   observed: {json.dumps(bad)[:900]}')
    ck.violation({'property': 'C14', 'config': c, 'type': cases[i].x['name'], 'script': cases[i].lines, 'step': l, 'observed': bad, 'specification': 'TraverseTrace', 'events': ev})
