"""Runs scripts (behaviours of spec/Store.tla) on the real library and has TLC decide
whether the recordings are behaviours of the specification."""
from univ import *



class Script:
    """One case: a list of operations [op, a, b, extra]; extra operands after the third."""

    def __init__(self, tag):
        self.tag, self.ops, self.lines = tag, [], []

    def op(self, op, a=0, b=0, x=0, txt='', more=()):
        self.ops.append([op, a, b, x if isinstance(x, int) else 0] + list(more))
        tail = txt or (str(x) if x != 0 else '')
        self.lines.append(f'{op} {a} {b} {tail}'.rstrip())
        return self

    def mk(self, slot, ty, v):
        return self.op('mk', slot, ty, txt=text(v))


def build_store(check, types, cfgs=('ec', 'rel'), flags=('-DWITH_STREAMS',), per=7, name='store', more=()):
    d = check.d
    b = Build(d, flags=flags, pch='ops.h')
    b.compile_pch(cfgs)
    srcs = codegen(types, d, per)
    objs = {}
    for c in cfgs:
        objs[c] = [b.obj(s, c) for s, _ in srcs] + [b.obj(HARN + '/' + m, c) for m in ('store.cpp',) + tuple(more)] + b.lib(c)
    owner = {f'{c}_{os.path.basename(s)}.o': g for c in cfgs for s, g in srcs}
    bad = b.run(fatal=False)
    lost = []
    if bad:
        # find out which types no longer compile, and go on without them
        for o, out in bad:
            g = owner.get(os.path.basename(o))
            if g is None:
                raise HarnessError('compilation failed: ' + o + '\n' + out[-4000:])
            c = os.path.basename(o).split('_')[0]
            objs[c].remove(o)
            ones = {}
            for x in g:
                (s, _), = codegen([x], d, 1, prefix=f'one_{c}_{x["id"]}_')
                ones[b.obj(s, c)] = x
            bad1 = {p for p, _ in b.run(fatal=False)}
            for p, x in ones.items():
                if p in bad1:
                    lost.append((c, x))
                else:
                    objs[c].append(p)
        if len(lost) > 0.5 * len(types) * len(cfgs):
            raise HarnessError('most types do not compile:\n' + bad[0][1][-4000:])
    exes = {c: b.link(f'{name}_{c}', objs[c]) for c in cfgs}
    return exes, lost


def run_cases(d, exe, cases, tag, shards=4, head=()):
    """cases: [(number, Script)]. Returns {number: [events]}; None for the cases that were not
    run because too many others crashed."""
    def one(i):
        part = cases[i::shards]
        if not part:
            return {}
        sp, tp = f'{d}/{tag}_{i}.script', f'{d}/{tag}_{i}.trace'
        with open(sp, 'w') as f:
            f.write(''.join(x + '\n' for x in head))
            for n, s in part:
                f.write(f'CASE {n}\n' + '\n'.join(s.lines) + '\n')
        last = run_driver(exe, sp, tp, f'{d}/scratch_{tag}_{i}')
        evs = {}
        for line in open(tp, errors='replace'):
            e = json.loads(line)
            evs.setdefault(e['c'], []).append(e)
        if last is not None:
            order = [n for n, _ in part]
            evs.update({n: None for n in order[order.index(last) + 1:]})
        return evs
    res = {}
    with ThreadPoolExecutor(shards) as ex:
        for r in ex.map(one, range(shards)):
            res.update(r)
    return res


def validate(d, spec, prop_cfg, traces, tag, env=None, heap='12g', timeout=800):
    """traces: list of dicts (one line each). Returns index (0-based) of a rejected trace and
    position, or None."""
    p = f'{d}/{tag}.ndjson'
    with open(p, 'w') as f:
        for t in traces:
            f.write(json.dumps(t) + '\n')
    e = {'TRACEFILE': p}
    e.update(env or {})
    r = tlc(spec, prop_cfg, d, env=e, heap=heap, timeout=timeout)
    if r.ok:
        return None, r
    if 'Deadlock reached' in r.out:
        cs = re.findall(r'^/\\ case = (\d+)', r.out, re.M)
        ls = re.findall(r'^/\\ l = (\d+)', r.out, re.M)
        return (int(cs[-1]) - 1, int(ls[-1])), r
    raise HarnessError(f'TLC failed on {spec} ({tag}) rc={r.rc}\n' + r.out[-5000:])


TRACE_CFG = 'INIT TraceInit\nNEXT TraceNext\nVIEW View\nCHECK_DEADLOCK TRUE\nCONSTANT Props = {"%s"}\n'


def strip(evs):
    return [{k: e[k] for k in ('op', 'a', 'b', 'out', 'n1', 'n2', 'n3', 'd', 'val', 'what')} for e in evs]


def confirm(check, rej, traces, again, judge):
    """A rejected recording is run once more, on its own, and judged again: (case, events,
    position). Where that is accepted (the failure depends on what ran before it) the first
    recordings are judged once more without it, up to a number of times; what is rejected
    there without being reproducible is reported when it is the third of its kind."""
    left, odd = list(range(len(traces))), []
    while rej is not None:
        t = left[rej[0]]
        tr = again(t)
        r2 = judge([tr])
        if r2 is not None:
            return t, tr['ev'], r2[1]
        log(f'[{check.prop}] not reproduced on its own: trace {t} step {rej[1]}')
        odd.append((t, traces[t]['ev'], rej[1]))
        if len(odd) >= 3:
            return odd[0]
        left.remove(t)
        rej = judge([traces[x] for x in left])
    check.extra['not_reproduced'] = len(odd)
    return None, None, None


def decide(check, exes, scripts, prop=None, types=(), spec='StoreTrace', cfg=None, env=None, head=(), percfg=False, free=False):
    """Run every script in every configuration and validate the recordings."""
    prop = prop or check.prop
    tn = {x['id']: x['name'] for x in types}
    res = {}
    with ThreadPoolExecutor(len(exes)) as ex:
        futs = {c: ex.submit(run_cases, check.d, exe, list(enumerate(scripts)), c, head=head) for c, exe in exes.items()}
        for c, f in futs.items():
            res[c] = f.result()
    traces, where, seen = [], [], {}
    total_ev = 0
    for c in exes:
        for i, s in enumerate(scripts):
            if res[c].get(i, []) is None:
                continue
            ev = strip(res[c].get(i, []))
            total_ev += len(ev)
            ops = [] if free else s.ops + [['end', 0, 0, 0]]
            ev = [dict(e, b=0) if e['op'] == 'end' else e for e in ev]
            key = hashlib.md5(json.dumps([ops, ev] + ([c] if percfg else [])).encode()).digest()
            if key in seen:
                continue
            seen[key] = 1
            traces.append({'ops': ops, 'ev': ev, **({'cfg': c} if percfg else {})})
            where.append((c, i))
    t0 = time.time()
    rej, r = validate(check.d, spec, cfg or TRACE_CFG % prop, traces, 'trace', env=env)
    check.traces += len(scripts) * len(exes)
    check.states += r.distinct
    check.transitions += r.generated
    check.extra['events'] = check.extra.get('events', 0) + total_ev
    check.extra['trace_validation_s'] = round(time.time() - t0, 1)
    if scripts:
        ops = {}
        for s in scripts:
            for o in s.ops:
                ops[o[0]] = ops.get(o[0], 0) + 1
        check.extra['operations'] = ops
        for s in scripts[:: max(1, len(scripts) // 3)][:3]:
            check.samples.append({'case': s.tag, 'script': [x[:200] for x in s.lines]})
    if rej is None:
        return True
    c, i = where[rej[0]]

    def again(t):
        c, i = where[t]
        r = run_cases(check.d, exes[c], [(i, scripts[i])], 'confirm', shards=1, head=head)
        ev = [dict(e, b=0) if e['op'] == 'end' else e for e in strip(r.get(i, []))]
        return {'ops': [] if free else scripts[i].ops + [['end', 0, 0, 0]], 'ev': ev, **({'cfg': c} if percfg else {})}
    t, ev2, l = confirm(check, rej, traces, again, lambda ts: validate(check.d, spec, cfg or TRACE_CFG % prop, ts, 'confirm', env=env)[0])
    if t is None:
        return True
    c, i = where[t]
    bad = ev2[l] if l < len(ev2) else {'op': 'missing event'}
    log(f'[{check.prop}] rejected: config={c} case={scripts[i].tag} step {l}: {"" if free else scripts[i].lines[l][:300] if l < len(scripts[i].lines) else "end"}')
    log('   observed: ' + json.dumps(bad)[:600])
    check.violation({'property': check.prop, 'config': c, 'case': scripts[i].tag, 'script': scripts[i].lines, 'types': tn, 'step': l, 'observed': bad,
                     'specification': spec, 'events': ev2})
    return False


CPS = ['cp' + x + y for x in 'mfs' for y in 'mfs']
ALL_OPS = ['mk', 'gs', 'fp', 'se', 'su', 'sn', 'wf', 'ns', 'ws', 'as', 'ks', 'dm', 'du', 'di', 'rf', 'ri', 'rs', 'rt'] + CPS


def _set(xs):
    return '{' + ', '.join(str(x) if isinstance(x, int) else f'"{x}"' for x in xs) + '}'


def model_cfg(alphabet, objs=2, imgs=1, files=1, strms=1, values=('01', '02'), recs=2, gen=0, start=(), later=None):
    c = 'INIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\nCONSTANTS\n'
    c += f' Props = {{"C01","C02","C03","C04","C05","C06"}}\n Objs = {_set(range(1, objs+1))}\n Imgs = {_set(range(1, imgs+1))}\n Files = {_set(range(1, files+1))}\n'
    c += f' Strms = {_set(range(1, strms+1))}\n Values0 = {_set(values)}\n MaxRecs = {recs}\n Alphabet = {_set(alphabet)}\n'
    c += f' MaxHist = {gen}\n Start <- StartDef\n Later = {_set(alphabet if later is None else later)}\n Gen = {"TRUE" if gen else "FALSE"}\n'
    c += 'INVARIANT Emit\n' if gen else 'INVARIANTS Faithful Exact Records\nPROPERTY Untouched\nVIEW DesignView\n'
    return c


def design(check, alphabet, **kw):
    r = tlc('StoreModel', model_cfg(alphabet, **kw).replace('Start <- StartDef', 'Start = {}'), check.d, timeout=600)
    if not r.ok:
        raise HarnessError('the design model fails\n' + r.out[-4000:])
    check.model(r, 'StoreModel{' + ','.join(alphabet) + '} ' + str(kw))
    return r


def histories(check, start, later, length, **kw):
    """All behaviours of StoreModel that begin with `start` and go on with operations in
    `later`, of the given total length, as lists of operations."""
    mod = 'GenHist'
    tla = '<<' + ', '.join('<<"%s", %d, %d>>' % tuple(o) for o in start) + '>>'
    alpha = sorted({o[0] for o in start})
    r = tlc(mod, model_cfg(alpha, gen=length, later=later, **kw), check.d, workers=1, timeout=300,
            files={f'{mod}.tla': f'---- MODULE {mod} ----\nEXTENDS StoreModel\nStartDef == {tla}\n====\n'})
    if not r.ok:
        raise HarnessError('history generation failed\n' + r.out[-4000:])
    check.model(r, f'histories of {length}: {start} then ' + ','.join(later))
    hs = set()
    for m in re.finditer(r'HIST (.*?)"?$', r.out, re.M):
        hs.add(m.group(1).replace('\\"', '"'))
    return [json.loads(h) for h in sorted(hs)]
