"""Checks of C02-C06 on the API state machine (spec/Store.tla)."""
from storelib import *


def pick(x, r, n, extra=2):
    vs = list(x['vals'])
    vs += [rnd(x['ty'], r, s) for s in (3, 9)[:extra]]
    return vs[:n] if not THOROUGH else vs + [rnd(x['ty'], r, s) for s in (1, 2, 17, 40)]


def sized(t):
    return t['c'] in SIZABLE or t['c'] in ('Tree', 'Link', 'Bush') or any(sized(x) for x in t['a'])


def large(x, r, sizes=(70, 300)):
    """Values larger than the representative ones."""
    t = x['ty']
    if not sized(t):
        return []
    out = [rnd(t, r, n) for n in sizes]
    if t['c'] == 'str' or x['name'] in ('vec<i32>', 'vec<str>', 'vec<bool>', 'list<i32>', 'map<i32,str>', 'Box<str>', 'opt<str>', 'ptr<str>'):
        out += [rnd(t, r, n) for n in (4097, 70000)]
    return out


def hist_script(tag, h, t, vals, junk_bytes=3, kinds=(0,), copies=None):
    """Turn a history of StoreModel into a script for type t; the i-th mk uses vals[i]."""
    s = Script(tag)
    made = 0
    if any(o[0] in ('di', 'ri', 'rt') for o in h) and not all(overlay_ok(x, y) for x in vals for y in vals):
        vals = vals[:1]
    for op, a, b in h:
        if op == 'mk':
            s.mk(a, t, vals[made % len(vals)])
            made += 1
        elif op == 'ns':
            s.op('ns', a, kinds[a % len(kinds)])
        elif op in ('dm', 'du', 'di', 'rf', 'ri', 'rs', 'rt'):
            s.op(op, a, b, t)
        elif op.startswith('cp'):
            s.op('cp', a, b, txt=op[2] + ' ' + op[3])
        else:
            s.op(op, a, b)
    return s


def kinds_of(x, i):
    ks = [0, 1, 3] if has_poly(x['ty']) else [0, 1, 2, 3]
    return (ks[i % len(ks)],)


def c02(ck):
    types = universe('core+poly', ck.d)
    design(ck, ['mk', 'gs', 'se', 'su', 'wf', 'ns', 'ws', 'rs'], values=('01', '0203') if THOROUGH else ('0203',))
    exes, _ = build_store(ck, types, flags=['-DWITH_STREAMS', '-DWITH_CANARY', '-DWITH_HUGE'], more=('huge.cpp',))
    r = random.Random(SEED)
    scripts = []
    for x in types:
        t = x['id']
        vs = pick(x, r, 12)
        if x['ty']['c'] in SIZABLE:
            vs += [rnd(x['ty'], r, n) for n in ((127, 128, 255, 256, 257, 4095, 4096, 4097) if x['ty']['c'] in ('str', 'vec') else (63, 255, 256, 257))]
            if x['ty']['c'] == 'str' or x['name'] == 'vec<i32>':
                vs += [rnd(x['ty'], r, n) for n in (65535, 65536, 65537, 262144 + 1)]
        for j, v in enumerate(vs):
            s = Script(f'{x["name"]}#{j}').mk(1, t, v).op('gs', 1).op('se', 1, 1).op('su', 1, 2).op('dm', 2, 2, t).op('sn', 1, 3).op('wf', 1, 1)
            s.op('ns', 1, kinds_of(x, j)[0]).op('ws', 1, 1).op('ws', 1, 1).op('rs', 1, 3, t).op('rt', 1, 3, t).op('rf', 1, 4, t).op('gs', 1).op('gs', 4)
            scripts.append(s)
    for which in (1, 2, 3, 4) + ((5,) if THOROUGH else ()):
        for big in (0, 1):
            if which < 4 or big:
                scripts.append(Script(f'huge {which} {big}').op('hg', which, big))
    decide(ck, exes, scripts, types=types)


def c03(ck):
    types = universe('core+poly', ck.d)
    design(ck, ['mk', 'gs', 'se', 'su', 'fp', 'wf', 'ns', 'ws', 'dm', 'di'], files=1, values=('01',))
    obs = histories(ck, [['mk', 1, 0], ['ns', 1, 0]], ['gs', 'fp', 'se', 'su', 'wf', 'ws'], 6, objs=1, values=('01',), recs=6)
    rds = []
    for w in ('se', 'wf'):
        rds += histories(ck, [['mk', 1, 0], [w, 1, 1]], ['dm', 'du', 'di', 'gs'] if w == 'se' else ['rf', 'ri', 'gs'], 5, values=('01',))
    exes, _ = build_store(ck, types, flags=['-DWITH_STREAMS', '-DWITH_FOOTPRINT'])
    r = random.Random(SEED)
    r.shuffle(obs)
    r.shuffle(rds)
    scripts, k = [], 0
    for x in types:
        t = x['id']
        fp = not has_poly(x['ty'])
        for j, v in enumerate(pick(x, r, 8)):
            for _ in range(3):
                k += 1
                h = [o for o in obs[k % len(obs)] if fp or o[0] != 'fp']
                scripts.append(hist_script(f'{x["name"]}#{j} observe {k}', h, t, [v], kinds=kinds_of(x, k)))
            for _ in range(2):
                k += 1
                scripts.append(hist_script(f'{x["name"]}#{j} read {k}', rds[k % len(rds)], t, [v]))
            # results are independent of each other and of the image
            v2 = x['vals'][(j + 1) % len(x['vals'])]
            s = Script(f'{x["name"]}#{j} independent').mk(1, t, v).op('se', 1, 1).op('dm', 1, 2, t).op('dm', 1, 3, t).mk(4, t, v2).op('se', 4, 2)
            if not has_poly(x['ty']) or overlay_ok(v, v2):
                s.op('di', 2, 2, t)
            s.op('gs', 3).op('rm', 2).op('gs', 3).op('dm', 1, 5, t).op('rm', 3).op('gs', 5).op('gs', 1).op('se', 1, 1)
            scripts.append(s)
        for j, v in enumerate(large(x, r)):
            s = Script(f'{x["name"]} large {j}').mk(1, t, v).op('gs', 1)
            if fp:
                s.op('fp', 1, 0)
            s.op('se', 1, 1).op('su', 1, 2).op('ns', 1, 0).op('ws', 1, 1).op('wf', 1, 1).op('se', 1, 3).op('gs', 1)
            for img in (1, 2):
                s.op('dm', img, 2, t).op('du', img, 3, t).op('dm', img, 4, t).op('di', img, 2, t).op('du', img, 5, t)
            s.op('rf', 1, 2, t).op('rf', 1, 3, t).op('ri', 1, 3, t).op('rf', 1, 4, t).op('se', 4, 4)
            scripts.append(s)
    ck.extra['histories'] = len(obs) + len(rds)
    decide(ck, exes, scripts, types=types)


def c04(ck):
    types = universe('core+poly', ck.d)
    design(ck, ['mk', 'se', 'su', 'wf', 'ns', 'ws', 'cp', 'dm', 'rf', 'rs'], values=('01',))
    hs = []
    for w in ('se', 'su', 'wf', 'ws'):
        for rd in (['dm', 'di'], ['rf', 'ri'], ['rs', 'rt']):
            place = {'d': 'm', 'f': 'f', 'i': 'f'}.get(rd[0][0] if rd[0][0] == 'd' else rd[0][1], 's')
            cps = ['cp' + y + z for y in 'mfs' for z in 'mfs']
            hs += histories(ck, [['mk', 1, 0], ['mk', 2, 0], ['ns', 1, 0], ['ns', 2, 0], [w, 1, 1]], cps + rd, 7, strms=2, imgs=2, files=2, values=('01',))

    def useful(h):
        # the last read goes through a place filled by a copy
        last = h[-1]
        place = {'d': 'm', 'r': 'f'}.get(last[0][0])
        if last[0] in ('rs', 'rt'):
            place = 's'
        return last[0][0] in 'dr' and any(o[0].startswith('cp') and o[0][3] == place and o[2] == last[1] for o in h)
    hs = [h for h in hs if useful(h)]
    exes, _ = build_store(ck, types)
    r = random.Random(SEED)
    r.shuffle(hs)
    scripts, k = [], 0
    for x in types:
        t = x['id']
        vs = pick(x, r, 8)
        for j, v in enumerate(vs):
            ks = kinds_of(x, j)[0]
            s = Script(f'{x["name"]}#{j} all transports').mk(1, t, v).op('se', 1, 1).op('su', 1, 2).op('sn', 1, 3).op('wf', 1, 1).op('ns', 1, ks).op('ws', 1, 1).op('ns', 2, kinds_of(x, j + 1)[0]).op('ws', 1, 2)
            s.op('dm', 1, 2, t).op('rf', 1, 3, t).op('rs', 1, 4, t)
            scripts.append(s)
            for _ in range(3):
                k += 1
                h = hs[k % len(hs)]
                scripts.append(hist_script(f'{x["name"]}#{j} exchange {k}', h, t, [v, vs[(j + 1) % len(vs)]], kinds=kinds_of(x, k)))
        lv = large(x, r)
        for j, v in enumerate(lv):
            s = Script(f'{x["name"]} large {j}').mk(1, t, v).op('se', 1, 1).op('su', 1, 2).op('wf', 1, 1).op('ns', 1, kinds_of(x, j)[0]).op('ws', 1, 1)
            s.op('dm', 1, 2, t).op('rf', 1, 3, t).op('rs', 1, 4, t)
            scripts.append(s)
            for _ in range(2):
                k += 1
                scripts.append(hist_script(f'{x["name"]} large {j} exchange {k}', hs[k % len(hs)], t, [v, lv[(j + 1) % len(lv)]], kinds=kinds_of(x, k)))
    ck.extra['histories'] = len(hs)
    decide(ck, exes, scripts, types=types)


def c05(ck):
    types = universe('core+poly', ck.d)
    design(ck, ['mk', 'se', 'wf', 'ns', 'ws', 'di', 'ri', 'rt'])
    exes, _ = build_store(ck, types)
    r = random.Random(SEED)
    scripts, k = [], 0
    for x in types:
        t = x['id']
        vs = pick(x, r, 12)
        pairs = [(i, j) for i in range(len(vs)) for j in range(len(vs))]
        for i, j in pairs:
            i2 = (i + j + 1) % len(vs)
            if has_poly(x['ty']) and not (overlay_ok(vs[j], vs[i]) and overlay_ok(vs[i], vs[i2])):
                continue
            k += 1
            s = Script(f'{x["name"]} {i} over {j}').mk(1, t, vs[i]).mk(2, t, vs[j])
            m = k % 3
            if m == 0:
                s.op('se', 1, 1).op('di', 1, 2, t).op('di', 1, 2, t)
            elif m == 1:
                s.op('wf', 1, 1).op('ri', 1, 2, t)
            else:
                s.op('ns', 1, kinds_of(x, k)[0]).op('ws', 1, 1).op('rt', 1, 2, t)
            # and once more over what was just restored
            s.mk(3, t, vs[i2]).op('se', 3, 2).op('di', 2, 2, t)
            scripts.append(s)
        if not has_poly(x['ty']):
            vl = large(x, r)
            for j, v in enumerate(vl):
                for w in (vs[j % len(vs)], vl[(j + 1) % len(vl)]):
                    k += 1
                    s = Script(f'{x["name"]} large {j}').mk(1, t, v).mk(2, t, w).mk(3, t, w).op('se', 1, 1).op('se', 2, 2).op('di', 1, 2, t).op('di', 2, 2, t)
                    if k % 2:
                        s.op('wf', 1, 1).op('ri', 1, 3, t).op('wf', 2, 1).op('ri', 1, 3, t)
                    else:
                        s.op('ns', 1, kinds_of(x, k)[0]).op('ws', 1, 1).op('ws', 2, 1).op('rt', 1, 3, t).op('rt', 1, 3, t)
                    scripts.append(s)
    decide(ck, exes, scripts, types=types)


def c06(ck):
    types = universe('core+poly', ck.d)
    design(ck, ['mk', 'ns', 'ws', 'as', 'ks', 'rs', 'rt'], recs=4)
    hs = [h for h in histories(ck, [['mk', 1, 0], ['mk', 2, 0], ['ns', 1, 0], ['ws', 1, 1]], ['ws', 'as', 'ks', 'rs', 'rt'], 9, recs=4, values=('01',))
          if sum(o[0] in ('rs', 'rt') for o in h) >= 2]
    exes, _ = build_store(ck, types)
    r = random.Random(SEED)
    r.shuffle(hs)
    scripts, k = [], 0
    for x in types:
        t = x['id']
        vs = pick(x, r, 8)
        for j, v in enumerate(vs):
            for _ in range(3 if not THOROUGH else 20):
                k += 1
                scripts.append(hist_script(f'{x["name"]}#{j} history {k}', hs[k % len(hs)], t, [v, vs[(j + 2) % len(vs)]], kinds=kinds_of(x, k)))
            # many records of different values, with unrelated bytes between, then end of stream
            k += 1
            def w(q):
                return v if has_poly(x['ty']) else vs[(j + q) % len(vs)]
            s = Script(f'{x["name"]}#{j} sequence').mk(1, t, v).mk(2, t, w(1)).mk(3, t, w(3)).op('ns', 1, kinds_of(x, k)[0])
            s.op('as', 1, 1 + k % 5).op('ws', 1, 1).op('ws', 2, 1).op('as', 1, 1 + k % 3).op('ws', 3, 1).op('ws', 1, 1)
            s.op('ks', 1, 1 + k % 5).op('rs', 1, 4, t).op('rt', 1, 4, t).op('ks', 1, 1 + k % 3).op('rs', 1, 5, t).op('rs', 1, 6, t).op('rs', 1, 7, t)
            scripts.append(s)
            # the last record is cut short by c bytes
            for c in ([1, 2, 3, 5, 8, 9, 13, 17] if j < 4 else [1, 4, 11]):
                k += 1
                op = 'rs' if k % 2 or has_poly(x['ty']) else 'rt'
                s = Script(f'{x["name"]}#{j} cut {c}').mk(1, t, v).mk(2, t, vs[0]).op('ns', 1, kinds_of(x, k)[0]).op('ws', 2, 1).op('ws', 1, 1)
                s.op('tr', 1, -c, txt='s').op('rs', 1, 3, t).op(op, 1, 2, t)
                scripts.append(s)
        lv = large(x, r)
        for j, v in enumerate(lv):
            k += 1
            s = Script(f'{x["name"]} large {j}').mk(1, t, v).mk(2, t, vs[0]).mk(3, t, lv[(j + 1) % len(lv)]).op('ns', 1, kinds_of(x, k)[0])
            s.op('ws', 1, 1).op('ws', 2, 1).op('as', 1, 2).op('ws', 3, 1).op('ws', 1, 1).op('rs', 1, 4, t).op('rs', 1, 5, t).op('ks', 1, 2)
            s.op('rs' if has_poly(x['ty']) else 'rt', 1, 4, t).op('rs', 1, 5, t).op('rs', 1, 6, t)
            scripts.append(s)
            for c in (1, 9, 40, 300):
                k += 1
                s = Script(f'{x["name"]} large {j} cut {c}').mk(1, t, v).mk(2, t, vs[0]).op('ns', 1, kinds_of(x, k)[0]).op('ws', 2, 1).op('ws', 1, 1)
                s.op('tr', 1, -c, txt='s').op('rs', 1, 3, t).op('rs' if k % 2 or has_poly(x['ty']) else 'rt', 1, 2, t)
                scripts.append(s)
    ck.extra['histories'] = len(hs)
    decide(ck, exes, scripts, types=types)
