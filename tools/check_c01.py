"""C01: round trips of the whole type universe through every transport."""
from storelib import *


def values(x, r):
    vs = list(x['vals'])
    if THOROUGH:
        sizes = [0, 1, 2, 3, 5, 8, 33, 100, 255, 256, 257]
        vs += [rnd(x['ty'], r, s) for s in sizes for _ in range(2)]
    else:
        vs += [rnd(x['ty'], r, s) for s in (0, 1, 3, 7)]
    return vs


def c01(ck):
    types = universe('deep' if THOROUGH else 'quick', ck.d)
    r = random.Random(SEED)
    exes, lost = build_store(ck, types, flags=['-DWITH_STREAMS', '-DNO_OWN_STREAM'], per=7)
    scripts = []
    for x in types:
        for j, v in enumerate(values(x, r)):
            t = x['id']
            s = Script(f'{x["name"]}#{j}').mk(1, t, v)
            s.op('se', 1, 1).op('dm', 1, 2, t)
            s.op('su', 1, 2).op('du', 2, 3, t)
            k = j % 3
            if k == 0 or THOROUGH:
                s.op('wf', 1, 1).op('rf', 1, 4, t)
            if k == 1 or THOROUGH:
                s.op('ns', 1, (j // 3) % 2).op('ws', 1, 1).op('rs', 1, 5, t)
            if k == 2 or THOROUGH:
                s.op('sr', 1, 6)
            if j % 4 == 0:   # a restored object restores again
                s.op('se', 2, 4).op('dm', 4, 7, t)
            scripts.append(s)
        big = [63, 64, 65, 255, 256, 257, 1000] if not THOROUGH else [63, 64, 65, 255, 256, 257, 1000, 4095, 65535, 65536, 65537, 70000, 1 << 18]
        if x['ty']['c'] == 'str' or x['ty']['a'] == [I32] and x['ty']['c'] in SIZABLE:
            big += [65535, 70000]
        if x['ty']['c'][0] == 'u':
            big = [n for n in big if n < 5000]     # the hash of the universe has seven values
        if x['ty']['c'] in SIZABLE and x['ty']['c'] != 'str' and all(a['c'] in WIDTH for a in x['ty']['a']) or x['ty']['c'] == 'str':
            for n in big:
                t = x['id']
                s = Script(f'{x["name"]}#size{n}').mk(1, t, rnd(x['ty'], r, n)).op('se', 1, 1).op('dm', 1, 2, t).op('wf', 1, 1).op('rf', 1, 4, t).op('ns', 1, 0).op('ws', 1, 1).op('rs', 1, 5, t)
                scripts.append(s)
    skip = {(c, x['id']) for c, x in lost}
    if lost:
        c, x = lost[0]
        log(f'[C01] type {x["name"]} can no longer be serialized (config {c})')
        ck.violation({'property': 'C01', 'config': c, 'type': x['name'], 'what': 'the type does not compile any more'})
        return
    ck.extra['types'] = len(types)
    ck.extra['scripts'] = len(scripts)
    decide(ck, exes, scripts, types=types)
