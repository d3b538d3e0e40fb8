"""C15: the exact footprint formula over the type universe."""
from storelib import *


def c15(ck):
    types = universe('footdeep' if THOROUGH else 'foot', ck.d)
    # sizes of all types involved, from the compiler
    sub = {}

    def add(t):
        n = tname(t)
        if n in sub:
            return n
        args = [add(x) for x in t['a']]
        sub[n] = {'ty': t, 'args': args, 'cpp': cpp(t)}
        if t['c'] in ('map', 'mapG', 'mmap', 'umap', 'ummap'):
            p = {'c': 'pair', 'a': t['a']}
            args.append(add(p))
        return n
    for x in types:
        add(x['ty'])
    for t in ({'c': 'vec', 'a': [{'c': 'i16', 'a': []}]}, {'c': 'str', 'a': []}):
        add(t)
    with open(ck.d + '/sizes.cpp', 'w') as f:
        f.write('#include "fpops.h"\nusing namespace vt;\nint main() {\n')
        for n, x in sub.items():
            f.write(f'printf("%s %zu\\n", "{n}", sizeof({x["cpp"]}));\n')
        f.write('printf("void* %zu\\nptr %zu\\natomic %zu\\nthread %zu\\n", sizeof(void*), sizeof(std::unique_ptr<PolyBase>), sizeof(std::atomic<int>), sizeof(std::thread)); }\n')
    b = Build(ck.d, pch='fpops.h', flags=['-DNO_SER', '-DWITH_FOOTPRINT', '-DVT_FULLCAP'])
    cfgs = ('ec', 'rel')
    b.compile_pch(cfgs)
    srcs = codegen(types, ck.d, 20)
    objs = {c: [b.obj(s, c) for s, _ in srcs] + [b.obj(HARN + '/store.cpp', c)] for c in cfgs}
    for c in cfgs:
        libs = b.lib(c)
        objs[c] += libs
    so = b.obj(ck.d + '/sizes.cpp', 'rel')
    b.run()
    exes = {c: b.link(f'store_{c}', objs[c]) for c in cfgs}
    sizes = dict((a, int(n)) for a, n in (l.rsplit(' ', 1) for l in sh([b.link('sizes', [so] + libs)]).stdout.split('\n') if l))
    table = {n: {'ty': x['ty'], 'args': x['args'], 'size': sizes[n], 'inner': {'atom': sizes['atomic'], 'thr': sizes['thread'], 'file': sizes['void*'], 'vptr': sizes['void*']}.get(n, 0)} for n, x in sub.items()}
    for n in ('void*', 'ptr'):
        table[n] = {'ty': {'c': n, 'a': []}, 'args': [], 'size': sizes[n], 'inner': 0}
    json.dump(table, open(ck.d + '/table.json', 'w'))
    json.dump([x['name'] for x in types], open(ck.d + '/ids.json', 'w'))
    r = random.Random(SEED)
    scripts, k = [], 0
    for x in types:
        vs = list(x['vals'])
        try:
            vs += [rnd(x['ty'], r, s) for s in (1, 6, 11)]
        except KeyError:
            pass
        for j, v in enumerate(vs):
            if nodes(v) > 100:
                continue
            k += 1
            s = Script(f'{x["name"]}#{j}').mk(1, x['id'], v).op('fp', 1, 0).op('fp', 1, [1, 24, 1000, 65536, 1 << 20][k % 5])
            scripts.append(s)
    env = {'TYPEFILE': ck.d + '/table.json', 'IDFILE': ck.d + '/ids.json'}
    decide(ck, exes, scripts, types=types, spec='FootprintTrace', cfg='INIT TraceInit\nNEXT TraceNext\nVIEW View\nCHECK_DEADLOCK TRUE\n', env=env)
