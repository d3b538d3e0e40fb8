"""C08, C09, C10: what is refused. Design: spec/Tape.tla; recordings: Store.tla / Asym."""
from storelib import *

TAPE_INV = 'SizeExact RoundTrip TornRejected OtherRejected MismatchRefused NoOverrun MisreadRefused NeverRejected'


def tape(check, victims, progs=2, letters=('a', 'b', 'c')):
    for ec in ('TRUE', 'FALSE'):
        r = tlc('Tape', f'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n EC = {ec}\n Letters = {_set(letters)}\n MaxProg = {progs}\n Victims = {"TRUE" if victims else "FALSE"}\nINVARIANTS {TAPE_INV}\n', check.d)
        if not r.ok:
            raise HarnessError('the design model fails\n' + r.out[-4000:])
        check.model(r, f'Tape EC={ec} Victims={victims} MaxProg={progs}')


from storelib import _set


LIGHT = '''#include "ops.h"
#include "light.h"
'''


def light_types(d, first, n, per=75):
    srcs, types = [], []
    for i in range(0, n, per):
        p = f'{d}/light{i}.cpp'
        with open(p, 'w') as f:
            f.write(LIGHT)
            f.write(f'static vt::RegisterLights<{first + i}, {min(per, n - i)}> r;\n')
        srcs.append(p)
    for i in range(n):
        types.append({'id': first + i, 'name': f'Lt<{first + i}>', 'ty': {'c': 'Lt', 'a': []}, 'vals': [N('tup', 0, '', [N('b', 0, '%02x000000' % (i % 251))])]})
    return srcs, types


def c09(ck):
    tape(ck, False)
    types = universe('core+poly', ck.d)
    nlight = 2000 if THOROUGH else 600
    b = Build(ck.d, flags=['-DWITH_STREAMS'], pch='ops.h')
    cfgs = ('ec', 'rel')
    b.compile_pch(cfgs)
    srcs = codegen(types, ck.d, 7)
    lsrcs, lights = light_types(ck.d, len(types) + 1, nlight)
    objs = {c: [b.obj(s, c) for s, _ in srcs] + [b.obj(s, c) for s in lsrcs] + [b.obj(HARN + '/store.cpp', c)] + b.lib(c) for c in cfgs}
    b.run()
    exes = {c: b.link(f'store_{c}', objs[c]) for c in cfgs}
    ncore, nall = len(types), len(types) + nlight
    proto = {x['id']: x['vals'][-1] for x in types + lights}
    head = [f'PV {i} {text(v)}' for i, v in proto.items()]
    scripts = []
    r = random.Random(SEED)
    for x in types:
        t = x['id']
        v = x['vals'][-1] if has_poly(x['ty']) else r.choice(x['vals'])
        s = Script(f'{x["name"]} as every type').mk(1, t, v).op('se', 1, 1).op('wf', 1, 1).op('ns', 1, 0).op('ws', 1, 1)
        for ip in (0, 1):
            s.op('mx', 1, ip, txt=f'm 1 {nall}', more=(1, nall))
            s.op('mx', 1, ip, txt=f'f 1 {ncore}', more=(1, ncore))
            s.op('mx', 1, ip, txt=f's 1 {ncore}', more=(1, ncore))
        s.op('dm', 1, 2, t).op('rf', 1, 3, t).op('rs', 1, 4, t).op('se', 2, 2).op('dm', 2, 5, t)
        scripts.append(s)
        # the beginning of the image is damaged
        for pos, hx in ((0, '00000000'), (0, 'ffffffff'), (0, 'ac'), (1, 'ff'), (2, 'ff'), (3, 'df'), (0, '7f454c46'), (3, '00')):
            s = Script(f'{x["name"]} spoiled at {pos} with {hx}').mk(1, t, v).op('se', 1, 1).op('jb', 1, pos, txt=hx)
            for how in 'mfs':
                if how == 'f':
                    s.op('ns', 1, 0).op('wf', 1, 1).op('cp', 1, 1, txt='m f')
                if how == 's':
                    s.op('cp', 1, 1, txt='m s')
                for ip in (0, 1):
                    s.op('mx', 1, ip, txt=f'{how} {t} {t}', more=(t, t))
            s.mk(2, t, v).op('se', 2, 2).op('dm', 2, 3, t)
            scripts.append(s)
    for x in lights:
        t = x['id']
        s = Script(f'{x["name"]} as every type').mk(1, t, x['vals'][0]).op('se', 1, 1).op('mx', 1, 0, txt=f'm 1 {nall}', more=(1, nall)).op('mx', 1, 1, txt=f'm 1 {nall}', more=(1, nall))
        s.op('dm', 1, 2, t)
        scripts.append(s)
    # nothing of an image at all, or only the start of one, read as another type
    for i, x in enumerate(types):
        y = types[(i * 7 + 3) % ncore]
        s = Script(f'{x["name"]} cut, read as {y["name"]}').mk(1, x['id'], x['vals'][0]).op('se', 1, 1).op('wf', 1, 1).op('ns', 1, 0).op('ws', 1, 1)
        for how in 'fs':
            for ip in (0, 1):
                s.op('tn', 1, ip, txt=f'{how} {y["id"]} 0', more=(y['id'],))
        scripts.append(s)
    ck.extra['types'] = nall
    ck.extra['type_pairs'] = nall * nall
    decide(ck, exes, scripts, types=types, head=head)


WRAPS = ['open', 'open64', 'openat', 'creat', 'close', 'fallocate', 'fallocate64', 'posix_fallocate', 'posix_fallocate64', 'ftruncate', 'ftruncate64',
         'fsync', 'fdatasync', 'mmap', 'mmap64', 'msync', 'munmap', 'fstat', 'fstat64', 'stat', 'write', 'pwrite', 'read', 'rename', 'unlink']


def c08(ck):
    tape(ck, False)
    types = universe('core+poly', ck.d)
    ctx = contexts()
    for x in ctx:
        x['id'] += 1000
    flags = ['-DWITH_STREAMS', '-DWITH_IOWRAP']
    b = Build(ck.d, flags=flags, pch='progops.h')
    cfgs = ('ec', 'rel')
    b.compile_pch(cfgs)
    srcs = codegen(types, ck.d, 7) + codegen(ctx, ck.d, 4, prefix='ctx', inc='progops.h')
    os.makedirs(ck.d + '/nofeat')
    b2 = Build(ck.d + '/nofeat', flags=flags, funcs=())
    objs = {c: [b.obj(s, c) for s, _ in srcs] + [b.obj(HARN + '/' + m, c) for m in ('store.cpp', 'iowrap.cpp')] for c in cfgs}
    libs = {c: b.lib(c) for c in cfgs}
    b.run()
    lib2 = {c: b2.lib(c) for c in cfgs}
    b2.run()
    wl = ['-Wl,' + ','.join('--wrap=' + w for w in WRAPS)]
    exes = {c: b.link(f'store_{c}', objs[c] + libs[c], wl) for c in cfgs}
    exes2 = {c + '_plain': b.link(f'store_{c}_plain', objs[c] + lib2[c], wl) for c in cfgs}
    r = random.Random(SEED)
    head, scripts, killed = [], [], []
    for x in types:
        t = x['id']
        vs = x['vals'][:8] + [rnd(x['ty'], r, 6)]
        if THOROUGH:
            vs += [rnd(x['ty'], r, n) for n in (1, 2, 3, 9, 20)]
        for j, v in enumerate(vs):
            s = Script(f'{x["name"]}#{j} cut short').mk(1, t, v).op('se', 1, 1).op('wf', 1, 1).op('ns', 1, 0).op('ws', 1, 1)
            for how in 'fs':
                for zero in (0, 1):
                    # in place only over what was written (the dynamic types are the caller's duty)
                    for ip in ((0, 1) if j == len(vs) - 1 else (j % 2,)):
                        if ip and has_poly(x['ty']):
                            continue
                        s.op('tn', 1, ip, txt=f'{how} {t} {zero}', more=(t,))
            scripts.append(s)
        head.append(f'PV {t} {text(vs[-1])}')
    for x in ctx:
        t = x['id']
        head.append(f'PV {t} {text(x["vals"][1])}')
        s = Script(f'{x["name"]} cut short').mk(1, t, x['vals'][0]).op('se', 1, 1).op('wf', 1, 1).op('ns', 1, 0).op('ws', 1, 1)
        for how in 'fs':
            for zero in (0, 1):
                for ip in (0, 1):
                    s.op('tn', 1, ip, txt=f'{how} {t} {zero}', more=(t,))
        scripts.append(s)
        # killed at every field of the packing pass and around every file-system call, over no
        # file, an older checkpoint of another value, of the same value, or a longer one
        for older in range(4):
            for step in list(range(-1, 2 * x['n'] + 1)):
                s = Script(f'{x["name"]} killed at step {step}, older file {older}').mk(1, t, x['vals'][0]).op('se', 1, 1).mk(2, t, x['vals'][1]).op('se', 2, 2)
                if older in (1, 2):
                    s.op('kw', 3 - older, 1, txt='-1 -1')
                if older == 3:
                    s.mk(3, ctx[3]['id'], ctx[3]['vals'][0]).op('se', 3, 3).op('kw', 3, 1, txt='-1 -1')
                s.op('kw', 1, 1, txt=f'{step} -1')
                s.op('kr', 1, 0, t).op('kr', 1, 1, t)
                # and the library is able to replace what is left there
                s.op('kw', 2, 1, txt='-1 -1').op('kr', 1, 0, t)
                scripts.append(s)
            if x['name'] in ('vec<Prog>', 'Prog', 'map<i32,Prog>', 'ProgPoly') or THOROUGH:
                for io in range(0, 24):
                    s = Script(f'{x["name"]} killed at file call {io}, older file {older}').mk(1, t, x['vals'][0]).op('se', 1, 1).mk(2, t, x['vals'][1]).op('se', 2, 2)
                    if older in (1, 2):
                        s.op('kw', 3 - older, 1, txt='-1 -1')
                    if older == 3:
                        s.mk(3, ctx[3]['id'], ctx[3]['vals'][0]).op('se', 3, 3).op('kw', 3, 1, txt='-1 -1')
                    s.op('kw', 1, 1, txt=f'-1 {io}').op('kr', 1, 0, t).op('kr', 1, 1, t)
                    scripts.append(s)
                    killed.append(s)
    ck.extra['crash_points'] = sum(o[0] == 'kw' for s in scripts for o in s.ops)
    ck.extra['file_features'] = ['fallocate+mmap64', 'none']
    if decide(ck, exes, scripts, types=types + ctx, head=head):
        decide(ck, exes2, killed, types=types + ctx, head=head)


ASYM_CFG = 'INIT TraceInit\nNEXT TraceNext\nVIEW View\nCHECK_DEADLOCK TRUE\n'


def c10(ck):
    tape(ck, True, 2, ('a', 'b', 'c'))
    out = ck.d + '/progs.json'
    r0 = tlc('GenProgs', 'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANT MaxLen = 2\n', ck.d, workers=1, env={'OUTFILE': out})
    if not os.path.exists(out):
        raise HarnessError('program generation failed\n' + r0.out[-3000:])
    progs = sorted(''.join(p) for p in json.load(open(out)))
    ctx = contexts()
    flags = ['-DWITH_STREAMS', '-DWITH_CANARY']
    b = Build(ck.d, flags=flags, pch='progops.h')
    cfgs = ('ec', 'rel')
    b.compile_pch(cfgs)
    srcs = codegen(ctx, ck.d, 3, prefix='ctx', inc='progops.h')
    objs = {c: [b.obj(s, c) for s, _ in srcs] + [b.obj(HARN + '/store.cpp', c)] + b.lib(c) for c in cfgs}
    b.run()
    exes = {c: b.link(f'store_{c}', objs[c]) for c in cfgs}
    r = random.Random(SEED)
    longer = [''.join(r.choice('abcdefh23') for _ in range(r.choice([3, 4, 5]))) for _ in range(60)]
    pairs = [(s, p) for s in progs for p in progs if s != p]
    near = [(p, p[:i] + p[i + 1:]) for p in longer for i in range(len(p))] + [(p, p[:i] + x + p[i:]) for p in longer[:20] for i in range(len(p) + 1) for x in 'ae']
    ec_only = []
    scripts = []
    P = lambda x: x or '-'

    def prog(s, victim, S, Pk, U):
        return s.op('pg', victim, 0, txt=f'{P(S)} {P(Pk)} {P(U)}', more=(list(S), list(Pk), list(U)))
    for ci, x in enumerate(ctx):
        t, v = x['id'], x['vals'][0]
        def kind():
            ks = (0, 1, 3) if has_poly(x['ty']) else (0, 1, 2, 3)
            return r.choice(ks)
        full = ci in (0, 3) or THOROUGH
        some = pairs if THOROUGH and ci == 0 else r.sample(pairs, 1200 if full else 120)
        some = some + (near if full else r.sample(near, 40))
        for S, Pk in some:
            for victim in ([r.randrange(x['n'])] if not THOROUGH else list(range(x['n'])) + [-2]):
                # sized one way, written another
                s = Script(f'{x["name"]} visit {victim} sizes {S} writes {Pk}').mk(1, t, v)
                prog(s, victim, S, Pk, Pk)
                s.op('gs', 1).op('se', 1, 1).op('su', 1, 2).op('wf', 1, 1).op('ns', 1, kind()).op('ws', 1, 1)
                # and the library goes on working
                prog(s, -1, '', '', '')
                s.op('se', 1, 3).op('dm', 3, 2, t)
                scripts.append(s)
                # written one way, read back another
                s = Script(f'{x["name"]} visit {victim} writes {S} reads {Pk}').mk(1, t, v)
                prog(s, victim, S, S, Pk)
                s.op('se', 1, 1).op('wf', 1, 1).op('ns', 1, kind()).op('ws', 1, 1).op('ns', 2, kind()).op('ws', 1, 2)
                m = r.randrange(3)
                if m == 0:
                    s.op('dm', 1, 2, t).mk(3, t, x['vals'][1]).op('di', 1, 3, t)
                elif m == 1:
                    s.op('rf', 1, 2, t).mk(3, t, x['vals'][1]).op('ri', 1, 3, t)
                else:
                    s.op('rs', 1, 2, t).mk(3, t, x['vals'][1]).op('rt', 2, 3, t)
                ec_only.append(s)
        # consistent ones, including programs that skip or repeat fields
        for S in progs + longer:
            for victim in (-2, r.randrange(x['n'])):
                s = Script(f'{x["name"]} visit {victim} always {S}').mk(1, t, v)
                prog(s, victim, S, S, S)
                # fields that are not visited keep what the object had; so only compare where they match
                keeps = 'c' in S
                s.op('gs', 1).op('se', 1, 1).op('su', 1, 2).op('wf', 1, 1).op('ns', 1, kind()).op('ws', 1, 1)
                if keeps:
                    s.op('dm', 1, 2, t).op('rf', 1, 3, t).op('rs', 1, 4, t).mk(5, t, x['vals'][1]).op('di', 2, 5, t)
                scripts.append(s)
    ck.extra['programs'] = len(progs) + len(longer)
    if decide(ck, exes, scripts, types=ctx, spec='AsymTrace', cfg=ASYM_CFG, percfg=True):
        decide(ck, {'ec': exes['ec']}, ec_only, types=ctx, spec='AsymTrace', cfg=ASYM_CFG, percfg=True)
