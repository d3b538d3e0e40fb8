"""C07: file operations with failing system calls and user exceptions (spec/IOFile.tla)."""
from storelib import *
from checks_image import WRAPS

EIO, ENOSPC, EOPNOTSUPP, EDQUOT, ENOMEM = 5, 28, 95, 122, 12
# every other reason a call may give (an interrupted call may be repeated: not a failure)
OTHERS = (1, 2, 9, 13, 16, 17, 19, 20, 21, 22, 23, 24, 26, 27, 29, 30, 32, 36, 38, 39, 40, 75, 112, 116)


def c07(ck):
    for f in ('TRUE', 'FALSE'):
        m = tlc('IOFileModel', f'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\n HasFallocate = {f}\n MaxOps = 3\n MaxFails = {3 if THOROUGH else 2}\nINVARIANTS Honest NoLeak\n', ck.d)
        if not m.ok:
            raise HarnessError('the design model fails\n' + m.out[-4000:])
        ck.model(m, f'IOFileModel HasFallocate={f}')
    ctx = [x for x in contexts() if x['name'] in ('Prog', 'vec<Prog>', 'ProgPoly', 'map<i32,Prog>', 'opt<vec<ptr<Prog>>>')]
    big = {'id': 500, 'ty': T('pair', T('str'), PROG), 'name': 'pair<str,Prog>', 'n': 1}
    big['cpp'] = cpp(big['ty'])
    r = random.Random(SEED)
    big['vals'] = [N('tup', 0, '', [rnd(T('str'), r, 9000), progval(PROG, Counter())]), N('tup', 0, '', [rnd(T('str'), r, 5), progval(PROG, Counter(70))])]
    # images of exactly one and two pages
    page = dict(big, id=501, vals=[N('tup', 0, '', [rnd(T('str'), r, 4096 - 200 + d), progval(PROG, Counter())]) for d in range(0, 200, 1 if THOROUGH else 4)])
    types = ctx + [big, page]
    flags = ['-DWITH_IOWRAP']
    b = Build(ck.d, flags=flags, pch='progops.h')
    cfgs = ('ec', 'rel')
    b.compile_pch(cfgs)
    srcs = codegen([x for x in types if x is not page], ck.d, 2, prefix='ctx', inc='progops.h')
    p = ck.d + '/page.cpp'
    open(p, 'w').write(f'#include "progops.h"\nusing namespace vt;\nstatic RegisterType rp(501, new Ops<{big["cpp"]}>);\n')
    objs = {c: [b.obj(s, c) for s, _ in srcs] + [b.obj(p, c)] + [b.obj(HARN + '/' + m, c) for m in ('store.cpp', 'iowrap.cpp')] for c in cfgs}
    libs = {c: b.lib(c) for c in cfgs}
    b.run()
    os.makedirs(ck.d + '/nofeat')
    b2 = Build(ck.d + '/nofeat', flags=flags, funcs=())
    lib2 = {c: b2.lib(c) for c in cfgs}
    b2.run()
    wl = ['-Wl,' + ','.join('--wrap=' + w for w in WRAPS)]
    exes = {}
    for c in cfgs:
        exes[c] = b.link(f'store_{c}', objs[c] + libs[c], wl)
        exes[c + '_plain'] = b.link(f'store_{c}_plain', objs[c] + lib2[c], wl)
    head = [f'PV {x["id"]} {text(x["vals"][-1])}' for x in types]
    scripts = []

    def case(x, tag, older, wr, rds=()):
        """older: what the file holds before; wr: (pass, step, fails); rds likewise."""
        t = x['id']
        s = Script(f'{x["name"]} {tag}, older {older}').mk(1, t, x['vals'][0]).op('se', 1, 1).mk(2, t, x['vals'][1]).op('se', 2, 2)
        if older == 1:
            s.op('iw', 2, 1, txt='-1 -1')
        if older == 2:
            s.mk(3, 500, big['vals'][0]).op('se', 3, 3).op('iw', 3, 1, txt='-1 -1')
        pas, step, fl = wr
        s.op('iw', 1, 1, txt=f'{pas} {step} ' + ' '.join(f'{k} {e}' for k, e in fl))
        for i, (pas, step, fl) in enumerate(rds):
            s.op('ir', 1, i % 2, txt=f'{t} {pas} {step} ' + ' '.join(f'{k} {e}' for k, e in fl))
        # afterwards everything works
        s.op('iw', 2, 1, txt='-1 -1').op('ir', 1, 0, txt=f'{t} -1 -1').op('ir', 1, 1, txt=f'{t} -1 -1')
        scripts.append(s)
        return s
    W = 10   # more than the number of calls a write makes
    for x in ctx + [big]:
        for older in range(3):
            case(x, 'healthy', older, (-1, -1, []), [(-1, -1, [])] * 2)
            for k in range(W):
                for e in (EIO, ENOSPC, EOPNOTSUPP, EDQUOT):
                    case(x, f'write: call {k} fails with {e}', older, (-1, -1, [(k, e)]))
                for k2 in range(k + 1, W):
                    case(x, f'write: calls {k}, {k2} fail', older, (-1, -1, [(k, r.choice([EIO, EOPNOTSUPP])), (k2, r.choice([EIO, ENOSPC]))]))
            if x in (ctx[0], big):
                for k in range(W):
                    for e in OTHERS:
                        case(x, f'write: call {k} fails with {e}', older, (-1, -1, [(k, e)]))
            for pas in (0, 1):
                for step in range(2 * x['n']):
                    case(x, f'write: user code throws in pass {pas} step {step}', older, (pas, step, []))
                    if pas == 1:
                        for k in range(4, W):
                            case(x, f'write: user code throws at {step}, call {k} fails', older, (1, step, [(k, EIO)]))
        for k in range(6):
            for e in (EIO, ENOMEM) + (OTHERS if x in (ctx[0], big) else ()):
                case(x, f'read: call {k} fails with {e}', 0, (-1, -1, []), [(-1, -1, [(k, e)])] * 2)
            for k2 in range(k + 1, 6):
                case(x, f'read: calls {k}, {k2} fail', 0, (-1, -1, []), [(-1, -1, [(k, EIO), (k2, EIO)])] * 2)
        for step in range(2 * x['n']):
            case(x, f'read: user code throws at {step}', 0, (-1, -1, []), [(2, step, [])] * 2)
            for k in range(3, 6):
                case(x, f'read: user code throws at {step}, call {k} fails', 0, (-1, -1, []), [(2, step, [(k, EIO)])] * 2)
        # real failures: no such directory, no such file, not a file of the library
        t = x['id']
        s = Script(f'{x["name"]} missing directory and file').mk(1, t, x['vals'][0]).op('se', 1, 1).op('iw', 1, 9, txt='-1 -1').op('ir', 9, 0, txt=f'{t} -1 -1').op('ir', 9, 1, txt=f'{t} -1 -1')
        s.op('ir', 2, 0, txt=f'{t} -1 -1').op('iw', 1, 2, txt='-1 -1').op('ir', 2, 0, txt=f'{t} -1 -1')
        scripts.append(s)
        # inconsistent serializers leave nothing open either
        for v in range(x['n']):
            for P_ in ('c', 'cec', 'eeeeeeeeee'):
                s = Script(f'{x["name"]} visit {v} writes {P_}').mk(1, t, x['vals'][0]).op('se', 1, 1)
                s.op('pg', v, 0, txt=f'ce {P_} ce').op('iw', 1, 1, txt='-1 -1').op('pg', -1, 0, txt='- - -').op('iw', 1, 1, txt='-1 -1').op('ir', 1, 0, txt=f'{t} -1 -1')
                s.threw = True
                scripts.append(s)
    for j, v in enumerate(page['vals']):
        s = Script(f'page sized {j}').mk(1, 501, v).op('se', 1, 1).op('iw', 1, 1, txt='-1 -1').op('ir', 1, 0, txt='501 -1 -1')
        scripts.append(s)
    decide(ck, exes, scripts, types=types, head=head, spec='IOFileTrace', cfg='INIT TraceInit\nNEXT TraceNext\nVIEW View\nCHECK_DEADLOCK TRUE\n', free=True)
