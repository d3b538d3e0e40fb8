"""C17: link orders and first-use orders (spec/Registry.tla)."""
from storelib import *
import itertools

PLAIN = [T('i32'), T('u32'), T('f64'), T('str'), T('vec', T('i32')), T('vec', T('u32')), T('vec', T('str')), T('map', T('i32'), T('str')), T('opt', T('i32')), T('pair', T('i32'), T('str')),
         T('list', T('i32')), T('ptr', T('i32')), T('tup2', T('i32'), T('u32')), T('set', T('i32')), T('deque', T('str')), T('vec', T('vec', T('i32'))), T('arr3', T('i32')), T('i64'), T('u64'), T('Box', T('i32')), T('Box', T('u32'))]
USER = 40           # rg::U<0..2>
LOCAL = 90          # a type of the same name, local to every unit
CPPX = {USER + i: f'rg::U<{i}>' for i in range(3)} | {USER + 3: 'std::vector<rg::U<0>>'}
UNITS = [
    dict(types=[0, 1, 3, 4, 5, 8, 12, 17, 19, 40, 41, 43], A=['A0', 'A1', 'A2'], B=['B0', 'B1'], C=[1, 2, 3, 4], travs=['0', '2'], modes='musf', first=0),
    dict(types=[20, 19, 5, 4, 3, 2, 1, 0, 6, 7, 9, 41, 42], A=['A0', 'A2', 'A3', 'A1'], B=['B2', 'B0'], C=[7, 6, 5, 4, 3], travs=['1', '0'], modes='ms', first=150),
    dict(types=[10, 11, 12, 13, 14, 15, 16, 17, 18, 0, 4, 43, 42], A=['A4', 'A0'], B=['B3', 'B1', 'B0'], C=[10, 7, 8, 9], travs=['1'], modes='mf', first=300),
    dict(types=[18, 9, 7, 3, 1, 0, 20, 16, 6, 2, 40, 42, 15], A=['A3', 'A1', 'A0'], B=['B0', 'B2', 'B3'], C=[12, 1, 11, 10, 9], travs=['2'], modes='mu', first=60)]
COUNT = 1200 if THOROUGH else 300
BIT = {'m': 1, 'u': 2, 's': 4, 'f': 8}
CHAIN = {'A0': ['A0'], 'A1': ['A0', 'A1'], 'A2': ['A0', 'A1', 'A2'], 'A3': ['A0', 'A3'], 'A4': ['A0', 'A1', 'A2', 'A4'], 'B0': ['B0'], 'B1': ['B0', 'B1'], 'B2': ['B0', 'B2'], 'B3': ['B0', 'B1', 'B3']}
CHAIN |= {f'C{i}': ['C0', f'C{i}'] for i in range(1, 13)} | {'C0': ['C0']} | {f'L{u}': ['A0', f'L{u}'] for u in range(4)}


def ctype(t):
    return CPPX.get(t) or ('Local' if t >= LOCAL else cpp(PLAIN[t]))


def classes(u):
    x = UNITS[u]
    return x['A'] + [f'L{u}'] + x['B'] + ['C0'] + [f'C{i}' for i in x['C']]


def closure(u):
    """with the classes they derive from: what a traversal is instantiated for"""
    return sorted({d for c in classes(u) for d in CHAIN[c]})


def cppclass(c):
    return 'L0' if c[0] == 'L' else f'rg::Cn<{c[1:]}>' if c[0] == 'C' and c != 'C0' else 'rg::' + c


def unit(u, d):
    x = UNITS[u]
    r = random.Random(100 + u)
    types = x['types'] + [LOCAL + u]
    mask = sum(BIT[m] for m in x['modes'])
    A = x['A'] + [f'L{u}']
    P = {h: f'std::unique_ptr<rg::{h}0>' for h in 'ABC'}

    def sw(name, ty, h, cls):
        return f'  rg::{h}0* new{h}(std::string const& c) override {{\n' + ''.join(f'    if (c == "{c}") return new {cppclass(c)};\n' for c in cls) + '    exit(97); }\n'
    tys = list(types)
    r.shuffle(tys)
    M = [sw('', '', 'A', A), sw('', '', 'B', x['B']), sw('', '', 'C', ['C0'] + [f'C{i}' for i in x['C']]),
         '  std::uint32_t typeId(int t) override { switch (t) {\n' + ''.join(f'    case {t}: return checkpoint::dispatch::typeregistry::getTypeIdx<{ctype(t)}>();\n' for t in tys) + '    } exit(97); }\n',
         '  std::string typeName(int t) override { switch (t) {\n' + ''.join(f'    case {t}: return checkpoint::dispatch::typeregistry::getTypeName<{ctype(t)}>();\n' for t in reversed(tys)) + '    } exit(97); }\n',
         f'  std::vector<std::uint32_t> many() override {{ std::vector<std::uint32_t> r; manyIds<{x["first"]}>(r, std::make_integer_sequence<int, {COUNT}>()); return r; }}\n',
         '  std::string ser(int t, Node& n) override { switch (t) {\n' + ''.join(f'    case {t}: return serOne<{ctype(t)}>(n);\n' for t in types) + '    } exit(97); }\n',
         '  Node de(int t, char* p) override { switch (t) {\n' + ''.join(f'    case {t}: return deOne<{ctype(t)}>(p);\n' for t in tys) + '    } exit(97); }\n',
         '  int clsIdx(std::string const& c) override {\n' + ''.join(f'    if (c == "{c}") return checkpoint::dispatch::vrt::objregistry::makeObjIdx<{cppclass(c)}>();\n' for c in classes(u)) + '    exit(97); }\n',
         '  std::string pser(char h, char m, Node const& n) override {\n' + ''.join(f'    if (h == \'{h}\') {{ auto p = build<{P[h]}>(n); rg::visits.clear(); return pserOne<{mask}>(m, p); }}\n' for h in r.sample('ABC', 3)) + '    exit(97); }\n',
         '  Node pde(char h, char m, std::string const& i) override {\n' + ''.join(f'    if (h == \'{h}\') {{ auto p = pdeOne<{mask}, {P[h]}>(m, i); return rg::showPtr(p.get()); }}\n' for h in r.sample('ABC', 3)) + '    exit(97); }\n',
         '  Node pin(char h, char m, std::string const& i, Node const& o) override {\n' + ''.join(f'    if (h == \'{h}\') {{ auto p = build<{P[h]}>(o); rg::visits.clear(); pinOne<{mask}>(m, i, p); return rg::showPtr(p.get()); }}\n' for h in r.sample('ABC', 3)) + '    exit(97); }\n',
         '  void inst(int j) override {\n' + ''.join(f'    if (j == {j}) {{ ' + ' '.join(f'checkpoint::instantiateObjSerializer<{cppclass(c)}, rg::Trav<{j}>>();' for c in r.sample(closure(u), len(closure(u)))) + ' return; }\n' for j in x['travs']) + '    exit(97); }\n',
         '  std::string trav(int j, char h, Node const& n) override {\n' + ''.join(f'    if (j == {j} && h == \'{h}\') {{ auto p = build<{P[h]}>(n); rg::visits.clear(); return travOne<{j}>(p); }}\n' for j in x['travs'] for h in 'ABC') + '    exit(97); }\n']
    r.shuffle(M)
    src = f'''#include "reg.h"
namespace {{
using namespace vt;
struct Local {{ {["std::int32_t a = 0;", "std::int64_t a = 0;", "std::int16_t a = 0;", "std::int32_t a = 0;"][u]}
  using vt_is_user = void;
  static Local mk(Node const& n) {{ Local l; l.a = (decltype(l.a))vt::make<std::int32_t>(n.k.at(0)); return l; }}
  void pr(Node& r) const {{ r.k.push_back(vt::proj((std::int32_t)a)); }}
  template <typename S> void serialize(S& s) {{ s | a; }} }};
// the same name in every unit
struct L0 : checkpoint::SerializableDerived<L0, rg::A0> {{
  std::int32_t n = 0; std::array<char, {8 + u // 2 * 8}> pad{{}};
  char const* cname() const override {{ return "L{u}"; }}
  void show(Node& r) const override {{ A0::show(r); r.k.push_back(rg::lv({{vt::proj(n)}})); }}
  void build(Node const& x, rg::TuOps& t) override {{ A0::build(x, t); n = rg::field(x, 1); }}
  template <typename S> void serialize(S& s) {{ rg::visits.push_back({{"L{u}", rg::Name<S>::v}}); {"s | n; s | pad;" if u % 2 else "s | pad; s | n;"} }} }};
struct Impl : rg::TuOps {{
  template <typename P> P build(Node const& n) {{
    P p; if (n.k.empty()) return p;
    auto& o = n.k[0]; {{ rg::Shown* s = nullptr; make(o.v, p); s = p.get(); s->build(o, *this); }} return p; }}
  void make(std::string const& c, std::unique_ptr<rg::A0>& p) {{ p.reset(newA(c)); }}
  void make(std::string const& c, std::unique_ptr<rg::B0>& p) {{ p.reset(newB(c)); }}
  void make(std::string const& c, std::unique_ptr<rg::C0>& p) {{ p.reset(newC(c)); }}
''' + ''.join(M) + f'''}};
}}
rg::TuOps* tu_{u}() {{ static Impl i; return &i; }}
'''
    p = f'{d}/tu_{u}.cpp'
    open(p, 'w').write(src)
    return p


def b32(x):
    return N('b', 0, (x & 0xffffffff).to_bytes(4, 'little').hex())


class Case:
    def __init__(self, order, tag, seed):
        self.order, self.tag, self.r = order, tag, random.Random(seed)
        self.ops, self.lines, self.slot, self.cov, self.img = [], [], 0, set(), {}

    def op(self, e, tu, t=0, s=0, j=0, h='', m='', val=None, line=''):
        self.ops.append([e, tu, t, s, j, h, m, val or N('')])
        self.lines.append(f'{e} {tu} {line}'.rstrip() + (' ' + text(val) if val else ''))

    # ---- values
    def num(self, small=False):
        return b32(self.r.choice([0, 1, 7, 100, 126]) if small else self.r.choice([0, 1, 77, 100]))

    def poly(self, h, u, depth=2, cls=None):
        """a value of hierarchy h unit u can build"""
        x = UNITS[u]
        opts = (x['A'] + [f'L{u}']) if h == 'A' else x['B'] if h == 'B' else ['C0'] + [f'C{i}' for i in x['C']]
        c = cls or self.r.choice(opts + [None])
        if c is None:
            return N('ptr')
        lv = []
        for k in CHAIN[c]:
            f = [self.num()]
            if k == 'A1':
                f.append(self.poly('B', u, depth - 1) if depth > 0 else N('ptr'))
            if k == 'B1':
                f.append(self.poly('A', u, depth - 1) if depth > 0 else N('ptr'))
            lv.append(N('lv', 0, '', f))
        return N('ptr', 0, '', [N('po', 0, c, lv)])

    def again(self, v):
        """another value with the same classes"""
        v = dict(v)
        if v['t'] == 'b':
            return self.num()
        v['k'] = [self.again(x) for x in v['k']]
        return v

    def plain(self, t):
        if t < USER:
            return rnd(PLAIN[t], self.r, self.r.choice([0, 1, 2]))
        if t == USER + 3:
            k = [self.plain(USER) for _ in range(self.r.choice([0, 1, 2]))]
            return N('vec', len(k), '', k)
        return N('tup', 0, '', [self.num()] + ([N('str', 1, '7a')] if t < LOCAL else []))

    # ---- uses
    def use(self, u):
        if u[0] == 'p':
            _, h, m, a, b = u
            self.slot += 1
            v = self.poly(h, a)
            if not v['k']:
                v = self.poly(h, a)
            self.op('ps', a, s=self.slot, h=h, m=m, val=v, line=f'{h} {m} {self.slot}')
            rm = 'm' if m == 'u' else m
            mine = set(x['v'] for x in walk(v) if x['t'] == 'po') <= set(classes(b))
            if rm != 'f' and mine and self.r.random() < .4:
                self.op('pi', b, s=self.slot, h=h, m=rm, val=self.again(v), line=f'{h} {rm} {self.slot}')
            else:
                self.op('pd', b, s=self.slot, h=h, m=rm, line=f'{h} {rm} {self.slot}')
        elif u[0] == 'x':
            _, t, a, b = u
            self.slot += 1
            self.op('ser', a, t=t, s=self.slot, val=self.plain(t), line=f'{t} {self.slot}')
            self.img[self.slot] = t
            self.op('de', b, t=t, s=self.slot, line=f'{t} {self.slot}')
        elif u[0] == 't':
            _, j, h, a = u
            v = self.poly(h, a)
            if (j, a) not in self.cov:
                # another unit that also knows the traversal may have instantiated it
                self.op('in', a, j=int(j), line=j)
                self.cov.add((j, a))
            self.op('tr', a, j=int(j), h=h, val=v, line=f'{j} {h}')
        elif u[0] == 'wrong':       # the image of a value of one type, read as another type
            _, s, t, b = u
            self.op('de', b, t=t, s=s, line=f'{t} {s}')
        elif u[0] == 'id':
            self.op('id', u[2], t=u[1], line=str(u[1]))
        elif u[0] == 'many':
            self.op('many', u[1])
        elif u[0] == 'cls':
            self.op('cls', u[1], line=u[2])
        return self


def walk(v):
    yield v
    for x in v['k']:
        yield from walk(x)


def events(evs):
    return [{k: e[k] for k in ('e', 'tu', 't', 's', 'j', 'h', 'm', 'out', 'id', 'nm', 'd', 'ids', 'vis', 'val')} if 'e' in e else
            {'e': 'crash', 'tu': 0, 't': 0, 's': 0, 'j': 0, 'h': '', 'm': '', 'out': e['out'], 'id': '', 'nm': e['what'], 'd': '', 'ids': [], 'vis': [], 'val': N('')} for e in evs]


FLAWS = ('samepos', 'nolink', 'nextlink', 'linkonce', 'name', 'unitcounter', 'perunit')


def model(ck, flaw=''):
    return tlc('RegistryModel', f'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT Flaw = "{flaw}"\nINVARIANTS RightSerializer SameIdentity Distinct\n', ck.d, workers=2)


def c17(ck):
    ex = ThreadPoolExecutor(2)
    base = ex.submit(model, ck)
    flawed = [(f, ex.submit(model, ck, f)) for f in FLAWS]
    cfgs = ('ec', 'rel')
    b = Build(ck.d, flags=['-fPIC'])
    objs = {c: [b.obj(unit(u, ck.d), c) for u in range(4)] + [b.obj(HARN + '/reg.cpp', c)] + b.lib(c) for c in cfgs}
    # the traces need the table of what the units know
    table = f'{ck.d}/table.json'
    json.dump({'chain': CHAIN, 'units': [{'classes': closure(u), 'first': x['first'], 'count': COUNT, 'travs': x['travs'], 'modes': list(x['modes'])} for u, x in enumerate(UNITS)]}, open(table, 'w'))
    fgen = ex.submit(tlc, 'GenReg', f'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANT MaxLen = 2\n', ck.d, workers=1, env={'TABLEFILE': table, 'OUTFILE': f'{ck.d}/gen.json'})
    b.run()
    gen = fgen.result()
    if not os.path.exists(f'{ck.d}/gen.json'):
        raise HarnessError('generation failed\n' + gen.out[-3000:])
    data = json.load(open(f'{ck.d}/gen.json'))
    orders = sorted(tuple(x) for x in data['orders'])
    hist = sorted(data['hist'], key=str)
    r = random.Random(SEED)
    r.shuffle(hist)
    if not THOROUGH:
        hist = hist[:1500]
    links = [(c, o, 'exe') for c in cfgs for o in orders]
    # some of the units in a shared library, linked before or after the others
    links += [(c, o, 'so') for c in cfgs for o in (orders if THOROUGH else orders[3::7])]

    def link(x):
        c, o, how = x
        name = f'reg_{c}_{"".join(map(str, o))}_{how}'
        tus = [objs[c][i - 1] for i in o]
        if how == 'exe':
            return b.link(name, tus + objs[c][4:])
        b.link(f'lib{name}.so', tus[:2], ['-shared'])
        return b.link(name, tus[2:] + objs[c][4:] + [f'{ck.d}/lib{name}.so'], ['-rdynamic', f'-Wl,-rpath,{ck.d}', '-Wl,--no-as-needed'])
    with ThreadPoolExecutor(JOBS) as e2:
        exes = dict(zip(links, e2.map(link, links)))
    # ------------------------------------------------ cases
    uses = sorted({json.dumps(u) for h in hist for u in h})
    uses = [json.loads(u) for u in uses]
    xs = [['x', t, a, b2] for a in range(4) for b2 in range(4) for t in UNITS[a]['types'] if t in UNITS[b2]['types']]
    xs += [['x', LOCAL + a, a, a] for a in range(4)]
    cases = []
    for i, x in enumerate(links):
        part = hist[i::len(links)]
        for n, h in enumerate(part):
            k = Case(x, f'history {h}', SEED * 7919 + i * 1000 + n)
            for u in h:
                k.use(u)
            cases.append(k)
        for n in range(6 if THOROUGH else 2):
            k = Case(x, 'random history', SEED * 104729 + i * 100 + n)
            pool = [['many', u] for u in range(4)] + [['id', t, u] for u in range(4) for t in UNITS[u]['types'] + [LOCAL + u]] + [['cls', u, c] for u in range(4) for c in classes(u)]
            if n % 2 == 0:
                for u in k.r.sample(pool, len(pool)):
                    k.use(u)
            else:
                for u in k.r.sample(pool, 20) + k.r.sample(uses, 10) + k.r.sample(xs, 14):
                    k.use(u)
                hdr = list(range(len(k.ops)))
            for _ in range(12):
                k.use(k.r.choice(k.r.choice([uses, xs, xs])))
            if x[0] == 'ec':
                for s, t in list(k.img.items()):
                    u = k.r.randrange(4)
                    t2 = k.r.choice([y for y in UNITS[u]['types'] + [LOCAL + u] if y != t])
                    k.use(['wrong', s, t2, u])
            cases.append(k)
    # ------------------------------------------------ run
    by = {}
    for i, k in enumerate(cases):
        by.setdefault(k.order, []).append((i, k))
    res = {}
    with ThreadPoolExecutor(JOBS) as e2:
        for x in e2.map(lambda o: run_cases(ck.d, exes[o], by[o], os.path.basename(exes[o]), shards=1), list(by)):
            res.update(x)
    traces, where = [], []
    for i, k in enumerate(cases):
        ev = res.get(i, [])
        if ev is None:
            continue
        traces.append({'cfg': k.order[0], 'ops': k.ops, 'ev': events(ev)})
        where.append(i)
    cfg = 'INIT TraceInit\nNEXT TraceNext\nVIEW View\nCHECK_DEADLOCK TRUE\nCONSTANT Chain <- ChainDef\n'
    t0 = time.time()
    rej, tr = validate(ck.d, 'RegistryTrace', cfg, traces, 'trace', env={'TABLEFILE': table})
    ck.traces += len(traces)
    ck.states += tr.distinct
    ck.transitions += tr.generated
    ck.extra.update(trace_validation_s=round(time.time() - t0, 1), events=sum(len(t['ev']) for t in traces), link_orders=len(links), histories_generated=len(data['hist']), histories_run=len(hist))
    for k in cases[:: len(cases) // 3][:3]:
        ck.samples.append({'link': str(k.order), 'case': k.tag, 'script': [y[:160] for y in k.lines[:12]]})
    m = base.result()
    if not m.ok:
        raise HarnessError('the design model fails\n' + m.out[-4000:])
    ck.model(m, 'RegistryModel')
    for f, x in flawed:
        if not x.result().violated:
            raise HarnessError(f'the flawed design {f} is not rejected\n' + x.result().out[-3000:])
    ck.extra['flawed_designs_rejected'] = list(FLAWS)
    ck.assumptions += ['uses happen after static initialization is complete', 'a user traversal is instantiated for the classes it meets (as documented) before it is applied to them',
                       'units given to the linker as objects, or half of them in a shared library with default visibility']
    if rej is None:
        return

    def again(t):
        i = where[t]
        e = run_cases(ck.d, exes[cases[i].order], [(i, cases[i])], 'confirm', shards=1)
        return {'cfg': cases[i].order[0], 'ops': cases[i].ops, 'ev': events(e.get(i) or [])}
    t, ev, l = confirm(ck, rej, traces, again, lambda ts: validate(ck.d, 'RegistryTrace', cfg, ts, 'confirm', env={'TABLEFILE': table})[0])
    if t is None:
        return
    k = cases[where[t]]
    bad = ev[l] if l < len(ev) else {'e': 'missing event'}
    log(f'[C17] rejected: {k.order} {k.tag} step {l}: {k.lines[l] if l < len(k.lines) else "end"}\n   observed: {json.dumps(bad)[:700]}')
    ck.violation({'property': 'C17', 'link': k.order, 'case': k.tag, 'script': k.lines, 'step': l, 'observed': bad, 'specification': 'RegistryTrace', 'events': ev})
