"""C20: classes declared in every way (spec/Traits.tla)."""
from storelib import *

BC = {'': '', 'mem': 'using isByteCopyable = std::true_type;', 'memF': 'using isByteCopyable = std::false_type;', 'memD': 'using isByteCopyable = tt::D;', 'inh': '', 'ni': '', 'sp': ''}
COPY = ('mem', 'memD', 'inh', 'ni', 'sp')


def works(c):
    return (c['ser'] or c['bc'] in COPY) and (c['dfl'] == 'yes' or c['tag'] == 'yes' or c['rec'] in ('mem', 'free', 'spec'))


def klass(n, c):
    """(text of the class, text in namespace checkpoint)"""
    T, pub, priv, after, ns = f'T{n}', [], [], [], []
    pub.append(BC[c['bc']])
    pub.append(f'explicit {T}(tt::Usr) {{}} explicit {T}(tt::Rct) {{ tt::logs[3].push_back("rec"); }} {T}({T} const&) = default;')
    d = {'yes': pub, 'priv': priv, 'no': None}
    if d[c['dfl']] is not None:
        d[c['dfl']].append(f'{T}() {{ tt::logs[3].push_back("def"); }}')
    if d[c['tag']] is not None:
        d[c['tag']].append(f'explicit {T}(checkpoint::SERIALIZE_CONSTRUCT_TAG) {{ tt::logs[3].push_back("tag"); }}')
    if c['ser'] == 'mem':
        pub.append('template <typename S> void serialize(S& s) { tt::call(s, "ser"); s | x; }')
    if c['ser'] == 'free':
        after.append(f'template <typename S> void serialize(S& s, {T}& t) {{ tt::call(s, "free"); s | t.x; }}')
    if c['ser'] == 'mac':
        ns.append(f'CHECKPOINT_BYTES(tc::{T})')
    if c['split'] in ('parent', 'both'):
        pub.append('template <typename S> void serializeParent(S& s) { tt::call(s, "par"); s | p; }')
    if c['split'] in ('this', 'both'):
        pub.append('template <typename S> void serializeThis(S& s) { tt::call(s, "this"); s | q; }')
    if c['rec'] == 'mem':
        pub.append(f'static {T}& reconstruct(void* b) {{ return *new (b) {T}(tt::Rct{{}}); }}')
    if c['rec'] == 'memV':
        pub.append(f'static void reconstruct(void* b) {{ new (b) {T}(tt::Rct{{}}); }}')
    if c['rec'] == 'memP':
        pub.append(f'static {T}* reconstruct(void* b) {{ return new (b) {T}(tt::Rct{{}}); }}')
    if c['rec'] == 'free':
        after.append(f'inline void reconstruct({T}*& t, void* b) {{ t = new (b) {T}(tt::Rct{{}}); }}')
    if c['rec'] == 'spec':
        ns.append(f'namespace checkpoint {{ template <> struct CheckpointReconstructor<tc::{T}> {{ static void reconstruct(tc::{T}*& t, void* b) {{ t = new (b) tc::{T}(tt::Rct{{}}); }} }}; }}')
    if c['bc'] == 'ni':
        ns.append(f'namespace checkpoint {{ template <> struct ByteCopyNonIntrusive<tc::{T}> {{ using isByteCopyable = std::true_type; }}; }}')
    if c['bc'] == 'sp':
        ns.append(f'namespace checkpoint {{ template <> struct isByteCopyable<tc::{T}> : std::true_type {{}}; }}')
    base = 'tt::Data' + (', checkpoint::SerdesByteCopy' if c['bc'] == 'inh' else '')
    return f'namespace tc {{ struct {T} : {base} {{ {" ".join(pub)} private: {" ".join(priv)} }}; {" ".join(after)} }} {" ".join(ns)}'


def design(ck):
    cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxDecl = %d Flaw = "%s"\nINVARIANTS Agrees Sound\nPROPERTY Monotone\n'
    r = tlc('TraitsModel', cfg % (6, ''), ck.d, workers=2)
    if not r.ok:
        raise HarnessError('the design model fails\n' + r.out[-4000:])
    ck.model(r, 'TraitsModel (every order of declarations)')
    for f in ('bytes', 'order'):
        r = tlc('TraitsModel', cfg % (3, f), ck.d, workers=2)
        if not r.violated:
            raise HarnessError(f'the specification accepts the flawed selection {f}\n' + r.out[-3000:])
    ck.extra['flawed_algorithms_rejected'] = 2


def c20(ck):
    d = ck.d
    design(ck)
    r = tlc('GenTraits', f'INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxDecl = {6 if THOROUGH else 3}\n Share = {1 if THOROUGH else 7}\n Seed = {SEED}\n', d, workers=1, env={'OUTFILE': d + '/gen.json'})
    if not os.path.exists(d + '/gen.json'):
        raise HarnessError('GenTraits failed\n' + r.out[-3000:])
    gen = json.load(open(d + '/gen.json'))
    cases = gen['classes']
    cfgs = ('ec', 'rel')
    b = Build(d, pch='traits.h')
    b.compile_pch(cfgs)
    per, units = 60, []
    for i in range(0, len(cases), per):
        t, use = ['#include "traits.h"'], []
        for n, c in list(enumerate(cases))[i:i + per]:
            t.append(klass(n, c))
            use.append(f'tt::is<tc::T{n}>(f, {n});' + (f' tt::trip<tc::T{n}>(f, {n});' if works(c) else ''))
        u = len(units)
        t.append(f'void unit{u}(std::FILE* f) {{ {" ".join(use)} }}')
        open(f'{d}/u{u}.cpp', 'w').write('\n'.join(t) + '\n')
        units.append(f'{d}/u{u}.cpp')
    with open(d + '/main.cpp', 'w') as f:
        f.write('#include "traits.h"\nnamespace tt { std::vector<std::string> logs[4]; }\n' + ''.join(f'void unit{u}(std::FILE*);\n' for u in range(len(units))))
        f.write('int main(int c, char** v) { std::FILE* f = std::fopen(v[1], "w"); if (!f) return 97;\n' + ''.join(f'unit{u}(f); std::fflush(f);\n' for u in range(len(units))) + 'std::fclose(f); std::puts("DONE"); }\n')
    objs = {c: [b.obj(s, c) for s in units + [d + '/main.cpp']] + b.lib(c) for c in cfgs}
    bad = b.run(fatal=False)
    if bad:
        # what works according to the specification has to compile
        if any('/u' not in o.replace(d, '') and 'u' != os.path.basename(o).split('_')[1][0] for o, _ in bad):
            raise HarnessError('compilation failed: ' + bad[0][0] + '\n' + bad[0][1][-5000:])
        single(ck, b, cases, bad[0])
        return
    traces, where, seen = [], [], set()
    for c in cfgs:
        exe = b.link(f'traits_{c}', objs[c])
        out = f'{d}/out_{c}'
        r = sh([exe, out], timeout=300)
        evs = {}
        for line in open(out):
            n, e = line.split(' ', 1)
            evs.setdefault(int(n), []).append(json.loads(e))
        if r.returncode or 'DONE' not in r.stdout:
            n = max(evs) if evs else 0
            log(f'[{ck.prop}] the program died (rc={r.returncode}) at or after case {n}: {cases[n]}')
            evs.setdefault(n, []).append({'e': 'crash'})
        for n, x in enumerate(cases):
            if n not in evs and r.returncode:
                continue
            t = {'c': x, 'ev': evs.get(n, [])}
            ck.traces += 1
            h = json.dumps([n, t['ev']])
            if h not in seen:
                seen.add(h)
                traces.append(t)
                where.append((c, n))
    rej, r = validate(d, 'TraitsTrace', 'INIT TraceInit\nNEXT TraceNext\nVIEW View\nCHECK_DEADLOCK TRUE\n', traces, 'trace')
    ck.states += r.distinct
    ck.transitions += r.generated
    ck.extra.update(classes=len(gen['classes']), used=sum(bool(works(c)) for c in cases))
    ck.samples += traces[:: max(1, len(traces) // 3)][:3]
    if rej is not None:
        t, l = rej
        log(f'[{ck.prop}] rejected: config={where[t][0]} {traces[t]["c"]} event {l}: {json.dumps(traces[t]["ev"][l:l + 1])}')
        ck.violation({'property': ck.prop, 'config': where[t][0], 'declares': traces[t]['c'], 'event': l, 'observed': traces[t]['ev'], 'specification': 'TraitsTrace', 'class': klass(where[t][1], traces[t]['c'])})


def single(ck, b, cases, bad):
    """Which class of a unit does not compile?"""
    u = int(re.search(r'_u(\d+)\.cpp', bad[0]).group(1))
    for n, c in list(enumerate(cases))[u * 60:u * 60 + 60]:
        for what in ('is', 'trip') if works(c) else ('is',):
            f = f'{ck.d}/one.cpp'
            open(f, 'w').write('#include "traits.h"\n' + klass(n, c) + f'\nvoid one(std::FILE* f) {{ tt::{what}<tc::T{n}>(f, {n}); }}\n')
            cfg = os.path.basename(bad[0]).split('_')[0]
            b.obj(f, cfg)
            r = b.run(fatal=False)
            if r and what == 'trip':
                log(f'[{ck.prop}] rejected: config={cfg} does not compile: {c}')
                ck.violation({'property': ck.prop, 'config': cfg, 'declares': c, 'class': klass(n, c), 'observed': r[0][1][-4000:], 'specification': 'Works'})
                return
            if r:
                raise HarnessError('compilation failed: ' + str(c) + '\n' + r[0][1][-5000:])
    raise HarnessError('compilation failed: ' + bad[0] + '\n' + bad[1][-5000:])
