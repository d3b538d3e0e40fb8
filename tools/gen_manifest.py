import json
T = 'TLA+ specification checked with TLC; TLC-generated scripts replayed on the real library and the recordings validated against the specification'
NOTE = {
 'C01': ('TLA+ state machine of the API and a TLC-enumerated type/value universe; every case replayed through all transports of the real library, recordings validated by TLC',
         'Bounded: ~420 (quick) / ~750 (thorough) type compositions, all representative values plus random ones, sizes up to 70000 elements; the API state machine is explored exhaustively for two objects, one image, file and stream. Outside the bounds nothing is claimed.'),
 'C02': ('TLA+ state machine (one size per object state) checked with TLC; replay with guard pages and trace validation',
         'Bounded: the type/value universe, sizes around page, 16 bit and 32 bit boundaries (images over 4 GiB included); every access outside a buffer faults in the harness.'),
 'C03': ('TLC-enumerated histories of writing and repeated reading replayed on the real library, recordings validated against the TLA+ state machine',
         'Bounded: all histories of length 4 (thorough 5) of the modelled operations, dealt out over the type universe; images are read-only pages while they are read.'),
 'C04': ('TLC-enumerated write/copy/read paths over memory, file and stream replayed on the real library, recordings validated against the TLA+ state machine',
         'Bounded: all useful paths of the modelled transports, dealt out over the type/value universe.'),
 'C05': ('TLA+ state machine; every ordered pair of representative values per type replayed through the in-place entry points, recordings validated by TLC',
         'Bounded: representative values of ~420 types; larger and random values in the thorough tier.'),
 'C06': ('TLA+ model of a stream as a tape of records; TLC-enumerated histories replayed on six kinds of streams, recordings validated by TLC',
         'Bounded: histories of up to 4 operations, records cut at every length up to a bound, stream buffers delivering piecewise or failing.'),
 'C07': ('TLA+ model of the kernel state behind a file operation, checked with TLC; fault injection at every system call of the real library, recordings validated against it',
         'Bounded: every single and every pair of failing calls (all applicable errno values for single ones), user exceptions at every step; the calls interposed are the ones the library or a reasonable replacement would use.'),
 'C08': ('TLA+ byte-level tape model with kill and cut at any point; every prefix and crash point replayed on the real library, recordings validated by TLC',
         'Bounded: every proper prefix of every image of the universe, kills at every user call and system call of a write; loss of unsynced pages is represented by zero fill only.'),
 'C09': ('TLA+ tape model with reads as any type; all ordered pairs of types replayed on the real library, recordings validated by TLC',
         'Bounded: all ordered pairs of ~700 types; identities are compared for types of one program.'),
 'C10': ('TLA+ tape model with per-pass programs; TLC-enumerated inconsistent and consistent serializers replayed in eight contexts, recordings validated by TLC',
         'Bounded: programs of up to 3 fields over 9 letters; refusal is claimed only where sizes differ whatever the framing (DESIGN 4).'),
 'C11': ('TLA+ model of object lives (class, levels, visits); forests of polymorphic values replayed, recordings validated by TLC',
         'Bounded: five hierarchies, 43 types, up to six forests each, all transports and in place over the same classes.'),
 'C12': ('TLA+ model of object creation; all combinations of constructors in ~40 contexts replayed, recordings validated by TLC',
         'Bounded: 36 element classes (over-aligned ones included) x contexts (quick: a rotating share; thorough: all).'),
 'C13': ('TLA+ model of object and block lives; failures injected at every step of the real library, recordings validated by TLC',
         'Bounded: 150 types, exceptions at (quick: chosen, thorough: all) steps, truncated sources, wrong types. Constructors that throw are outside the statement.'),
 'C14': ('TLA+ specification of what a traversal may consult and see; every part of every type intercepted in turn, recordings validated by TLC',
         'Bounded: the type/value universe; padding bytes are left out of the byte comparison.'),
 'C15': ('TLA+ definition of the footprint over (type, value), with sizeof as input; every reported footprint validated by TLC',
         'Bounded: ~420 (thorough ~750) types, representative and random values, five offsets. Variants and vector<bool> are outside the statement.'),
 'C16': ('TLA+ product of independent operations; TLC-enumerated schedules, nestings and failure histories imposed on the real library, recordings validated by TLC',
         'Bounded: two or three threads, up to 3 (thorough 4) switches at user calls and allocations, nesting depth 2, plus free-running rounds that no schedule controls.'),
 'C17': ('TLA+ model of registration across translation units, checked with TLC for every link and first-use order; the same orders imposed on real programs, recordings validated by TLC',
         'Bounded: four units, all 24 link orders in two configurations, histories of two first uses (quick: 1500; thorough: all).'),
 'C18': ('TLA+ model of visits and byte copies per pass; recordings of the real library validated by TLC',
         'Bounded: 60 classes of every strategy in all contexts, values of up to three elements per container.'),
 'C19': ('TLA+ model of views, layouts, host mirrors and hash maps, checked with TLC; TLC-generated types, layouts, strides, values and map histories taken through the real Kokkos code of the library, recordings validated by TLC',
         'Bounded: ranks up to 7, ~200 types, ~9800 values, Kokkos 4.3 and 4.5. Kokkos is not installed: a stand-in written for this purpose (harness/kokkos) takes its place.'),
 'C20': ('TLA+ model of the classification of classes, checked with TLC over every order of declarations; classes generated from it are compiled against the real library and recordings validated by TLC',
         'Quick: all classes with up to three declarations and a seventh of the rest; thorough: all 5184 classes of the modelled declarations; both build configurations.'),
}
DEFAULT = 'Bounded: the type universe, values, histories and faults enumerated by the specification within the constants given in DESIGN.md; both build configurations; every recording of the real code is validated by TLC.'
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import WHERE
NA = {}
checks = [{'property': p, 'quick_cmd': f'python3 tools/check.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 tools/check.py {p}',
           'technique': NOTE.get(p, (T, DEFAULT))[0], 'level': 'model_checking', 'level_note': NOTE.get(p, (T, DEFAULT))[1]} for p in sorted(WHERE)]
allp = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
na = [{'property': p, 'reason': NA.get(p, 'check not built yet')} for p in allp if p not in WHERE]
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
