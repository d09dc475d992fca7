"""Write fpmon/sizes.json and MANIFEST.json."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

TRUST = ['CPython 3.12, the bronx package and the operating system are trusted',
         'only the situations the property specifies are judged: see "Left unspecified" in DESIGN.md']
MODEL = ['the reference model (fpmon/model.py), written from the documentation, is right on the generated declarations']

# property: (quick cases, thorough cases, rule, required events, assumptions, technique, level note)
S = dict(
    P01=(18000, 150000,
         'random classes (1-5 attributes over 18 kinds of types, values/outcast/remap/default/alias/access, inheritance) and descriptions; '
         'objects obtained by every entry point are read back; non-trivial: an object has been created',
         ['objects-observed', 'values-restricted', 'outcast-restricted', 'unset-optionals', 'weak-attributes', 'weak-target-gone', 'inherited-declarations'],
         TRUST, 'runtime monitor on live objects: type/range/completeness assertions on every attribute of every object created by random workloads',
         'each object observed is checked against the declaration given by the user, not against the library'),
    P02=(14000, 90000,
         'random worlds of 1-5 classes, a random setup and descriptions biased towards acceptance; non-trivial: a class accepts the description, or rejects it for a definite reason',
         ['candidates-compared', 'classes-accepting', 'classes-rejecting'], TRUST + MODEL,
         'runtime monitor: answers of find_all/couldbe on generated worlds compared with an independent resolution model',
         'if-and-only-if oracle: a missing or an extra candidate is an alarm'),
    P03=(18000, 150000,
         'one attribute or several, given by name, alias, configured default, class default (plain or computed) or not at all, in any mix; '
         'non-trivial: the origins of the values of a description have been judged',
         ['source:name', 'source:alias', 'source:setup', 'source:default', 'source:unset', 'provider-evaluations'], TRUST,
         'runtime monitor: origin of every resolved value identified by unique tokens',
         'every value is unique, so the source that was used is identified with certainty'),
    P04=(16000, 120000,
         'random candidates with random levels, changed by histories of level operations and package resets; non-trivial: several candidates were in competition',
         ['choices', 'choices-between-levels', 'choices-on-inputs', 'level-operations', 'package-levels-reset', 'nothing'], TRUST + MODEL,
         'runtime monitor: class selected compared with the ordering computed from a shadow list of levels and the model inputs',
         'ties are left unspecified'),
    P05=(6000, 40000,
         'the same queries with every combination of optimisations (fast tracks, fast mode, fast keys, shared caches) along histories of collector '
         'changes; non-trivial: the query has candidates',
         ['candidates-compared', 'fasttrack-in-use', 'shared-cache', 'op:define', 'op:discard', 'op:pop', 'op:clear', 'op:fasttrack'], TRUST,
         'differential runtime monitor: optimised answers versus answers of an unoptimised twin',
         'the oracle is the library itself, without optimisation'),
    P06=(12000, 90000,
         'graphs of substitutions (chains, cycles, wide texts, unknown references, members, methods, formats, fallbacks), any declaration order, '
         'hostile texts; non-trivial: the model gives a definite verdict on the graph',
         ['expected:ok', 'expected:cycle', 'expected:unreachable', 'expected:reject', 'values-compared', 'style:chain', 'style:wide'], TRUST + MODEL,
         'runtime monitor: recursive substitution model as oracle, renaming of the attributes, logical step budget for termination',
         'non-termination is decided on the number of jumps and calls executed in the library (sys.monitoring), never on time'),
    P07=(12000, 70000,
         'class hierarchies (none to three parents, diamonds, footprints given as dictionaries, objects, lists); non-trivial: a class inherits from at least one declaration',
         ['attributes-compared', 'guards-checked', 'form:dict', 'form:object', 'form:list', 'form:attrlist', 'parents:1', 'parents:2', 'parents:3', 'queries-compared'],
         TRUST, 'runtime monitor: public declarations of every class compared with a merge model, deep snapshots of every ancestor around each definition',
         'isolation is judged by snapshots taken before and after each later definition or mutation'),
    P08=(3200, 20000,
         'histories of queries (find, load, pickup...) on shared state with mutable values, repeated in another order; non-trivial: a query has a non-empty answer, or an object is picked up',
         ['answers-compared', 'states-compared', 'pickups', 'pickups-stored', 'objects-observed'], TRUST,
         'runtime monitor: deep snapshots of descriptions, setup and classes around every call, replayed queries compared',
         'a side effect is any difference between two deep images'),
    P09=(14000, 90000,
         'histories of reads, sets and deletes over several objects of several classes with every access mode; non-trivial: a set or a delete is accepted',
         ['accepted-set', 'accepted-delete', 'refused-set', 'refused-delete', 'refused-value', 'weak-targets', 'strong-targets'], TRUST,
         'runtime monitor: shadow state of every object, compared after every operation',
         'all the objects are read again after every operation on one of them'),
    P10=(14000, 90000,
         'histories of creations, destructions, modifications, searches and default lookups over several collectors; non-trivial: a default lookup reuses a tracked object',
         ['default-loaded', 'default-reused', 'grep-hits', 'objects-dropped', 'objects-observed', 'weak-targets-gone', 'refused-objects'], TRUST,
         'runtime monitor: shadow registry of live objects (weak references) compared with the collectors after every operation',
         'object lifetimes are driven by reference counting and explicit garbage collections'),
    P11=(18000, 120000,
         'chains of clones, copies, deep copies, pickles (every protocol) and views over random objects; non-trivial: an object has been created and put through a chain of operations',
         ['clones-extra', 'clones-refused', 'copies', 'views'], TRUST,
         'runtime monitor: attribute values before and after each round trip, mutation of the copies',
         'values are compared by type and content'),
    P12=(6000, 40000,
         'histories of operations on one or several sets of levels; non-trivial: the order has changed',
         ['states-compared', 'refused', 'restored'], TRUST,
         'runtime monitor: list model stepped along, every public accessor compared after each operation',
         'the model is a list of names'),
    P13=(18000, 120000,
         'descriptions mixing lists, tuples, sets, comma separated texts, ranges, mappings and special containers, nested, in any key order; '
         'non-trivial: not exactly one description is expected',
         ['descriptions-observed', 'no-item'], TRUST,
         'runtime monitor: an independent product model, deep snapshots of the input',
         'the order of the result is judged as well'),
    P14=(30000, 250000,
         'random directories (hostile names) and glob expressions, in a scratch directory of the worker; non-trivial: several files match, or the malformed expression is refused',
         ['descriptions-observed', 'files-matched', 'directories-globbed', 'files-present'], TRUST,
         'runtime monitor: files selected compared with an independent matcher on the names present in a scratch directory',
         'files are created in a temporary directory removed afterwards'),
    P15=(14000, 90000,
         'failing and successful queries at every report level and style on worlds sharing attributes; non-trivial: a failed query is explained',
         ['failures-explained', 'classes-explained', 'reason-missing', 'reason-outside', 'reason-outcast', 'reason-reclass', 'reason-subclass',
          'reason-notfound', 'reason-notmatch', 'reason-invalid', 'printed-reports', 'silent'], TRUST + MODEL,
         'runtime monitor: last report compared, class by class and attribute by attribute, with the reasons of the resolution model',
         'the reason reported for a class must be the actual one; completeness of the classes is judged'),
    P16=(16000, 120000,
         'histories of additions, clears, reductions and rendering requests, valid or misplaced; non-trivial: at least three reasons are logged, or real queries are logged',
         ['logs-observed', 'op:clear', 'op:reduce', 'op:refused', 'op:collector', 'op:candidate', 'op:attribute'], TRUST,
         'runtime monitor: event-log model; dictionary, XML, flat, factorised and printed renderings parsed and compared with it',
         'each rendering is parsed independently'),
    P17=(30000, 250000,
         'random contents (nested, hash collisions, insertion histories) of the special containers; non-trivial: the content has several items, or is a pattern',
         ['hashes-compared', 'items-observed', 'kept-whole', 'attributes-observed', 'regex-observed', 'unhashable', 'hash-after-changes'], TRUST,
         'runtime monitor: algebraic laws (equality, hash, copies, pickles, expansion) asserted on generated containers, several hash seeds',
         'each worker process uses its own PYTHONHASHSEED'),
    P18=(9000, 60000,
         'histories of class definitions (valid or refused in eleven ways), removals, level changes and filters; non-trivial: at least three classes are defined and one is registered',
         ['defined', 'defined-abstract', 'refused', 'abstract-refused', 'removed', 'registries-observed', 'proxies-observed', 'filter-package', 'filter-flag',
          'filter-higher', 'filter-lower'], TRUST,
         'runtime monitor: shadow registry compared with every collector, filter and proxy after each operation',
         'judged through the public collectors and proxies'),
    P19=(16000, 120000,
         'classes with rules about attributes or configured defaults (equality, after, before, patterns), inherited or not; non-trivial: the rules of a class are decisive',
         ['only-ok', 'only-only', 'inherited-rules', 'queries'], TRUST + MODEL,
         'runtime monitor: candidates compared with a direct evaluation of the rules',
         'comparisons between incomparable types are left unspecified'),
    P20=(12000, 80000,
         'random declarations, documentation modes, visibility histories and inventories; non-trivial: a detailed documentation has been generated',
         ['sphinx-documentation', 'raw-documentation', 'attributes-documented', 'class-inventories', 'inventory-map', 'inventory-show', 'inventory-keys',
          'values-inventoried', 'answers-compared', 'visibility-before', 'visibility-up'], TRUST,
         'runtime monitor: generated documentation and printed inventories parsed and compared with the declarations given',
         'the rendering of single values is delegated to the bronx dumper'),
    P21=(18000, 120000,
         'histories over several named setups, collectors, proxies and logs; non-trivial: a query has been answered under the current setup',
         ['setups-observed', 'collectors-observed', 'logs-observed', 'names-observed', 'queries-answered', 'queries-reported', 'objects-observed'], TRUST + MODEL,
         'runtime monitor: shadow state of every named object, identities and contents compared after each operation',
         'queries are judged by the resolution model under the shadow setup'),
    P22=(5000, 20000,
         'histories of queries, loads, constructions, clones, sets and class definitions during which the user code that is called (conversions, comparisons, '
         'computed defaults, methods, callbacks, constructors, class methods, decorators) raises some error, runs a query or a garbage collection at its n-th call; '
         'non-trivial: the chosen call has been reached',
         ['errors-propagated', 'nested-queries', 'nested-same-collector', 'nested-reports', 'definitions-refused', 'reports-observed', 'answers-compared',
          'error-at-convert', 'error-at-callback', 'error-at-provider', 'error-at-compare', 'error-at-method', 'error-at-ownmethod', 'error-at-str', 'error-at-init', 'error-at-riseup',
          'error-at-decorator', 'error-at-weight', 'error-at-reusable', 'nested-at-convert', 'nested-at-callback', 'nested-at-init'], TRUST,
         'fault injection in the user code called by the library, with runtime monitoring: deep snapshots of the state, replayed queries compared with their '
         'answers before the fault',
         'the reference is the answer of the library itself when nothing fails'),
    P23=(8000, 60000,
         'random footprint objects, with or without decorators, combined, listed and inherited; class bodies with methods, short names and kinds; '
         'non-trivial: a class has been decorated',
         ['decorated', 'decorated-parent', 'short-names', 'objects-observed', 'decorators-refused'], TRUST,
         'runtime monitor: log of the decorators applied, members of every class compared with what its body asks for',
         'decorators record the class they are given and its state at that time'),
)

NOTE = ('Every case drives the real library (imported from /repo/src) and is judged by an oracle independent of it; the evidence lists the events, '
        'cases, hash seeds and library lines observed. Exploration of sampled histories, not a proof: ')


def main():
    props = [json.loads(x)['id'] for x in open(os.path.join(VERIF, 'properties.jsonl'))]
    sizes = dict()
    checks = list()
    for p in props:
        quick, thorough, rule, required, assume, technique, note = S[p]
        sizes[p] = dict(quick=quick, thorough=thorough, rule=rule, required=required, assumptions=assume)
        checks.append(dict(property=p, quick_cmd='python3 fpmon/run.py {} quick'.format(p),
                           thorough_cmd='python3 fpmon/run.py {} thorough'.format(p), evidence_file='evidence/{}.json'.format(p),
                           technique=technique, level='exploration', level_note=NOTE + note + '.'))
    with open(os.path.join(VERIF, 'fpmon', 'sizes.json'), 'w') as f:
        json.dump(sizes, f, indent=1)
        f.write('\n')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(
            version=1, setup_cmd='python3 fpmon/run.py --selftest',
            checks=checks, not_applicable=[],
            notes='No hook is needed in /repo: the monitors observe public results and sys.monitoring events. DESIGN.md describes the properties, oracles and bounds.'),
            f, indent=1)
        f.write('\n')


main()
