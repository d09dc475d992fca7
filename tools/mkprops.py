#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of truth for property texts)."""
import json, os
S = 'src/footprints/'
INIT, COLL, UTIL, PRIO, ACC, STD, REP, CONF, DOC, PROX = [S + x for x in (
    '__init__.py', 'collectors.py', 'util.py', 'priorities.py', 'access.py', 'stdtypes.py',
    'reporting.py', 'config.py', 'doc.py', 'proxies.py')]
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if observe:
        a['observe_at'] = [observe]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


prop('P01', 'Every object produced conforms to the footprint its class declares',
     "Any object obtained from a description (by loading, picking up, default lookup or direct construction) carries "
     "exactly the attributes its class declares, and each attribute that has a value holds one of the declared type (or a "
     "subclass of it, for class-valued attributes), belonging to the declared allowed values when there are some, and not "
     "among the excluded values. An optional attribute that nothing provides reads as None; a mandatory attribute never "
     "does, and no attribute ever holds the text 'None'.",
     ['inputs', 'programs', 'configurations'],
     'for every set of declared classes, every description, every setup (defaults, extras, fast mode, report level)',
     'conformance must hold for every combination of declared types, ranges, conversions, substitutions and sources; the '
     'tests sample a few hand-written classes',
     [INIT], [('attribute resolution', INIT + ':Footprint.resolve'), ('candidate test', INIT + ':FootprintBase.footprint_couldbe'),
              ('construction', INIT + ':FootprintBase.__init__')],
     'attributes read on the returned object')

prop('P02', 'The candidates for a description are exactly the classes that accept it',
     "A query considers every registered concrete class, and a class is a candidate if and only if each of its attributes "
     "gets a value (optional ones may go without) that, once passed through the declared remapping chain and converted to "
     "the declared type (with the declared conversion arguments), is allowed and not excluded, allowed and excluded values "
     "being themselves read in the attribute's type; keys no class declares are ignored. Each candidate comes with exactly "
     "those converted values, and when there is no candidate the query answers with nothing instead of failing.",
     ['inputs', 'programs'],
     'for every set of classes (types, ranges, exclusions, remaps, conversion arguments, optional/mandatory mixes) and every description',
     'acceptance is an if-and-only-if over the product of declarations and descriptions; the tests check a handful of pairs',
     [INIT, COLL], [('resolution loop', INIT + ':Footprint.resolve'), ('membership', INIT + ':Footprint.in_values'),
                    ('declaration of ranges', INIT + ':Footprint.__init__'), ('candidate search', COLL + ':Collector.find_all')],
     'find_all / find_any / load results')

prop('P03', 'Attribute values come from the right source, in a fixed order of precedence',
     "The value of an attribute is taken from the description under the attribute's own name, otherwise from the description "
     "under one of its aliases, otherwise from the configured defaults (names there are case-insensitive), otherwise, for an "
     "optional attribute, from the default its class declares (computed at resolution time when that default is a value "
     "provider). An explicit None for an optional attribute counts as not given, and the attributes reported as fed by the "
     "query are exactly those whose value came from the description or the configured defaults.",
     ['inputs', 'configurations'],
     'for every combination of sources present or absent, None values, aliases, letter case of configured defaults and class defaults',
     'the precedence must hold for every combination of sources of every attribute, not for the one or two tested',
     [INIT, CONF], [('first guess', INIT + ':Footprint._firstguess'), ('defaults', CONF + ':FootprintSetup.defaults')],
     'values and input sets returned by find_all, attribute values of loaded objects')

prop('P04', 'The best candidate is selected by priority, then by number of inputs fed',
     "Loading from a description returns an instance of a candidate whose priority level is the highest in the current order "
     "of levels, and, among candidates of that level, one that used the largest number of inputs; it returns nothing if and "
     "only if there is no candidate. Changes made to the order of levels, or to the level of the classes of a package, take "
     "effect on the very next query.",
     ['histories', 'inputs', 'programs'],
     'for every set of candidates with arbitrary levels and input counts, after every history of priority reordering, insertion, freeze/restore and package level resets',
     'depends on the interplay of mutable priority order, class levels and input counts over arbitrary histories',
     [COLL, INIT, PRIO], [('selection', COLL + ':Collector.find_best'), ('weight', INIT + ':FootprintBase.footprint_weight'),
                          ('order of levels', PRIO + ':PrioritySet'), ('package levels', COLL + ':Collector.reset_package_level')],
     'class of the object returned by load/pickup')

prop('P05', 'Speed and diagnostic settings never change the outcome of a query',
     "For queries that complete without error, the candidates, the values they resolve to and the selected class (ties aside) are the same "
     "whatever the fast-track attributes of the collector, the fast mode and fast keys, the report level and style, and "
     "whether or not a resolution cache is shared between queries. This remains true after any sequence of class "
     "registrations, removals (one by one, by package, flag or level, popped or cleared) and fast-track changes.",
     ['configurations', 'histories', 'inputs'],
     'for every setting of those knobs and every history of registration/removal, on every description',
     'requires comparing the same query under many configurations after arbitrary histories; tests use one configuration',
     [COLL, INIT], [('fast-track index', COLL + ':Collector._upd_fasttrack_index'), ('fast-track lookup', COLL + ':Collector._fasttrack_subsetting'),
                    ('fast exit', INIT + ':Footprint.resolve'), ('shared cache', COLL + ':ResolveCache'), ('on-error report rerun', COLL + ':Collector.find_all')],
     'find_all, find_best, load results')

prop('P06', 'Substitutions are resolved exactly, in any order, and always terminate',
     "Each bracketed reference inside a text value is replaced by the final value of the attribute it names, or else by the "
     "extra parameter of that name (extra configuration values, attributes of objects found in the description, unused "
     "description entries, configured defaults), honouring member access, method calls, format and fallback text, whatever "
     "characters the inserted value contains and however many attributes or levels of acyclic reference there are. The result "
     "does not depend on attribute names or declaration order. A reference to something unknown, or a circular reference, "
     "ends with the dedicated error: resolution never loops forever.",
     ['inputs', 'programs'],
     'for every graph of references between attributes and extras, every template and every inserted value',
     'the space of reference graphs, orders and inserted texts is unbounded and non-termination is invisible to example tests',
     [INIT, CONF, UTIL], [('replacement engine', INIT + ':Footprint._replacement'), ('member access and calls', INIT + ':Footprint._process_replm'),
                          ('extras', INIT + ':Footprint._findextras'), ('formatting', UTIL + ':FoxyFormatter')],
     'resolved values, raised errors, executed loop iterations')

prop('P07', "A class's footprint is the merge of its parents' and its own declaration",
     "A class has every attribute declared by any of its footprint parents or by itself (as a dictionary, a footprint object or a "
     "list of them), each characteristic being taken from the most specific declaration that gives it (a parent or a footprint object gives them all; own declaration over "
     "parents, earlier parents over later ones, later list items over earlier ones) and 'only' rules, remaps and conversion "
     "arguments accumulating. Declaring, resetting or using a subclass never alters its parents, its siblings or any footprint "
     "object it was built from.",
     ['programs', 'histories'],
     'for every hierarchy (single, multiple, diamond, list-based composition) and every combination of declared characteristics',
     'quantifies over class hierarchies; an aliasing mistake only shows for particular combinations of parents and later mutations',
     [INIT, UTIL], [('merging', INIT + ':FootprintBaseMeta.__new__'), ('footprint composition', INIT + ':Footprint.__init__'), ('dict merge', UTIL + ':dictmerge')],
     'public footprint accessors of every class of the hierarchy before and after each declaration')

prop('P08', "Queries have no side effect on the caller's data, the setup or the classes",
     "Finding candidates leaves the description, the values in it, the configured defaults, the extra values and the class "
     "declarations untouched, so the same queries give the same answers whatever was queried before, in any order. Picking up "
     "an object removes from the description only the attributes and aliases the object consumed (plus underscore options), "
     "stores the object under the collector's name and keeps every other entry; an object already stored under that name is kept as is.",
     ['histories', 'inputs'],
     'for every history of queries, every description (including mutable values and mutable class defaults)',
     'the absence of side effects has to hold over sequences of queries on shared state, which single-shot tests cannot see',
     [INIT, COLL], [('pickup', COLL + ':Collector.pickup_and_cache'), ('clean-up', INIT + ':FootprintBase.footprint_cleanup'),
                    ('resolution', INIT + ':Footprint.resolve')],
     'deep snapshots of descriptions, setup and footprints around every call; answers of replayed queries')

prop('P09', 'Attribute access modes are enforced, object by object',
     "A read-only attribute can neither be set nor deleted, a read-write one can be set but not deleted, and a fully mutable one "
     "can also be deleted; every refused operation raises and leaves the object unchanged. A value set later undergoes the same "
     "conversion and allowed/excluded checks as at creation, a weak attribute does not keep its target alive, and operations on "
     "one object never affect another object, of the same class or not.",
     ['histories', 'inputs'],
     'for every access mode, attribute kind and history of sets/deletes/reads over several objects',
     'a leak between objects or a skipped check needs a specific history over several instances',
     [ACC, INIT], [('descriptors', ACC + ':FootprintAttrDescriptor*'), ('storage', INIT + ':FootprintBase.footprint_setattr'), ('descriptor creation', INIT + ':FootprintBaseMeta.__new__')],
     'attribute reads/writes/deletes on live objects')

prop('P10', 'Live objects are tracked exactly, and reused only when they match',
     "Each collector a class registers in tracks exactly the live objects of that class (created, loaded, cloned or unpickled, until "
     "they are destroyed), without keeping them alive; searching by attribute values returns exactly the tracked objects that have "
     "all these values. A default lookup returns a tracked object only if it is reusable and the description, resolved for its class, "
     "agrees with all its current values; otherwise it behaves as a load.",
     ['histories', 'inputs'],
     'for every history of creation, destruction, modification, search and default lookup over several collectors and classes',
     'tracking is a history property over object lifetimes across collectors',
     [COLL, INIT], [('registration of instances', INIT + ':FootprintBase.footprint_riseup'), ('tracking', COLL + ':Collector.newobsitem'),
                    ('search', COLL + ':Collector.grep'), ('default lookup', COLL + ':Collector.default'), ('compatibility', INIT + ':FootprintBase.footprint_compatible')],
     'collector instances, grep and default results')

prop('P11', 'Clones, copies, pickles and dictionary views preserve attribute values',
     "Cloning an object gives a new object of the same class with the same attribute values except the ones explicitly replaced, "
     "which are validated as usual (a full clone also carries its public plain members); pickling or copying an object and "
     "restoring it, any number of times, preserves every attribute value, including the unset ones (weak attributes can be cloned, not pickled). Dictionary views and exports contain exactly "
     "the attributes with their values, and the deep ones share no mutable value with the object.",
     ['inputs', 'histories'],
     'for every class, attribute values (set, unset, weak, containers) and chain of clone/copy/pickle operations',
     'round trips must be lossless for every value and every chain of operations',
     [INIT, STD, COLL], [('clone', INIT + ':FootprintBase.footprint_clone'), ('pickle', INIT + ':FootprintBase.__getstate__'),
                         ('views', INIT + ':FootprintBase.footprint_export'), ('almost clone', COLL + ':Collector.almost_clone')],
     'attribute values of copies versus originals')

prop('P12', 'A set of priority levels behaves as an ordered list of unique names',
     "After any sequence of extensions, insertions, removals, re-rankings, freezes, restores and resets, a set of levels holds each "
     "name once (names are case-insensitive), in the order these operations define; a failing operation changes nothing. Ranks, "
     "comparisons (by level or by name), neighbours and membership always agree with that current order, and a frozen order is "
     "restored exactly, whatever happened since.",
     ['histories'],
     'for every history of operations on one or several sets',
     'a total-order invariant over arbitrary histories; tests run a few fixed sequences',
     [PRIO], [('ordered set', PRIO + ':PrioritySet'), ('levels', PRIO + ':PriorityLevel')],
     'public accessors after every operation, compared with a list model')

prop('P13', 'Expanding a description yields exactly the Cartesian product of its multi-values',
     "Expansion returns one description per combination of the multiple values (lists, tuples, sets, nested ones, comma-separated "
     "texts, inclusive numeric ranges), in order, numbered from 1, whatever the order of the keys; mappings keyed by another entry are replaced by the "
     "item matching that entry's value, and special container values are left whole. The input is never modified.",
     ['inputs'],
     'for every description mixing those forms at any nesting depth, in any key order',
     'combinatorial space of shapes; order-dependence only shows for particular key orders',
     [UTIL], [('expansion', UTIL + ':expand'), ('copy with replacement', UTIL + ':inplace')],
     'returned list of descriptions versus an independent product model')

prop('P14', 'Glob expansion selects exactly the matching files and captures their parts',
     "A value with glob patterns expands to exactly the existing files whose whole name matches the literal text, wildcards and "
     "regular expressions given, in sorted order, each named part being available, verbatim, to the other text values of the same "
     "description. Literal characters are never interpreted as expressions, malformed or duplicated globs raise a clear error, and no "
     "matching file yields an empty result.",
     ['inputs', 'configurations'],
     'for every directory content and every pattern, including nested braces and special characters in names',
     'depends on arbitrary directory contents and patterns',
     [UTIL], [('glob parsing', UTIL + ':_parse_globs'), ('expansion', UTIL + ':expand'), ('capture substitution', UTIL + ':inplace')],
     'expansion results over generated directory trees')

prop('P15', 'A failed query is explained: every rejected class with its actual reasons',
     "When reporting is on and no class matches, the last report lists every class that was considered, each with exactly the attributes "
     "that made it fail and the true nature of the failure (missing, invalid, not convertible, not a subclass, not allowed, excluded, "
     "or at least one of its failing 'only' rules, not found or not matched). Full reports cover successful queries too, and the report concerns the last query and no other.",
     ['inputs', 'programs', 'histories'],
     'for every set of classes and failing descriptions, in every reporting level and style',
     'completeness of diagnostics ranges over all failing combinations',
     [REP, COLL, INIT], [('logging of reasons', INIT + ':Footprint.resolve'), ('only reasons', INIT + ':Footprint.checkonly'),
                         ('log', REP + ':FootprintLog'), ('report on error', COLL + ':Collector.find_all')],
     'last report as a dictionary, whynot answers, printed reports')

prop('P16', 'The report log is a bounded, consistent history whose renderings agree',
     "The log keeps the most recent query reports, in order, never more than its configured bound, also after being cleared or reduced "
     "to its last entry. Its dictionary, XML, flat, factorised and textual renderings all describe the same entries and always reflect "
     "the current content, whatever renderings were requested before; a misplaced entry is refused without altering the log.",
     ['histories'],
     'for every history of additions, clears, reductions and rendering requests',
     'caching and bounding errors only show for particular interleavings of updates and renderings',
     [REP], [('log', REP + ':FootprintLog'), ('XML', REP + ':StandardReport'), ('flat', REP + ':FlatReport'), ('factorised', REP + ':FactorizedReport')],
     'public renderings after every operation')

prop('P17', 'Special container types behave as values: equal, hashable, copied and kept whole',
     "The special list, tuple, set, dictionary, text and pattern types used as attribute values are never expanded, convert from and "
     "compare equal to the builtin they derive from, and when two containers of hashable items of the same special type are equal their hashes are equal, whatever the "
     "order in which they were filled. They survive deep copies and pickling unchanged, and their items and exported "
     "forms contain all of their content and nothing else.",
     ['inputs'],
     'for every content (nesting, insertion order, hash collisions)',
     'hash/equality laws quantify over all contents and insertion histories',
     [STD, UTIL, INIT], [('types', STD + ':FPDict'), ('no expansion', UTIL + ':expand'), ('use as attribute', INIT + ':Footprint.resolve')],
     'hash, equality, copies, expansion and export results')

prop('P18', 'Classes are registered in exactly the collectors they name',
     "Each concrete class is available in exactly the collectors it names (tags are case-insensitive and ignore final 's'), abstract "
     "classes are never candidates nor instantiable, and filters or removals by package, flag or priority level select exactly the classes that satisfy the "
     "criterion and leave the others. A class definition that is refused leaves no trace in any collector, and every collector is reachable through "
     "the proxies in its singular (load) and plural (catalogue) names.",
     ['programs', 'histories'],
     'for every set of class definitions (valid or not), collector names and history of removals',
     'depends on histories of definitions and removals across several collectors, including refused definitions',
     [INIT, COLL, PROX, CONF], [('metaclass', INIT + ':FootprintBaseMeta.__new__'), ('catalogue', COLL + ':Collector'), ('proxies', PROX + ':FootprintProxy')],
     'collector contents, filter/discard results, proxies, raised errors')

prop('P19', "'Only' rules filter candidates exactly",
     "A class with 'only' rules is a candidate if and only if every rule holds, a rule holding when at least one of its alternatives does: "
     "equality, 'after' (greater or equal), 'before' (strictly less) or pattern match, for the value resolved for the attribute, or "
     "else the configured default of that name. A rule about a name with no value anywhere excludes the class.",
     ['inputs', 'configurations', 'programs'],
     'for every set of rules, alternatives, attribute values and configured defaults',
     'if-and-only-if over combinations of rules, boundaries and sources',
     [INIT], [('only check', INIT + ':Footprint.checkonly'), ('candidate test', INIT + ':FootprintBase.footprint_couldbe')],
     'find_all results')

prop('P20', 'Documentation and inventories describe every declared attribute faithfully',
     "The generated documentation of a class describes each of its attributes once, with its type, access mode, default, "
     "allowed and excluded values and aliases, ordered by the current visibility levels, then by rank and name. The inventories of a "
     "collector (attribute map, attribute keys, allowed values) cover exactly the attributes of its classes, and generating documentation "
     "or inventories never changes the outcome of later queries.",
     ['programs', 'configurations'],
     'for every class declaration, visibility order and documentation mode',
     'completeness over arbitrary declarations and visibility reorderings',
     [DOC, COLL, INIT], [('sphinx format', DOC + ':_formating_sphinx_v1'), ('basic format', DOC + ':_formating_basic'),
                         ('attribute map', COLL + ':Collector.build_attrmap')],
     'docstrings, attribute maps and printed inventories')

prop('P21', 'Named setups, collectors and logs are isolated, and settings take effect',
     "There is one setup, one collector, one proxy and one report log per name: asking for the same name gives the same object with its state, "
     "and different names never share defaults, contents, reports or tracked objects. The configured defaults answer "
     "whatever the letter case and replacing them leaves no previous entry; extra values are those the configured callback returns at the time of the query, "
     "and non-extended mode hides the configured defaults, and nothing else, from substitutions.",
     ['histories', 'configurations'],
     'for every history of setup changes and queries over several names',
     'isolation is a property of histories over several named objects',
     [CONF, COLL, REP, PROX], [('setup', CONF + ':FootprintSetup'), ('collectors', COLL + ':Collector'), ('logs', REP + ':get')],
     'identity and state of objects obtained by name, resolution outcomes after each change')

prop('P22', 'Errors raised by user code, and queries nested in it, disturb nothing',
     "An error raised by user code (a conversion, a comparison, a computed default, a callback, a constructor, a class method, a decorator) during a query, "
     "the creation, the cloning or the modification of an object or the definition of a class reaches the caller, and leaves the entries of the description, the setup, the collectors, "
     "the other classes and the existing objects as they were: later queries answer as if the failed operation had never been made. "
     "The queries that such user code makes give their usual answers, and the operation in progress gives its own, reports included.",
     ['histories', 'fault_sequences'],
     'for every operation, every point at which user code is called and every error or nested query there',
     'the fault points are the calls of user code along a history; tests only follow the successful paths',
     [INIT, COLL, REP], [('resolution', INIT + ':Footprint.resolve'), ('collector', COLL + ':Collector'), ('classes', INIT + ':FootprintBaseMeta')],
     'errors, answers and state after a fault injected at a chosen call of the user code')

prop('P23', 'Decorators, short names and kinds apply once, to the class that asks only',
     "The decorators of the footprints a class directly uses (or lists, or that these footprints were built from) are applied to it once each, in the order "
     "they were given, on the complete class and before it is registered; they are never applied to the classes that inherit from it, nor by the creation of objects, and using a "
     "footprint never changes its decorators. When short names are asked for, by the class or by the setup, each footprint method of the body gets its short name, "
     "unless the body or an attribute already has that name; other classes get none. The kind and the real kind are those of the class.",
     ['programs', 'inputs'],
     'for every combination of decorative and plain footprints, lists, inheritance and class bodies',
     'which decorators apply, and in which order, depends on how footprints are combined: tests follow one combination',
     [INIT], [('decorators', INIT + ':DecorativeFootprint'), ('classes', INIT + ':FootprintBaseMeta')],
     'log of the decorators applied and members of the classes defined')

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
if __name__ == '__main__':
    import sys
    try:
        import jsonschema
        sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in P:
            jsonschema.validate(p, sch)
        print('ok', len(P))
    except ImportError:
        print('written (not validated)', len(P))
