"""Writes properties.jsonl and MANIFEST.json (both are committed)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id_, title, statement, over, text, why, files, mechanism, observe, level_note):
    P.append((dict(id=id_, title=title, statement=statement,
                   quantifier={'over': over, 'text': text}, why_tests_cant=why,
                   anchors={'files': files, 'mechanism': [
                       {'name': n, 'where': w} for n, w in mechanism],
                       'observe_at': observe, 'hook_needed': None}), level_note))


CX = 'fca/context.py'
ANY = ('every finite context: any shape including no objects or no attributes and more '
       'than 64 lines, any density, repeated, empty and full lines, names that are '
       'strings or integers in any order')

prop('C01', 'Derivation and closure operators agree with the incidence relation',
     'For every context and every set of its objects (attributes), given as any '
     'collection with or without repeats, the derived set holds exactly the attributes '
     '(objects) related to all of them, the closure is the derivation applied twice, and '
     'the forms that work on indices, the forms that are functions and the counting '
     '("associative") forms say the same about the same context. Answers are the '
     "caller's: changing one changes neither the context nor later answers, and asking "
     'leaves the context as it was.',
     ['inputs', 'histories'], ANY + '; every subset of either side; queries in any order',
     'the tests derive a handful of sets in three small contexts; an operator can be wrong '
     'for empty sets, duplicates, wide rows or a repeated question only',
     [CX, 'fca/algorithms/closure_operators.py'],
     [('derivation on boolean columns and rows, memoised per context', CX + ': '
       'oprime_inds, aprime_inds, associative_*, memo'),
      ('set operators', 'fca/algorithms/closure_operators.py: oprime, aprime, oclosure, '
       'aclosure')],
     ['Context.oprime/aprime/oclosure/aclosure and *_inds', 'closure_operators functions'],
     'differential against derivation on bit masks; contexts up to 90 lines')

prop('C02', 'Concept enumeration is complete, exact and free of repetitions',
     'Every way of asking a context for its concepts (the list, the iterator, the '
     'lattice builder) lists every formal concept exactly once and nothing else, with '
     'extent and intent that derive each other. Iterators over several contexts advanced '
     'in any order, alone or next to other computations, do not disturb each other.',
     ['inputs', 'schedules'], ANY + '; any interleaving of iterators over two contexts',
     'the tests compare the number of concepts of a few fixed contexts; repeated or '
     'empty lines and interleaved iterators are not among them',
     [CX, 'fca/algorithms/norris.py', 'fca/algorithms/closure_operators.py'],
     [('Norris algorithm', 'fca/algorithms/norris.py: norris'),
      ('concept iterator', CX + ': get_concepts, iterate_concepts')],
     ['Context.concepts', 'Context.iterate_concepts()', 'fca.norris'],
     'the concepts by definition as intersections of rows, up to 80 lines')

prop('C03', 'Lattices and concept systems order concepts by their intents',
     'In a concept lattice and in a concept system (with concepts of distinct intents, '
     'through any history of additions and removals) the parents and children of a '
     'concept are exactly its upper and lower neighbours, filter and ideal are all '
     'greater and all smaller concepts, top and bottom are the extreme concepts if they '
     'exist, and membership, index, length, parts, the printed form and the covering '
     'relation agree with that, also when asked with an equal concept. '
     'Concepts are equal exactly if extents and intents are equal, equal concepts hash '
     'alike whatever their meta data, and their pairs are the product of both sets.',
     ['inputs', 'histories'], 'every context; every history of appends, removals and '
     'queries of a concept system; every pair of concepts',
     'the tests look at parents in a fixed lattice; order queries after changes, and '
     'equality of concepts with meta data, are not tested',
     ['fca/concept_lattice.py', 'fca/concept_system.py', 'fca/concept.py',
      'fca/algorithms/norris.py'],
     [('covering relation', 'fca/algorithms/norris.py: compute_covering_relation'),
      ('order queries', 'fca/concept_lattice.py, fca/concept_system.py'),
      ('equality and hash', 'fca/concept.py')],
     ['ConceptLattice', 'ConceptSystem', 'Concept', 'compute_covering_relation'],
     'order by definition on intents; histories are model-based')

prop('C04', 'The canonical basis is the Duquenne-Guigues basis',
     'Every way of computing the basis of a context by the optimised algorithm (attribute '
     'or object side, linear or simple closure, as a list or as an iterator) gives '
     'exactly the Duquenne-Guigues basis: one implication per pseudo-intent, its '
     'conclusion the closure of its premise; given background implications that hold in '
     'the context it gives the basis relative to them. With a condition on premises every '
     'implication is valid and non-trivial, has a closed conclusion and a premise that '
     'meets the condition. The context, the background and computations running '
     'meanwhile are not disturbed.',
     ['inputs', 'schedules'], ANY + '; any valid background; any condition on premises; '
     'any interleaving of basis iterators',
     'the tests compare with two stored bases; backgrounds, conditions, object side and '
     'iterators are nearly untested, and minimality is not checked at all',
     ['fca/algorithms/dg_basis.py', CX, 'fca/algorithms/closure_operators.py'],
     [('optimised Ganter algorithm', 'fca/algorithms/dg_basis.py'),
      ('memoised derivations during a computation', CX + ': basis_computation')],
     ['Context.attribute_implications, object_implications, '
      'get_attribute_implications, attribute_implications_iter', 'compute_dg_basis*'],
     'pseudo-intents by their definition up to 8 attributes, by the characterisation '
     '(sound, complete, pseudo-closed premises) above')

prop('C05', 'The incremental canonical basis is the same for every order',
     'The attribute-incremental algorithm computes exactly the Duquenne-Guigues basis of '
     'every context, the same set of implications as the optimised algorithm, for every '
     'order of attributes and objects and every naming. The context is not changed, and '
     'changing an answer changes neither the context nor later answers.',
     ['inputs'], ANY + '; every permutation of both sides',
     'the tests use two contexts in one order each; what the algorithm does depends on '
     'the order of the attributes',
     ['fca/algorithms/aibasis.py', CX],
     [('attribute-incremental update of concepts and pseudo-intents',
       'fca/algorithms/aibasis.py')],
     ['Context.get_attribute_canonical_basis()', 'aibasis.compute_canonical_basis'],
     'as C04, plus the metamorphic relation between permuted contexts')

prop('C06', 'All closures under implications are the least closed superset',
     'For every set and every list of implications (repeated, with empty sides, in any '
     'order) the simple and the linear closure compute the least superset closed under '
     'the implications, and agree. The closure for lectic enumeration gives that '
     'set when it adds nothing before the prefix and reports failure otherwise; '
     'arguments are not changed.',
     ['inputs'], 'every attribute set, every list of implications, every prefix length',
     'the tests and doctests close about ten sets; the linear algorithm keeps counters '
     'that only go wrong for repeated or overlapping implications',
     ['fca/algorithms/closure_operators.py'],
     [('simple_closure, lin_closure, closure with a prefix',
       'fca/algorithms/closure_operators.py')],
     ['simple_closure', 'lin_closure', 'the prefix-restricted closure'],
     'fixpoint iteration on bit masks; up to 40 attributes and 30 implications')

prop('C07', 'Implications behave as values and read back from their text',
     'An implication is respected by a set iff the set lacks part of the premise or has '
     'the whole conclusion (a negative implication: or has nothing of the conclusion), '
     'also for partial examples given by certain and possible attributes. Two '
     'implications, negative both or neither, are equal iff their premises and their '
     'conclusions up to the premise are; equal ones hash alike and have the same sorted '
     'text, and copies are equal, of the same kind and independent. '
     'The text of an implication, empty sides and free spacing included, reads back as '
     'an equal implication.',
     ['inputs'], 'every pair of sides over any names, every example, every order in which '
     'the sets were built',
     'the tests check a dozen fixed implications; equality, hashes and copies depend on '
     'the order in which sets were filled and on overlap of the sides',
     ['fca/implication.py'],
     [('equality, hash, text, respect', 'fca/implication.py')],
     ['Implication', 'UnitImplication', 'NegativeImplication', 'Implication.str2imp'],
     'boolean model of the sides; names in text have no commas and arrows')

prop('C08', 'After any history of changes every view of a context agrees',
     'After any sequence of additions, deletions, renamings and replaced intents and '
     'extents, the table, its printed form, names, intents, extents, values, derivations, concepts and '
     'bases of a context are those of the changed relation and of nothing older. Refused '
     'changes and aborted computations change nothing, copies and derived contexts live '
     'independently of their origin and of the lists they were made from, and repeated '
     'names are made unique without touching other names or any cell; random contexts '
     'have the size, the names and, within chance, the density asked for. Scales are contexts and '
     'follow their changes in the same way.',
     ['histories', 'fault_sequences', 'inputs'],
     'every history of changes, queries, copies, aborted computations and refused calls '
     'on contexts that share an origin; every list of names with repeats',
     'the tests make one change to a fixed context; caches, indices and shared tables '
     'only go wrong after a sequence',
     [CX],
     [('every change rebuilds table and indices', CX + ': Context.__init__ and the '
       'modifying methods'), ('caches are dropped', CX + ': objects_attributes_change, '
                              'clear_cxt_vars')],
     ['every public method of Context'],
     'model-based histories of up to 16 steps; every view compared after every step')

prop('C09', 'Derived contexts and context equality follow the relation',
     'Transposing, extracting by attributes or by values, complementing, compounding '
     'and multiplying contexts give exactly the relation their definition says, under the '
     'original names (a complement names the negation of each attribute uniquely), '
     'and leave the operands as they were; a product of contexts whose middle names '
     'differ is refused, as are unknown attribute names. Two contexts are equal iff they have the same '
     'names, in any order, and the same relation between them; a table whose size does not agree with the '
     'names is refused, and what is left out is empty.',
     ['inputs'], ANY + '; every pair of contexts, every permutation of lines',
     'the tests derive from one or two square contexts; products with many middle lines, '
     'odd names and permuted equal contexts are not among them',
     [CX],
     [('transpose, extract_subcontext*, complementary, compound, __mul__, __eq__', CX)],
     ['the same methods'], 'cell-by-cell model')

prop('C10', 'Clarified and reduced contexts keep the lattice and are minimal',
     'Clarifying objects keeps exactly one object of every kind of row; reducing objects '
     '(attributes) leaves rows (columns) none of which is an intersection of others, from '
     'which every original row (column) is an intersection, and full ones stay. What is left '
     'keeps its name and its cells, reducing keeps the order, the lattice stays the same up to isomorphism, reducing again changes '
     'nothing, and the original context is untouched.',
     ['inputs'], ANY,
     'the tests reduce two small contexts; which lines are reducible depends on the whole '
     'table, and its width matters for the integer encoding of rows',
     [CX], [('clarify_objects, reduce_objects, reduce_attributes', CX)],
     ['the same methods'], 'irreducibility by definition; up to 140 attributes')

prop('C11', 'Factorisations cover the relation with concepts',
     'Every factor that a factorisation returns is a formal concept of the context that '
     'covers some cross not covered before it (unless conditions forbid repetition); the '
     'factors of a factorisation without conditions together cover at least the asked '
     'share of the crosses, no factor follows once that share is reached, the score that '
     'comes with a factor tells how much of the table it newly covers, and at full '
     'fidelity the product of the two factor contexts is the context. With conditions '
     'every factor meets them, none comes twice, and none follows once the reported '
     'share (never more than what is covered) is the asked one. The context stays as it was, and factor contexts of '
     'arbitrary rectangles have exactly their extents and intents.',
     ['inputs', 'configurations'], ANY + '; every fidelity and every option',
     'the tests factorise two contexts at fidelity 1; greedy choices depend on the '
     'relation and on what is already covered',
     ['fca/algorithms/factors.py'],
     [('greedy cover by object and attribute concepts', 'fca/algorithms/factors.py')],
     ['factors.algorithm2, algorithm2_weighted, algorithm2_w_condition, '
      'make_factor_cxts'],
     'cover, concept and product conditions by definition')

prop('C12', 'Implication covers generate the theory, minimised ones minimally',
     'The cover computed object by object follows from the context and generates all its '
     'implications, after every object and whatever their order; minimising it or any '
     'other list of implications keeps exactly the closed sets and leaves no '
     'implication that follows from the others, and a minimised cover of a context has as '
     'few implications as possible. An implication is called '
     'redundant iff it follows from the others.',
     ['inputs', 'histories'], ANY + '; every order of objects; every list of implications',
     'no test touches this module',
     ['fca/algorithms/implication_covers.py'],
     [('incremental update of a cover with closed conclusions, redundancy test',
       'fca/algorithms/implication_covers.py')],
     ['compute_implication_cover, updated_basis, minimize, is_redundant'],
     'number of closed sets and closures by NextClosure on bit masks')

prop('C13', 'Attribute exploration keeps examples and knowledge consistent',
     'After any history of confirmations, withdrawals and changes of examples and '
     'attributes (confirming only what the examples do not refute, and not deleting or renaming '
     'attributes the confirmed implications mention) every example respects the '
     'confirmed implications and the open implications are the basis of the examples '
     'relative to them, or valid ones within the condition if there is one. Examples '
     'and edits that conflict with the confirmed implications, false counterexamples and '
     'names in use are refused and change nothing. An exploration '
     'with an expert who answers truthfully ends with confirmed implications that '
     'have exactly the intents of the expert\'s context as closed sets.',
     ['histories', 'schedules'], 'every history of database operations; every order in '
     'which the open implications are answered, every target context',
     'the tests run one exploration of a 4 x 4 context with one expert who always '
     'answers the first question',
     ['fca/algorithms/exploration_/exploration.py', CX],
     [('recomputed relative basis after every change',
       'fca/algorithms/exploration_/exploration.py: context_modifier, base_modifier'),
      ('checks against the base', 'ExplorationDB._check_intents')],
     ['ExplorationDB', 'AttributeExploration'],
     'model-based histories; target context known to a simulated expert')

prop('C14', 'Basic exploration of attributes and objects keeps its invariants',
     'Through any history of confirmations, counterexamples, additions and edits, the '
     'context has exactly the lines given, the open implications of either kind are the '
     'canonical basis of the context (or transposed context) without the confirmed ones, '
     'the confirmed ones are those confirmed, and the printed form lists just that. Lines that lack the premise, have '
     'the whole conclusion or conflict with a confirmed implication are refused with '
     'the matching error, which tells what was refused, and change nothing, and the '
     'initial context is never changed.',
     ['histories'], 'every history of calls, on either side of the context',
     'the tests do not run this class beyond its construction',
     ['fca/algorithms/exploration.py'],
     [('recompute_basis and the conflict checks', 'fca/algorithms/exploration.py')],
     ['BasicExploration'], 'model-based histories of up to 14 steps')

prop('C15', 'Exploration sessions accept and reject consistently',
     'Through any history of accepted valid implications, rejections and '
     'additions in a session, its context has exactly the objects given, all its views '
     'agree, and its candidates are the basis relative to the accepted implications. '
     'A counterexample that is none and an object that breaks an accepted implication '
     'are refused and change nothing; lists and sets handed out are copies. A session '
     'whose user knows a context ends, and its accepted implications then have exactly '
     'that context\'s intents as closed sets.',
     ['histories', 'schedules'], 'every history of session calls; every order of answers, '
     'every target context',
     'the tests make a few calls on one context',
     ['fca/algorithms/exploration2/exploration.py',
      'fca/algorithms/exploration2/examples/numbers.py'],
     [('session state and checks', 'fca/algorithms/exploration2/exploration.py')],
     ['Exploration', 'its sessions', 'ExplorationContext'],
     'model-based histories; target context known to a simulated user')

prop('C16', 'Partial contexts stay consistent and complete to what follows',
     'A partial context always has every certain attribute among the possible ones and '
     'refuses anything else, transposes and copies faithfully, and completing it with implications '
     'makes certain (possible) for each object exactly what all (some) closed '
     'completions of the object have, or refuses and changes nothing if '
     'some object has none. Its closure keeps what all objects certainly having a set '
     'possibly have; its basis has such closures as conclusions, is empty iff '
     'everything plausible follows from the background, and is the Duquenne-Guigues '
     'basis when nothing is uncertain. An exploration with partly told, true '
     'counterexamples never contradicts the truth, always shows open implications of the '
     'completed context, and ends with exactly the true theory.',
     ['inputs', 'histories'], 'every pair of nested tables, every list of implications, '
     'every target context and every way of telling a part of a counterexample',
     'no test constructs a partial context',
     ['fca/partial_context.py', 'fca/compare_context.py', 'fca/algorithms/dg_basis.py',
      'fca/algorithms/exploration_/exploration.py', 'fca/implication.py'],
     [('two nested contexts', 'fca/partial_context.py'),
      ('completion by closures', 'PartialContext.complete'),
      ('partial basis', 'fca/algorithms/dg_basis.py: compute_partial_dg_basis')],
     ['PartialContext', 'ExplorationDB over a PartialContext'],
     'all completions enumerated, up to 5 attributes; truth known to a simulated expert')

prop('C17', 'Many-valued contexts keep their values and scale by the scales',
     'A many-valued context keeps its values and their types through construction, '
     'additions, deletions, renamings, copying, transposition and extraction by attributes, '
     'by a condition or by values, and what was copied or extracted lives on by itself. '
     'Scaling gives each object, for each column and each attribute of that column\'s scale, a '
     'cross iff some row of the scale whose condition the value meets has one; nominal '
     'scales give each object one attribute, shared by equal values only, and ordinal '
     'scales give each value in their range exactly the bounds it meets.',
     ['inputs', 'histories'], 'every table of numbers (infinite ones and nan included), '
     'strings, lists and None (numeric strings count as numbers), every fitting scale per column, every history of changes',
     'the tests do not scale anything; values pass through number parsing and evaluated '
     'conditions',
     ['fca/mvcontext.py', 'fca/scale.py', 'fca/algorithms/scaling.py', CX],
     [('values kept beside the boolean table', 'fca/mvcontext.py'),
      ('derivation of crosses', 'fca/algorithms/scaling.py')],
     ['ManyValuedContext', 'Scale, NominalScale, OrdinalScale', 'scale_mvcontext'],
     'conditions are generated as structure and evaluated by the model, never by eval')

prop('C18', 'Contexts written to text files read back the same',
     'Writing a context as cxt (plain or UTF-8) or a many-valued context as '
     'tab-separated text and reading it gives the same names in the same order, and the '
     'same cells or their texts; what is written follows the format, so an independent '
     'reader agrees. Tab-separated, named tab-separated and comma-separated files made '
     'by others, with either line end and with quoting, read as what they say; files not '
     'starting with a line B are refused as cxt. Writing does not change the '
     'context and replaces what was in the file.',
     ['inputs'], 'every context with names the formats can carry (no tabs, quotes, line '
     'ends or outer spaces; plain cxt: integers and strings that are no literals)',
     'the tests read four fixed files and never write one',
     ['fca/readwrite/cxt.py', 'fca/readwrite/tab_separated.py',
      'fca/readwrite/comma_separated.py'],
     [('readers and writers', 'fca/readwrite')],
     ['read_cxt, write_cxt, uread_cxt, uwrite_cxt', 'read_txt, read_txt_with_names',
      'read_mv_txt, write_mv_txt', 'read_mv_csv, read_csv'],
     'round trip plus independent reader and writer of each format')

prop('C19', 'Concept systems survive xml, and exported diagrams show the lattice',
     'A lattice or concept system written as xml reads back as the same concepts in the '
     'same order with the same numeric meta data, for any names xml can carry. A '
     'written diagram has one node per concept, exactly the covering relation as edges, '
     'and labels each concept with exactly its own objects and attributes (or their '
     'number, where they are abbreviated); an empty file name is refused, and a fimi file '
     'has one line per object with exactly its attributes. Writing changes nothing that '
     'is written.',
     ['inputs'], 'every lattice and every part of one, every numeric meta data, names '
     'with markup, spaces and any script',
     'the doctests that touch these files do not run on Python 3',
     ['fca/readwrite/xml_.py', 'fca/readwrite/dot.py', 'fca/readwrite/fimi.py'],
     [('xml writer and event reader', 'fca/readwrite/xml_.py'),
      ('labels and edges', 'fca/readwrite/dot.py')],
     ['write_xml, read_xml, uread_xml', 'write_dot, uwrite_dot', 'write_fimi'],
     'round trip plus an independent xml parser and a parser of the diagrams')

prop('C20', 'Concept indices match their definitions and filters keep the best',
     'Intensional and extensional stability, separation, probability, extent and intent '
     'size of every concept of a lattice are the values their definitions give. '
     'Filtering by value keeps exactly the concepts at or above it, by number exactly '
     'that many best ones, and by part at least that share (rounded down), never '
     'dropping a better concept for a worse one; storing an index as meta data sets that '
     'entry for every concept and keeps the others.',
     ['inputs', 'configurations'], 'every lattice of a context with an object (for intent '
     'size: an attribute), every index and every threshold',
     'no test computes an index',
     ['fca/algorithms/filtering/filter.py', 'fca/algorithms/filtering/stability.py',
      'fca/algorithms/filtering/probability.py',
      'fca/algorithms/filtering/separation.py',
      'fca/algorithms/filtering/extentsize.py', 'fca/algorithms/filtering/intentsize.py'],
     [('recurrences over the lattice', 'fca/algorithms/filtering')],
     ['compute_* functions', 'filter_concepts', 'compute_index'],
     'exact rational arithmetic by definition, compared within 1e-9')

prop('C21', 'Patterns separate positive from negative examples, consistently',
     'The patterns found in a positive and a negative context are exactly the intents of '
     'the reduced positive context whose attributes occur together in no negative '
     'example (an object with all attributes does not count). Through any history of '
     'confirmations and new examples, exactly the patterns that occur in a positive and '
     'in no negative example can be confirmed, examples are explained iff they have a '
     'confirmed pattern, unconfirmed patterns rank by the unexplained examples they '
     'cover, and contexts with different attributes or negative examples lacking the '
     'pattern they are given for are refused.',
     ['inputs', 'histories'], 'every pair of contexts over the same attributes, every '
     'history of calls',
     'no test touches this module',
     ['fca/algorithms/patterns.py', CX],
     [('pattern generator', 'fca/algorithms/patterns.py: iterate_positive_concepts'),
      ('exploration state', 'BasicPatternExploration')],
     ['iterate_positive_concepts', 'BasicPatternExploration'],
     'model-based histories; the reduced context itself is decided by C10')


prop('C22', 'Computations in several threads do not disturb each other',
     'When several threads ask the same context, lattice, concept system, many-valued or '
     'partial context, list of implications or file for concepts, bases, closures, '
     'derived contexts, factors, covers, indices, patterns, scaled contexts, copies, '
     'explorations of copies or texts, every thread gets the answers it would get alone, '
     'whatever the order in which they take turns. What they asked about is as it was, '
     'and answers later questions as if it were new. The same holds for '
     'threads that work on different objects.',
     ['inputs', 'schedules'], 'every schedule of switches between lines or bytecode '
     'instructions of the library, every choice of computations that only read what '
     'they share',
     'no test uses threads; state kept in a module, a class or on the shared object '
     'between two lines only shows when another thread runs just then',
     ['fca/context.py', 'fca/algorithms/', 'fca/readwrite/', 'fca/concept_system.py',
      'fca/mvcontext.py', 'fca/partial_context.py', 'fca/implication.py'],
     [('memoised derivations during a basis computation', CX + ': basis_computation'),
      ('lazily computed order', 'fca/concept_system.py: parents'),
      ('state of the xml readers', 'fca/readwrite/xml_.py')],
     ['all computations listed in pbt/world.py'],
     'a generated schedule decides every switch; the oracle is each computation alone on '
     'fresh objects')

prop('C23', 'Interrupted and failing computations leave no trace',
     'When a computation that only reads a context, lattice, concept system, many-valued '
     'or partial context, list of implications or file is interrupted at any step, as by '
     'the keyboard, or a condition, index function, closure operator, basis or lattice '
     'builder or expert it was given fails at any call, or an iterator is left '
     'behind, everything it was asked about is as it was. All later answers, of the same '
     'and of other computations, are those of fresh objects.',
     ['inputs', 'crash_points', 'fault_sequences'], 'every step of every computation, every call of a '
     'function that was given, any computations before and after',
     'no test interrupts anything or passes a function that fails',
     ['fca/context.py', 'fca/algorithms/', 'fca/readwrite/', 'fca/concept_system.py',
      'fca/mvcontext.py', 'fca/partial_context.py', 'fca/implication.py'],
     [('no temporary state on what is asked about', CX + ': basis_computation'),
      ('order of checks and changes', 'fca/algorithms/exploration_/exploration.py: '
       'reject_implication')],
     ['all computations listed in pbt/world.py', 'callbacks in pbt/props/c23.py'],
     'a generated step or call fails; the oracle is the same question to fresh objects')

prop('C24', 'The same input gives the same answer in every process',
     'For the same input every process, whatever its hash seed, locale and earlier work, '
     'gives concepts, lattice positions, bases, open implications, positive '
     'concepts and separation indices in the same order, and the same texts of '
     'contexts, implications, cxt files and many-valued files. Files that are written '
     'in one process are read as the same in another, where the functions that use the '
     'encoding of the locale are only claimed for ASCII names. Contexts, lattices, '
     'concept systems, implications, scales, many-valued and partial contexts that were '
     'pickled in one process, before or after being asked, give the same answers in '
     'another.',
     ['inputs', 'histories', 'configurations'], 'every finite context and every question with an ordered '
     'answer, any hash seeds, UTF-8 and C locale, fresh and long-running processes',
     'a test runs in one process with one hash seed; an order that depends on string '
     'hashes differs between runs, not within one',
     ['fca/context.py', 'fca/algorithms/', 'fca/readwrite/', 'fca/concept_lattice.py',
      'fca/concept_system.py', 'fca/implication.py', 'fca/mvcontext.py',
      'fca/partial_context.py'],
     [('lectic order of implications', 'fca/algorithms/dg_basis.py: compute_dg_basis'),
      ('order of concepts', 'fca/algorithms/norris.py: norris'),
      ('encodings', 'fca/readwrite/cxt.py: uwrite_cxt, uread_cxt; '
       'fca/readwrite/tab_separated.py; fca/readwrite/xml_.py')],
     ['the questions in pbt/props/c24.py, asked in three processes'],
     'differential between processes (pbt/elsewhere.py) with different hash seeds, '
     'locales and histories; order of clarified objects, implication covers, factors, stability ties and '
     'dot, xml and fimi lines is not claimed')


TECH = ('property-based testing (Hypothesis generators, shrinking) against a reference '
        'model')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _ in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

manifest = {
    'version': 1,
    'setup_cmd': './check --selftest',
    'checks': [{
        'property': p['id'],
        'quick_cmd': './check %s' % p['id'],
        'thorough_cmd': './check %s --tier thorough' % p['id'],
        'technique': TECH, 'level': 'exploration',
        'level_note': 'Holds on every generated case: %s. Bounded, random; trusts the '
                      'reference model in pbt/ and the assumptions in the evidence file.'
                      % note}
        for p, note in P],
    'not_applicable': [],
    'notes': 'Checks import the code from /repo (or $FCA_REPO) as it is; nothing is '
             'built and no hooks are needed.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')


def between(text, name, new):
    a, b = '<!-- %s -->\n' % name, '<!-- /%s -->' % name
    head, rest = text.split(a)
    return head + a + new + b + rest.split(b)[1]


sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pbt import core, env                                       # noqa: E402
env.setup()
lines = ['| property | subcheck | cases, quick | what is generated; what counts as non-trivial |',
         '|---|---|---|---|']
for p, _ in P:
    importlib.import_module('pbt.props.' + p['id'].lower())
    for s in core.REGISTRY[p['id']].values():
        lines.append('| %s | %s | %d | %s |' % (p['id'], s.name, s.quick * s.shards, s.rule))
fixed = []
with open(os.path.join(HERE, 'known_findings.jsonl')) as f:
    for k in map(json.loads, f):
        if k['status'] == 'fixed':
            fixed.append('* %s %s: %s' % (k['property'], k['commit'][:8], k['what']))
with open(os.path.join(HERE, 'DESIGN.md')) as f:
    text = f.read()
text = between(text, 'subchecks', '\n'.join(lines) + '\n')
text = between(text, 'fixed', '\n'.join(fixed) + '\n')
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write(text)
