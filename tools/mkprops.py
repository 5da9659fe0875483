#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of every property)."""
import json, os
B='flatland/schema/base.py'; C='flatland/schema/containers.py'; S='flatland/schema/scalars.py'
K='flatland/schema/compound.py'; P='flatland/schema/paths.py'; Q='flatland/schema/properties.py'
F='flatland/schema/forms.py'; U='flatland/util/base.py'; D='flatland/util/deferred.py'
VB='flatland/validation/base.py'; VC='flatland/validation/containers.py'; VS='flatland/validation/scalars.py'
OG='flatland/out/generic.py'; OM='flatland/out/markup.py'; OX='flatland/out/genshi.py'
out=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    out.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p('S01','Concurrent requests on shared schemas do not affect each other',
 'Threads that each build, fill, validate, query, flatten and render their own elements from schemas they share get exactly the results each would get alone in a fresh process. This stays true when another thread\'s request is aborted by an exception at any point, and for every later request on the same schemas.',
 ['schedules','fault_sequences','programs'],'all interleavings of any number of requests over shared element classes, all abort points, all request scripts',
 'Every existing test is single-threaded, uses a schema once, and never aborts an operation half way.',
 [B,C,S,K,P,Q,VB,OG],[('per-instance state; class-level state written only through locks or atomic operations',B),('compound preparation lock',K),('expression cache',P)],
 [('schema classes','shared by all requests','everywhere'),('expression_cache','process-wide',P)])
p('S02','Deriving a schema never changes the schema it was derived from',
 'Every schema-deriving call (named, using, validated_by, including_validators, descent variants, with_properties, of, valued, to, constructor overrides, Form subclassing) returns a new class with the requested configuration and leaves its base class, sibling classes and existing elements as they were. This holds for any sequence of derivations from any number of threads, when a derivation is interrupted, and when the caller later mutates the validator list or properties mapping it passed in.',
 ['schedules','histories','fault_sequences'],'all derivation histories and interleavings over a growing pool of classes, all interruption points',
 'Tests derive once or twice from fresh classes and look at the result, not at every other class afterwards, and never concurrently or under interruption.',
 [U,B,C,F,S,K],[('class_cloner makes a subclass per call',U),('validators and properties are copied',B),('_MetaForm merges fields into a new list',F)])
p('S03','A compound type is prepared exactly once before its first element',
 'However many threads create the first elements of a compound class at once, its class-level initialisation completes exactly once before any of those elements exists, and every element has all the fields it declares. If the initialisation raises, the exception reaches the caller and a later construction retries it; constructing with keyword overrides prepares a class of its own without touching the original; no schedule deadlocks.',
 ['schedules','fault_sequences'],'all interleavings of first constructions (direct, nested in containers, derived, overridden) and all failure points inside initialisation',
 'The tests construct compounds from one thread and never fail inside the hook.',
 [K],[('double-checked _compound_prepared flag under an RLock','flatland/schema/compound.py:_MetaCompound.__call__')],
 [('_compound_prepared','class prepared',K)])
p('S04','Path lookups depend only on the path and the tree',
 'find() returns the elements the path denotes (names, indexes, slices, ".", "..", absolute and escaped parts, strict and lenient, single) in order, for the tree as it is at that moment. The result never depends on how many or which expressions were looked up before, by which threads, or whether an earlier lookup was interrupted.',
 ['histories','schedules','inputs','fault_sequences'],'all paths over all trees after any history of lookups in the process, including thousands of distinct expressions, and all interleavings',
 'Tests evaluate a few dozen fixed expressions; the process-wide cache never fills and is never shared by threads.',
 [P,B],[('expression_cache bounded by max_cache_size',P),('PathExpression is immutable once built',P)],[('expression_cache','compiled expressions',P)])
p('S05','Symbols and marker values are process-wide singletons',
 'symbol(name) returns the same object for the same name and different objects for different names, whatever threads create it at once and after pickling and copying, and an interrupted creation neither blocks later ones nor leaves two objects for one name.',
 ['schedules','fault_sequences'],'all interleavings of symbol creation over overlapping names and all interruption points',
 'Existing tests create symbols from a single thread.',
 [U],[('registry guarded by a lock','flatland/util/base.py:symbol')],[('symbol.symbols','registry',U)])
p('S06','The lazily loaded package namespace is consistent under races and failures',
 'Every public name of the flatland package resolves to the one object its defining module exports, whichever threads touch whichever names first and in any order, and unknown names raise AttributeError. If loading a submodule fails, the error reaches the caller and a later access loads it and gives the same objects as if nothing had failed.',
 ['schedules','fault_sequences'],'all orders and interleavings of first accesses and imports, all failing module loads',
 'The test process imports everything once, in one order, in one thread.',
 [D,'flatland/__init__.py'],[('deferred_module.__getattr__ imports and caches',D)])
p('S07','Properties overlay: nearest definition wins and writes stay local',
 'The properties mapping of a class or an element reads as its own entries over those inherited from its bases, with deleted keys hidden; every mutation (item assignment and deletion, update, setdefault, pop, clear) affects only the class or element it is made on and those that inherit from it, never its bases, siblings or other elements. All mapping methods agree with each other after any history of such mutations, including ones made by several threads on different classes or elements of one hierarchy, or on different keys of the same one.',
 ['histories','schedules','fault_sequences'],'all histories of property mutations over class hierarchies and instances, and all interleavings of owners',
 'Tests walk a few three-class scripts; inheritance depth, first-access order and deletion markers interact combinatorially.',
 [Q,B],[('frames per class in a weak map, Deleted markers',Q),('local_storage overlay per instance',Q)],[('Properties.map','class frames',Q)])
p('S08','Reading a shared element has no side effects',
 'Any number of threads reading one element tree at once (value, u, flatten, find, el, iteration, membership, parents and children, default_value, comparison, slicing, rendering) get the answers a single reader gets, and afterwards the tree is unchanged.',
 ['schedules'],'all interleavings of read-only operations on one tree, including first reads that compute cached attributes',
 'No test reads an element from two threads, or compares the complete state before and after reads.',
 [B,C,S,K],[('read operations compute from state without storing',B)])
p('T01','Sequences behave as Python lists of adopted members',
 'After any history of list operations (append, extend, insert, item and slice assignment and deletion, pop, remove, reverse, sort by key, +=, set) on a List, Array, MultiValue or JoinedString, its members, order, length, index, count and membership are those of a Python list under the same operations, and plain values have been wrapped in the member schema. Each member\'s parent chain leads to the sequence and, for List, its flattened name carries its current position; a failing operation raises and leaves a consistent sequence.',
 ['histories','fault_sequences','schedules'],'all histories of list operations with elements and plain values, all failing iterables, callbacks and interleavings on separate sequences of one schema',
 'Tests try each method once or twice on small lists and never chain them or fail inside them.',
 [C,K],[('value wrapping and parent assignment in each mutator',C),('List slots renumbered after each mutation',C)],[('ListSlot.name','position of a member',C)])
p('T02','Mappings keep exactly the fields their schema allows',
 'After any history of mapping operations, successful or failing, a Dict or Form holds exactly its declared fields, a SparseDict a subset of them (with required fields always present under minimum_fields="required"), every child is an element of the declared schema whose parent is the mapping, and keys outside the schema are refused. Values read back are those a plain dict restricted by the schema and the set policy (strict, subset, duck) would hold.',
 ['histories','fault_sequences','schedules'],'all histories of mapping operations on all schemas and policies, all failing sources, all interleavings on separate mappings of one schema',
 'Tests cover single operations; key-set and parent invariants after mixed or failed histories are not examined.',
 [C,F],[('Dict keys immutable after _reset',C),('SparseDict.may_contain and minimum_fields',C)])
p('T03','A scalar\'s value and u always change together',
 'After set(x) returns True, value is the adapted x and u its serialisation (u"" for None); after it returns False, value is None and u is the text of x (u"" for None). If adapting or serialising raises or is interrupted by the callback it runs, value and u are both as before, and the next set works as on a new element.',
 ['histories','fault_sequences','inputs','schedules'],'all histories of set calls with values of all types on all scalar types, including custom adapt and serialize that fail, and all interleavings on elements of one class',
 'Tests set each element once and never fail in the middle of a set.',
 [S],[('Scalar.set adapts, serialises, then assigns',S)])
p('T04','A failed bulk assignment leaves a usable element',
 'When set, set_flat, update, extend or a constructor is fed from a source that raises part way, or a callback it runs raises, the exception reaches the caller (a failing explode of a Compound is instead reported by set() returning False) and the element stays structurally complete: its children are proper elements, each one blank, as before, or holding a value that was supplied for it. A later assignment of complete data gives the same result as on a new element.',
 ['fault_sequences','inputs','histories'],'all failure positions in all bulk sources over all schemas, followed by any retry',
 'Tests feed complete in-memory data; a broken upload or cursor is never simulated.',
 [C,S,K],[('members are built before they are attached',C),('_reset before filling',C)])
p('T05','A Ref always mirrors its current target',
 'A Ref element\'s value and u equal those of the element its path denotes at that moment, after any history of changes to the tree including replacement of the target or of containers above it; writing through a writable Ref changes exactly that target, a non-writable one refuses and an ignoring one does nothing.',
 ['histories','schedules','fault_sequences'],'all histories of tree mutations around references, absolute and relative targets, all writable modes',
 'Tests set the target once and read it once.',
 [S],[('Ref.target resolves the path from the root',S)])
p('T06','A compound\'s value always agrees with its children',
 'After any history of changes through the compound or directly through its children, a compound element\'s value and u are what its current children compose to (for DateYYYYMMDD the date and its ISO text, or None and u"" if they are not a date; for JoinedString the separator-joined children), and setting a value explodes into exactly the children it denotes. Failures inside compose or explode callbacks never leave the two sides disagreeing.',
 ['histories','fault_sequences','schedules'],'all histories mixing whole and part assignments with valid, invalid and partial data, all failing callbacks',
 'Tests set a compound once and read it back.',
 [K],[('value and u computed from children by compose()',K),('explode() assigns children',K)])
p('T07','Every element is found at the name it reports',
 'At every moment of any history of mutations, for every element of a tree: el(fq_name()) from any element of the tree returns that element, find of the equivalent absolute path returns it, root is the top of its parents, path runs from root to it, and all_children from the root visits each element exactly once, breadth first. flattened_name is the separator-joined names along the path and flatten() lists exactly the flattenable elements with their names.',
 ['histories','fault_sequences'],'all mutation histories over all nested schemas, including failed mutations',
 'Tests check addressing on freshly built fixed trees.',
 [B,C],[('parent pointers and slots maintained by every mutator',C),('fq_name and _index',B)])
p('T08','Objects and forms exchange exactly the selected attributes',
 'set_by_object and from_object read exactly the attributes selected by include, omit and rename (a renamed one regardless of the other two) from an object and set the element from the fields they name, as set() with those values would; update_object writes exactly the selected fields back, and slice returns exactly them. If an attribute access or a write raises, the exception reaches the caller, nothing that was not selected has changed, and repeating the call after the fault gives the full result.',
 ['inputs','fault_sequences','histories'],'all objects, selections and failing attribute accessors over all forms',
 'Tests use plain objects that never fail.',
 [C,U],[('keyslice_pairs',U),('Dict.set_by_object/update_object/slice',C)])
p('F01','Flattened elements survive storage and transport',
 'The pairs flatten() produces, stored key by key in a durable store or sent over a transport, restore with set_flat in another process to an element with the same value, u and flattened form, whatever order the pairs of different keys come back in and however often those of single-valued fields are duplicated (values of a repeated key of an Array or MultiValue keep their order and count). Pairs lost before they were durable cost exactly the fields they carry.',
 ['fault_sequences','crash_points','inputs','schedules'],'all elements of round-trippable schemas, all crash points of the writer, all losses, duplications and reorderings of pairs',
 'Tests round-trip a few literal lists in order with nothing lost.',
 [B,C,S],[('flatten and set_flat are inverse',B),('List regex and index sort',C)])
p('F02','set_flat assigns each pair to the element it names and nothing else',
 'The result of set_flat on a new element is determined by the set of pairs: reordering pairs of different keys, repeating pairs of single-valued fields, or adding pairs whose keys name no element the schema can hold (prefixes, extensions and near misses of real keys, malformed indexes) changes nothing and raises nothing. On an element that already holds data, fields named by no pair keep their state. Values of a repeated key on an Array or MultiValue are kept in the order received.',
 ['inputs','fault_sequences','histories'],'all schemas and all pair sequences, arbitrarily reordered, duplicated and interleaved with noise, on new and reused elements',
 'Tests use short tidy sequences.',
 [C,S],[('per-type _set_flat key matching',C)])
p('F03','Hostile flat input cannot grow a List past its bound',
 'set_flat never gives a List more than maximum_set_flat_members members, with or without prune_empty, whatever indexes the pairs carry and whatever order they come in; kept members are those with the lowest indexes (pruned) or at their own positions (not pruned), nested lists are bounded likewise, and work stays proportional to the input and the bound.',
 ['inputs','fault_sequences'],'all pair streams including huge, sparse, negative and non-ASCII indexes at every nesting level',
 'Tests try two or three index patterns.',
 [C],[('maximum_set_flat_members',C)])
p('T09','Every scalar type reads and prints exactly its documented text',
 'For String, Integer, Long, Float, Decimal, Boolean, Date, Time, DateTime, Constrained and Enum in every configuration (strip, signed, format, true/false and their synonyms, child type, valid values), set(), set_flat(), construction, membership in a sequence and adapt() accept exactly the texts and native values documented; the value is the native value they denote and u its canonical text, a refused value leaves value None and its own text as u, no text makes them raise, and canonical text reads back as itself. The answer depends on nothing set before on any element and not on other threads using the same class.',
 ['inputs','configurations','histories','schedules','fault_sequences'],'all texts and native values, all configurations, all histories on shared classes, interruption points',
 'Tests sample a few literals per type.',
 [S],[('adapt and serialize per type',S),('Scalar.set',S)])
p('V01','Validation visits, stops and judges as documented',
 'validate() runs descent validators breadth first on the way down and the others on the way back up in reverse order, visits each element at most once per direction, stops a validator chain at the first false, None, Skip or SkipAll result, does not visit below SkipAll/SkipAllFalse, skips validators of empty optional elements, and without validators requires non-emptiness. Its return value and each element\'s valid, errors and warnings are what those rules give for the current tree, on every validation in a history and with any number of threads validating elements of the same schemas.',
 ['histories','schedules','programs'],'all trees, validator result assignments and mutation/validation histories, all interleavings',
 'Tests assert a handful of fixed trees validated once.',
 [B,C],[('Element.validate two-pass loop',B),('validate_element short-circuit rules',B)])
p('V02','A validator that raises is contained',
 'An exception from a validator, message function or signal receiver reaches the caller of validate() and leaves every element\'s value, u and structure unchanged. Validating again once the fault is gone gives the verdict and messages that validation without the fault gives, without duplicated messages, and elements of other requests are unaffected.',
 ['fault_sequences','schedules','histories'],'all faulting validators at all call positions, all interleavings with other requests on the same schema and validators',
 'No test raises inside a validator and then validates again.',
 [B,VB],[('no state kept across validate() calls; add_error ignores duplicates',B)])
p('V03','Exactly one signal per validator run, with its own arguments',
 'While receivers are connected, each validator run emits validator_validated exactly once, after it, with the validator (or NotEmpty for the default check) as sender and the element, state and result of that very run; nothing is emitted for validators that did not run. Connecting and disconnecting receivers while other threads validate changes no verdict.',
 ['schedules','histories','fault_sequences'],'all interleavings of validations with receiver changes, all trees and results, failing receivers',
 'The signal test uses one receiver, one thread and one element.',
 [B,'flatland/signals.py'],[('send after each validator in validate_element',B)])
p('V04','Messages are built from their own element, validator, state and language',
 'A validation message is expanded from exactly the format arguments, state, validator and element of the run that reports it, with singular or plural chosen by the count and text and substitutions passed through the translator found first in state, element, ancestors, and builtins. Validators shared by threads working in different languages never mix data or translations, and a failing translator leaves no partial message.',
 ['schedules','fault_sequences','programs'],'all interleavings of validations by shared validators with different states, trees and translators; all failing translators',
 'Translation tests run one language in one thread.',
 [VB,'flatland/schema/util.py',VC],[('find_transformer search order',VB),('as_format_mapping over run-local targets',VB)])
p('V05','Cross-element validators judge the tree as it is now',
 'NotDuplicated, HasAtLeast/HasAtMost/HasBetween, ValuesEqual/UnisEqual/MapEqual give the verdict, element and message that the current siblings, length or referenced elements call for, on every validation in any history of mutations. One validator instance shared by many elements and threads carries nothing from one run to the next.',
 ['histories','schedules','fault_sequences'],'all histories of sequence and field mutations with validations in between, shared validator instances, failing comparators',
 'Tests validate freshly built literals.',
 [VC,VS],[('siblings enumerated through the parent on each run',VC),('field_paths resolved on each run',VS)])
p('V06','Value validators judge the current value by their current configuration',
 'Present, IsTrue, IsFalse, Converted, ValueIn, ShorterThan, LongerThan, LengthBetween, ValueLessThan, ValueAtMost, ValueGreaterThan, ValueAtLeast, ValueBetween and the field comparisons MapEqual, ValuesEqual and UnisEqual give, for every element state, exactly the verdict their documentation describes, add exactly one error with the documented message when they refuse and nothing when they accept, and leave the value and text alone. Options and bounds are consulted when the element is judged; one instance shared by many fields and threads carries nothing over, also after a run that was interrupted.',
 ['inputs','histories','schedules','fault_sequences'],'all values, texts, bounds, option containers and comparables, all histories of sets, reconfigurations and validations on shared instances, interruption points',
 'Tests call each validator once or twice on literals.',
 [VS,VB],[('validate methods',VS),('note_error',VB)])
p('V07','Network validators accept exactly the addresses and URLs configured',
 'IsEmail, URLValidator and HTTPURLValidator accept exactly the addresses and URLs their documentation and configuration describe (by default: an email with one @, a non-blank local part and a domain of at least two labels of letters, digits and hyphens after IDNA conversion; any URL with a scheme; an http or https URL with a host and without username and password), report unparseable text as such, raise for no string that the IDNA codec converts or refuses, and leave the element alone. URLCanonicalizer removes exactly the configured parts from value and text. Instances may be shared by any number of fields and threads.',
 ['inputs','configurations','histories','schedules','fault_sequences'],'all strings and near misses, all validator configurations, failing URL parsers, shared instances',
 'Tests sample literals with default settings.',
 ['flatland/validation/network.py'],[('domain_pattern and label checks','flatland/validation/network.py'),('required, forbidden, allowed parts','flatland/validation/network.py')])
p('V08','Phone and card number validators accept, report and rewrite as documented',
 'Luhn10 accepts exactly the non-negative numbers with a right checksum and always terminates; NANPphone accepts ten digits (and an extension when configured) and rewrites the element in the standard form; NANPnxx and NANPnpa_nxx refuse reserved or incomplete exchanges, ask the directory given by the state exactly once per judgement and put the error on the configured element; CreditCardNumber reads spaced and dashed numbers, prints them grouped by card type, and accepts exactly those of valid checksum and accepted type, naming the accepted types otherwise. No text makes them raise, and shared instances carry nothing over.',
 ['inputs','histories','schedules','fault_sequences'],'all numbers and texts, all configurations, failing directories, interruption points, shared instances',
 'Tests sample literals; phone validators have no tests.',
 ['flatland/validation/number.py','flatland/validation/string.py','flatland/ext/creditcard.py',U],[('luhn10',U),('_card_type, _pretty_print','flatland/ext/creditcard.py'),('fmt_line and fmt_ext','flatland/validation/string.py')])
p('M01','Generator settings are lexically scoped',
 'A setting made by begin() or set() is in effect exactly until the matching end() (or, at the outermost level, until changed), end() restores every setting including the running tabindex, and an unmatched end() or an unknown setting is refused without changing anything that was in effect before an enclosing begin(). Generators never influence each other, in any interleaving, also when a filter or element access fails in the middle of a tag.',
 ['histories','schedules','fault_sequences'],'all sequences of begin, set, end and tag calls on several generators used by several threads, all failing callbacks',
 'Tests run short balanced scripts on one generator.',
 [OG,OM],[('stack of copied frames',OG)],[('Context._frames','settings stack',OG)])
p('M02','Tags are well formed, escaped and filled from their element',
 'Every tag a Generator emits is well-formed markup whose attribute values decode back to exactly the given ones and whose contents are the given markup or the escaped text of the element, with name, value, id, for, checked, selected and tabindex filled in from the bound element as the settings in effect prescribe and never replacing an explicitly given attribute unless forced. Tabindex increases by one per tag that uses it, in render order.',
 ['inputs','histories','schedules','fault_sequences'],'all element texts including markup characters, all tags, attributes and settings, all render histories, failing filters',
 'Tests compare a list of literal outputs.',
 [OG,OM],[('transforms in order',OG),('_attribute_escape and _markup_escape',OM)])
p('M03','Rendering a shared Genshi template is repeatable',
 'A Genshi template with flatland directives, parsed once and rendered by any number of threads with different forms, gives each render the output it gives alone, and form:with settings end with their element. A render abandoned or failed part way has no effect on later or concurrent renders.',
 ['schedules','fault_sequences','histories'],'all interleavings of renders of one template over different forms, all abort points',
 'Tests render each template once in one thread.',
 [OX,OG],[('render context kept in the render\'s own template context',OX)])
p('D01','Defaults are applied afresh and never altered',
 'from_defaults and set_default give every element the value its schema\'s default or default_factory denotes, with children defaulted recursively as documented, and mutating the resulting element or its value never changes the default seen by other elements or later calls. default_factory is called with the element being defaulted, and one that raises leaves the schema and other elements untouched and the call repeatable.',
 ['histories','schedules','fault_sequences'],'all schemas with literal, factory and integer list defaults, all mutation histories after defaulting, all interleavings and failing factories',
 'Tests look at freshly defaulted elements only.',
 [B,C,S],[('default_value computed on access',B),('set_default per type',C)])
p('N05','Pure helper functions',
 'to_pairs, keyslice_pairs, Maybe logic, parse_trool, luhn10, re_uescape and autodocumentation compute the documented result of their arguments.',
 ['inputs'],'all arguments','Tests sample literals.',[U,'flatland/out/util.py'],[('plain functions',U)])
path=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(path,'w') as f:
    for o in out:
        assert len(o['title'])<=80,o['id']
        f.write(json.dumps(o)+'\n')
print(len(out))
