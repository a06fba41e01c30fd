#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))
S='flatland/schema/'; V='flatland/validation/'; O='flatland/out/'; U='flatland/util/'

prop('C01','Assigning a scalar updates raw, native value and text in tandem',
 "Assigning any input to a scalar field (string, integer, long, float, decimal, boolean, constrained/enumerated, date, time, datetime) records that exact input as the raw value and then either succeeds, returning True with the native value equal to the field type's adaptation of the input and the text equal to its serialization (empty text for no value), or fails, returning False with no native value and the text being the unicode form of the input (empty for None). No third outcome is possible for text, numeric, boolean, None, date/time or container inputs: the call never raises, and value and text never come from different assignments.",
 ['inputs','configurations'],'every scalar type and its options (strip, signed, format, synonyms, valid values, child type) and every input object, on a field with any previous state',
 'The tests assign a few dozen hand-picked inputs to fresh elements; the tandem guarantee ranges over every input, every option combination and every prior state.',
 [S+'scalars.py',S+'base.py'],
 [('Scalar.set',S+'scalars.py'),('adapt/serialize of each scalar type',S+'scalars.py')],
 [('raw/value/u','last input, native value, text form',S+'base.py Element')],['element.raw','element.value','element.u','return value of set()'])

prop('C02','Canonical text of a scalar reads back as the same value',
 "Whenever an assignment to a string, integer, long, boolean, enumerated, date, time or whole-second datetime field succeeds, assigning the resulting text to a field of the same kind succeeds too and yields an equal native value and identical text. Date, time and datetime fields are given naive whole-second values of their own type or text. (Values that serialize to empty text because nothing was set are the only exception: None reads back as the type's reading of empty text.)",
 ['inputs','configurations'],'all successfully adapted native values of those types, including negative and very large integers, years 1..9999, and any strip/true/false/synonym configuration whose canonical texts are themselves distinct and recognised',
 'Tests spot-check single literals; the inverse law is over all values and option sets.',
 [S+'scalars.py'],[('serialize then adapt',S+'scalars.py')],[],['element.value','element.u'])

prop('C03','Validator chains run in order and stop exactly where the protocol says',
 "Validating one element calls its validators in declaration order with the element and the caller's state, each at most once, and stops right after the first that returns None (result False), Skip (result True), or a false value or SkipAll/SkipAllFalse (result is that value); if none does the result is True. An optional empty element is valid without calling any validator, an element without validators is valid exactly when it is not empty, containers are not judged on the way down unless they have descent validators, and each executed validator (or the emptiness check) is announced once to the validation signal with its own result.",
 ['inputs','configurations'],'any number and order of validators, any returned values, any element state, with and without signal receivers',
 'Tests use chains of one to three validators with a handful of results; the protocol is for chains of any length and any returned object.',
 [S+'base.py',S+'containers.py','flatland/signals.py'],[('validate_element',S+'base.py'),('Element._validate',S+'base.py'),('Container._validate',S+'containers.py')],
 [],['sequence of validator calls','signal emissions','result'])

prop('C04','Validating a tree visits it breadth-first down and in reverse up',
 "Validating a root element with recursion judges every reachable element once going down in breadth-first order and then, in exactly the reverse order, once going up; an element whose downward result is SkipAll or SkipAllFalse keeps its descendants from being queued, so they are neither judged nor modified on its account. With results drawn from booleans, None, 0, 1 and the Skip constants, the call returns True exactly when every evaluated result was true and leaves each visited element marked with its downward result overridden by its upward result only if the downward mark was valid; unevaluated passes change nothing. Without recursion only the element itself is judged, down then up, and the up result, when evaluated, is final.",
 ['inputs','programs','configurations'],'every element tree (any depth, width, sharing) and every assignment of validation results (booleans, None, 0, 1, the Skip constants) to its nodes and passes',
 'Tests validate trees of two or three levels; order, completeness and the aggregate verdict must hold for all trees and results.',
 [S+'base.py'],[('Element.validate',S+'base.py')],[('valid','verdict per element',S+'base.py')],['order of validator calls','element.valid','return value'])

prop('C05','Parent links, roots, paths and child enumerations agree',
 "For every element of a tree: iterating its parents yields its ancestors from nearest to the root, the root is the last of these (or the element itself), its path is that list reversed followed by the element, and enumerating all children of an element yields each proper descendant exactly once in breadth-first order, never the element itself. The flattened name is the separator-joined sequence of the names that are not None along the path, and all_valid is true exactly when the element and all those descendants are valid and assigning it marks all of them.",
 ['inputs','programs'],'all element trees of any shape, including list members behind slots, shared or cyclic children',
 'Tests check one or two fixed trees; the relations must hold between every pair of nodes of every tree.',
 [S+'base.py',S+'util.py',S+'containers.py'],[('parents/root/path/all_children/flattened_name',S+'base.py')],[('parent','link to the containing element or slot',S+'base.py')],['element.parents','element.root','element.path','element.all_children'])

prop('C06','Sequences stay well formed under every mutation',
 "After any series of list-style mutations (append, extend, insert, item and slice assignment and deletion, pop, remove, sort by a key, reverse, in-place addition, set, set_default) an array or list contains only elements, in the order a plain Python list would hold the corresponding values, every member's parent chain leads back to the sequence, and the members of a list are numbered 0..n-1 by position in their flattened names. (Element instances that are inserted are fresh, not already members somewhere.) Reading operations (indexing, slicing, iteration, len, contains, index, count, value, children) agree with that order and return the members themselves, and pop returns the removed member.",
 ['histories','inputs'],'all finite histories of mutations with any valid or invalid indexes and values',
 'Tests apply one mutation at a time to short lists; corruption shows after particular combinations and index values.',
 [S+'containers.py'],[('Sequence and List mutators',S+'containers.py'),('List._renumber',S+'containers.py')],[('slot names','position of each member',S+'containers.py ListSlot')],['list contents','flattened_name()','parent'])

prop('C07','Lists rebuild from flat pairs in index order within the member cap',
 "Restoring a list from flat pairs drops earlier members and uses only pairs whose key is the list's name (if any), the separator and a decimal index followed by the separator or the end; pairs of one index go to one member in the order given. With pruning, blank values are ignored and only indexes that remain are kept, in ascending numeric order; without pruning the members cover every index from 0 to the highest seen. In both cases at most the configured maximum number of members is created, however large the indexes.",
 ['inputs','configurations'],'all pair sequences, names, separators, prune settings and caps',
 'Tests feed a few well-formed pair lists; the hostile-input bound and ordering concern every pair list.',
 [S+'containers.py'],[('List._set_flat',S+'containers.py')],[],['len(list)','member values'])

prop('C08','Mapping fields stay closed over their schema',
 "A mapping element always holds, for each of its keys, an element created from the schema field of that name whose parent is the mapping, and never a key outside the schema; a full mapping always holds exactly all schema keys, so deletion, popping, clearing and unknown keys are refused with an exception and no change. A sparse mapping may hold any subset, except that with required minimum fields the non-optional keys are always present after construction or reset and cannot be deleted or popped.",
 ['histories','inputs','configurations'],'all histories of dictionary operations (item assignment and deletion, update, pop, popitem, clear, setdefault, get, set, set_default, set_flat) with any keys and values',
 'Tests try each refused operation once; closure must survive every history, including refused ones.',
 [S+'containers.py'],[('Mapping/Dict/SparseDict mutators',S+'containers.py')],[('keys','mapping keys subset of schema names',S+'containers.py')],['keys()','child.parent','exceptions'])

prop('C09','Setting a mapping honours its key policy and accounts for every key',
 "Setting a mapping from pairs resets all fields and then sets exactly the fields named by the input with the values given (the last one winning), returning True exactly when every one of those assignments succeeded. Under policy 'duck' unknown keys are ignored, under 'subset' and 'strict' an unknown key raises KeyError, and under 'strict' (and for plain mappings, always) a missing key raises TypeError; a policy given to the call overrides the schema's.",
 ['inputs','configurations'],'all schemas, policies, and dict-like or pair-sequence inputs including duplicate, missing and unknown keys',
 'Tests cover one schema with a few key sets per policy.',
 [S+'containers.py',U+'base.py'],[('Mapping.set, Dict.set',S+'containers.py'),('to_pairs',U+'base.py')],[],['return value','field values','exceptions'])

prop('C10','Path expressions select exactly the elements their steps describe',
 "Evaluating a path expression against an element applies its steps left to right: a leading slash goes to the root, '.' stays, '..' goes back up to the parent (cancelling the step written before it if there is one, staying put at the root), a name or index selects that child, a slice with a non-zero step expands to the children it denotes under Python slice rules, and the result lists the selected elements in order. A missing child raises LookupError in strict mode and is skipped otherwise; asking for a single result gives None for no match, raises LookupError for several matches in strict mode and otherwise gives the first; the answer for an expression never depends on what expressions were evaluated before.",
 ['inputs','histories','programs'],'all element trees, all path strings built from names (with escapes), slices, dots and slashes, both strictness settings, and any number of previously used expressions',
 'Tests cover a fixed list of expressions on two trees and never exhaust the expression cache.',
 [S+'paths.py',S+'base.py'],[('pathexpr, PathExpression.__call__, tokenize, _canonicalize, _parse_slice',S+'paths.py'),('Element.find',S+'base.py')],[('expression_cache','bounded cache of compiled expressions',S+'paths.py')],['find() results','LookupError'])

prop('C11','Fully qualified names lead back to their element',
 "For every element reachable from its root by name or, for members of lists and arrays, by index, looking up its fully qualified name from any element of the same tree returns that very element, with any separator not occurring in the names. Looking up a name that does not exist raises KeyError, and an iterable of names behaves like the joined string.",
 ['inputs','programs'],'all trees of nested mappings and sequences, any starting element, any separator',
 'Tests check a handful of names in one tree.',
 [S+'base.py'],[('fq_name, el, _parse_element_path',S+'base.py'),('_index',S+'containers.py')],[],['el()','fq_name()'])

prop('C12','Schema properties overlay their ancestors without leaking',
 "The properties seen on a schema class are those of its nearest ancestors overlaid by its own, and an element sees its class's properties overlaid by its own; deleting or popping a key hides it at that level only. Every read view (item access, get, contains, iteration, items, copy, truth, equality) presents the same mapping, every supported mutating dictionary operation (item assignment and deletion, update, pop, setdefault, clear) behaves as on a plain dict holding that mapping, and no operation on one class or element changes what its parents, siblings or other elements see.",
 ['histories','programs'],'all class hierarchies derived from a schema, all elements, and all histories of dictionary operations on any of them',
 'Tests use two or three classes with short histories; isolation is over all interleaved histories on a hierarchy.',
 [S+'properties.py'],[('_TypeLookup, _InstanceLookup, Properties',S+'properties.py')],[('frames','per-class overlays and deletion markers',S+'properties.py')],['properties of classes and instances'])

prop('C13','Deriving a schema never changes the schema it came from',
 "Each declarative schema call (naming, overriding attributes, setting or adding validators or descent validators, declaring members or fields, adding properties, enumerating values) returns a new direct subclass of the receiver that differs only in what was requested, leaving the receiver, its other derivatives and existing elements exactly as they were. Added validators are spliced at the requested list position (by default after the existing ones), a caller's validator list is copied, and unknown attributes, validator types given to validated_by or descent_validated_by instead of instances, element instances passed as field types and duplicate field names are rejected with TypeError.",
 ['inputs','histories','configurations'],'all chains of declarative calls on any element class, any positions and argument lists',
 'Tests look at the derived class after one call; they rarely look back at the original or at siblings.',
 [S+'base.py',S+'containers.py',S+'scalars.py',U+'base.py'],[('class_cloner.__get__',U+'base.py'),('using, validated_by, including_validators, named, of, valued',S+'base.py')],[],['class attributes before and after'])

prop('C14','Generated markup escapes all text',
 "Every attribute value and every piece of text taken from a field that is written into generated markup has its &, <, > (and in attribute values the double quote) replaced by entities exactly once, except objects that declare themselves markup, which pass through verbatim; unescaping the entities gives back the original text. Hence no plain field value or attribute value can close its attribute, start a tag, or introduce an entity.",
 ['inputs'],'all text values and all tags, in xml, xhtml and html output styles',
 'Tests render a few benign values; injection safety is about every string.',
 [O+'generic.py',O+'markup.py',S+'base.py'],[('_markup_escape',O+'generic.py'),('_attribute_escape, Tag._open',O+'markup.py'),('Element.x, Element.xa',S+'base.py')],[],['generated markup'])

prop('C15','Markup settings behave as properly nested scopes',
 "Beginning a settings scope makes its settings effective and ending it restores exactly the settings in force before the matching begin, whatever was set in between; a rejected begin or update with an unknown setting leaves the scope stack as it was before the call's scope. Ending more scopes than were begun is refused and loses nothing, unknown settings are always refused, and a setting changed in a scope never alters enclosing scopes or other generators.",
 ['histories','inputs'],'all histories of begin, end, set, push, pop, update and item assignment, with known and unknown settings',
 'Tests nest at most two scopes; restoration must hold for every nesting and failure.',
 [O+'generic.py',O+'markup.py'],[('Context.push/pop/update/__setitem__',O+'generic.py'),('Generator.begin/end/set',O+'markup.py')],[('_frames','stack of settings',O+'generic.py')],['generator[setting]'])

prop('C16','Automatic markup attributes obey toggles and explicit values',
 "For each automatic attribute (name, value, id, for, tabindex, filters) the effective switch is the tag's own toggle if it is a definite yes or no, else the scope's setting, else the built-in default, and the toggle itself never appears in the output. A generated attribute is written only when switched on, and overwrites an explicitly supplied one only when the tag itself forces it; checkboxes, radio buttons and options are marked checked or selected exactly when their value is the field's text (or a member, for arrays), passwords, files and images are never filled in unless forced, and a positive tab index advances by one per tag that received it.",
 ['inputs','configurations'],'all tags, input types, toggles and spellings of yes/no/auto, scope settings, bound fields and explicit attributes',
 'Tests enumerate a slice of the combinations of toggle, scope setting, tag and explicit attribute.',
 [O+'generic.py',O+'util.py'],[('_pop_toggle and transform_*',O+'generic.py'),('parse_trool',O+'util.py')],[],['attributes of the generated tag'])

prop('C17','The Luhn checksum accepts exactly the numbers with a valid check sum',
 "For every integer the Luhn check terminates and answers True exactly when the weighted digit sum (every second decimal digit from the right doubled, doubled values reduced to their digit sum) of its absolute value is divisible by ten. The Luhn validator accepts exactly the elements whose number passes, and rejects elements without a number.",
 ['inputs'],'all integers, of any size and sign',
 'Tests check a few card numbers; correctness and termination are over all integers.',
 [U+'base.py',V+'number.py'],[('luhn10',U+'base.py'),('Luhn10.validate',V+'number.py')],[],['return value'])

prop('C18','Built-in validators decide exactly their stated condition',
 "Each built-in scalar and container validator (presence, truth, falsehood, membership, conversion, length and value bounds, member-count bounds, no duplicates, equality of several fields) returns True exactly when its documented condition holds for the element, including at the bounds; otherwise it returns False and registers exactly one error message on the element (never twice the same). A passing validator changes nothing on the element and none ever alters its value or text.",
 ['inputs','configurations'],'all element values and texts, all bounds and option lists, all sibling sequences',
 'Tests check one value per side of a bound; exactness is over all values and bounds.',
 [V+'scalars.py',V+'containers.py',V+'base.py',S+'base.py'],[('validate methods',V+'scalars.py'),('validate methods',V+'containers.py'),('note_error, add_error',V+'base.py')],[],['return value','element.errors'])

prop('C19','Validation messages are expanded from the first source that provides a name',
 "A message key resolves to the validator's own attribute unless an explicit message is given; callables are called with element and state, and each %(name)s is filled from the first of the extra arguments, the state, the validator and the element that offers that item or attribute, passed through the translator if one was found. Plural messages use the singular form exactly for a count of one (via the plural translator when found), translators come from the state, then the nearest ancestor that defines one, then the builtins, and recording a message ignores duplicates and always yields False.",
 ['inputs','configurations'],'all messages (text, plural triple, callable), name sources, counts and translator placements',
 'Tests cover a few placements of translators and names; precedence is over all combinations.',
 [V+'base.py',S+'util.py',S+'base.py'],[('note_error, expand_message, find_transformer, as_format_mapping',V+'base.py'),('search_ancestry, find_i18n_function',S+'util.py')],[],['element.errors','element.warnings'])

prop('C20','Slicing and object transfer move exactly the selected pairs',
 "Filtering pairs keeps their order and emits a pair under its renamed key whenever its (key-mapped) key is renamed, and otherwise unchanged exactly when it passes include or omit; giving both include and omit is refused. Slicing a mapping, updating an object from it, and setting it from an object (non-strict policy, for the fields the mapping holds, without rename collisions) transfer exactly the values selected this way, never touch other attributes or fields' names, and ignore attributes the object lacks. An empty include or omit counts as not given.",
 ['inputs','configurations'],'all pair sequences, include/omit/rename/key settings, and objects',
 'Tests try each option alone; the interaction of options over arbitrary pairs is unbounded.',
 [U+'base.py',S+'containers.py'],[('keyslice_pairs, to_pairs',U+'base.py'),('slice, update_object, set_by_object',S+'containers.py')],[],['resulting dict','object attributes'])

prop('C21','Compound fields agree with their parts',
 "A year/month/day compound always presents the date its three parts spell, with its ISO text, or no value and empty text when they spell none; setting it to a date or ISO text distributes the parts, setting it to anything else blanks them all, and it never raises. A joined string always presents its members' texts joined by its separator, and setting it from text splits on the separator (or separator pattern), dropping blank parts exactly when pruning, and succeeds exactly when every part is accepted.",
 ['inputs','configurations'],'all dates, texts, part values, separators, patterns and prune settings',
 'Tests check a few dates and strings.',
 [S+'compound.py',S+'scalars.py'],[('DateYYYYMMDD.compose/explode, Compound.set, JoinedString.set/value',S+'compound.py')],[],['value','u','children'])

prop('C22','Flat import reaches exactly the matching fields; flat export inverts it',
 "Importing flat pairs sets a scalar only from the first pair whose key is its name, and routes to a mapping's fields only pairs whose keys carry the mapping's name and separator as prefix; arrays collect every matching pair in order, ignoring blanks when pruning; pairs that match nothing have no effect. Exporting lists every flattenable element once with its full flattened name (elements below a joined string, which exports its own text, are left out), and importing an export into a fresh element of the same schema reproduces the same texts, for trees whose names do not collide and whose list members are not pruned away.",
 ['inputs','programs','configurations'],'all schemas of scalars, mappings, arrays, multi-values and lists, all separators, and all pair sequences',
 'Tests round-trip a few forms; routing must hold for arbitrary hostile pairs.',
 [S+'base.py',S+'containers.py',S+'scalars.py'],[('Element.flatten/set_flat, Scalar/Mapping/Array._set_flat',S+'containers.py')],[],['flatten()','element values'])

prop('C23','Form classes collect declared and inherited fields with Python precedence',
 "A form class's fields are those of its bases, a base listed earlier winning over later ones for the same name, with fields given in the class's own field list replacing inherited ones and fields declared as class attributes replacing both. Each field name appears exactly once, attribute declarations are renamed to their attribute name without altering the schema used, they do not remain class attributes, and the bases are never changed.",
 ['programs','configurations'],'all single and multiple inheritance hierarchies of forms and dict schemas with any overlapping names',
 'Tests build a few hierarchies with one or two overlaps.',
 [S+'forms.py'],[('_MetaForm.__new__, _ElementCollection',S+'forms.py')],[],['field_schema'])

prop('C24','Email, URL and phone validators accept exactly well-formed input',
 "The email validator accepts exactly text with one @, a non-blank local part matching any given pattern, and a domain that after IDN conversion is at most 253 characters of valid labels below 64 characters (at least two unless local addresses are allowed); the URL validators reject exactly URLs lacking a scheme or required part, or using a disallowed scheme or part, and the HTTP validator by default demands an http or https scheme. The canonicalizer changes only the discarded parts, and the phone validator accepts exactly ten-digit numbers (longer ones only as extensions allow), rewriting them in standard form; none of them raises on any text.",
 ['inputs','configurations'],'all texts and validator option settings',
 'Tests list some dozens of addresses and URLs.',
 [V+'network.py',V+'string.py'],[('IsEmail, URLValidator, HTTPURLValidator, URLCanonicalizer',V+'network.py'),('NANPphone',V+'string.py')],[],['return value','element.value'])

prop('C25','Defaults fill an element exactly as its schema says',
 "Resetting an element to its defaults uses the default factory called with the element when there is one and otherwise the default; a scalar is set to it, a list given an integer gets that many members each set to their own defaults and otherwise is set to it, a mapping without a default sets every (for sparse mappings: every required) field to that field's default. Creating an element from defaults equals creating it and resetting it, and repeating the reset gives the same result.",
 ['inputs','configurations','programs'],'all schemas with defaults and factories at any level, in any prior state',
 'Tests check shallow schemas with one default.',
 [S+'base.py',S+'scalars.py',S+'containers.py'],[('set_default, default_value, from_defaults',S+'containers.py')],[],['element.value'])

prop('C26','Compound schema initialization runs exactly once under concurrent first use',
 "However many threads construct the first elements of a compound schema at the same time, its preparation hook runs exactly once per schema class, and every element is built from a prepared schema.",
 ['schedules'],'all interleavings of threads constructing the first element of a compound class',
 'Tests are single threaded.',
 [S+'compound.py'],[('_MetaCompound.__call__',S+'compound.py')],[('_compound_prepared','set once the hook ran',S+'compound.py')],['number of hook runs'])

prop('C27','Template-engine output agrees with the plain markup generator',
 "Rendering a bound tag through the template integration yields the same attributes and contents as the plain generator for the same tag, attributes, settings and bound field (attribute values and contents being plain text).",
 ['inputs','configurations'],'all tags, attributes, settings and bound fields',
 'Tests compare a fixed list of tags.',
 [O+'genshi.py',O+'markup.py',O+'generic.py'],[('shared transform functions',O+'generic.py'),('genshi directives',O+'genshi.py')],[],['rendered output'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,sort_keys=False)+'\n')
print(len(P))
