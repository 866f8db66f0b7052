import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=mech,where=', '.join(files))]))
    d['anchors'].update(kw); assert len(title)<=80,title; P.append(d)
I=['inputs']; H=['inputs','histories']; C=['inputs','configurations']
p('P01','JSON Pointer syntax and round trip (RFC 6901)',
 'A string is accepted as a JSON Pointer exactly when it matches the RFC 6901 grammar (and rejected with the malformed-pointer error otherwise), and is then decomposed into exactly its unescaped reference tokens. Converting a pointer to a string and parsing it back yields an equal pointer for every sequence of keys, and parsing an accepted string and converting back yields the same string. The "json-pointer" format accepts exactly the same strings.',
 I,'all strings; all finite sequences of arbitrary string keys','Escaping bugs hide in rare mixes of "~", "/" and digits; tests sample a few strings from a grammar.',
 ['jschon/jsonpointer.py','jschon/formats.py'],'regular expression, escape/unescape and constructor of the pointer class')
p('P02','JSON Pointer evaluation finds exactly the referenced value',
 'Evaluating a pointer against any document returns exactly the value reached by looking up each key in turn (object member by name; array item by a "0"-or-no-leading-zero decimal index within range), and the document itself for the empty pointer. Whenever any step has no such value, including strings and scalars as containers and "-" or malformed indices on arrays, the pointer-reference error is raised and no other exception. The outcome is the same whether the document is a plain Python value or a JSON document node.',
 I,'all pointers and all documents, plain or wrapped','Needs all key/container-kind combinations (leading zeros, signs, "-", huge indices, string containers); tests evaluate only pointers generated to exist.',
 ['jschon/jsonpointer.py','jschon/json.py'],'pointer evaluation; JSON item lookup')
p('P03','JSON Pointer algebra: concatenation, slicing, prefix order, equality, hash',
 'A pointer behaves as an immutable sequence of keys: construction from several arguments and the "/" operator concatenate key sequences without altering their operands, and indexing, slicing and length agree with the key sequence. Equality holds exactly when key sequences are identical and equal pointers hash equally. "<=" holds exactly when the left key sequence is a prefix of the right and "<" exactly when it is a proper prefix, with ">=" and ">" their mirror images.',
 I,'all key sequences, indices, slices and pairs of pointers','Algebraic laws over unbounded sequences and aliasing between pointers cannot be sampled exhaustively.',
 ['jschon/jsonpointer.py'],'sequence methods and comparison operators of the pointer class')
p('P04','URI fragment encoding of pointers is a legal, lossless round trip',
 'For every pointer, its URI-fragment form contains only characters legal in an RFC 3986 fragment (percent-encoding everything else as UTF-8) and decodes back to an equal pointer. A fragment that decodes to a string which is not a valid pointer is rejected with the malformed-pointer error.',
 I,'all key sequences over all Unicode scalar values','Depends on the exact safe-character set; tests use few reserved characters.',
 ['jschon/jsonpointer.py'],'fragment encoding and decoding methods')
p('P05','Relative JSON Pointer syntax, round trip and evaluation',
 'A string is accepted as a relative JSON pointer exactly when it consists of a non-negative integer without leading zeros, an optional signed non-zero index adjustment, and either "#" or a JSON Pointer; string conversion reproduces it, and objects built from components compare, hash and print like those parsed from text. Evaluation climbs exactly the given number of levels, applies the index adjustment only among the items of an array and only within its bounds, then returns the key/index for "#" or the value at the pointer. Climbing above the root, an adjustment outside an array or out of range, "#" at the root, and an unresolvable pointer each raise the relative-pointer reference error.',
 I,'all strings; all levels, adjustments and pointers at all nodes of all documents','Boundary arithmetic (0, -1, length) at all depths; tests use one example document.',
 ['jschon/jsonpointer.py'],'relative pointer parsing and evaluation')
p('P06','A JSON document node faithfully represents the value it was built from',
 'Building a JSON node from any JSON-compatible value (member names are strings) yields a tree whose type, length, items and reported value equal the original (booleans are never numbers, object member order is kept), and a value that is not JSON-compatible is rejected with TypeError. Every item of an array or object node has that node as its parent and its own index (as a decimal string) or member name as its key, and its path is exactly the sequence of keys from the root; the items are built by the item class given for the node, with its keyword arguments.',
 I,'all JSON-compatible values of any nesting','Structural induction over unbounded trees; bool/int and tuple/list corner cases.',
 ['jschon/json.py'],'node construction, path and value accessors')
p('P07','JSON node trees stay coherent under any sequence of mutations',
 'After any sequence of item assignments, deletions, insertions and inherited list/dict operations (append, extend, pop, reverse, update, setdefault) with valid arguments on any nodes of a document, every reachable node has the correct parent and key, its path leads from the root to that node, and the value of every node equals the current contents of its tree, even when paths and values had been read before the mutation. A single assignment, deletion or insertion that raises leaves the document unchanged. Values taken from other nodes are copied, so later changes to the source never show through.',
 H,'all mutation histories, interleaved with reads of path and value','Stale cached paths/values need a particular read-mutate-read order at a particular depth.',
 ['jschon/json.py'],'item assignment, deletion, insertion, cache invalidation', state=[dict(name='parent/key/path/value',meaning='links and memoised views of every node')])
p('P08','In-place JSON add, remove and replace follow RFC 6902',
 'The in-place add, remove and replace operations of a JSON node change the value of the node exactly as the corresponding RFC 6902 operation would change that document (insert before an array index or at the end for "-" or the length; set an object member; replace the whole node for the empty path). They raise the JSON error, leaving the document unchanged, whenever the target (for add: the parent, or the array index) does not exist or an index is malformed. The node keeps its place in any enclosing document, whose reported value reflects the change, and its item class, which builds the new items.',
 I,'all documents, paths and values','Error paths and root/nested replacements combined with cached values are not sampled.',
 ['jschon/json.py','jschon/jsonpointer.py'],'add/remove/replace methods of the node class')
p('P09','JSON equality and ordering are semantic',
 'Two JSON nodes, or a node and a plain value, compare equal exactly when they denote the same JSON value: same type, numbers by mathematical value (1 equals 1.0), booleans never equal numbers, arrays elementwise in order and of equal length, objects by equal member sets regardless of order. Equality is reflexive, symmetric and transitive, and unequal is its negation. Ordering comparisons of numbers and strings agree with those of the underlying values.',
 I,'all pairs (and triples) of JSON values','Recursive mixed-type comparison (true vs 1, nested, differing lengths) needs structural induction.',
 ['jschon/json.py'],'comparison operators')
p('P10','JSON text serialization round trips and rejects non-JSON numbers',
 'Serializing a JSON node to text or to a file and loading it back yields an equal node, and the text is valid JSON denoting exactly the node value. Loading text or a file containing NaN or Infinity, and serializing a node containing such a float, raise ValueError instead of producing a value or text. Extra keyword arguments given on loading reach the constructor.',
 I,'all JSON values; all JSON texts','Non-finite numbers anywhere in a nested document; non-ASCII text.',
 ['jschon/json.py','jschon/utils.py'],'load*/dump* methods and helpers')
p('P11','JSON Patch operations implement RFC 6902',
 'Each JSON Patch operation (add, remove, replace, move, copy, test) applied to a document yields exactly the document RFC 6902 specifies. It raises the JSON-patch error, and no other exception, in every case the RFC makes an error: missing target or source location, missing or scalar parent, an array index that is out of range or malformed (sign, leading zero, non-digit), "-" where an existing element is needed, moving a location into one of its own children, and a failed test. The test operation uses JSON equality (types matter, member order does not).',
 I,'all documents, paths, source paths and values','Needs each operation against every parent kind and index form; tests only use well-formed paths into generated documents.',
 ['jschon/jsonpatch.py','jschon/jsonpointer.py','jschon/json.py'],'patch operation functions and target location')
p('P12','Patch evaluation is sequential, isolated and repeatable',
 'Evaluating a patch applies its operations strictly in order, each to the result of the previous, and if any operation fails the whole evaluation raises. Neither the input document nor the patch (its operation values included) is ever modified, and the result shares no mutable structure with either or with itself across copied locations, so evaluating twice gives equal results and mutating a result affects nothing else.',
 H,'all patches and documents; all later mutations of results','Aliasing shows only when a copied or added container is modified by a later operation.',
 ['jschon/jsonpatch.py'],'patch evaluation and copying of values')
p('P13','Patch objects round trip and behave as mutable sequences',
 'A patch built from operation objects or equivalent dictionaries (each with exactly the members of its kind), and the patch rebuilt from its list-of-dictionaries form, compare equal, and that form contains exactly the RFC 6902 members for each operation (op and path always; value for add, replace, test; from for move, copy). Indexing, slicing, assignment, deletion, insertion and length behave as for a list of operations, converting dictionaries to operations. Operations compare equal exactly when op, path, from-path and JSON value are equal; unknown op names are rejected with ValueError.',
 I,'all operations and sequences of edits to a patch','Every op kind crossed with str/pointer arguments and edits; tests build valid lists only.',
 ['jschon/jsonpatch.py'],'operation constructor, dictionary conversion, sequence methods, equality')
p('P14','Assertion keywords decide exactly what the specification says',
 'For every instance of an applicable type, each assertion keyword (type, enum, const, multipleOf, maximum, exclusiveMaximum, minimum, exclusiveMinimum, maxLength, minLength, pattern, maxItems, minItems, uniqueItems, maxProperties, minProperties, required, dependentRequired) fails exactly when the JSON Schema specification says the instance is invalid; instances of other types always pass. Integers include floats with zero fractional part, multipleOf is exact for arbitrarily large or small numbers, and uniqueItems/enum/const use JSON equality. minContains and maxContains bound the number of items matching the sibling "contains" (minContains 0 makes it always pass) and are ignored without one.',
 I,'all keyword values and all instances','Boundaries and type mixes per keyword; the available baseline does not run the JSON Schema test suite at all.',
 ['jschon/vocabulary/validation.py'],'evaluate method of each assertion keyword')
p('P15','In-place applicators combine subschema outcomes correctly',
 'For every instance: allOf passes exactly when all subschemas pass, anyOf when at least one passes, oneOf when exactly one passes, not when the subschema fails, and dependentSchemas when every subschema whose property is present passes. "then" applies exactly when "if" is present and passes, "else" exactly when "if" is present and fails, and "if" itself never affects the verdict. All branches are evaluated, so annotations of every passing branch are available.',
 I,'all lists of subschemas (any length, any behaviour) and all instances','Universal over number and outcomes of subschemas.',
 ['jschon/vocabulary/applicator.py'],'evaluate method of each in-place applicator')
p('P16','Array and object applicators apply the right subschema to the right child',
 'For every instance: properties applies each named subschema to that member, patternProperties each subschema to every member whose name matches the pattern, additionalProperties its subschema to exactly the members matched by neither sibling, and propertyNames its subschema to every name; each passes exactly when all those applications pass and reports the member names it applied to. prefixItems (2019-09 array-form items) applies subschemas positionally, items (additionalItems) its subschema to exactly the remaining items, and contains passes exactly when at least one item matches. Their annotations record the largest index, true when everything was covered, or the matched indices, as the specification requires.',
 I,'all instances, subschema lists/maps of any size, all sibling combinations','Universally quantified over members, indices and sibling presence.',
 ['jschon/vocabulary/applicator.py','jschon/vocabulary/legacy.py'],'evaluate method of each child applicator')
p('P17','unevaluatedItems and unevaluatedProperties see exactly what was evaluated',
 'unevaluatedProperties applies its subschema to exactly those members, and unevaluatedItems to exactly those items, of the instance that no adjacent keyword or passing in-place subschema (through any nesting of allOf, anyOf, oneOf, if/then/else, not-free references and dependentSchemas) has successfully evaluated; they pass exactly when all those applications pass. Subschemas that failed contribute nothing, also inside "not". Contained items count as evaluated in 2020-12 and not in 2019-09.',
 I,'all schemas with arbitrary nesting and all instances','Depends on the entire history of annotations along all branches.',
 ['jschon/vocabulary/applicator.py','jschon/vocabulary/legacy.py','jschon/jsonschema.py'],'unevaluated* keywords; annotation collection')
p('P18','A schema verdict is the conjunction of its keywords, in dependency order',
 'A schema evaluates an instance as valid exactly when it is true, or is an object all of whose applicable keywords pass; false rejects everything. Every keyword of the schema is evaluated exactly once if it applies to the instance type and never otherwise, after all keywords it depends on and independently of the order in which the schema object lists them. Evaluation does not modify the schema or the instance, and repeating it gives the same result.',
 C,'all schemas, all orders of their members, all instances','Order independence is over all permutations of keywords; tests use one order.',
 ['jschon/jsonschema.py','jschon/vocabulary/__init__.py'],'schema construction and evaluation; keyword ordering')
p('P19','Annotations and errors are collected from exactly the right results',
 'Collecting annotations from a result yields exactly the annotations of nodes all of whose ancestors-or-self within that result are valid and not discarded, optionally restricted to an instance location and/or keyword, in evaluation order; collecting errors is the mirror image for invalid nodes. A sibling lookup returns the result of the named adjacent keyword for the same instance location, or nothing. Annotation keywords (title, description, default, deprecated, readOnly, writeOnly, examples, format, content*) record their own value and never affect validity, contentSchema only when contentMediaType is present.',
 I,'all result trees, instances and keys','Result trees are unbounded; filtering combines several conditions.',
 ['jschon/jsonschema.py','jschon/vocabulary/annotation.py','jschon/vocabulary/format.py'],'result node class; annotation keywords')
p('P20','Output formats report exactly the evaluation outcome',
 'For every evaluation result each output format reports "valid" equal to the verdict. The basic format lists, for a valid result, exactly the annotations of all valid nodes reachable through valid nodes (optionally restricted to given keywords) and, for an invalid one, exactly the errors of all invalid nodes reachable through invalid nodes, each with its instance location, keyword location and absolute keyword location; detailed and verbose nest the same information (verbose for all nodes) and hierarchical nests it per evaluated schema (references included), by keyword name.',
 I,'all result trees','Trees are unbounded; formats recurse.',
 ['jschon/output.py'],'output formatter functions')
p('P21','References resolve to the schema the URI identifies, dynamically where required',
 '"$ref" resolves, against the base URI established by the nearest enclosing "$id", to the schema with that URI, anchor or JSON-pointer fragment, and evaluates exactly as that schema would; an unresolvable reference raises an error when the schema is constructed. "$dynamicRef" to a "$dynamicAnchor", and "$recursiveRef" to a "$recursiveAnchor", resolve to the outermost schema in the dynamic scope that declares the same dynamic anchor, and otherwise behave as plain references. The canonical URI reported for any subschema identifies that subschema when looked up.',
 C,'all schemas, nestings of "$id", anchors and reference forms, all dynamic scopes','Dynamic scope and base-URI nesting are unbounded.',
 ['jschon/vocabulary/core.py','jschon/vocabulary/legacy.py','jschon/vocabulary/future.py','jschon/jsonschema.py','jschon/catalog/__init__.py'],'reference keywords, base/canonical URI, schema cache lookup')
p('P22','Longest matching source prefix wins; load failures are catalog errors',
 'Loading a URI uses the registered source whose base URI is the longest prefix of that URI (a default source registered without a base URI only when no other matches), passes it exactly the remainder of the URI, and returns what it returns. A URI that is relative, not normalized or has a fragment, a missing source, and any failure inside a source raise the catalog error; base URIs that are relative, not normalized, have a fragment or do not end in "/" are rejected on registration. Local and remote sources resolve the remainder against their base and append their suffix.',
 C,'all sets of registered prefixes and URIs','Overlapping prefixes in any registration order.',
 ['jschon/catalog/__init__.py'],'source registration and loading')
p('P23','Schema caches are isolated and context-managed caches disappear',
 'A schema added to a catalog cache under a URI is returned for that URI from that cache and no other until removed or replaced, and changing a schema URI moves its entry. A context-managed cache is unavailable after the block ends, however it ends, entering one with an identifier already in use raises the catalog error without disturbing the existing cache, and looking up something that exists but is not a schema raises the catalog error. Catalogs, vocabularies and metaschemas are found by exactly the name or URI they were registered with.',
 H,'all histories of add, delete, lookup and context entry/exit','Isolation across identifiers over arbitrary operation sequences.',
 ['jschon/catalog/__init__.py','jschon/jsonschema.py'],'schema cache methods and context manager')
p('P24','Format assertion happens only when enabled for that format and type',
 'The format keyword fails an instance exactly when that format attribute was enabled in the catalog of the schema before the schema was constructed, its registered validator covers the instance type, and the validator rejects the instance value with ValueError; otherwise it only annotates. Constructing a schema that names an enabled format without a registered validator raises KeyError. Enabling formats is cumulative and affects only that catalog and only the named formats.',
 C,'all format names, enablement sets, validators and instances','Combinations of enablement, type and validator behaviour.',
 ['jschon/vocabulary/format.py','jschon/catalog/__init__.py','jschon/formats.py'],'format keyword and validator registry')
p('P25','Metaschemas determine exactly the keyword set of their schemas',
 'A metaschema provides exactly the keywords of its core vocabulary plus every recognised vocabulary it declares (or of its default vocabularies when it declares none); where these share a name, the core vocabulary takes precedence over declared ones, and a later vocabulary over an earlier one. A metaschema that requires an unrecognised vocabulary, does not require its own core vocabulary, or has no unique core vocabulary is rejected with a schema error. A keyword outside that set is treated as a plain annotation that never affects validity. The metaschema of a schema is the one its metaschema URI identifies (a schema error if it has none), and validating a schema evaluates it, as an instance, against that metaschema.',
 C,'all vocabulary declarations and keyword names','Sets of vocabularies with required/optional flags.',
 ['jschon/vocabulary/__init__.py','jschon/vocabulary/core.py','jschon/catalog/_2019_09.py','jschon/catalog/_2020_12.py','jschon/catalog/_next.py'],'metaschema construction and keyword lookup; per-dialect vocabulary tables')
p('P26','URI objects expose, copy, resolve and validate components faithfully',
 'A URI exposes exactly the components of its text (an empty scheme, authority or path counts as absent) and converts back to the text of those components; copying keeps, removes or replaces each component independently of the others, and leaves the original unchanged. A URI is absolute exactly when it has a scheme and no fragment, and has an absolute base when it is absolute apart from its fragment. Resolution against a base follows RFC 3986. Validation raises the URI error exactly when a requested requirement (scheme present, normalized form, no fragment, no non-empty fragment) is not met.',
 C,'all URIs, component selections and requirement flags','All combinations of flags and present/absent/empty components.',
 ['jschon/uri.py'],'URI wrapper class')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
