import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
FAC='pydantic_xml/serializers/factories/'
p('C01','Concurrent and re-entrant parses never interfere',
 'However many parse calls overlap - in other threads, on the same model class, on the same source tree, or re-entered from a validator in the middle of a parse - each call returns exactly the object, or raises exactly the validation error, that its own document determines. No schedule makes a call observe any part of another call\'s document, progress or outcome.',
 ['schedules','inputs'],'every interleaving of every set of overlapping parse calls over every supported kind of field, well-formed or invalid documents, both XML backends',
 'The tests parse in one thread, one document at a time; one serializer object per model class is shared by all callers, so any per-call state kept on it is invisible to them.',
 ['pydantic_xml/model.py',FAC+'model.py',FAC+'homogeneous.py',FAC+'heterogeneous.py',FAC+'union.py',FAC+'wrapper.py','pydantic_xml/element/element.py'],
 [('all per-call state lives in local variables and in a private element copy','pydantic_xml/model.py from_xml_tree; '+FAC+'*.py deserialize'),('private cursor tree built per call','pydantic_xml/element/native/*.py from_native')],
 [('__xml_serializer__','one serializer tree per model class, shared by every caller','pydantic_xml/model.py'),('sourcemap','per-call map of locations to source lines','pydantic_xml/model.py from_xml_tree')],['return value or ValidationError of from_xml / from_xml_tree'])
p('C02','Concurrent and re-entrant serializations never interfere',
 'However many serialization calls overlap - in other threads, on the same instance, on instances of the same class, with different options, or re-entered from a field serializer - each call produces exactly the document its own instance and options determine. Serializing never changes the instance.',
 ['schedules','inputs'],'every interleaving of every set of overlapping to_xml / to_xml_tree calls, all combinations of skip_empty, exclude_none and exclude_unset, both backends',
 'The tests serialize one instance at a time in one thread.',
 ['pydantic_xml/model.py',FAC+'model.py',FAC+'primitive.py',FAC+'wrapper.py',FAC+'mapping.py','pydantic_xml/element/element.py'],
 [('options are passed down as arguments; the output tree is built per call','pydantic_xml/model.py to_xml_tree; '+FAC+'*.py serialize')],
 [('__xml_serializer__','shared serializer tree','pydantic_xml/model.py')],['document returned by to_xml / to_xml_tree'])
p('C03','Per-call context and options stay with their call',
 'Every validator run by a parse, at any depth and in any kind of field, sees the validation context passed to that very call and no other. Per-call options (empty-as-string on parsing; skip-empty, exclude-none and exclude-unset on serialization) apply everywhere within their call and nowhere else, under any interleaving, re-entrancy and history of earlier calls, including failed ones.',
 ['schedules','histories','inputs'],'every interleaving and history of calls with differing contexts and options over nested models, collections, unions, wrappers and root models',
 'Tests pass one context through one nesting shape and never run two calls with different options so that they overlap or follow a failed one.',
 ['pydantic_xml/model.py',FAC+'model.py',FAC+'union.py',FAC+'tagged_union.py',FAC+'homogeneous.py',FAC+'heterogeneous.py',FAC+'named_tuple.py',FAC+'wrapper.py',FAC+'primitive.py'],
 [('context and options are threaded through every deserialize/serialize call','pydantic_xml/serializers/serializer.py')],(),['ValidationInfo.context seen by validators','returned objects and documents'])
p('C04','Defining models never changes models already defined',
 'Once a model is defined, its XML behaviour (names, namespaces, custom XML hooks, search mode, what it parses and what it writes) stays what its own definition says, whatever other models are later subclassed from it, parametrized, created dynamically, given the same name, or fail to be created. This holds in any order of definitions, from any threads, concurrently with use of the model, and when a definition is interrupted at any point.',
 ['histories','schedules','fault_sequences'],'every history of model definitions (successful, failing, interrupted) interleaved with uses of earlier models',
 'Tests define each model once and use it right away; cross-talk needs a particular later definition, or a definition that stops half way.',
 ['pydantic_xml/model.py','pydantic_xml/fields.py','pydantic_xml/utils.py','pydantic_xml/serializers/serializer.py'],
 [('class parameters and hook tables are created anew for every subclass','pydantic_xml/model.py __init_subclass__'),('namespace maps are merged into new maps','pydantic_xml/model.py; pydantic_xml/utils.py merge_nsmaps')],
 [('__xml_nsmap__, __xml_field_serializers__, __xml_field_validators__','per-class tables','pydantic_xml/model.py')],['from_xml / to_xml of every earlier model after each definition'])
p('C05','Forward references resolve completely, once, and for every thread',
 'A model with unresolved forward references either refuses an operation with an error or performs it correctly, never something in between. Once resolution has succeeded - after any number of concurrent, failed or interrupted attempts - every later parse and serialization from any thread works, also through models that embed it.',
 ['schedules','fault_sequences','histories'],'every interleaving of definition, resolution attempts (explicit or implicit), faults in them, and uses of the model and of models embedding it',
 'Tests resolve each model once, in one thread, with no failed attempt before.',
 ['pydantic_xml/model.py',FAC+'model.py'],
 [('the serializer is built when the model becomes complete','pydantic_xml/model.py __build_serializer__, model_rebuild'),('sub-model serializers are looked up when used',FAC+'model.py ModelProxySerializer')],
 [('__xml_serializer__','None until the model is complete','pydantic_xml/model.py')],['outcome of from_xml / to_xml during and after resolution'])
p('F01','An aborted parse leaves no trace',
 'If a parse is cut short at any point - by a validator or other callback that raises, by an interrupt, by memory or stack exhaustion - the caller\'s document tree is unchanged and every model still behaves as if that call had never been made. Repeating the call without the fault gives the result the document determines.',
 ['crash_points','fault_sequences','inputs'],'every point inside every parse at which an exception can surface, every kind of exception, every following history of calls',
 'Tests exercise a handful of validation errors and look only at the error itself, never at an interruption in the middle of a parse or at what follows.',
 ['pydantic_xml/model.py',FAC+'model.py','pydantic_xml/element/element.py','pydantic_xml/element/native/lxml.py','pydantic_xml/element/native/std.py'],
 [('parsing works on a private copy of the tree and on local state','pydantic_xml/element/native/*.py from_native')],(),['source tree before/after','later calls on the same classes'])
p('F02','An aborted serialization leaves no trace',
 'If a serialization is cut short at any point - by a field serializer, computed property or other callback that raises, by an interrupt, by memory or stack exhaustion - the instance is unchanged and every model still behaves as if that call had never been made. Repeating the call without the fault gives the same document as ever.',
 ['crash_points','fault_sequences','inputs'],'every point inside every serialization at which an exception can surface, every kind of exception, every following history of calls',
 'No test interrupts a serialization.',
 ['pydantic_xml/model.py',FAC+'model.py',FAC+'primitive.py','pydantic_xml/element/element.py'],
 [('the output tree is private to the call','pydantic_xml/model.py to_xml_tree')],(),['instance before/after','later calls'])
p('F03','Every validation failure is reported exactly once and in the right place',
 'When several values of a document fail validation, the error raised contains each failure raised during the parse exactly once, under the path of the field and item it belongs to, with its own message and type, and, where the parser records lines, with the source line of the element that carries the value. It contains nothing else; failures inside a rejected union alternative appear only if no alternative succeeds.',
 ['fault_sequences','inputs'],'every subset of values that fails, over every nesting of models, collections, tuples, unions, wrappers and root models',
 'Tests check four hand-made documents; accounting goes wrong for combinations (first item, same field name at two levels, aliases, second union alternative, skipped elements).',
 ['pydantic_xml/utils.py',FAC+'model.py',FAC+'homogeneous.py',FAC+'heterogeneous.py',FAC+'union.py'],
 [('errors are collected per field and item and merged with a location prefix','pydantic_xml/utils.py into_validation_error'),('line lookup by location','pydantic_xml/utils.py set_validation_error_sourceline')],
 [('sourcemap','location to line','pydantic_xml/model.py')],['ValidationError.errors()'])
p('F04','Failures that are not validation errors are never swallowed',
 'An exception other than a validation failure - from an application callback, an interrupt, or resource exhaustion - that strikes anywhere inside a parse or a serialization comes out of that call unchanged. Such a call never returns a value and never turns the failure into a validation error, a default, or a different union alternative.',
 ['crash_points','fault_sequences','inputs'],'every point and callback in every parse and serialization, every exception kind',
 'Tests raise only validation errors from callbacks.',
 ['pydantic_xml/model.py',FAC+'model.py',FAC+'union.py',FAC+'homogeneous.py',FAC+'heterogeneous.py'],
 [('only validation errors are caught',FAC+'*.py deserialize')],(),['outcome of from_xml / to_xml'])
p('F05','A rejected union alternative leaves no trace',
 'When an alternative of a union of models fails at any point, the next one is tried on the document as it was before, and the value is that of the first alternative, in declaration order, that succeeds. Parsing then continues directly after what the chosen alternative consumed, as if the rejected ones had never been tried.',
 ['fault_sequences','inputs','histories'],'every point of failure in every rejected alternative, all search modes, unions in collections, nested unions, forbidden extras, overlapping alternatives',
 'Tests try a few disjoint alternatives that fail on one value; partial consumption before a late failure is not reached.',
 [FAC+'union.py',FAC+'tagged_union.py','pydantic_xml/element/element.py'],
 [('each alternative runs on a deep snapshot which replaces the original on success',FAC+'union.py ModelSerializer.deserialize; pydantic_xml/element/element.py create_snapshot/apply_snapshot')],
 [('snapshot','private copy of the cursor tree',FAC+'union.py')],['parsed object, following fields, reported extras'])
p('D01','A torn or corrupted stored document is never taken for a valid one',
 'Reading back a document that was cut short, overwritten in part, or zero-filled by an interrupted write raises a parse error and yields no object. A document whose bytes were otherwise damaged either raises a parse or validation error or yields exactly the object its bytes still describe; no damage makes parsing fail with an internal error.',
 ['crash_points','fault_sequences','inputs'],'every truncation point, every overlay of an older document, zero-filled ranges, flipped bytes, for every document',
 'Tests never feed a damaged document.',
 ['pydantic_xml/model.py','pydantic_xml/element/native/lxml.py','pydantic_xml/element/native/std.py',FAC+'model.py'],
 [('strict parser, no recovery','pydantic_xml/model.py from_xml')],(),['outcome of from_xml on recovery'])
p('D02','State recovered from a stored document equals the state that was stored',
 'A model instance written as XML to durable storage or sent to a peer, in any history of edits, saves, crashes, recoveries and transfers, is recovered as an equal instance, whichever of the two XML backends wrote it and whichever reads it. Saving what was recovered gives an equivalent document again.',
 ['histories','crash_points','inputs','configurations'],'every history of edits, saves, crashes, restarts and transfers between nodes on either backend, for every supported combination of fields whose absent and empty values are distinguishable',
 'Tests round-trip fixed documents within one backend and one step.',
 ['pydantic_xml/model.py',FAC+'model.py',FAC+'primitive.py',FAC+'mapping.py',FAC+'raw.py','pydantic_xml/element/native/lxml.py','pydantic_xml/element/native/std.py'],
 [('symmetric serialize/deserialize per kind of field',FAC+'*.py')],(),['instance recovered after restart or receipt'])
p('D03','Neutral rewriting in transit and the choice of backend do not change meaning',
 'Rewriting a document in ways that XML defines as neutral - comments, processing instructions, CDATA sections, character references, prefixes, attribute order, quoting, encoding, ignorable whitespace - does not change the object parsed from it. Both backends parse the same document to equal objects or fail with the same errors.',
 ['fault_sequences','inputs','configurations'],'every composition of neutral rewrites applied by any number of intermediaries to every document, read by nodes on either backend',
 'Tests have one document with comments in harmless places and run each backend separately.',
 ['pydantic_xml/element/native/lxml.py','pydantic_xml/element/native/std.py'],
 [('conversion of native trees to the common element',"pydantic_xml/element/native/*.py from_native")],(),['objects and errors obtained by different nodes'])
p('D04','Search modes tolerate exactly the disorder they promise',
 'For sub-elements that arrive reordered, duplicated, with some lost or with foreign ones in between: in strict mode a field is bound only to the next element in sequence, in ordered mode to the next matching one skipping others, in unordered mode to a matching one wherever it is. What cannot be bound under these rules is treated as absent, and every bound element is bound to exactly one field or item.',
 ['schedules','fault_sequences','inputs'],'every delivery order, loss, duplication and insertion of sub-elements from several producers, for the three modes, mixed across nesting levels',
 'Tests use one document per mode.',
 ['pydantic_xml/element/element.py',FAC+'wrapper.py',FAC+'homogeneous.py',FAC+'tagged_union.py'],
 [('strict_search, ordered_search, unordered_search','pydantic_xml/element/element.py')],
 [('next_element_idx','cursor in the list of sub-elements','pydantic_xml/element/element.py')],['object or error obtained from the assembled document'])
p('D05','With extras forbidden, unbound content is reported exactly once, never dropped',
 'In a model that forbids extras, every non-blank piece of text and every attribute of its element tree, however foreign content was injected at any depth, is either bound to a field or reported exactly once as extra at its path (and line, where recorded). A document without foreign content is never rejected as having extras.',
 ['fault_sequences','inputs'],'every injection of foreign attributes, text, tails and elements at any depth in transit, in every kind of field and search mode',
 'Tests inject a few extras in simple models.',
 [FAC+'model.py','pydantic_xml/element/element.py',FAC+'wrapper.py',FAC+'union.py'],
 [('binding pops content; what remains is listed','pydantic_xml/element/element.py pop_*, get_unbound')],(),['ValidationError.errors()'])
p('H01','Readers hand out content once; snapshots are isolated until applied',
 'For code that reads an element through the reader interface, any history of extraction operations hands out each text, tail and attribute at most once and each sub-element to at most one search that moves past it, exactly as in the document and in the order the search mode defines. A snapshot taken at any point is independent: work on it never shows in the original, nor the reverse, until it is applied, when the original becomes exactly the snapshot.',
 ['histories','schedules','inputs'],'every interleaving of reader operations by several actors on an element, its sub-elements and any number of snapshots, with roll-backs and commits at any point',
 'Tests reach the reader only through whole parses.',
 ['pydantic_xml/element/element.py'],
 [('pop operations clear what they return; create_snapshot copies deeply','pydantic_xml/element/element.py')],
 [('State','text, tail, attributes, elements, cursor','pydantic_xml/element/element.py')],['return values of reader operations'])
p('H02','Parsed objects, instances and produced trees share no mutable state',
 'Changing a source tree after parsing, changing a parsed object or any container or raw element in it, or changing a produced tree never affects any other object, instance or tree, nor the outcome of any other call. A deep or pickled copy of an object stands for the same value as its original and is separate from it. This holds for every history of such changes interleaved with parses, copies and serializations.',
 ['histories','inputs'],'every history of parse, serialize and in-place mutation over source trees, objects and produced trees',
 'Tests never mutate a result and look at something else.',
 ['pydantic_xml/model.py',FAC+'raw.py',FAC+'mapping.py','pydantic_xml/element/native/lxml.py','pydantic_xml/element/native/std.py','pydantic_xml/element/element.py'],
 [('trees are converted by copying in both directions','pydantic_xml/element/native/*.py')],(),['objects and trees other than the mutated one'])
p('H03','Calls retain nothing',
 'Once a call has ended - normally, with an error, or interrupted - and its inputs and results are dropped, nothing of its document, its instance or its error stays alive in the library. Memory in use does not grow with the number of calls made, whatever mix of successes and failures.',
 ['histories','fault_sequences'],'every history of successful, failing and interrupted parses and serializations, with ever new content',
 'A test makes one call; growth shows only over histories, and an earlier leak was on the error path.',
 ['pydantic_xml/utils.py',FAC+'model.py','pydantic_xml/model.py','pydantic_xml/element/element.py'],
 [('no caches keyed by documents; error maps are emptied when merged','pydantic_xml/utils.py into_validation_error')],(),['objects alive and memory blocks after collection'])
p('H04','Replicas agree: behaviour does not depend on process accidents',
 'Processes that run the same program agree on every document they write, every object they parse and every error they raise, whatever the hash seed, the process\'s history of unrelated calls, or which backend-neutral work ran before. Only the order within unordered collections may differ.',
 ['configurations','histories'],'every hash seed and every warm-up history, over model families with inheritance and several custom XML hooks',
 'The tests run with one fixed hash seed.',
 ['pydantic_xml/model.py','pydantic_xml/serializers/serializer.py',FAC+'model.py'],
 [('hook collection over class attributes','pydantic_xml/model.py _collect_xml_field_serializers_validators')],(),['outputs of several processes for the same program'])
# pure ones
p('H05','The process around the library stays as the application set it up',
 'Defining models, parsing and serializing - alone or overlapping, succeeding, failing or interrupted at any point - neither lastingly nor temporarily (as far as application code run by a call can see) change the state of the process that other code depends on: interpreter settings, warning filters, the decimal context, environment, random numbers, pydantic and its classes, the XML library and its default parsers. Nor do they undo what the application sets between calls. The one exception is the prefix registry of the XML library in use: definitions (never parses or serializations) register the prefixes they declare, except the default one and generated ones (ns0, ns1 ...), and nothing else, so that documents carry the declared prefixes; if REGISTER_NS_PREFIXES is off, nothing is registered at all.',
 ['histories','fault_sequences','schedules','configurations'],'every history of definitions, calls, failures, faults and changes made by the application itself, with every declaration of prefixes and either setting',
 'Tests never look at the process around a call; the registry and the settings outlive every test.',
 ['pydantic_xml/utils.py','pydantic_xml/config.py','pydantic_xml/fields.py','pydantic_xml/model.py','pydantic_xml/element/native/lxml.py','pydantic_xml/element/native/std.py'],
 [('prefixes are registered at definition only, under a lock, reserved ones skipped','pydantic_xml/utils.py register_nsmap; fields.py __post_init__; model.py __build_serializer__')],
 [('REGISTER_NS_PREFIXES','read from the environment at import','pydantic_xml/config.py')],['prefix registries of xml.etree and lxml; interpreter settings; written documents'])
p('N01','Entity names and namespaces follow the documented precedence',
 'A field is bound to the name given for the entity, else the sub-model\'s tag, else the alias, else the field name; its namespace follows the documented inheritance rules for elements, attributes, wrappers and sub-models. Undeclared namespace aliases are rejected.',
 ['inputs','programs'],'every model declaration','Tests sample declarations.',
 ['pydantic_xml/utils.py',FAC+'primitive.py',FAC+'model.py','pydantic_xml/fields.py'],[('QName.from_alias, select_ns, merge_nsmaps','pydantic_xml/utils.py')])
p('N02','Empty, absent and unset values are omitted exactly as the options say',
 'skip-empty, exclude-none and exclude-unset, given per call or per model, omit exactly the values the documentation says and nothing else; nillable elements are marked as nil instead.',
 ['inputs','configurations'],'every instance and option combination','Tests sample instances.',
 [FAC+'model.py',FAC+'primitive.py',FAC+'homogeneous.py',FAC+'mapping.py'],[('serialize','%s*.py'%FAC)])
p('N03','Scalar values have one documented text form',
 'Every supported scalar type is written in the text form pydantic gives it in JSON (booleans as true/false, None as the empty string) and custom field serializers are respected.',
 ['inputs'],'every scalar value','Tests sample values.',['pydantic_xml/serializers/serializer.py'],[('encode_primitive','pydantic_xml/serializers/serializer.py')])
p('N04','Unsupported declarations are rejected when the model is defined',
 'A model whose field types or bindings the library cannot represent is rejected with a model error naming the model and the field when it is defined, never later and never by silently binding something else.',
 ['programs'],'every model declaration','Tests sample unsupported declarations.',
 ['pydantic_xml/serializers/serializer.py',FAC+'homogeneous.py',FAC+'union.py',FAC+'mapping.py'],[('from_core_schema checks',FAC+'*.py')])
p('N05','The type-checker plugin accepts what the library accepts',
 'With the mypy plugin enabled, constructor signatures of models are typed according to defaults and requiredness declared through the library\'s field functions.',
 ['programs'],'every type-checked program','No test runs it.',['pydantic_xml/mypy.py'],[('field collection','pydantic_xml/mypy.py')])
p('N06','Computed, excluded and JSON-only fields have one direction only',
 'Computed fields are written and never read, fields excluded from serialization are read and never written, and JSON-only fields are neither.',
 ['programs','inputs'],'every model declaration and document','Tests sample declarations.',
 [FAC+'model.py','pydantic_xml/fields.py'],[('computed flag, NoXml',FAC+'model.py')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
