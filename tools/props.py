"""The properties: source of properties.jsonl and MANIFEST.json (tools/gen.py)."""


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=(), state=()):
  d = dict(
      id=id, title=title, statement=statement,
      quantifier={'over': over, 'text': qtext},
      why_tests_cant=why,
      anchors={'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mech]},
      technique=technique, note=note)
  if observe:
    d['anchors']['observe_at'] = list(observe)
  if state:
    d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
  if na:
    d['na'] = na
  return d


ST = 'py/koladata/ext/storage/'
TQ = 'py/koladata/ext/tqdm/'
PAR = 'koladata/functor/parallel/'
PTECH = 'stateless exploration of all preemption-bounded schedules of the compiled code under a controlled scheduler, with state caching, race detection and per-scenario oracles'
PNOTE = 'Exhaustive for each listed scenario within its bound on preemptions, at every synchronisation operation. Trusts the stand-ins for absl::Mutex, thread pools and arolla types (the 153 tests of the repository that they cover pass with them) and treats atomics as sequentially consistent in value.'

DB = 'koladata/internal/'
BTECH = 'bounded exhaustive exploration of operation histories on the compiled code, every reachable state compared with a reference model through every read'
BNOTE = 'Exhaustive over the histories of the listed operations up to a length, on allocations of the three kinds the code treats differently (small, dense, sparse). Trusts stand-ins for the arolla containers and the reference model; 1719 of the 1740 runnable tests of koladata/internal pass with the stand-ins (the rest compare error texts).'

PROPS = [
    P('C01', 'The size-bounded LRU cache is linearizable and stays within its byte budget',
      'Every history of operations on the cache, including concurrent ones, is equivalent to some sequential order of the same operations on an ideal least-recently-used cache: a lookup returns the stored value or a miss, and storing under a key that is present keeps and returns the value that is already there. The reported total always equals the sum of the declared sizes of the entries held and never exceeds the limit, entries are dropped in least-recently-used order and only as many as needed, and an entry larger than the limit is handed back without being stored and without evicting anything. No schedule deadlocks or raises.',
      ['schedules', 'histories'], 'all sequences of get/set/clear/contains/limit changes, and all interleavings of concurrent clients',
      'The two tests run two fixed sequential scripts; no thread is ever preempted inside the cache.',
      [ST + 'lru_size_tracking_cache.py'],
      [('one lock around every operation; byte accounting and eviction loop', ST + 'lru_size_tracking_cache.py')],
      'explicit-state exploration of all op sequences + stateless exploration of all preemption-bounded thread schedules of the real class, linearizability oracle',
      'Exhaustive over the stated alphabet until no new state (sequential) and over all schedules within the preemption bound at line/bytecode granularity (concurrent). Trusts CPython tracing hooks and the reference model.'),
    P('T01', 'Tracing mode is scoped: always restored, never leaks across contexts',
      'Whether tracing is enabled at any moment depends only on the innermost enclosing enable/disable block of the current execution context; leaving a block, normally or by an exception, restores exactly the previous mode. Entering tracing in one thread, task or copied context never changes the mode observed in another, whatever the interleaving.',
      ['schedules', 'programs'], 'all nestings of enable/disable blocks, exits by exception, threads, asyncio tasks and copied contexts, and all their interleavings',
      'Tests nest two blocks in one thread; there is no test with two threads or tasks.',
      ['py/koladata/expr/tracing_mode.py'],
      [('context-local flag set and reset by token', 'py/koladata/expr/tracing_mode.py: enable_tracing, is_tracing_enabled')],
      'exhaustive enumeration of block programs and of thread/task interleavings on the real module, stack-model oracle',
      'All programs up to the stated length and all schedules at every source line of the module (preemption-bounded).'),
    P('T02', 'A tracing-aware module serves eager or tracing objects exactly as registered',
      'After a module is prepared for tracing, every public name resolves to the object registered for the mode in force at the moment of access, eager-only names raise AttributeError in tracing mode and only then, and no other name or mode is affected. Preparation is refused when a public name was not registered, registering one object with two different tracing counterparts is refused, and registrations are by object identity, never by equality.',
      ['configurations', 'histories'], 'all registration configurations over a small set of objects (equal-but-distinct, unhashable, falsy) and all access histories',
      'The tests check one hand-written module.',
      ['py/koladata/expr/tracing_mode.py'],
      [('identity-keyed registry and per-name descriptors', 'py/koladata/expr/tracing_mode.py: configure_tracing, prepare_module_for_tracing')],
      'exhaustive enumeration of registration configurations and access histories on the real code, map oracle',
      'Complete within the stated number of names/objects/modes.'),
    P('Q01', 'Progress reports are accurate, ordered, and end in exactly one final report',
      'For any use of a progress bar while a reporter is installed, every report carries the bar state at that moment under one bar id unique to that bar, and counts in reports of one bar reflect the updates made so far. Closing reports the final state as closed exactly once, whatever is called afterwards; nothing is reported after that, and a failing reporter never breaks the loop that is being tracked. Options passed by the user always take precedence over the reporter configuration, which applies only to bars created under that reporter.',
      ['histories', 'configurations', 'fault_sequences'], 'all sequences of bar operations, all configurations and all reporter failures',
      'Tests sample a few usage scripts, each with one configuration.',
      [TQ + 'tqdm.py', TQ + 'types.py'],
      [('display/close hooks sending snapshots; closed flag; configured keyword arguments', TQ + 'tqdm.py')],
      'exhaustive exploration of bar operation sequences x configurations x reporter faults on the real class with a stepping clock, reference-model oracle',
      'Complete up to the stated depth; tqdm itself (third party) is trusted.'),
    P('Q02', 'Progress snapshots survive the wire format',
      'Converting a progress snapshot to its wire record, serialising, parsing and converting back yields an equal snapshot, where an absent or zero total/rate and an absent or empty description/postfix are the same value, and an absent count is zero. Derived quantities (completed fraction, estimated remaining time) are the documented functions of the fields and are absent exactly when they cannot be computed; no snapshot makes them raise.',
      ['inputs'], 'all snapshots over a per-field set of boundary values',
      'Five tests convert five snapshots.',
      [TQ + 'types.py', TQ + 'proto/progress.proto'],
      [('to/from record conversion', TQ + 'types.py: ProgressState')],
      'exhaustive enumeration of the product of boundary values per field through the real conversion, algebraic oracle',
      'Complete over the stated value sets.'),
    P('Q03', 'Reporter installation is scoped to its context; deliveries are serialised',
      'The active reporter is the innermost one installed in the current execution context, is restored on leaving the scope however it is left, and is never observed from another thread, task or copied context that did not install it. A bar keeps reporting to the reporter that was active when it was created. Deliveries to one reporter never overlap, whatever threads produce them, and no interleaving deadlocks.',
      ['schedules', 'programs'], 'all nestings of installs, exits by exception, and all interleavings of threads and tasks',
      'Three tests, single threaded.',
      [TQ + 'context.py', TQ + 'types.py'],
      [('context-local reporter; per-reporter lock', TQ + 'context.py, ' + TQ + 'types.py: ProgressReporter.set_progress')],
      'enumeration of scope programs + stateless exploration of all preemption-bounded schedules of the real code',
      'All programs up to the stated length, all schedules within the preemption bound at line granularity.'),
    P('F01', 'The file layer behaves like an ideal file tree, on every operation sequence',
      'Every operation of the default file-system layer (open in each mode, existence and directory tests, make directory, remove, rename with and without overwriting, glob) has exactly the effect on the file tree and the result of the corresponding operation on an ideal tree, and an operation that fails leaves the tree unchanged. Renaming without permission to overwrite never destroys an existing target. Without an explicit file system the layer picks the registered default one.',
      ['histories', 'inputs'], 'all operation sequences over a small set of paths from all small trees',
      'Two tests run one straight-line script.',
      ['py/koladata/file_io/fs_implementation.py', 'py/koladata/file_io/file_io.py', 'py/koladata/file_io/fs_interface.py'],
      [('thin mapping to os/shutil with a target check', 'py/koladata/file_io/fs_implementation.py')],
      'explicit-state exploration: every op from every reachable small tree against a tree model, on the real implementation in a scratch directory',
      'All trees over the path set, all operations; host file system trusted.'),
    P('D01', 'Generated dataclass objects hold exactly their fields and compare by them',
      'A dataclass generated from attribute names has exactly those fields, all defaulting to None, and stays mutable. Two such objects, or one and any user-written dataclass object, are equal exactly when they have the same set of fields with equal values, regardless of field order; comparison with anything else is unequal, never an error, and is reflexive and symmetric.',
      ['inputs'], 'all field-name sets/orders and values from a boundary set, all kinds of counterparts (plain, frozen, eq-less dataclasses, non-dataclasses, dataclass types)',
      'Tests compare a handful of pairs.',
      ['py/koladata/base/py_conversions/dataclasses_util.py'],
      [('generated class with its own equality', 'py/koladata/base/py_conversions/dataclasses_util.py: make_dataclass, _eq')],
      'exhaustive enumeration of pairs of objects through the real code, set-of-fields oracle',
      'Complete over the stated field names and values.'),
    P('D02', 'Field type lookup resolves every supported annotation shape to the right class',
      'Asking for the type of a named field of a dataclass, or of the items, keys or values of a container type, gives the annotated type and whether it is optional, for plain, inherited and textual annotations, optional forms in either order and untyped (any) fields; an unknown field gives "not present". Annotations that cannot be resolved to one type (other unions, fixed-size tuples, unsupported containers) are rejected with a ValueError, never resolved to a wrong type, and the answer does not depend on what was asked before with the same cache.',
      ['inputs'], 'all annotation shapes up to a nesting depth over a set of base types, x field names x class shapes',
      'One test with a few annotations.',
      ['py/koladata/base/py_conversions/dataclasses_util.py'],
      [('annotation resolution', 'py/koladata/base/py_conversions/dataclasses_util.py: get_class_field_type')],
      'exhaustive enumeration of annotation shapes through the real code, independently written resolver as oracle',
      'Complete up to the stated nesting depth.'),
    P('K01', 'Unwrapping a decorated function terminates and finds the innermost one',
      'For every decoration chain of callables (hashable or not, equal or not), finite or cyclic, unwrapping terminates; on a finite chain it returns the innermost callable, skipping nothing and stopping at the first link whose target is not callable, and it never modifies the functions.',
      ['inputs'], 'all link graphs over a small number of functions',
      'One test with one chain.',
      ['py/koladata/util/kd_functools.py'],
      [('visited set', 'py/koladata/util/kd_functools.py: unwrap')],
      'exhaustive enumeration of all link graphs on the real function, graph-walk oracle',
      'All functional graphs up to the stated size.'),
    P('S01', 'A stored bag collection survives every crash and i/o failure intact',
      'Whatever file-system operation of creating, adding to, branching or extracting a persisted collection of bags is the last one to reach the disk (also with a torn write), a fresh process finds either exactly the state before the operation or exactly the state after it: bags, contents, dependencies, order and metadata. Once an operation has returned, its effect is durable. A failed operation leaves the living manager as it was, a repeated attempt succeeds, a fresh process can always go on from what it finds, and no other directory is affected.',
      ['crash_points', 'fault_sequences', 'histories'], 'all crash points, torn writes and i/o failures of every operation of all short histories, also twice in a row',
      'Tests never crash or fail the file system.',
      [ST + 'data_bag_manager.py'],
      [('bags first, then numbered metadata committed by rename without overwrite', ST + 'data_bag_manager.py: _add_bags, _persist_metadata')],
      'exhaustive fault injection: the real manager on a modelled file system, every crash point and failure kind of every operation of every history; two-state oracle',
      'All histories up to the stated length, every file-system step. kd API replaced by a stand-in validated on the repository tests; rename without overwrite is atomic (documented).'),
    P('S02', 'Concurrent processes never lose or corrupt committed bags',
      'When several processes write to, read from, branch or extract one persisted collection of bags at the same time, the final state is the initial one followed by exactly the additions that reported success, in an order consistent with every writer; a writer that lost the race gets an error, keeps its old state and can never overwrite what it has not seen; readers and branches see some committed state, never a mixture, and never go back in time; at most one of two creators wins; nobody deadlocks.',
      ['schedules'], 'all interleavings of file-system operations of two or three processes, up to a preemption bound',
      'One test simulates one race by hand.',
      [ST + 'data_bag_manager.py'],
      [('commit by rename without overwrite, optimistic concurrency', ST + 'data_bag_manager.py: _persist_metadata')],
      'stateless exploration of all schedules of processes running the real code, with scheduling points at every file-system operation and a preemption bound',
      'All schedules within the preemption bound for the stated scenarios.'),
    P('S03', 'Loading, branching and extracting bags follow the dependency closure exactly',
      'For every dependency graph of bags, added in any grouping, loading a set of bags gives exactly those bags and everything they transitively depend on (with dependents: exactly the transitive dependents, too), merged in the order in which the bags were added. The same holds after reopening or moving the directory, for a branch (same bags, order and metadata, independent of later additions to either side), for bags extracted into a new collection, and for batches. Requests naming unknown, duplicate or forward-referenced bags are refused and leave no trace.',
      ['inputs', 'histories'], 'all dependency graphs of up to n bags, all groupings into additions, all requested subsets',
      'Tests use a few fixed graphs.',
      [ST + 'data_bag_manager.py'],
      [('transitive closure over stored dependencies; canonical order', ST + 'data_bag_manager.py: load_bags, get_minimal_bag, extract_bags, create_branch')],
      'exhaustive enumeration of dependency graphs x groupings x requests on the real manager, closure model as oracle',
      'Complete up to the stated number of bags.'),
    P('S04', 'Caching never changes what storage returns',
      'With any cache installed (of any size, shared by several managers and directories, cleared or shrunk at any moment, or none at all), every load returns the same data as without a cache, also when directories are removed and created anew at the same place, or when the same bag names occur in different directories.',
      ['histories', 'configurations'], 'all operation sequences over two directories up to a depth, all cache limits around the entry sizes',
      'Tests check cache hits on one fixed script.',
      [ST + 'global_cache_lib.py', ST + 'lru_size_tracking_cache.py', ST + 'data_bag_manager.py'],
      [('cache keys and invalidation', ST + 'data_bag_manager.py, ' + ST + 'global_cache_lib.py')],
      'explicit enumeration of operation sequences x cache configurations on the real code, differential oracle (model without cache)',
      'Complete up to the stated depth.'),
    P('S05', 'A managed slice always equals the slice built from all its updates in memory',
      'After any sequence of valid updates, whatever set of paths is requested (alone, in pairs, with or without descendants), the manager returns data that is present and up to date for every requested path, exactly as if all updates had been applied in memory to one ordinary slice, including through aliases, recursive schemas, dictionaries with entity keys, overwritten attributes and overwritten schemas. The schema and the set of existing paths are those of that slice, the same after reopening; separately loaded parts are compatible; nonexistent paths are refused, and nothing stale is ever included.',
      ['histories', 'inputs'], 'all sequences of updates from an alphabet with aliasing, recursion, schema overwrites, up to a length; all pairs of requested paths',
      'Tests run a dozen hand-written scenarios; correctness depends on how updates of aliased parts combine.',
      [ST + 'data_slice_manager.py', ST + 'schema_helper.py', ST + 'stubs_and_minimal_bags_lib.py', ST + 'bare_root_initial_data_manager.py', ST + 'data_slice_path.py'],
      [('update bags indexed by schema node; needed nodes of a request', ST + 'data_slice_manager.py: update, get_data_slice; ' + ST + 'schema_helper.py')],
      'explicit exploration of all update sequences up to a depth on the real manager, with the plain in-memory slice as executable reference model',
      'Complete over the stated alphabet and depth; slices that are ill-typed in plain Koda are excluded; one known finding.'),
    P('S06', 'Revisions, branches and read-only views of a managed slice are exact',
      'Opening a managed slice at any revision shows exactly its state right after that revision, and its history lists the revisions with kind, description, path and attribute; an out-of-range revision is refused. A branch at any revision starts with exactly that state in a directory of its own, and from then on neither side sees the other; the same for branches of branches and read-only copies. Read-only managers, managers of old revisions and invalid updates are refused without changing anything, and the directory can be moved.',
      ['histories', 'inputs'], 'all update histories up to a length, at every revision index, with every kind of branch and read-only access; long histories',
      'Tests check a few revisions of a few histories.',
      [ST + 'data_slice_manager.py', ST + 'data_bag_manager.py'],
      [('numbered metadata, one per revision; branch metadata', ST + 'data_slice_manager.py: create_from_dir, branch, get_readonly_copy, _persist_metadata')],
      'exhaustive enumeration of histories x revisions x derived managers on the real code, plain slices as reference model',
      'Complete over the stated alphabet and depth, plus linear histories of 12 to 160 revisions.'),
    P('S07', 'A managed slice survives every crash and i/o failure; updates are atomic',
      'Whatever file-system operation of creating, updating or branching a managed slice is the last one to reach the disk, a fresh process finds exactly the state before or the state after, and can go on updating it; a returned update is durable. When an update fails in a living process, that manager still shows the state before, the same call can be repeated, and a commit whose outcome was unknown is never overwritten. A parent is never affected by the failure of its branch, and an interrupted branch does not prevent further ones.',
      ['crash_points', 'fault_sequences', 'histories'], 'all crash points, torn writes and failures of every operation after a set of histories, also twice in a row',
      'Tests never crash or fail the file system.',
      [ST + 'data_slice_manager.py', ST + 'data_bag_manager.py'],
      [('sub-managers first, one metadata commit last', ST + 'data_slice_manager.py: update, branch, create_new')],
      'exhaustive fault injection at every file-system step of the real code on a modelled file system, two-state oracle',
      'Every step of the stated histories and operations.'),
    P('S08', 'Concurrent users of a managed slice never lose updates or see mixtures',
      'When several processes update, read, copy or branch one managed slice at the same time, the final history is the initial one plus exactly the updates that reported success; every revision is exactly the previous one plus its update; the loser of a race gets an error and can never write over what it has not seen; readers, read-only copies and branches show exactly some committed revision; two branches never share a directory, and a branch into a fresh directory always succeeds.',
      ['schedules'], 'all interleavings of file-system operations of two processes up to a preemption bound, for ten scenarios',
      'One test simulates one race by hand.',
      [ST + 'data_slice_manager.py', ST + 'data_bag_manager.py'],
      [('optimistic concurrency by rename without overwrite; sentinel files for branch names', ST + 'data_slice_manager.py: _persist_metadata, _get_dir_for_new_branch')],
      'stateless exploration of all preemption-bounded schedules of the real code at every file-system operation, history-replay oracle',
      'All schedules within the preemption bound.'),
    P('S09', 'A composition serves the enrichment chain of its parts, pinned at creation',
      'A managed slice whose initial data is a composition of several managed slices serves, for every requested path, exactly the first slice enriched with the data of the others in order (earlier ones win), including items that several of them share and parts that refer to each other. The parts are pinned at the revisions they had when they were composed, for ever: later updates of a part are never visible, in this process or after reopening, and updates, branches and copies of the composition never change a part.',
      ['histories', 'configurations'], 'all pairs and triples of short component histories with a common base or separate roots, in both orders, nested, with later updates of the parts',
      'Two long scripts with fixed data.',
      [ST + 'composite_initial_data_manager.py', ST + 'data_slice_manager.py', ST + 'initial_data_manager_with_schema_helper.py'],
      [('read-only copies pinned to a revision; enriched bags per schema node', ST + 'composite_initial_data_manager.py')],
      'exhaustive enumeration of component histories x compositions on the real code, with plain enrichment of the component slices as reference model',
      'Complete over the stated alphabet and lengths; compositions that are ill-typed in plain Koda are excluded.'),
    P('S10', 'Views navigate, update and filter exactly what they point at',
      'A view is a path into a managed slice: navigating it (attributes, list items, dict keys and values, parents and ancestors, children, descendants by predicate or pattern) leads exactly to the paths of the current schema, an invalid view is reported as invalid and refuses data operations without side effects while its still valid ancestors stay reachable, and updates through a view equal updates of the manager at that path. Filtering keeps exactly the selected items at the path, removes containers left without selected items up to the root attribute, touches nothing else, is one revision (none when everything is kept), and selecting does the same in a new branch without changing the original.',
      ['inputs', 'histories'], 'all update sequences up to a length with every view created along the way; all data shapes of a family x all paths x all masks, also broadcast ones',
      'Tests filter a few slices with a few masks and never combine views with schema changes.',
      [ST + 'data_slice_manager_view.py', ST + 'schema_helper.py'],
      [('path plus manager; filtering by rebuilding containers bottom up', ST + 'data_slice_manager_view.py: filter, find_descendants, get_ancestor')],
      'exhaustive enumeration of histories x views and of data x paths x masks on the real code, nested-value reference model',
      'All masks of all listed shapes; keeping a missing item whose container has nothing else is unspecified and excluded.'),
    P('S11', 'The in-memory manager behaves like a plain slice',
      'After any sequence of valid updates the in-memory manager serves, at every path, exactly the plain slice with the same updates; paths that do not exist and invalid updates are refused without a trace, slices read earlier never change, and a read-only manager refuses updates but keeps serving.',
      ['histories'], 'all sequences of updates from an alphabet up to a length',
      'There are no tests of their own; others compare a few states.',
      [ST + 'simple_in_memory_data_slice_manager.py', ST + 'schema_helper_mixin.py', ST + 'schema_helper.py'],
      [('one slice, validated updates', ST + 'simple_in_memory_data_slice_manager.py')],
      'explicit exploration of all update sequences up to a depth on the real manager, plain slice as reference model',
      'Complete over the stated alphabet and depth.'),
    P('P01', 'Data slice paths print, parse and apply without loss',
      'Every path, whatever its attribute names (keywords, unicode, empty, quotes, brackets, names that look like path syntax), prints to a string that parses back to an equal path with an equal hash; concatenating and extending agree with the sequence of steps and never change the operands. Every string is either refused with a ValueError or read exactly as the documented grammar says. The paths generated for a schema up to a depth are exactly those that can be applied, breadth first, each once, also for recursive schemas; following a path through a schema gives the schema of the value found there, with a minimal schema that suffices for that step.',
      ['inputs'], 'all step sequences up to a length over odd attribute names; all strings of grammar tokens up to a length; all schemas up to a nesting depth',
      'Tests list a dozen paths and malformed strings.',
      [ST + 'data_slice_path.py', ST + 'stubs_and_minimal_bags_lib.py'],
      [('recursive descent over steps, base64 for odd names', ST + 'data_slice_path.py: parse_from_string, GetAttr')],
      'exhaustive enumeration of step sequences, token strings and schemas through the real code, independently written grammar and traversal as oracle',
      'Complete up to the stated lengths.'),
    P('J01', 'Salvaging a stream of almost-JSON always yields well-formed JSON',
      'Whatever text arrives, complete or cut off at any byte, valid UTF-8 or not, the salvaging JSON stream processor outputs zero or more newline-separated valid JSON values and nothing else: strings closed, numbers complete, separators and object keys in place, nothing raw that JSON forbids, ASCII only when that is asked for, non-finite literals only when they are allowed, and containers never nested deeper than the limit. The output ends exactly when the input ends, it does not depend on how the input is split into chunks, and no input makes the processor crash, hang or emit output out of proportion. Quoting a stream of text likewise gives one valid JSON string for every split.',
      ['inputs', 'histories'], 'all strings of tokens of seven alphabets up to a length, behind prefixes, under all options, each processed token by token, as one chunk and cut off after every prefix',
      'Tests feed a few hundred fixed strings; the processor is a state machine with about twenty states times a stack, and each combination of state and next character can go wrong.',
      ['koladata/internal/op_utils/json_stream.cc', 'koladata/internal/op_utils/json_stream.h'],
      [('character-level push-down state machine', 'koladata/internal/op_utils/json_stream.cc: JsonSalvageStreamProcessor'),
       ('escaping', 'koladata/internal/op_utils/json_stream.cc: JsonQuoteStreamProcessor')],
      'exhaustive enumeration of all token strings up to a length through the compiled processor (depth-first, all prefixes), strict independent JSON checker as monitor',
      'Complete up to the stated token counts; ICU and Abseil are trusted.'),
    P('J02', 'Salvaging preserves JSON and reads JSON5, Python and JavaScript notations',
      'A sequence of valid JSON values within the nesting limit comes out as an equivalent sequence: strings equal by code points (an unpaired surrogate becomes U+FFFD in its place), numbers equal with unlimited precision, object keys in order with duplicates kept. The documented variant notations are read as what they denote: JSON5 (comments, trailing commas, single quotes, unquoted keys, hexadecimal, leading or trailing points, plus signs, non-finite numbers, line continuations, escapes), Python (hash comments, True, False, None, tuples, triple quotes, octal, \\a, \\x, \\U escapes, string prefixes, digit separators, 0o and 0b, l suffix) and JavaScript (\\u{...}, n suffix). Values are emitted with as little delay as the notation permits.',
      ['inputs'], 'all string literals up to a number of escapes and characters, all numeric literals, all value trees up to a size in all spellings, all chunkings',
      'Tests spell each notation once or twice, never in combination with one another.',
      ['koladata/internal/op_utils/json_stream.cc', 'koladata/internal/op_utils/json_stream.h'],
      [('string, number, comment and atom rules', 'koladata/internal/op_utils/json_stream.cc: JsonSalvageStreamProcessor')],
      'exhaustive enumeration of literals and value trees in all spellings through the compiled processor, independently written reader as oracle',
      'Complete up to the stated lengths. Spellings the header calls implementation-defined are not judged.'),
    P('J03', 'JSON stream operators compute the reference result, value by value',
      'For every stream of valid JSON values and every split of it into chunks: head gives the first n values and ends as soon as it has them; prettify and compactify change only whitespace, with the documented layout; the select operators keep exactly the non-null, non-empty-object or non-empty-array values; extract gives per value the array of the values found at the selected key paths (with their paths when asked) in document order; implode and explode wrap and unwrap arrays; the n-th operator gives per value the element or null; unquote gives the text that strings denote and quote is its inverse; chunk gives exactly one value per chunk. Each result is emitted as soon as the input value it belongs to is complete.',
      ['inputs', 'histories'], 'all value trees up to a size, all sequences of up to three values of a pool, all selections of paths, all whitespace styles and chunkings',
      'Tests run one or two streams per operator in a handful of chunkings.',
      ['koladata/internal/op_utils/json_stream.cc', 'koladata/internal/op_utils/json_stream.h'],
      [('one small state machine per operator', 'koladata/internal/op_utils/json_stream.cc')],
      'exhaustive enumeration of value trees, streams, selections and chunkings through the compiled operators, independently written reference as oracle',
      'Complete up to the stated sizes.'),
    P('R01', 'A stream gives every reader exactly what was written, once and in order',
      'Under every interleaving of writers and readers, each reader of a stream, whether made before, during or after the writing, reads exactly the values whose write was accepted, complete, in one order that is the same for all readers, and then the status with which the stream was closed, which stays. A stream whose writer is destroyed before closing it ends with the "orphaned" error. A reader that finds nothing available and subscribes is called back exactly once, as soon as there is something to read (a value or the end), never before, and never misses it; callbacks run without any lock held, so they may use the stream. Of several attempts to close, one status wins. Orphaned() turns true once the stream is closed or nobody can read it any more, and after it is true no write succeeds. A value that was read stays valid as long as the reader lives. No interleaving has a data race, a deadlock, a use of freed memory or a leak.',
      ['schedules', 'histories'], 'all interleavings up to a number of preemptions, of up to three writers and three readers, over chunk sizes and value types',
      'The tests run each operation in one thread in a fixed order, and one stress test samples a few schedules.',
      [PAR + 'stream.cc', PAR + 'stream.h'],
      [('chunks published through atomics, readers\' callbacks under a mutex', PAR + 'stream.cc')], PTECH, PNOTE),
    P('R02', 'Chained and interleaved streams hold exactly the items of their inputs',
      'For all inputs, ended in any way and written by other threads in any interleaving: a chain is the items of its inputs in the order in which they were added, up to the first input that ends with an error, and then closes with that error or, when all inputs ended well and nothing more can be added, with OK. An interleave is some merge of its inputs that keeps the order of each; it closes with an error of one of them only if one failed, otherwise with OK and every item. An item is passed on as soon as it can be. Streams may be added while others are read, the same stream twice; after an error or once the output is let go, additions have no effect and Orphaned() says so. Nothing is leaked, locked up or raced on.',
      ['schedules', 'inputs'], 'all interleavings up to a number of preemptions, of inputs of all lengths and ends up to a size',
      'The tests run a few inputs in one thread.',
      [PAR + 'stream_composition.cc', PAR + 'stream_composition.h'],
      [('a shared scheduler that owns the output and is owned by the callbacks', PAR + 'stream_composition.cc')], PTECH, PNOTE),
    P('R03', 'Mapping a stream applies the functor once per item and keeps the results',
      'Mapping a stream with a functor on an executor calls the functor on that executor at most once per item, and the output of the ordered map is the results in the order of the items, that of the unordered map the same results in any order; results appear as soon as they can. If the functor fails for an item, or the input ends with an error, the output of the ordered map is the results of the items before it and closes with that error; the unordered map closes with an error that occurred. Otherwise the output closes with OK after all results. On cancellation, on the executor dropping tasks and when nobody reads the output, it always ends (with an error, never with OK and missing items), no functor is called afterwards, and everything is freed.',
      ['schedules', 'inputs', 'faults'], 'all interleavings up to a number of preemptions, over inputs, failing functors, executors, cancellation and lost tasks',
      'The tests run a few inputs on one executor; cancellation and lost tasks at one point each.',
      [PAR + 'stream_map.cc', PAR + 'stream_map.h'],
      [('one task per item, writing to an output or to one small stream per item', PAR + 'stream_map.cc')], PTECH, PNOTE),
    P('R04', 'Routines, reductions and calls run each step once, in turn, and end once',
      'A routine calls Start once and then Resume each time the awaited reader is ready, on its executor, one at a time, until it is done or interrupted; OnCancel is called at most once and only on cancellation, promptly also when the routine waits. A reduction gives one item, the functor folded over the items of the input in order, or the first error of input or functor. A call waits for each awaited argument to give its single item (an argument with no item, more than one, or an error makes the call fail), calls the functor exactly once, and its output is the returned value or the items of the returned stream with its status. If the computation is cancelled, loses a task to an executor that drops it, or loses its readers, the output ends with an error, never as an apparent success, and everything is freed.',
      ['schedules', 'inputs', 'faults'], 'all interleavings up to a number of preemptions, over inputs, results, executors, cancellation and lost tasks',
      'The tests run a few inputs on one executor.',
      [PAR + 'basic_routine.cc', PAR + 'stream_reduce.cc', PAR + 'stream_call.cc'],
      [('a routine is a chain of tasks; each schedules the next by subscribing to the reader', PAR + 'basic_routine.cc'),
       ('argument futures, then the functor, then the output chain', PAR + 'stream_call.cc')], PTECH, PNOTE),
    P('R05', 'Parallel for and while loops compute what the sequential loop computes',
      'A for loop over a stream, and a while loop, run the body once per item (or as long as the condition is present, also when the condition or the inputs come later from other threads), one at a time and in order, pass each iteration the variables left by the one before, run the finalizer as documented, and stop early when the condition is missing. The output is the final returned value, or the yields of all iterations chained or interleaved with the initial ones, each available as soon as it is produced. An error of the input, condition, body or finalizer, or a result of the wrong form, ends the output with that error; so do cancellation and lost tasks with an error, never as an apparent success. Once the loop is cancelled or its output let go, no further body is called and everything is freed.',
      ['schedules', 'programs', 'faults'], 'all small loops and, for those, all interleavings up to a number of preemptions, over executors, cancellation and lost tasks',
      'The tests run a few loops on one executor.',
      [PAR + 'stream_for.cc', PAR + 'stream_while.cc', PAR + 'stream_loop_internal.cc'],
      [('a routine per loop; variables and outputs in the hooks', PAR + 'stream_loop_internal.cc')], PTECH, PNOTE),
    P('R06', 'Executors run each task exactly once, in the right executor and context',
      'Every task scheduled on an executor of any kind (eager, thread pool, default, derived) runs exactly once, also when the executor is let go by everybody else or by the task itself, is destroyed afterwards, and never runs on more threads than allowed. During a task, and only then, the thread is in a task and the current executor is the one it was scheduled on; scopes that set or provide a current executor nest, are left in order, and are not seen by other threads or tasks. A derived executor sets up the contexts of all its ancestors around each task, outermost first, and tears them down in reverse, each exactly once and with the right current executor. The default executors are the same for all. The threads of a pool end with it.',
      ['schedules', 'programs'], 'all nestings up to a depth and all interleavings up to a number of preemptions of up to four tasks from two threads',
      'The tests run a few tasks on each executor and rely on the operating system for the schedule.',
      [PAR + 'executor.cc', PAR + 'asio_executor.cc', PAR + 'derived_executor.cc', PAR + 'context_guard.h', PAR + 'get_default_executor.cc'],
      [('thread-local current executor, saved and restored around tasks', PAR + 'executor.cc'),
       ('pool released by its own task', PAR + 'asio_executor.cc')], PTECH, PNOTE),
    P('R07', 'A future gives its one result to every consumer exactly once',
      'Under every interleaving, each consumer added to a future, before, while or after its result is set, from any thread or from another consumer, is called exactly once with that result, without a lock held, and destroyed. Until the result is set PeekValue gives nothing, afterwards always the same. A writer that is destroyed or overwritten before it has set its future sets the "orphaned" error; moving it loses nothing. A stream made from a future has the value as its only item and then closes with OK, or closes with the error, for any number of readers, and a subscriber is called back exactly once when the result is there.',
      ['schedules', 'histories'], 'all interleavings up to a number of preemptions of a writer with up to three consumers or readers',
      'The tests run each case in one thread.',
      [PAR + 'future.cc', PAR + 'future.h'],
      [('value and consumers under a mutex, consumers called outside of it', PAR + 'future.cc')], PTECH, PNOTE),
    P('B01', 'Attributes of a DataBag read back exactly what was last written',
      'A DataBag behaves as a map from (object, attribute) to a value or to the mark "removed". After any sequence of SetAttr on items and slices, SetAttrFullAlloc, CreateObjectsFromFields and InternalSetUnitAttrAndReturnMissingObjects, over objects of small allocations, of allocations that are mostly filled and of large allocations that are sparsely filled, GetAttr and GetAttrWithRemoved on any item or slice of objects (with repetitions, missing objects, several allocations, any order) return for every object the last written value with its exact type, distinguish never set from removed, and fall back to each fallback bag in order where the attribute was never set and only there. Writing a missing value removes the attribute; in SetAttrFullAlloc an unset value leaves the old value alone, a removed one removes it. Other objects and attributes are unaffected. A refused write (frozen bag, object that is not an id) is an error and changes nothing. Slices read earlier never change.',
      ['histories'], 'all sequences of attribute writes, object sets, value types, sizes of allocations and fallback stacks',
      'Which of the read-only, dense, typed, mixed and sparse representations holds a value depends on the whole history of writes; tests check each in a fixed script.',
      [DB + 'data_bag.cc', DB + 'dense_source.cc', DB + 'sparse_source.cc', DB + 'types_buffer.cc'],
      [('layers of sparse, mutable and read-only sources of an attribute of an allocation', DB + 'data_bag.cc'), ('typed and mixed dense sources with masks', DB + 'dense_source.cc')], BTECH, BNOTE),
    P('B02', 'Lists of a DataBag behave as independent Python lists under all batch operations',
      'Every list of a DataBag is a sequence of values. After any sequence of AppendToList, ExtendList(s), SetInList(s), ReplaceInList(s), RemoveInList (ranges and indices) and PopFromList(s), on single lists and on slices of lists with repetitions and missing elements, applied in order, every list holds what a Python list would after the same operations: negative indices count from the end, indices out of range are ignored (pop: missing), ranges are clamped as Python slices, and replacing a range that ends before it starts inserts at its start. GetListSize, GetFromList(s), ExplodeList(s) and their edges agree with that for every index and range, and values keep their exact types, including missing ones. An unset list reads as its value in the first fallback that has it, else as empty. Other lists are unaffected; a refused operation changes nothing.',
      ['histories'], 'all sequences of list operations, indices, ranges, list sets and mixes of value types',
      'Tests apply a handful of operations to lists of integers; the representation of a list changes with the types stored in it and with how many lists of an allocation are set.',
      [DB + 'data_bag.cc', DB + 'data_list.cc', DB + 'data_list.h'],
      [('a list as a vector of one type, of items, or all missing', DB + 'data_list.cc'), ('batch operations over lists', DB + 'data_bag.cc')], BTECH, BNOTE),
    P('B03', 'Dicts of a DataBag behave as independent maps under all batch operations',
      'Every dict of a DataBag is a map from key to value or to the mark "removed" (a present key with a missing value). After any sequence of SetInDict and ClearDict, on single dicts and slices of dicts with repetitions and missing elements, GetFromDict returns the last value of a key; GetDictKeys and GetDictValues list every key ever set exactly once, keys and values in the same order and with the same edge; GetDictSize is their number. Keys of different types are different, integers of both widths are equal; floating point keys are refused and nothing changes. With fallbacks, a key set (or removed) in an earlier bag hides the later ones, other keys are united. Other dicts are unaffected; a refused operation changes nothing.',
      ['histories'], 'all sequences of dict operations, keys of all types, dict sets and fallback stacks',
      'The tests use one or two dicts with a few text or integer keys and never three layers with overlapping keys.',
      [DB + 'data_bag.cc', DB + 'dict.cc', DB + 'dict.h'],
      [('dicts layered over a parent; collection of keys over layers and fallbacks', DB + 'dict.cc'), ('typed access to dicts of a slice', DB + 'data_bag.cc')], BTECH, BNOTE),
    P('B04', 'Forks of a DataBag are isolated and what was read from a bag never changes',
      'PartiallyPersistentFork gives a bag with the same content as its parent, in constant time and without copying. From then on the two are independent: whatever sequence of attribute, list and dict updates, further forks, sibling forks and freezes follows on the fork, the parent and every other fork keep reading exactly what they read before, and the fork reads its own updates over the content of its parent at the time of the fork, to any depth of forks. A frozen bag refuses every update and stays readable; a fork of it is not frozen. Dropping bags of the chain does not affect the others. Slices obtained from any bag earlier never change.',
      ['histories'], 'all sequences of updates, forks, sibling forks, freezes and drops up to a length',
      'Tests fork once or twice and check a single attribute, list or dict; sharing bugs need an update of a particular representation on one side after a particular one on the other.',
      [DB + 'data_bag.cc', DB + 'data_list.cc', DB + 'dict.h'],
      [('lookup through parent bags per attribute, list vector and dict vector', DB + 'data_bag.cc')], BTECH, BNOTE),
    P('B05', 'Merging DataBags follows the conflict policy for every object, list and dict',
      'MergeInplace(target, source) changes the target, and only it, so that everything set (or removed) in only one of the two is set (or removed) in the target, and what both set is resolved by the policy: overwrite takes the value of the source, keep the one of the target, raise fails if the two differ. Attributes are resolved per object and attribute (removed is a value), lists as wholes, dicts per key, attributes of implicit schemas as data and of explicit schemas by the schema policy. This holds whether or not the bags are related (forks of one bag, forks of forks, parent and fork, the same content), whatever representation holds the values, and frozen sources too. Afterwards both bags stay independent: updating one is not seen in the other. CreateOverwritingMergeUpdate gives a bag that, merged over the target, yields the same as an overwriting merge, and changes neither of the two.',
      ['histories', 'configurations'], 'all pairs of histories of target and source after a common history, in all relationships of the two bags, and all policies',
      'The tests merge bags made by short scripts; the shortcuts for related bags and for each pair of representations multiply.',
      [DB + 'data_bag.cc', DB + 'dense_source.cc'],
      [('merge of sparse, dense and mixed sources; shortcuts for common parents', DB + 'data_bag.cc'), ('DenseSource::Merge', DB + 'dense_source.cc')], BTECH, BNOTE),
    P('B06', 'The index and content of a DataBag list exactly what it holds',
      'ExtractContent() of a bag lists every attribute value (also removed ones), every list with its items in order and every dict entry that the bag and the bags it was forked from hold, the latest value only, each exactly once, and nothing else; the index names the attribute or allocation of each of them, sorted, without repetition. ExtractContent(part of the index) is that part of the whole, and fails for allocations of the wrong kind. A bag built from the content by ordinary updates (as decoding does) reads as the first one, and so does a fork. The triples made of the content are sorted and equal for equal bags. Statistics count the non-empty lists and dicts, their items, and (without forks) the present values per attribute; adding statistics adds every count.',
      ['histories'], 'all histories of attribute, list, dict and schema updates, freezes and forks, for the last bag and each bag it was forked from',
      'The tests extract a few bags; what is listed depends on how many forks and representations hold the values.',
      [DB + 'data_bag.cc', DB + 'triples.cc'],
      [('CreateIndex, ExtractContent, GetStatistics', DB + 'data_bag.cc'), ('Triples', DB + 'triples.cc')], BTECH, BNOTE),
    P('B07', 'Common schemas are least upper bounds; data has the schema of its values',
      'The common schema of any number of schemas, in whatever order and through whichever interface (pairs, an aggregator, a slice, groups of a slice), is the least upper bound in the type promotion order: NONE is below every schema, INT32 < INT64 < FLOAT32 < FLOAT64 < OBJECT, MASK, BOOLEAN, BYTES, STRING and EXPR are below OBJECT, and ITEMID, SCHEMA and every entity schema have only NONE below them. Where there is no upper bound, or a value is not a schema, the operation fails, and the two schemas named in the error have no common schema; missing schemas do not count. Groups fail if any group does. IsImplicitlyCastableTo(a, b) holds exactly if b is the common schema of the two. NoFollowSchemaItem is reversed by GetNoFollowedSchemaItem; both refuse everything else. GetDataSchema of items and slices is the common schema of the schemas of the values (of objects: as the bag and its fallbacks say), missing if it cannot be told.',
      ['inputs', 'histories'], 'all sequences of schemas of every kind within a bound, all splits into groups, all sequences of values',
      'The tests sample pairs; order, multiplicity and the kinds of schemas multiply.',
      [DB + 'schema_utils.cc', DB + 'op_utils/agg_common_schema.cc'],
      [('CommonSchemaAggregator, CommonSchema, GetDataSchema, NoFollowSchemaItem', DB + 'schema_utils.cc'), ('AggCommonSchemaOp', DB + 'op_utils/agg_common_schema.cc')], BTECH, BNOTE.replace('histories of the listed operations', 'sequences of schemas and values').replace(', on allocations of the three kinds the code treats differently (small, dense, sparse)', '')),
    P('B08', 'Items compare by their values; slices hold exactly what was put in them',
      'Items are equal exactly if their values are, where INT32 and INT64, and FLOAT32 and FLOAT64, are compared as numbers and all other types differ (and NaN from itself); IsEquivalentTo also compares types. Equal items have equal hashes; values and views of them compare, order and hash as the items do. Less is a strict total order of values without NaN: it agrees with equality, is transitive across types, and is the usual order of numbers, texts and bytes. The stable fingerprints of two items are equal exactly if type and value are. A slice holds exactly the items it was made of, whichever way it was made (from items, arrays of one or several types, one repeated item, or parts of another slice): items, presence, count, type, whether it is mixed, the allocations of its objects, the kinds of objects it contains; two slices are equivalent exactly if their items are. A slice builder keeps, for every position, the first thing inserted there, whether by item, typed, as an optional or in a batch with a mask, missing values and masked-out positions included, tells what is set and when all is, and builds the slice of exactly that, in which what was never set differs from what was removed; inputs given as batches are not changed.',
      ['inputs', 'histories'], 'all triples of items of all types; all slices of up to three items; all sequences of insertions up to a length, in small and large builders',
      'The tests insert a few values in a fixed order; the builder switches between buffers, builders and several types by history.',
      [DB + 'data_item.h', DB + 'data_item.cc', DB + 'data_slice.cc', DB + 'slice_builder.cc', DB + 'slice_builder.h', DB + 'stable_fingerprint.cc'],
      [('Eq, Less, Hash', DB + 'data_item.h'), ('storages per type, current type, reuse of buffers', DB + 'slice_builder.h'), ('creation, SubSlice, IsEquivalentTo', DB + 'data_slice.cc')], BTECH, BNOTE.replace('histories of the listed operations', 'sequences of items and insertions').replace(', on allocations of the three kinds the code treats differently (small, dense, sparse)', '')),
    P('B09', 'Casting a slice casts each of its items, or fails if one of them cannot be cast',
      'CastDataTo an item gives, for every type of value and schema, the same value in the type of the schema, or fails: missing items stay missing for every schema, NONE takes nothing else, numbers and booleans convert between each other (truncated towards zero, refused out of range), texts and bytes that spell a number are parsed, BOOLEAN is whether a number is not zero, MASK takes masks and booleans (false becomes missing), STRING takes every primitive that is no schema or expression, BYTES only bytes, ITEMID and entity schemas only ids, SCHEMA only schemas, OBJECT everything. A slice of any mixture is cast item by item and fails exactly if one of its items does; it is not changed. Encode and Decode convert texts and bytes, and nothing else. ToObject gives every object of a slice the entity schema, and fails, changing nothing, for primitives, without a bag, and, if validated, exactly if an object has another schema; without an entity schema it fails, if validated, exactly if an object has none. NoFollow schemas and values that are no schemas are refused.',
      ['inputs'], 'all slices of up to three items of all types and value classes, and of many items, to all schemas; objects with and without schemas',
      'The tests cast slices of one type; the combination of types in a slice, and where the failing one is, matters.',
      [DB + 'casting.cc', DB + 'casting.h'],
      [('ToDST, ToSelf', DB + 'casting.h'), ('ToNone, ToSchema, ToObject, CastDataTo', DB + 'casting.cc')], BTECH, BNOTE.replace('histories of the listed operations', 'slices').replace(', on allocations of the three kinds the code treats differently (small, dense, sparse)', '')),
    P('B10', 'Slice operations do to slices what they do to their items',
      'has, ==, &, |, disjoint |, coalesce_with_filtered, at, reverse, select, inverse_select, collapse and expand, applied to a slice of any representation (one type, mixed types, objects of several allocations, empty with or without a type), give the result of doing it item by item or group by group: | and & by presence, == by value across numeric types, disjoint | fails exactly on overlaps and names them, at counts negative indices from the end and gives missing outside, reverse reverses the last dimension, select keeps the items (and whole groups, for a filter of a lower rank) the mask has, with the right shape, inverse_select puts them back and refuses other shapes, collapse gives the one value of a group or missing, expand repeats. Inputs stay as they were, results still know the allocations of the objects in them, and inputs of wrong sizes or types are refused. On items the operations agree with slices.',
      ['histories', 'inputs'], 'all sequences of operations within a bound from every kind of slice, all pairs of items',
      'Every operation has shortcuts by representation; the tests sample some combinations.',
      [DB + 'op_utils/select.cc', DB + 'op_utils/presence_or.h', DB + 'op_utils/presence_and.h', DB + 'op_utils/equal.cc', DB + 'op_utils/reverse.cc', DB + 'op_utils/at.cc'],
      [('SelectOp, InverseSelectOp', DB + 'op_utils/select.cc'), ('PresenceOrOp', DB + 'op_utils/presence_or.h'), ('ReverseOp', DB + 'op_utils/reverse.cc')], BTECH, BNOTE.replace(', on allocations of the three kinds the code treats differently (small, dense, sparse)', ', from twelve kinds of slices')),
    P('B11', 'What is extracted, cloned, hashed and compared is the part that is reached',
      'From given items and their schema, exactly the objects, lists and dicts are reached to which attributes of the schema (for objects: of their own schema, as the bags say) lead, items of lists, keys and values of dicts, through fallbacks, and not through ITEMID or NOFOLLOW attributes. Extract gives a bag with exactly what the bag and its fallbacks hold about them and their schemas (to a maximal depth, if one is given, telling of the leaves), and extracting again changes nothing. A deep clone has the same shape (equal references stay equal, cycles stay cycles), with new ids of the same kinds for all data and with the explicit schemas of the original; nothing else is in its bag, and two clones share no ids. A shallow clone copies one level to the given ids. deep_uuid is the same for two roots exactly if the trees of what is reached from them, with the seed, are the same, and fails if there is a cycle. deep_equivalent tells of no difference exactly if the two sides unfold to the same (of equal schemas, if asked), and each path it tells leads to a difference. None of them depends on how values are stored, and the original bags stay as they were.',
      ['histories', 'inputs'], 'all sequences of updates of attributes, lists, dicts, schemas and fallbacks, from several linked graphs, and all roots',
      'The tests compare a few fixed graphs; cycles, shared nodes, several schemas on the way, and partly visited slices multiply.',
      [DB + 'op_utils/extract.cc', DB + 'op_utils/traverser.h', DB + 'op_utils/traverse_helper.h', DB + 'op_utils/deep_clone.cc', DB + 'op_utils/deep_uuid.cc', DB + 'op_utils/deep_equivalent.cc', DB + 'op_utils/deep_comparator.h'],
      [('extraction level by level with marks of what was visited', DB + 'op_utils/extract.cc'), ('depth-first traversal', DB + 'op_utils/traverser.h'), ('comparison along both sides', DB + 'op_utils/deep_comparator.h')], BTECH, BNOTE.replace('histories of the listed operations up to a length', 'updates of linked graphs up to a length')),
    P('B13', 'Ids are new, uuids are functions of what they are made of, both survive encoding',
      'Every allocation, of any size and kind, in whatever thread and after however many others, gives ids that were never given before and are of the kind asked for; its objects have distinct ids, their offsets, and know their allocation. new_ids_like gives a new id of the same kind for every id, and nothing for missing items. A uuid made of fields, of list items, of dict keys and values, of an object and a salt, of a group, or of a seed and a size, is the same whenever, and only when, kind, seed, names and values (with their types) are the same; the order of fields and dict keys does not matter, that of list items does. Uuids of slices are those of their rows, whatever the representation. Encoding ids as base 62 text and decoding gives the same ids, distinct texts of 22 characters; what is no id or no text is refused. A set of allocations holds exactly what was inserted, to whatever size and in whatever order and grouping, and equality of sets is equality of their elements.',
      ['histories', 'inputs', 'schedules'], 'all sequences of allocations by two threads, of insertions into sets, of fields and of ids; all numbers with few digits that are not 0',
      'Tests look at a few ids; the counters go round after thousands of allocations, sets change their representation at 30 elements, uuids have a shortcut per representation.',
      [DB + 'object_id.cc', DB + 'object_id.h', DB + 'uuid_object.cc', DB + 'op_utils/base62.cc', DB + 'op_utils/itemid.cc', DB + 'op_utils/new_ids_like.cc', DB + 'op_utils/agg_uuid.cc'],
      [('Allocate with per-thread and global counters; AllocationIdSet', DB + 'object_id.cc'), ('uuids from fingerprints', DB + 'uuid_object.cc')], BTECH, BNOTE.replace('histories of the listed operations', 'sequences of allocations, insertions and fields').replace(', on allocations of the three kinds the code treats differently (small, dense, sparse)', '')),
]
