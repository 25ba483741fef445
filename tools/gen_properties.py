#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run it to regenerate the file."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])], hook_needed=hook)))
I='include/neolib/'
p('T01','Thread pool runs every accepted task exactly once',
  'Every task handed to a running thread pool is run exactly once, by exactly one pool thread, whatever the interleaving of submitters and workers, and its future delivers the value the task produced; a task cancelled before it starts is not run. No two workers ever run the same task and no accepted task is forgotten while the pool is running.',
  ['schedules','histories'],'all interleavings of 1-3 submitting/waiting threads with 1-3 workers, up to a preemption bound',
  'unit_tests/threadpool.cpp is in no target; a run samples one schedule, loss or duplication needs a particular hand-over between enqueue, steal and idle.',
  ['src/task/thread_pool.cpp',I+'task/thread_pool.hpp',I+'task/task.hpp'],
  [('per-thread queue guarded by the pool mutex plus condition variable hand-over','src/task/thread_pool.cpp thread_pool_thread'),('work stealing','src/task/thread_pool.cpp steal_work')],['thread_pool::start/run/try_start','i_task::run','std::future'])
p('T02','Thread pool wait, stop and destruction terminate and mean idle',
  'Waiting for a pool returns to every waiter once, and only after, all tasks accepted before the wait have finished (or the pool was stopped), from any number of waiting threads; stopping or destroying the pool always terminates with every worker joined. No interleaving deadlocks or loses the wake-up of a waiter.',
  ['schedules'],'all interleavings of 1-2 waiters, 1-2 submitters and 1-2 workers up to a preemption bound',
  'Lost wake-ups and premature returns appear only in particular interleavings; no test runs the pool at all.',
  ['src/task/thread_pool.cpp'],[('idle flag and wait condition variable','src/task/thread_pool.cpp update_idle, thread_gone_idle, wait')],['thread_pool::wait','thread_pool::stop','thread_pool::~thread_pool'])
p('T03','Thread pool honours priority order',
  'Tasks waiting in a thread pool are started in non-increasing priority, and tasks of equal priority are started in the order they were submitted.',
  ['histories','schedules'],'all priority assignments for up to 5 queued tasks behind a busy worker, all interleavings up to the bound',
  'No test submits tasks of different priorities.',['src/task/thread_pool.cpp'],[('priority insertion','src/task/thread_pool.cpp thread_pool_thread::add')],['order of i_task::run'])
p('T04','Waitable events neither lose nor duplicate signals',
  'A waitable event released by signal_one lets exactly one waiter (present or future) through per signal that is pending, signal_all lets every thread that was waiting through, and a wait that reports success consumed a signal while a timed wait that reports failure consumed none; no signal is lost and no wait returns success without a signal. Signals that find no waiter coalesce into one pending signal, and a thread that arrives while a broadcast is under way may pass with it.',
  ['schedules'],'all interleavings (and timeout / spurious wake-up choices) of 1-3 waiters and 1-2 signallers',
  'No test touches waitable events; loss needs the signal to land between time-out and re-acquisition.',
  ['src/task/waitable_event.cpp',I+'task/waitable_event.hpp'],[('ready flag under mutex with condition variable','src/task/waitable_event.cpp')],['waitable_event::wait','waitable_event::wait(timeout)'])
p('T05','Recursive and switchable mutexes give mutual exclusion and wake-up',
  'The library\'s lockable types (sleeping, spinning, switchable, proxied, multi-lock) admit at most one thread at a time, may be re-locked by their owner and are released only by the matching number of unlocks, a try-lock fails exactly when another thread holds the lock, and a released lock is always eventually obtained by a waiting thread (no lost wake-up).',
  ['schedules'],'all interleavings of 2-3 threads locking, re-locking, try-locking and unlocking, up to a preemption bound',
  'The mutex header does not even build in the tested configuration; exclusion and lost wake-ups are schedule properties.',
  [I+'core/mutex.hpp',I+'core/i_mutex.hpp','src/core/mutex.cpp'],[('atomic flag test-and-set, owner id and lock count, notify on release',I+'core/mutex.hpp recursive_mutex')],['lock/try_lock/unlock'])
p('T06','Thread life cycle is sound under any interleaving',
  'A thread object runs its function at most once and only after start; starting twice, waiting before start and waiting on oneself are rejected; wait returns only after the function has finished; abort, cancellation and destruction at any moment (including before start) terminate without deadlock, without crashing the process, and leave the thread reported as finished.',
  ['schedules','histories'],'all operation sequences up to depth 4 and all interleavings with the thread body up to the bound',
  'No test in the working suite creates a thread.',['src/task/thread.cpp',I+'task/thread.hpp'],[('state machine guarded by a recursive mutex','src/task/thread.cpp')],['thread::start/wait/abort/cancel/state'])
p('E01','Synchronous events reach every live subscriber exactly once, in order',
  'Triggering an event synchronously calls each slot subscribed at that moment exactly once, priority subscribers first and the others in subscription order, until one accepts the event, which stops delivery and is reported; slots may be added or removed, the event re-triggered or destroyed from inside a handler at any depth without losing, repeating or corrupting the other deliveries. A slot added during a delivery is first called by the next trigger; one removed before its turn is not called.',
  ['histories'],'all sequences up to a bounded depth of subscribe, unsubscribe, trigger and re-entrant handler actions on up to 3 slots',
  'The Event test is not built here and only prints; re-entrant combinations are unbounded.',[I+'task/event.hpp',I+'task/i_event.hpp','src/task/event.cpp'],[('work list snapshot per trigger depth',I+'task/event.hpp sync_trigger')],['slot callbacks','trigger_result'])
p('E02','Asynchronous events are delivered once, in order, on the right thread',
  'An event triggered asynchronously, or synchronously from a thread other than the subscriber\'s, is delivered on the subscriber\'s thread when it pumps its queue: once per trigger, in trigger order, with the triggered arguments; no-duplicate and stateless deliveries collapse to a single one with the latest arguments (their order among other deliveries, and arguments of reference type, are outside the statement); nothing is delivered to a destroyed subscription or from a destroyed event.',
  ['schedules','histories'],'all sequences of trigger/pump/unsubscribe/destroy up to a bounded depth and all interleavings of a triggering with a pumping thread',
  'The Event test is not built here; ordering across threads is a schedule property.',[I+'task/event.hpp','src/task/event.cpp'],[('per-thread event queue',I+'task/event.hpp async_event_queue')],['slot callbacks'])
p('E03','Timers fire when due, once per wait, and never after cancellation',
  'A timer calls its handler once for each wait it is given, not before its duration has elapsed and at the first poll of its task thereafter; a cancelled, disabled or destroyed timer, or one whose context or task is destroyed, never calls its handler, and a timer may be re-armed, cancelled or destroyed from its own handler.',
  ['histories'],'all sequences of timer operations, clock advances and polls up to a bounded depth on up to 2 timers, including operations from the handler',
  'Timers are not built in the tested configuration; real clocks make histories unrepeatable.',['src/task/timer.cpp','src/task/timer_object.cpp','src/task/async_task.cpp',I+'task/timer.hpp',I+'task/i_timer_object.hpp'],[('timer service polling of expiry time','src/task/timer_object.cpp poll'),('handler guard flags','src/task/timer.cpp handler')],['callback_timer callback'])
p('M01','Reference-counted objects die exactly when the last owner goes',
  'An object owned through reference-counting pointers is destroyed exactly once, exactly when its last strong owner releases it, whatever the sequence of copies, moves, conversions, resets, swaps, releases and detaches; weak pointers never keep it alive, report expiry exactly from its destruction on, and never dangle.',
  ['histories'],'all sequences up to a bounded depth over 2 objects and up to 4 strong/weak pointers, including self-assignment and release from a destructor',
  'No test covers the pointers; errors need particular aliasing sequences.',[I+'core/reference_counted.hpp',I+'core/i_reference_counted.hpp'],[('intrusive count and weak control block',I+'core/reference_counted.hpp')],['object destructor','use_count','expired'])
p('M02','Shared ownership across threads destroys exactly once',
  'Threads that copy and drop their own reference-counting pointers (and lifetime flags) to a shared object concurrently never destroy it early, twice, or not at all.',
  ['schedules'],'all interleavings of 2-3 threads with 2-3 copy/drop operations each','Atomicity of the count is a schedule property.',
  [I+'core/reference_counted.hpp',I+'core/lifetime.hpp','src/core/lifetime.cpp'],[('atomic reference count',I+'core/reference_counted.hpp add_ref/release')],['object destructor'])
p('M03','Lifetime flags tell the truth about their object',
  'A lifetime flag taken from an object reports creating, alive, destroying and destroyed exactly as the object passes through those states, in that order and never backwards, and stays readable after the object is gone; scoped guards restore exactly the value they saved.',
  ['histories'],'all sequences of flag creation, copy, move, state change and destruction up to a bounded depth','No test exercises lifetime flags.',
  [I+'core/lifetime.hpp','src/core/lifetime.cpp',I+'core/scoped.hpp'],[('shared control block outliving the object',I+'core/lifetime.hpp')],['destroyed_flag','object_state'])
p('C01','gap_vector is indistinguishable from std::vector',
  'Under every sequence of insertions, erasures, assignments, copies, moves, swaps, resizes and accesses, a gap vector holds the same elements in the same order as std::vector does, returns the same iterators positions, constructs and destroys each element exactly once, and never touches memory outside its storage.',
  ['histories'],'all operation sequences to a bounded depth with positions at, around and inside the gap','The Containers test is not built here and samples a few insert/erase patterns.',
  [I+'core/gap_vector.hpp'],[('gap relocation',I+'core/gap_vector.hpp')],['iteration, size, operator[]','element constructor/destructor balance'])
p('C02','segmented_array is indistinguishable from std::vector',
  'Under every sequence of insertions, erasures, resizes, copies, swaps and accesses, a segmented array holds the same elements in the same order as std::vector does, indexing and iterator arithmetic agree with position across segment boundaries, each element is constructed and destroyed exactly once, and iterators returned by modifiers point at the documented position.',
  ['histories'],'all operation sequences to a bounded depth with tiny segments so that every operation meets a boundary','The Containers test is not built here and samples a few patterns.',
  [I+'core/segmented_array.hpp',I+'core/array_tree.hpp',I+'core/red_black_tree.hpp'],[('segments in a size-augmented red-black tree',I+'core/segmented_array.hpp, array_tree.hpp')],['iteration, size, operator[]'])
p('C03','tag_array and indexitor keep elements, tags and index translation consistent',
  'Under every sequence of insertions and erasures, a tag array holds the same elements as a flat sequence and every element stays with the tag it was inserted under, and an indexitor translates local to foreign positions and back exactly as summing the foreign lengths of the preceding entries does.',
  ['histories'],'all operation sequences to a bounded depth with tiny segments','No test covers these containers.',
  [I+'core/tag_array.hpp',I+'core/indexitor.hpp',I+'core/index_array_tree.hpp'],[('dual-size augmented tree',I+'core/index_array_tree.hpp')],['iteration','tag()','foreign_index'])
p('C04','Tree container keeps its hierarchy through every edit',
  'Under every sequence of child insertions and erasures at any node, sort and copy, the tree container enumerates the same nodes in the same pre-order, with the same parents, depths, children and sizes, as a plain reference tree, forwards, backwards and with skipped subtrees.',
  ['histories'],'all edit sequences to a bounded depth','The Containers/Tree test is not built here and builds one tree.',[I+'core/tree.hpp',I+'core/segmented_tree.hpp'],[('node child segmented arrays with descendant counts',I+'core/segmented_tree.hpp')],['iteration','parent','children'])
p('C05','A jar\'s cookies identify their items for as long as the items live',
  'Every item put in a jar is found under its own cookie, and under no other, until it is removed; live cookies are pairwise distinct, unknown or removed cookies are rejected, size and iteration show exactly the live items, and with a locking jar this also holds when threads insert and remove concurrently. (Cookies chosen by the caller lie above those already used; iterating a locking jar, or keeping a reference into it, needs its mutex.)',
  ['histories','schedules'],'all insert/emplace/add/remove/find/clear/copy sequences to a bounded depth, and all interleavings of 2 threads','The jar does not build in the tested configuration.',
  [I+'core/jar.hpp',I+'core/i_jar.hpp'],[('reverse index and free cookie list',I+'core/jar.hpp')],['contains, find, operator[], iteration'])
p('C06','Interface containers agree with the standard containers they mirror',
  'The plugin-safe vector, list, deque, set, map, multimap, unordered map, string, optional, pair and variant behave, through their concrete and their abstract interfaces, exactly like their standard counterparts: same contents and order, same lookup results, same returned positions, after every sequence of operations, including copies made through the abstract interface.',
  ['histories'],'all operation sequences to a bounded depth over a 3-value alphabet, through both interfaces','The Containers test is not built here and samples a few calls.',
  [I+'core/vector.hpp',I+'core/list.hpp',I+'core/deque.hpp',I+'core/map.hpp',I+'core/set.hpp',I+'core/unordered_map.hpp',I+'core/string.hpp',I+'core/optional.hpp',I+'core/variant.hpp'],[('virtual do_* forwarding and heap-allocated iterators',I+'core/*.hpp')],['iteration, lookups'])
p('C07','Small-buffer vectors behave like std::vector at and across their capacity',
  'Vectors with inline storage hold exactly the elements a std::vector would after every sequence of operations, before, at and after the switch between inline and heap storage, with copies and moves never sharing storage and each element destroyed exactly once.',
  ['histories'],'all operation sequences to a bounded depth on two vectors with inline capacity 1-3','No test crosses the inline capacity with copies and moves.',
  [I+'core/static_vector.hpp',I+'core/small_buffer_allocator.hpp',I+'core/vecarray.hpp',I+'core/small_vector.hpp',I+'core/polymorphic_vecarray.hpp'],[('inline buffer allocator',I+'core/small_buffer_allocator.hpp')],['iteration','element balance'])
p('C08','Quick strings and string views agree with std::string',
  'A quick string, whether it owns its characters or views someone else\'s, equals the std::string built by the same operations and agrees with it on every search, comparison, substring, access and error; the first modification (or c_str()) turns a view into an owner, never changing the viewed characters; copies of an owner are independent; string views agree with std::string_view.',
  ['histories'],'all operation sequences, to closure, over 2 quick strings of bounded length that own or view their characters, every const member with every argument of a small universe; all pairs of substrings as string views','No test covers quick_string or string_view directly.',[I+'core/quick_string.hpp',I+'core/string_view.hpp',I+'core/i_string_view.hpp'],[('view-or-owner representation',I+'core/quick_string.hpp')],['every const member','exceptions'])
p('S01','UTF conversions are exact and safe on every input',
  'Converting between UTF-8, UTF-16 and UTF-32 preserves every Unicode scalar value in both directions, produces only well-formed output, and on ill-formed input of any shape terminates without reading out of bounds, each byte that does not start a well-formed sequence becoming U+FFFD (or its code page character where a fallback is given) and unpaired surrogates passing through; code point and code unit counts agree with the conversion.',
  ['inputs'],'every scalar value, every byte string of length up to 4 over the class-representative alphabet, every UTF-16 pair','A test samples no UTF conversion.',[I+'core/string_utf.hpp'],[('table-free decoders',I+'core/string_utf.hpp')],['utf8_to_utf16 and friends'])
p('S02','String utilities agree with their plain definitions',
  'Tokenising, replacing, trimming, joining, wildcard matching and multi-pattern searching give the result of the plain definition of the operation for every input, including empty strings, overlapping patterns and delimiters at the ends. (An empty wildcard pattern, adjacent stars and the span list of a replacement are not specified.)',
  ['inputs'],'all strings over a 2-3 letter alphabet up to a bounded length for every argument','The StringUtils test samples a few calls.',[I+'core/string_utils.hpp','src/core/string_utils.cpp'],[('string algorithms',I+'core/string_utils.hpp')],['function results'])
p('S03','Text and binary codings round-trip',
  'Integers converted to text and back keep their value (doubles to within 1e-15 relative), malformed numeric text is reported as such, LEB128 encodings are minimal and decode to the encoded value, CRC-32 is the standard polynomial for every message, and UUIDs order and round-trip through text. (Numbers that do not fit the fixed-width target are not specified.)',
  ['inputs'],'every value of small types and every boundary value of wide ones; every message up to a bounded length','Tests sample a few values.',[I+'core/string_numeric.hpp',I+'core/leb128.hpp',I+'core/crc.hpp','src/core/crc.cpp',I+'core/uuid.hpp','src/core/uuid.cpp'],[('encoders',I+'core/leb128.hpp')],['function results'])
p('S04','URIs are split and rebuilt as RFC 3986 says',
  'Parsing a URI of the form scheme://[user@]host[:port]/path?query#fragment yields the components RFC 3986 assigns (path without its leading slash, path, query and fragment decoded), any other text is handled without harm, escaping and unescaping are inverse, and rebuilding a parsed URI gives a URI with equal components.',
  ['inputs'],'all combinations of present/absent/empty components over small component alphabets','The Io test samples few URIs.',[I+'io/uri.hpp','src/io/uri.cpp'],[('component splitter','src/io/uri.cpp')],['uri accessors'])
p('J01','JSON documents are read as written and round-trip',
  'Every well-formed JSON text is accepted and yields exactly the values (numbers to within 1e-15 relative), member names, element order and nesting it denotes, including escapes, surrogate pairs and number forms; writing a parsed document and reading it back yields an equal document. In the relaxed and functional syntaxes (rjson, fjson) a comment, wherever a space may be, means what the space means, and the relaxed syntax reads every JSON text as JSON does.',
  ['inputs'],'all token sequences of the JSON grammar up to a bounded length, all escape forms, all number shapes to a bounded length','The NoFussJSON test has no assertions.',[I+'file/json.hpp',I+'file/json.inl'],[('table-driven state machine',I+'file/json.inl')],['basic_json::read/write','basic_json_value'])
p('J02','Malformed JSON is rejected with a location and without harm',
  'Every text that is not well-formed JSON (the standard syntax also admits unquoted words as values and member names) is rejected, with an error description and a position inside the text or just past its end, and no input of any shape, encoding or length crashes the parser or makes it read outside its buffer; the document can be used again afterwards.',
  ['inputs'],'all strings up to a bounded length over an alphabet with one representative per parser character class, and all single-token mutations of valid documents','The NoFussJSON test has no assertions.',[I+'file/json.hpp',I+'file/json.inl'],[('state table error states',I+'file/json.inl')],['basic_json::read result','error_text'])
p('J03','JSON documents edited in memory stay consistent',
  'Building and editing a JSON document in memory (members by name, elements, insertion, removal and renaming at nodes, assignment, values moved between nodes, clearing) keeps objects as name-to-value maps and arrays as sequences in order, with parents, iteration, look-up by name, index and path, numeric access and the written text consistent with the edits, whether or not anything was looked up before.',
  ['histories'],'all edit sequences to a bounded depth','The NoFussJSON test has no assertions.',[I+'file/json.hpp',I+'file/json.inl'],[('sibling-linked nodes',I+'file/json.hpp basic_json_node')],['iteration, as<>, at'])
p('X01','XML documents are read as written and round-trip',
  'Every well-formed document of the supported subset (no < or > inside attribute values, entity references to the five predefined entities and to characters, white-space-only text dropped) yields the elements, attributes, text, comments, CDATA sections, declarations and processing instructions it denotes in document order with references decoded (with white space collapsed when stripping is asked for); writing a document, read or built and edited in memory, and reading it back yields an equal document up to white space at the ends of texts; unterminated, mis-nested or truncated input, a missing or second root and bad attribute syntax make read() return false or set error(); no input of any kind makes the reader leave its text or crash.',
  ['inputs'],'all documents of a small grammar up to a bounded size and every truncation and single-character mutation of them','No test covers XML.',[I+'file/xml.hpp',I+'file/xml.inl'],[('tag tokenizer',I+'file/xml.inl')],['xml_node tree','write'])
p('X02','The grammar parser recognises exactly the language of its grammar',
  'For a grammar without left recursion, made of concatenation, alternation (longest or first match), repetition, optional, ranges, discarded and folded parts, the parser accepts a source exactly when its rules, each component taking what it can without going back, match the whole of it from the root, or, without a root, one rule after the other; otherwise it reports an error. The concrete tree holds the terminals and symbols of that match, each with its text, in order and nested as they were matched, without ignored and discarded parts and without nodes that only repeat their parent, whatever was tried before and however often a component was asked for at one place; the abstract tree holds those of them that carry a concept, infix operators above their operands. A parser can be used again.',
  ['inputs'],'all grammars of two symbols with bodies of two levels of components (three for some), with and without concepts and ignored symbols, over all strings up to a bounded length; arithmetic expressions to a bounded length','No test parses anything with the grammar parser except a few samples.',[I+'file/parser.hpp'],[('recursive descent with memoisation',I+'file/parser.hpp')],['parser::parse','parser::cst','create_ast'])
p('N01','Packets survive any fragmentation and connections report every outcome',
  'However the bytes of a connection are cut into reads, a stream of string packets reports exactly the non-empty lines that have ended (CR and LF both end a line), in order, whatever the size of the receive buffer, and a stream of binary packets the bytes themselves, in order, none lost or repeated; copies and clones of a packet equal it. Packets handed to a stream are sent whole and in order, those of high priority first, also when the network takes them in pieces or they were handed over before the connection, and each is reported sent once. A connection that is established, refused, cannot be bound, fails while transferring or ends reports exactly that, once, and a stream that was closed, by either side, by an error or from within one of its own handlers, reports nothing more, can be destroyed at any point and can be opened again with nothing left over from before. An HTTP request sends the request line, the host, the headers and the body it was given to the address, port and resource of its URL, and ends in exactly one of Completed and Failure, with the status, headers and body (of given length, chunked or up to the end) of the response; a response that is cut short, malformed or ends in an error is a failure; a client can be destroyed or asked again at any point, also from within a handler.',
  ['inputs','fault_sequences'],'every fragmentation of short packet streams at every byte boundary, every sequence of opening, sending, receiving, hanging up, failing and closing to a bounded depth, over a network whose calls are controlled','No test sends a packet.',[I+'io/packet_stream.hpp',I+'io/packet_connection.hpp',I+'io/string_packet.hpp',I+'io/binary_packet.hpp','src/io/http.cpp'],[('packet take_some framing',I+'io/string_packet.hpp'),('proxy of pending handlers',I+'io/packet_connection.hpp'),('response reader','src/io/http.cpp')],['packet arrival events','Completed/Failure'])
p('F01','Compressed files decode to their original or are refused',
  'Unpacking a gzip file of one member, or an entry of a zip file whose directory ends the file, yields exactly the bytes that were packed, for stored and deflated data of any size including empty, any optional header fields and sizes that follow the data; a truncated or corrupted file is refused (ok() is false, extraction reports failure) or still yields exactly those bytes, and is never read out of bounds; zip::extract writes only below the target directory; file helpers convert paths between encodings, create directories and files without harming existing ones, and report extension, existence, size, date and the outcome of a move as they are; a hex dump shows every byte at its offset.',
  ['inputs','crash_points'],'all small contents and archive shapes, every truncation point and every single-byte corruption of sample archives','Tests cover no archive.',['src/file/gunzip.cpp','src/file/zip.cpp','src/file/file.cpp'],[('central directory walk and inflate','src/file/zip.cpp')],['gunzip::ok/uncompressed_data','zip::extract'])
p('A01','Settings keep their values, defaults and pending changes straight',
  'A registered setting has its default value until it is given another; a value that is set is pending, and reported as such, until it is applied or discarded, or the current value is set again; an optional setting can be cleared back to its default, and changing the default shows only while it is in use. Every step notifies changing while values are pending or given up and changed when the value in use, the default in use or the enabled state became another, once each and for the settings concerned only, and applying notifies each category changed once. Values that were applied and saved, of every type, are exactly the values registered from that file again, settings that use their default or were deleted are not stored, and a stored element without a value or a damaged file does no harm. Settings, in order of key and of registration, categories, groups, friendly texts and constraints are exactly those registered; registering twice, unknown keys and clearing a setting that is not optional throw. A handler may delete, register and change settings.',
  ['histories'],'all sequences of register/set/change/apply/discard/clear/default/enable/delete/save/reload over two or three settings as a state space, all types with their boundary values, all damaged forms of a small file','Settings are not built in the tested configuration.',[I+'app/setting.hpp',I+'app/setting_value.hpp',I+'app/setting_constraints.hpp',I+'app/settings.hpp','src/app/settings.cpp'],[('new/current/default value triple',I+'app/setting.hpp'),('load, save and apply','src/app/settings.cpp')],['setting values','events','settings file'])
p('A02','Versions, names and arguments are parsed and ordered correctly',
  'Versions order by major, minor, maintenance and build number in that order, and equal exactly when all four do; text written from a version, with or without a zero build number and with any name that does not begin with a number, reads back as the same version and name, any text reads as some version and copies equal their original. Program arguments are reported as given, in order, and make an application removable exactly when one after the first is pocket or removable after a slash or dash, in any case. Application information reports what it was given and so do its copies; a folder that was not given is the current directory, the settings folder of the user for this application or, for data, the settings folder, is created only when asked for, and asking without a name for the application throws.',
  ['inputs'],'all pairs of versions over boundary components, all short texts, all argument lists to a bounded length, all combinations of information given','The App tests are disabled.',[I+'app/version.hpp',I+'app/i_version.hpp',I+'app/application_info.hpp','src/app/application_info.cpp'],[('version comparison and text',I+'app/version.hpp'),('folders and copies','src/app/application_info.cpp')],['version values','application_info accessors','directories created'])
p('P01','Plugins are listed exactly while they are usable and outlived by their modules',
  'A plugin is listed, found and offered by the plugin manager exactly from the time its module was opened, its entry point made it and its load succeeded until it is unloaded or fails to initialize; one whose module is missing, has no entry point, makes no plugin, throws, refuses to load or has an id that is taken is reported as a failure, once, and leaves nothing open or listed. Loading, initializing and unloading are announced in order; a plugin that refuses to be unloaded stays; one that fails does not keep the others from loading; handlers of the events may load and unload plugins; nothing of a plugin is used after its module is closed and every module is closed in the end. Plugins are looked for below the folders of the application and the program, each once. A module is open exactly while a module object that loaded it, or was copied or moved from one that did, exists and has not been unloaded.',
  ['failures','histories'],'all histories of loading, initializing, enabling and unloading over modules failing in every way, handlers that load and unload, histories of module objects','There are no tests of plugins.',[I+'plugin/plugin_manager.hpp','src/plugin/plugin_manager.cpp','src/app/module.cpp','src/posix/app/posix_module.cpp'],[('loading and unloading','src/plugin/plugin_manager.cpp'),('ownership of the handle','src/app/module.cpp')],['the list of plugins','event log','open count of each module'])
p('K01','ECS entities own exactly their components',
  'In an entity-component-system every entity has exactly the component data populated for it and not since removed, and look-up by entity, index, snapshot or after a sort returns that entity\'s data whatever other entities are created, changed or destroyed; sorting sorts and only permutes. Ids are unique among the living entities and handles; entities asked for or doomed asynchronously are created or destroyed once, at the commit, with their events; destroyed entities disappear from all components and free their handles once; an entity with a life span is destroyed when, and not before, the world clock passes it. Systems are applied once per tick unless paused, individually or all together; named shared data keeps its address; component locks lock, and leave locked, exactly what they say.',
  ['histories'],'all create/populate/remove/destroy sequences to a bounded depth over 3 entities and 2 components, plus handles, shared components, systems, life spans and locks','The ECS is not built in the tested configuration.',['src/ecs/ecs.cpp',I+'ecs/component.hpp',I+'ecs/ecs.hpp',I+'ecs/i_ecs.hpp',I+'ecs/system.hpp','src/ecs/time.cpp',I+'core/intrusive_sort.hpp'],[('entity to index tables with free list',I+'ecs/component.hpp'),('deferred creation and destruction','src/ecs/ecs.cpp')],['component lookups','events'])
p('L01','Loggers write every message that passes exactly once, in order',
  'A message whose severity reaches the filter of a logger and whose category is not disabled there (one that is not registered is not) is written exactly once and whole, messages of one thread in the order they were logged, whichever threads log, commit, wait, end or change the settings meanwhile, and whether or not a logging thread is running: without one when commit() is called, with one by itself, at the latest when the logger is finalized; after wait() with a logging thread everything logged before is written. Messages that do not pass are not written. Severity and category are those of the thread, last given. The formatter in use makes the text that is written and announced, once, to the handlers; the line id counts the messages that passed. Copies get the messages that are flushed, and the severities and categories given, while they are attached, and apply their own filter, categories and formatter.',
  ['histories','schedules'],'all histories to a bounded depth over up to three loggers as a state space; all interleavings of two to three threads to a preemption bound','The logger test prints and checks nothing.',[I+'app/logger.hpp',I+'app/i_logger.hpp',I+'app/ostream_logger.hpp'],[('double buffers per thread and the logging thread',I+'app/logger.hpp')],['what commit() is given','events'])
p('G01','Vector and matrix algebra is exact where the mathematics is',
  'Vector, swizzle, matrix, rotation, interpolation and axis-aligned-box operations agree with their textbook definitions on every small-integer operand (where floating point is exact) or to rounding error (rotations); the scalar, AVX and run-time-chosen forms agree; rotation matrices are proper rotations that take one direction to the other; affine interpolation meets both end points; a box contains, meets and encloses exactly what it should, also after an affine transformation; bounded random numbers stay within their bound; integer interpolation counters start and end where they are told and are evenly spaced.',
  ['inputs'],'all operands over a small exact alphabet','The Numerical test samples a few operands.',[I+'core/numerical.hpp',I+'core/simd.hpp',I+'core/swizzle.hpp',I+'core/bresenham_counter.hpp'],[('component loops and SIMD paths',I+'core/numerical.hpp'),('four products at a time',I+'core/simd.hpp'),('component selection',I+'core/swizzle.hpp'),('error accumulation',I+'core/bresenham_counter.hpp')],['operators','conversions'])
p('G02','Easings are the functions their names say',
  'Every named easing, In, Out, InOut and OutIn of every curve, is at every point the function its name stands for, in float and in double; the name and the easing map to each other one to one; the scaled form starts at b and ends at b + c; an easing of two (or four) gives each half (quarter) of the time and of the range to one of them; a partitioned easing gives every part time and range by its weight, in order.',
  ['inputs'],'all easings, pairs and groups at every point of a grid','No test touches easings.',[I+'core/easing.hpp'],[('one case per easing',I+'core/easing.hpp'),('partitions',I+'core/easing.hpp')],['ease()','partitioned_ease()','enum_to_string()'])
p('C09','Type-erased values, references and enumerations keep the value and its type',
  'An any holds the value last given, of exactly the type given, through copies, moves, assignments (to itself too), swaps and emplacements, also through i_any; casts to that type give it and to any other type fail without harm; a constructor or copy that throws leaves an any empty or as it was; every value is destroyed once. An any_ref or any_const_ref refers to the very object it was given until told otherwise. An enumeration converts to the text of its name and back for every named value, to hexadecimal text and back or an error otherwise. Iterating ranges zipped together visits corresponding elements, and sorting, swapping or assigning through the iterator moves all of them together.',
  ['histories','inputs'],'all operation sequences as a closed state space; all values, names and small contents','No test touches these.',[I+'core/any.hpp',I+'core/i_any.hpp',I+'core/any_ref.hpp',I+'core/enum.hpp',I+'core/i_enum.hpp',I+'core/zip_iterator.hpp'],[('small-buffer and heap storage',I+'core/any.hpp'),('enumerator maps',I+'core/i_enum.hpp'),('tuples of references',I+'core/zip_iterator.hpp')],['any_cast','enum_to_string','dereferencing'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
