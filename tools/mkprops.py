import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe]}
    if state: a["state"]=[{"name":x,"meaning":x,"where":files[0]} for x in state]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","A timeline delivers every pushed event exactly once, in order and intact",
"For any sequence of event pushes and flushes on a timeline, with any event sizes and any buffer capacity (zero included), serialised or not, every registered listener receives exactly the events that were pushed, in push order and byte-for-byte intact. No batch handed to a listener contains a partial event, and no batch exceeds the buffer capacity unless it is one single oversized event. Everything pushed has been delivered by the time a flush, or the destruction of the timeline, returns.",
["inputs","histories","configurations"],"every history of pushes/flushes/listener registrations, every mix of event sizes, every buffer capacity, both serialisation modes, any number of listeners",
"The unit tests push a handful of fixed-size events at two or three capacities; the guarantee is about every boundary between event size, remaining room and capacity.",
["lib/timeline.c","lib/timeline_listener.c","lib/include/hawktracer/timeline.h"],
[("buffering and flush decision","lib/timeline.c:ht_timeline_push_event"),("fan-out to listeners","lib/timeline_listener.c:ht_timeline_listener_container_notify_listeners")],
"listener callbacks registered through the public API",["timeline buffer and its usage counter"])
p("P02","A thread-safe timeline loses, duplicates or tears nothing under concurrency",
"When any number of threads push events to, flush, and register listeners on the same thread-safe timeline, every listener registered before the pushes receives each event exactly once and unmodified, with each thread's own events in the order that thread pushed them. Deliveries of one such timeline never overlap, and no schedule causes a data race, a memory error, a deadlock or a crash.",
["schedules","inputs"],"every interleaving of pushes, flushes and listener registrations from any number of threads",
"A unit test observes a few lucky schedules; a missing or misplaced lock almost always passes.",
["lib/timeline.c","lib/timeline_listener.c","lib/mutex.cpp"],
[("per-timeline lock","lib/timeline.c:_TIMELINE_LOCK"),("listener list lock","lib/timeline_listener.c"),("mutex wrapper","lib/mutex.cpp")],
"listener callbacks; ThreadSanitizer")
p("P03","What the library serialises, the parser reads back unchanged",
"For every event class that can be declared from integer fields of every width and signedness and string fields, with any depth of single inheritance, and for all field values (any bytes in strings, empty strings and missing strings included), the stream the library writes is decoded by the parser into the same events, in the same order, with the same class names, fields, types and values. This holds both when the parser flattens inherited fields and when it keeps them nested, and an event's announced serialised size always equals the number of bytes actually written.",
["inputs","programs"],"every event class definition of the supported field kinds and every assignment of field values",
"Tests use two or three classes with small values; sign extension, width, string length and inheritance-depth errors only show on others.",
["lib/include/hawktracer/event_macros.h","lib/events.c","lib/registry.c","parser/protocol_reader.cpp","parser/event.cpp","parser/event_klass.cpp","parser/klass_register.cpp"],
[("generated size/serialise functions","lib/include/hawktracer/event_macros.h"),("class description events","lib/registry.c:_ht_registry_init_event_klass_field_info_event"),("field decoding","parser/protocol_reader.cpp:_read_event")],
"bytes given to a listener versus parser callbacks")
p("P04","The dump file is a complete, well-formed record of the trace",
"A trace file written by the file listener always consists of the stream header and class descriptions followed by exactly the events delivered to it, complete, in delivery order and byte-identical to their serialised form, whatever the listener's buffer size (zero for already serialised events included), whatever the event sizes, for serialised and non-serialised timelines, and when several threads deliver concurrently. After a flush that includes the stream everything delivered so far is in the file; after stop or destruction the file is complete and closed, and later deliveries are ignored without harm.",
["inputs","histories","configurations","schedules"],"every listener buffer size, event size mix, serialisation mode, flush/stop history and interleaving of delivering threads",
"Tests check one short file; boundary between event size, remaining room and buffer size, and stop/flush histories are unbounded.",
["lib/listeners/file_dump_listener.c","lib/listener_buffer.c"],
[("chunked buffering","lib/listener_buffer.c"),("lock and stop state","lib/listeners/file_dump_listener.c")],
"bytes of the file on disk, decoded by an independent decoder",["listener buffer, stop state"])
p("P05","Every thread's global-timeline events reach the shared listeners",
"However many threads trace through the global timeline and however their first uses and exits interleave, each thread gets its own timeline, stable for that thread's life, and all of them share one set of listeners. Every event a thread traced is delivered exactly once, in that thread's order, to every listener registered before, at the latest when the thread exits or flushes; listeners registered from one thread see all threads' events. Code traced even later on an exiting thread or in an exiting process (destructors of thread-local and static objects, exit handlers) is recorded while the thread's timeline exists and otherwise ignored, without harm.",
["schedules","histories"],"every interleaving of first use, tracing, listener registration and exit of any number of threads",
"First-use and thread-exit races need particular schedules that single runs of a unit test do not produce.",
["lib/global_timeline.cpp","lib/timeline_listener.c","lib/registry.c"],
[("per-thread instance","lib/global_timeline.cpp:ht_global_timeline_get"),("shared named listener set","lib/timeline_listener.c:ht_find_or_create_listener")],
"listener callbacks on the global timeline; ThreadSanitizer")
p("P06","Each TCP client receives a self-contained, event-aligned stream",
"Every client that connects to the TCP listener, at any moment and alongside any other clients, receives first the complete stream header and class descriptions and then whole events only: a gap-free, in-order, unmodified run of the traced events, up to the moment it disconnects or the listener is stopped. A client that disconnects or stalls for a while does not crash the traced program or disturb the contents of the other clients' streams. Stopping the listener (once, repeatedly, or implicitly by destroying it) delivers what is buffered, closes the connections, and returns once the connected clients are reading or gone.",
["schedules","fault_sequences","histories"],"every interleaving of connects, disconnects, event pushes and stop; every buffer size",
"Tests connect one cooperative client; disconnects, late joiners and stop races are schedule- and fault-dependent.",
["lib/listeners/tcp_listener.c","lib/tcp_server.cpp","lib/listener_buffer.c"],
[("client admission and header push","lib/listeners/tcp_listener.c:ht_tcp_listener_client_connected"),("broadcast and failed-client removal","lib/tcp_server.cpp:ht_tcp_server_write"),("stop","lib/listeners/tcp_listener.c:ht_tcp_listener_stop")],
"bytes received on real loopback sockets, decoded independently; ThreadSanitizer; open descriptors")
p("P07","Call-stack tracepoints report exactly the scopes that ran",
"For any nesting of traced scopes on a timeline, each scope that is closed yields exactly one event, emitted when it closes (innermost first), carrying the label and payload it was opened with, the time it was opened, a duration equal to the time between open and close, and the identifier of the closing thread. Nested scopes lie within their parents, and nesting depth or payload size never corrupts another open scope.",
["inputs","histories"],"every nesting sequence of any depth, mixing integer, string and user-defined call-stack events",
"Tests open one or two scopes; the stack growth/shrink boundaries depend on depth and payload sizes.",
["lib/feature_callstack.c","lib/stack.c","lib/scoped_tracepoint.c","lib/include/hawktracer/scoped_tracepoint.hpp"],
[("open scope stack","lib/stack.c"),("close and emit","lib/feature_callstack.c:ht_feature_callstack_stop")],
"listener callbacks, with a controlled clock",["stack of open events"])
p("P08","A cached-string identifier always resolves to the right label",
"Every identifier returned for a label (static or dynamic) is accompanied by exactly one mapping event, with that identifier and that exact label, that is emitted before the identifier is returned for the first time; asking again for the same label returns the same identifier without another mapping event. Two different labels in use never share an identifier, not even on different timelines that share listeners; labels built at run time may be freed or overwritten after the call, and re-publishing the map emits every known mapping once, for any number of labels and, for a thread-safe cache, any number of threads.",
["inputs","schedules","histories"],"every set and order of labels of any count and length, and every interleaving of lookups when thread-safe",
"Tests map a couple of labels from one thread; hash-bucket growth, hash collisions and check-then-insert races need volume or schedules.",
["lib/feature_cached_string.c","lib/hash_map.c","lib/include/internal/hash.h","lib/include/hawktracer/string_scoped_tracepoint.h"],
[("label table","lib/hash_map.c"),("insert and announce","lib/feature_cached_string.c:ht_feature_cached_string_add_mapping_")],
"mapping events at the timeline listener versus returned identifiers")
p("P09","The parser survives any input: no crash, hang, leak or invented event",
"Given any byte sequence at all - truncated at any point, corrupted, or hostile - the stream reader terminates, without memory errors, undefined behaviour, leaks or uncaught exceptions, and reports every event that lies intact before the first damage exactly as it would without the damage. An event whose bytes are incomplete is never reported.",
["inputs","crash_points"],"every byte string, and every truncation point and mutation of valid streams",
"The input space is unbounded; the tests feed a few well-formed streams.",
["parser/protocol_reader.cpp","parser/klass_register.cpp","parser/event_klass.cpp","parser/event.cpp","parser/file_stream.cpp"],
[("decoding loop","parser/protocol_reader.cpp:_read_events"),("class description intake","parser/klass_register.cpp:handle_register_events")],
"parser callbacks and process health under AddressSanitizer/UBSan/LeakSanitizer")
p("P10","Streams of either byte order decode to the same values",
"A stream that declares big-endian byte order decodes to exactly the same event values as the equivalent little-endian stream, for every integer width, signedness and value, in flattened and nested modes; the declared order takes effect for everything after the declaration, and the library declares the byte order it really writes.",
["inputs","configurations"],"all values of all field widths in both byte orders",
"Tests convert a few constants; end-to-end decoding in the foreign byte order is not exercised.",
["parser/include/hawktracer/parser/endianness_convert.hpp","parser/protocol_reader.cpp","lib/system_info.c"],
[("conversion","parser/include/hawktracer/parser/endianness_convert.hpp"),("declaration handling","parser/protocol_reader.cpp:_read_events")],
"parser callbacks")
p("P11","Each event class is registered once and fully described before use",
"Registering event classes, from any threads and any number of times, gives each class exactly one identifier that is unique and never changes, and reports the same identifier every time. The class description sent to a new listener contains every registered class exactly once, each with all of its fields in declaration order with their true name, type, size and signedness, and, where base classes were registered before the classes derived from them, preceded by the classes it builds on, however many classes there are and however long their names are, in both serialised and non-serialised form.",
["schedules","inputs","histories"],"every set of classes (any count, name length, field count) and every interleaving of registrations",
"Tests register one or two classes sequentially; the description buffer boundaries and registration races depend on volume and schedule.",
["lib/registry.c","lib/timeline_listener.c","lib/system_info.c","lib/include/hawktracer/event_macros.h"],
[("registration","lib/registry.c:ht_registry_register_event_klass"),("description stream","lib/registry.c:ht_registry_push_registry_klasses_to_listener")],
"returned ids and the metadata byte stream",["registered class table"])
p("P12","Event ids and thread ids are unique; timestamps never go backwards",
"No two events stamped from the same identifier source ever carry the same event id, however many threads stamp concurrently, and ids taken by one thread increase. No two threads alive in the process ever have the same thread identifier, a thread's identifier is non-zero and constant for its life, and the timestamps one thread obtains never decrease and track real elapsed time.",
["schedules","histories"],"every interleaving of identifier requests from any number of threads",
"Duplicates come from lost updates on rare schedules.",
["lib/event_id_provider.cpp","lib/thread.c","lib/monotonic_clock.cpp","lib/timeline.c"],
[("atomic counter","lib/event_id_provider.cpp:ht_event_id_provider_next"),("thread numbering","lib/thread.c"),("clock","lib/monotonic_clock.cpp")],
"return values collected from all threads; ThreadSanitizer")
p("P13","The task scheduler runs exactly the due tasks",
"At every tick the scheduler runs each scheduled task once if and only if its due time has been reached, passing it the data it was scheduled with; a task that asks to stop, or is removed (even from within a task), never runs again, while all others are unaffected. The next due time advances by the period from the previous due time or from the completion time according to the task's mode, task identifiers are unique, and the recommended tick period is the greatest common divisor of the non-zero periods. Periods given in microseconds, milliseconds or seconds mean exactly that many nanoseconds.",
["histories","inputs"],"every history of scheduling, ticking, removal and self-removal, with any periods and clock advances",
"Tests tick one or two tasks on the real clock; interactions of removal order, container growth and time are unbounded.",
["lib/task_scheduler.c"],
[("due test and rescheduling","lib/task_scheduler.c:ht_task_scheduler_tick"),("removal","lib/task_scheduler.c:ht_task_scheduler_remove_task")],
"task callbacks under a virtual clock, against a reference model")
p("P14","The library's containers keep exactly what was put in them",
"For every sequence of operations, the growable list, the byte stack, the string map and the listener buffer behave like their obvious abstract models: nothing is lost, duplicated or altered when they grow or shrink, the stack is strictly last-in-first-out, the map returns the last value stored for a key, and a buffer flushes all bytes in order. None of them reads or writes outside its storage, and a failed insertion leaves the contents as they were.",
["histories","inputs","fault_sequences"],"every operation sequence, element count and size, initial capacity and allocation failure point",
"Unit tests run fixed short sequences; growth/shrink thresholds and element types multiply.",
["lib/include/internal/bag.h","lib/stack.c","lib/hash_map.c","lib/listener_buffer.c"],
[("resize","lib/include/internal/bag.h"),("stack growth","lib/stack.c:ht_stack_push"),("bucket insert","lib/hash_map.c:ht_hash_map_insert")],
"model comparison after each operation under AddressSanitizer")
p("P15","All memory goes through the user's allocator, balances, and failure is reported",
"When the user installs an allocator, the library obtains, resizes and releases its memory only through it, always with pointers that allocator handed out, and everything obtained has been released when all objects are destroyed and the library is shut down. If, once the library is initialised, any single allocation fails, the affected call reports an error (or simply does not record the item) and releases what it had obtained; the program does not crash, other objects stay usable and later calls work.",
["fault_sequences","histories"],"failure of each individual allocation in each scenario, and every create/use/destroy history",
"Tests fail one or two chosen allocations; the guarantee quantifies over every allocation site.",
["lib/alloc.c","lib/timeline.c","lib/timeline_listener.c","lib/feature_cached_string.c","lib/feature_callstack.c","lib/hash_map.c","lib/task_scheduler.c","lib/listeners/file_dump_listener.c","lib/listeners/tcp_listener.c","lib/mutex.cpp"],
[("allocator indirection","lib/alloc.c"),("error unwinding","lib/timeline.c:ht_timeline_create")],
"a shadow-tracking allocator that fails the n-th request")
p("P16","Chrome-trace output is valid JSON that carries every traced scope",
"For every stream, the Chrome-trace converter's output file is a valid JSON document containing exactly one complete-event entry for each event with a non-empty label (a label field holding an identifier or text, or else a text field called name), in stream order, with the right name (identifiers resolved to labels through the mappings seen so far), thread, start and duration in microseconds, and every remaining field as an argument with its exact value, whatever characters labels and string values contain. An empty or truncated stream still gives valid JSON.",
["inputs"],"every event stream, label content and field value",
"Tests never convert labels with quotes, control characters or non-ASCII bytes, nor check the output as JSON.",
["client/chrome_trace_converter.cpp","client/converter.cpp","client/tracepoint_map.cpp"],
[("entry formatting","client/chrome_trace_converter.cpp:process_event"),("label resolution","client/converter.cpp:_get_label")],
"output file parsed by an independent JSON parser and compared with the input events")
p("P17","Callgrind output conserves calls and time per thread",
"For every set of properly nested scopes, the converter writes one profile per thread in which the call tree is exactly the nesting of that thread's scopes: for each call path the number of calls from its caller equals the number of scopes with that path, the inclusive time equals the sum of their durations, and the self time equals it minus the time of their direct children. The arrival order of the events and coinciding start times do not change the result, as long as start, stop and event id tell who called whom.",
["inputs","histories"],"every forest of nested scopes on any number of threads in any arrival order",
"Tests check two stored traces; ties, repeated labels, recursion and interleaved threads multiply.",
["client/call_graph.cpp","client/callgrind_converter.cpp"],
[("tree building","client/call_graph.cpp"),("printing","client/callgrind_converter.cpp")],
"generated profile parsed and compared with a reference tree")
p("P18","Stream reading is exact and its lifecycle always completes",
"A stream source (file or TCP) hands the reader exactly the bytes that were sent, all of them and in order, however the network fragments them and whatever their values, and signals end-of-stream exactly when the data is exhausted. Starting (which waits for a TCP server only until stopped), waiting for completion, stopping (at any moment, from another thread than the one that started, repeatedly, with data pending, idle, with half an event received or after the peer has gone) and destroying always return; a read error ends the stream like the end of data does; no event is reported after stop has returned, and a stream started again begins afresh.",
["schedules","fault_sequences","inputs"],"every fragmentation and byte content, every interleaving of data arrival, end of stream, stop and wait",
"Lost wake-ups, byte-value errors and stop races need particular schedules or contents.",
["client_utils/tcp_client_stream.cpp","parser/file_stream.cpp","parser/protocol_reader.cpp","parser/include/hawktracer/parser/stream.hpp"],
[("receive queue","client_utils/tcp_client_stream.cpp"),("reader thread and completion","parser/protocol_reader.cpp:wait_for_complete")],
"bytes and events read versus sent; completion under delays; ThreadSanitizer")
p("P19","The converter program turns a trace source into the requested output",
"Run on a trace file, the client program writes to the requested path (time placeholders expanded, any path length) in the requested format exactly the conversion of that trace, with labels resolved from any number of map files and from the mappings in the trace, and exits successfully; unknown options, missing mandatory values, unknown formats, unreadable sources or unwritable outputs give an error exit, never a crash. An existing file is read as a file; otherwise an address with optional port is used as a TCP source.",
["inputs","configurations"],"every combination of options, paths, map files and trace contents",
"The program's main path and option handling are not tested end-to-end.",
["client/main.cpp","client_utils/command_line_parser.cpp","client_utils/stream_factory.cpp","client/tracepoint_map.cpp"],
[("option parsing","client_utils/command_line_parser.cpp"),("source selection","client_utils/stream_factory.cpp"),("map loading","client/tracepoint_map.cpp:load_maps")],
"the built program run as a process: exit status, output files")
p("P20","Allocation hooks see every allocation exactly once and change nothing",
"With hooks registered, every malloc, calloc, realloc and free in the process invokes the matching before-hook and after-hook exactly once each, around the real operation, with the true arguments, result and user data, on any thread; the allocation functions themselves return exactly what they would without hooks. Allocations made through the hook-skipping functions invoke no hook, and unregistered hooks are not called.",
["inputs","histories","schedules"],"every sequence of allocation calls, sizes and hook combinations on any threads",
"Tests call each function once with one hook set.",
["lib/platform/linux/alloc_hooks.c","lib/include/hawktracer/alloc_hooks.h"],
[("interposed functions","lib/platform/linux/alloc_hooks.c")],
"hook callbacks versus the calls made")
p("P21","CPU and memory usage readings match the operating system",
"The CPU usage reported for a process between two readings is the CPU time it consumed divided by the elapsed time, in percent, for this or another process whatever its name, and the memory readings equal the operating system's virtual, shared and resident sizes of that process in bytes, each output being optional. When the process does not exist or its data is unreadable the call reports failure and crashes nothing.",
["inputs","configurations","fault_sequences"],"every process state and name, every subset of outputs, vanished processes",
"Tests only check that a value is returned.",
["lib/platform/linux/cpu_usage.c","lib/platform/linux/memory_usage.c"],
[("stat parsing","lib/platform/linux/cpu_usage.c:_get_process_time"),("statm parsing","lib/platform/linux/memory_usage.c:ht_memory_usage_get_usage")],
"return values versus controlled /proc contents")
p("P22","Python tracing: wrapped functions behave the same and leave exact traces",
"A Python callable decorated for tracing (plain function, method, static or class method, generator, recursive, raising) returns the same result, raises the same exceptions and receives the same arguments as without the decorator, on any thread, and keeps its reference counts. While tracing is on, each completed call adds exactly one call-stack event with the right label, thread and enclosing interval; while the decorator or tracing is switched off it adds none. A listener file registered from Python holds the complete, decodable trace when the interpreter ends.",
["inputs","histories","programs"],"every decorated callable, label, argument list, nesting, exception, thread and history of switching tracing on and off",
"Tests call a few fixed functions on one thread.",
["bindings/python3/hawktracer_core_python.cpp"],
[("decorator","bindings/python3/hawktracer_core_python.cpp")],
"the built extension in a real interpreter; resulting dump decoded independently")
p("P23","Python client reports every event with exact values",
"The Python client, reading a trace from a file or a TCP source, returns every event of the stream exactly once and in order, each with its class name and the exact values of its fields (signed and unsigned integers of any width, strings, inherited fields). Starting, polling, stopping and destroying the client in any order never crashes, deadlocks or leaks.",
["inputs","histories"],"every stream and every order of client calls",
"The client module has no tests.",
["bindings/python3/client_context.cpp","bindings/python3/hawktracer_client_python.cpp"],
[("value conversion","bindings/python3/client_context.cpp"),("polling","bindings/python3/hawktracer_client_python.cpp")],
"the built extension in a real interpreter, compared with an independent decoding")
p("P24","Generated label files and maps are consistent with the sources and each other",
"For every source tree, the label generator assigns each distinct tracepoint label found exactly one number, unique across all languages, and the generated headers, script file and map file all agree on it and list every label; lines that are not tracepoints contribute nothing. The map it writes is understood by the client, which resolves each number to its label, and so is the map generated from a binary, with the address of each of its functions.",
["inputs"],"every source tree and label set",
"Tests use one fixed asset tree.",
["tools/generate_tracepoint_labels.py","tools/generate_map_from_binary.sh","client/tracepoint_map.cpp"],
[("label collection","tools/generate_tracepoint_labels.py:get_labels"),("map loading","client/tracepoint_map.cpp:load_map")],
"generated files, cross-checked with an independent scan and with the client's map loader")
p("P25","Initialisation and shutdown nest and repeat cleanly",
"Any balanced sequence of initialisations and shutdowns is safe: the library stays usable until the last shutdown, nested initialisations lose no registered class, listener or feature, after a complete shutdown the library can be initialised and used again with full class descriptions, and a timeline destroyed after shutdown still flushes to its listeners. Command-line options recognised at initialisation are applied and all other arguments are ignored, whatever they contain.",
["histories","inputs"],"every sequence of init/use/deinit cycles and every argument vector",
"Tests initialise once per process.",
["lib/init.c","lib/registry.c","lib/command_line_parser.c","lib/posix_mapped_tracepoint.c"],
[("init counter","lib/init.c"),("registry set-up/tear-down","lib/registry.c"),("option parsing","lib/command_line_parser.c")],
"metadata stream and event delivery after each transition; AddressSanitizer/LeakSanitizer")
p("P26","Listener ownership: each is destroyed exactly once, after its last delivery",
"A listener registered with a destroy callback has that callback called exactly once with its data - when listeners are unregistered, or when the last timeline sharing them is destroyed and, for named listener sets, the library is shut down - and never receives an event afterwards; pending events are delivered first when a timeline is destroyed. Timelines that use the same listener-set name share listeners, different names or no name never do, and a timeline feature is likewise destroyed exactly once, including when attaching it is refused.",
["histories","inputs"],"every history of creating/destroying timelines, naming, registering and unregistering any number of listeners and features",
"Tests cover one listener and one timeline; reference counting errors need shared, repeated histories.",
["lib/timeline_listener.c","lib/timeline.c","lib/registry.c"],
[("reference counting","lib/timeline_listener.c:ht_timeline_listener_container_unref"),("destroy fan-out","lib/timeline_listener.c:_ht_timeline_listener_container_unregister_all_listeners")],
"destroy and event callbacks, against a reference model; LeakSanitizer")
p("P27","Every build flavour of the library behaves the same",
"The amalgamated single-file builds (as C and as C++, wherever they are generated), the build of the C++ parts as plain C, the build with POSIX primitives and the build without thread support compile, link with C and C++ programs, and produce, for the same single-threaded program, the same event stream (apart from times and identifiers assigned at run time) as the regular build, and the thread-capable ones give the same guarantees with several threads.",
["configurations","programs"],"every supported build configuration and every traced program",
"The test-suite runs only one configuration.",
["tools/amalgamate.py","lib/mutex.cpp","lib/event_id_provider.cpp","lib/global_timeline.cpp","lib/monotonic_clock.cpp","lib/tcp_server.cpp"],
[("amalgamation","tools/amalgamate.py"),("per-platform selection","lib/mutex.cpp")],
"normalised event streams of the variants compared with the regular build")
p("P28","Parsed events are independent values",
"An event handed out by the parser, and every copy, moved or assigned object made of it, keeps its class, every field value (strings and nested events included) and timestamp exactly, also after the reader, its stream and the class register are gone and when it is copied on other threads; changing or destroying one never affects another, and nothing leaks. The class register can be queried from any thread while descriptions arrive: a class never vanishes and shows a prefix of its described fields, found through any depth of inheritance when asked for. The debugging listener prints each event once with every field's type, name and value, nested events indented, and exact per-class counts.",
["schedules","inputs","histories"],"every stream, every sequence of copies, moves, assignments and destructions of its events, and every interleaving of register queries with reading",
"Tests look at events inside the callback; user code keeps, copies and merges them, on other threads and after reading ended.",
["parser/event.cpp","parser/event_klass.cpp","parser/klass_register.cpp","parser/debug_event_listener.cpp"],
[("value semantics","parser/event.cpp:Event::Value"),("register lock","parser/klass_register.cpp:KlassRegister"),("printing","parser/debug_event_listener.cpp")],
"value strings compared after every operation, ownership sets, reference printer; Address/Leak/ThreadSanitizer")
p("P29","Failing system calls are contained",
"If, once the library is initialised, any system call it makes for a destination or source (opening, writing, flushing or closing a trace file; creating, accepting, sending on or closing a socket; starting a thread; reading a file or socket) fails, is interrupted or does part of its work, then either the affected call reports an error or only the affected destination or source is cut off. What a cut-off destination holds is an unbroken prefix of its stream (everything, where a flush reported success), interruptions and partial work are invisible, and every other file, client or reader is complete. Nothing crashes, blocks, throws through a C interface or leaks a descriptor, no descriptor the library does not own is touched, and the same operation succeeds afterwards.",
["fault_sequences","histories"],"every system call of every workload, failing, interrupted or partial at that point, once or from then on",
"Tests run on a healthy machine: full disks, descriptor exhaustion, interrupted calls and resets at one particular call are never sampled.",
["lib/listeners/file_dump_listener.c","lib/listeners/tcp_listener.c","lib/tcp_server.cpp","client_utils/tcp_client_stream.cpp","parser/file_stream.cpp","parser/protocol_reader.cpp"],
[("file output","lib/listeners/file_dump_listener.c"),("server socket and clients","lib/tcp_server.cpp"),("TCP source","client_utils/tcp_client_stream.cpp"),("reader thread","parser/protocol_reader.cpp")],
"each call interposed and failed in turn; output decoded and compared with the fault-free stream; descriptor table compared; ASan/LSan/UBSan")
p("P30","However the program ends, its trace stays readable",
"Whatever ends a traced program at whatever moment (a kill, an abort, an uncaught exception, _exit or quick_exit, exit while threads trace or after they were joined, an orderly ht_deinit followed by exit, main ending before its threads), it ends the way it was asked to, without crashing or hanging in the library. Each trace file then holds a readable prefix of the trace: every class description before its first event, each thread's events in order without a gap, their content intact, at most the last event cut off, and everything a successful file flush covered; after an orderly end it is complete. A connected TCP client has received such a run of events too and sees the connection end.",
["crash_points","schedules"],"every moment and every write, flush, close or send at which the program ends, by any of the ways of ending, with other threads tracing and clients connecting",
"Traces matter most for programs that die; tests always shut down in order and read the result in the same process.",
["lib/listeners/file_dump_listener.c","lib/listeners/tcp_listener.c","lib/init.c","lib/global_timeline.cpp","lib/registry.c"],
[("file output","lib/listeners/file_dump_listener.c"),("end of the library","lib/init.c:ht_deinit"),("thread and process end","lib/global_timeline.cpp"),("descriptions outliving the library","lib/registry.c")],
"the program runs in a child process whose counters live in shared memory; what it left is decoded by an independent reader and the parser; ASan/TSan in the child")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
