"""The semantic properties (source of properties.jsonl)."""
def P(id, title, statement, over, text, why, files, mech, **kw):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                anchors=dict(dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), **kw))
NOT_APPLICABLE = {}
MSG = 'src/vt/messaging/'
PROPS = [
P('C01', 'Every message sent is handled exactly once with its payload intact',
  'A message sent from one rank to another is handled exactly once, on the destination rank, with the same bytes (or deserialized values) the sender put in and with the right sender reported, whatever its size or kind: plain, typed arguments, serialized, with a payload attached, packed or split into several transfers. '
  'A send that is held back is not delivered before it is released, and is released exactly once.',
  'schedules inputs configurations', 'every arrival and completion order of the underlying transfers, every message size around the packing and splitting limits, every configured maximum transfer size',
  'Existing unit tests send a few messages over a real MPI on one node, where arrivals are almost always in order and sizes stay far from the limits.',
  [MSG + 'active.cc', MSG + 'active.impl.h', 'src/vt/serialization/messaging/serialized_messenger.impl.h', MSG + 'pending_send.cc', MSG + 'envelope/envelope_get.impl.h'],
  [('sending, packing and splitting', MSG + 'active.cc'), ('receiving and pending payload receives', MSG + 'active.cc'), ('serialized sends', 'src/vt/serialization/messaging/serialized_messenger.impl.h')]),
P('C02', 'A broadcast is handled exactly once on every rank',
  'A message broadcast from any rank is handled exactly once on every rank, with its payload intact, and on the sender too unless the sender asked to be left out.',
  'schedules inputs configurations', 'every root, rank count and message kind, and every arrival order at the intermediate ranks',
  'Tests broadcast from a few roots on two or more real ranks and see one arrival order.',
  [MSG + 'active.impl.h', 'src/vt/group/group_manager_active_attorney.cc', 'src/vt/group/group_manager.cc', 'src/vt/group/global/group_default.cc', 'src/vt/collective/tree/tree.cc'],
  [('broadcast forwarding over the default tree', 'src/vt/group/global/group_default.cc'), ('deciding local delivery', 'src/vt/group/group_manager.cc')]),
]
T = 'src/vt/termination/'
PROPS += [
P('C03', 'An epoch is declared terminated only when all its work is done, and always',
  'An epoch (collective, or rooted with either detector) is reported terminated on a rank only after every message sent and every unit produced in it, in whatever way it is sent (a plain, chunked or serialized message, a put, a call with arguments, through an object group, a collection, a callback or a reduction; to one or to all), directly or by handlers running in it and in the epochs nested in it, has been processed on every rank, as are those of the epochs it was made to depend on, and no rank holds on to it; and once that is so, it is reported terminated, exactly once per waiter.',
  'schedules histories configurations', 'every delivery order of application and control messages, cascade, nesting, and finishing order of the epochs, and either detector for rooted epochs',
  'A premature announcement needs a control wave to overtake a specific application message; tests see one schedule on an idle machine.',
  [T + 'termination.cc', T + 'term_state.cc', T + 'termination.impl.h', T + 'dijkstra-scholten/ds.cc', T + 'epoch_dependency.cc', 'src/vt/scheduler/scheduler.impl.h'],
  [('four-counter wave', T + 'termination.cc'), ('Dijkstra-Scholten detector', T + 'dijkstra-scholten/ds.cc'), ('nested epochs', T + 'epoch_dependency.cc')]),
P('C04', 'Every action attached to an epoch runs exactly once, after it terminates',
  'An action registered for an epoch (or for global termination) runs exactly once, never before that epoch has terminated, whether it is registered before, during or after termination or from within another action; actions registered in the same way from within the same epoch run in registration order, in that epoch, which waits for them and their messages.',
  'schedules histories', 'every delivery order and every registration time',
  'Tests register actions before the work starts and check that they ran at exit.',
  [T + 'term_action.cc', T + 'term_action.impl.h', T + 'termination.cc'], [('action lists', T + 'term_action.cc'), ('pending and finished epochs', T + 'termination.cc')]),
P('C30', 'Packed bit fields read back what was written and touch nothing else',
  'Writing a value into a bit field of an identifier and reading it back gives the value truncated to the field width, for every field position and width that fits in the word, and leaves all the other bits of the word unchanged; boolean bits set and clear individually.',
  'inputs', 'every word, field position, width and value', 'Tests use a handful of layouts; identifiers of every subsystem depend on all of them.',
  ['src/vt/utils/bits/bits_packer.impl.h', 'src/vt/utils/bits/bits_packer.h'], [('field read and write', 'src/vt/utils/bits/bits_packer.impl.h')]),
P('C31', 'Epoch numbers are unique while active and their window is exact',
  'The kind, root, category and sequence number packed into an epoch read back as given; the window of an epoch family hands out no number that is still active, and reports a number as terminated exactly when it has been allocated and closed (in any closing order, also across wrap-around).',
  'inputs histories', 'every combination of epoch kind, root, category and sequence; every allocate/terminate history up to the bound',
  'Tests close epochs in order and never get near reuse of a number.',
  ['src/vt/epoch/epoch_window.cc', 'src/vt/epoch/epoch_manip.cc', 'src/vt/epoch/epoch_manip.h', 'src/vt/termination/interval/integral_set.h'], [('window', 'src/vt/epoch/epoch_window.cc'), ('epoch layout', 'src/vt/epoch/epoch_manip.cc')]),
P('C32', 'The interval set holds exactly the inserted elements, in merged intervals',
  'After any sequence of insertions (of values or intervals) and removals, the integral set contains exactly the elements inserted and not removed; its size, range, bounds and iteration agree; its intervals are disjoint, ordered and maximal.',
  'histories', 'every insert and erase sequence up to the bound', 'Tests run a few fixed sequences; merging and splitting depend on the neighbours of the point touched.',
  ['src/vt/termination/interval/integral_set.h', 'src/vt/termination/interval/interval.h'], [('insert, merge, split', 'src/vt/termination/interval/integral_set.h')]),
P('C33', 'Bounded queues and counters keep order, capacity and contents',
  'Circular buffers, the scheduler queues and range-limited counters behave like the ideal bounded queue or modular counter: values come out in the order that the queue promises, none is lost or duplicated, size and emptiness are exact and pushing to a full buffer is refused.',
  'histories', 'every operation sequence up to the bound and every capacity', 'Tests push and pop a few elements and never hit each wrap-around position.',
  ['src/vt/utils/adt/ranged_counter.h', 'src/vt/utils/container/circular_buffer.h', 'src/vt/scheduler/queue.h', 'src/vt/scheduler/priority_queue.h'], [('ring positions', 'src/vt/utils/container/circular_buffer.h'), ('run queue', 'src/vt/scheduler/queue.h')]),
P('C34', 'Streaming histograms conserve counts, extremes and bucket order',
  'After any sequence of additions and merges, an approximate histogram reports the exact number of values added and the exact minimum and maximum, keeps at most the configured number of centroids in increasing order whose counts add up to the total, and its estimates follow from those centroids.',
  'histories inputs', 'every addition and merge sequence up to the bound', 'Tests check estimates for one or two long series within a tolerance.',
  ['src/vt/utils/adt/histogram_approx.h'], [('add, merge, estimate', 'src/vt/utils/adt/histogram_approx.h')]),
P('C35', 'Linear regression fits the least-squares line',
  'For any data series the fitted slope and intercept minimise the squared error, and prediction evaluates that line.',
  'inputs', 'every short integer series', 'Tests fit one series.',
  ['src/vt/utils/stats/linear_regression.h'], [('fit', 'src/vt/utils/stats/linear_regression.h')]),
P('C41', 'Identifiers carry their fields without interference',
  'Handler, group, pipe, event, RDMA, object-group, virtual-context, collection and element identifiers read back every field they were built from (or later set), for the whole range of each field, two different field combinations never give the same identifier, and setting one field changes no other.',
  'inputs', 'every combination of boundary values of all fields', 'Tests build one or two identifiers of each kind with small field values.',
  ['src/vt/handler/handler.cc', 'src/vt/handler/handler.h', 'src/vt/objgroup/proxy/proxy_bits.cc', 'src/vt/elm/elm_id_bits.cc', 'src/vt/elm/elm_id.cc', 'src/vt/group/id/group_id.cc', 'src/vt/pipe/id/pipe_id.cc', 'src/vt/rdma/rdma_handle.cc', 'src/vt/event/event_id.cc', 'src/vt/vrt/proxy/proxy_bits.cc', 'src/vt/vrt/collection/proxy_builder/elm_proxy_builder.cc'],
  [('handler layout', 'src/vt/handler/handler.cc'), ('element layout', 'src/vt/elm/elm_id_bits.cc')]),
P('C53', 'Envelope fields and message priorities are independent and exact',
  'Every envelope field (kind flags, destination, handler, reference count, group, epoch, tag, priority) reads back as last set, whatever the others hold and whatever kind of envelope it is; priority levels encoded in a priority word decode to the level they were set at, and order messages by the levels.',
  'inputs histories', 'every combination of boundary values and every kind transition', 'Tests set one field at a time on a fresh envelope.',
  [MSG + 'envelope/envelope_base.h', MSG + 'envelope/envelope_get.impl.h', MSG + 'envelope/envelope_set.impl.h', MSG + 'envelope/envelope_setup.impl.h', MSG + 'envelope/envelope_ref.impl.h', 'src/vt/scheduler/priority_manip.cc'],
  [('accessors', MSG + 'envelope/envelope_set.impl.h'), ('priority levels', 'src/vt/scheduler/priority_manip.cc')]),
]
PROPS += [
P('C36', 'Group regions stand for exactly their ranks and divide without loss',
  'A range, list or shallow list of ranks contains exactly the ranks it was built from: size, membership, head/tail walk, listing and copies agree. Dividing it in two or in N gives non-empty regions that cover every rank exactly once, in order.',
  'inputs', 'every range (bounds, stride) and list within the bounds, recursively divided', 'Tests use unit strides and one list; group setup divides regions recursively, so one lost rank silently never joins.',
  ['src/vt/group/region/group_range.cc', 'src/vt/group/region/group_list.cc', 'src/vt/group/region/group_shallow_list.cc'], [('ranges', 'src/vt/group/region/group_range.cc'), ('lists', 'src/vt/group/region/group_list.cc')]),
P('C37', 'Pool blocks are big enough, never overlap and keep their contents',
  'Every block handed out by the memory pool has room for the bytes and the oversize asked for, overlaps no other live block and keeps its contents until it is freed, through any sequence of allocations, in-place growths and frees; the sizes reported for it are exact, and growing succeeds exactly when the block has room.',
  'histories inputs', 'every operation sequence up to the bound over all size classes', 'Tests send messages of increasing sizes; a block filed in the wrong size class is only seen when it is handed out again.',
  ['src/vt/pool/pool.cc', 'src/vt/pool/header/pool_header.cc', 'src/vt/pool/static_sized/memory_pool_equal.impl.h'], [('size classes and growth', 'src/vt/pool/pool.cc'), ('free list', 'src/vt/pool/static_sized/memory_pool_equal.impl.h')]),
P('C38', 'Indices enumerate, linearize, compare and map to ranks consistently',
  'A dense index range enumerates each of its indices once; linearization is one-to-one; indices that fit survive packing into bits; comparison is a total order consistent with equality and hashing. The default block mapping sends consecutive indices to consecutive ranks with loads differing by at most one, round robin rotates over the ranks, and both stay within the rank count.',
  'inputs configurations', 'every shape within the bounds, every rank count from 1 to 13', 'Tests map one or two shapes onto the ranks the test happens to run on.',
  ['src/vt/topos/index/dense/dense_array.impl.h', 'src/vt/topos/mapping/dense/dense.impl.h'], [('index operations', 'src/vt/topos/index/dense/dense_array.impl.h'), ('block and round robin maps', 'src/vt/topos/mapping/dense/dense.impl.h')]),
P('C39', 'Compressed and JSON streams read back exactly what was written',
  'Data compressed in any sequence of writes decompresses to the same bytes whatever the buffer and chunk sizes; a JSON document built element by element (or staged), compressed or not, in memory or in a file, parses back to the same metadata and elements.',
  'inputs configurations', 'every length around the chunk limits, every cut into writes, every read chunk size', 'Tests write one document with the default sizes, where chunk boundaries are never hit.',
  ['src/vt/utils/compress/compressor.impl.h', 'src/vt/utils/compress/compressor.cc', 'src/vt/utils/compress/decompressor.impl.h', 'src/vt/utils/json/decompression_input_container.cc', 'src/vt/utils/json/json_appender.h', 'src/vt/utils/json/json_reader.cc', 'src/vt/utils/json/output_adaptor.h'],
  [('chunked reading', 'src/vt/utils/json/decompression_input_container.cc'), ('appending elements', 'src/vt/utils/json/json_appender.h')]),
]
BAL = 'src/vt/vrt/collection/balance/'
PROPS += [
P('C48', 'LB configuration files select the configured balancer for every phase',
  'For every LB configuration file, each phase gets the balancer and parameters of its exact entry if there is one, otherwise of the first mod entry in the file whose modulus divides it, otherwise no balancer; blanks, indentation, trailing white space and empty lines between entries do not matter; parameters convert to the type asked for and unknown ones fall back to their defaults.',
  'inputs', 'every file of up to a few lines over all line kinds and layouts, every phase', 'Tests read one file with a conventional layout.',
  [BAL + 'read_lb.cc', BAL + 'read_lb.h', BAL + 'lb_type.cc'], [('parsing and lookup', BAL + 'read_lb.cc')]),
P('C55', 'Per-element LB data account for all work and communication by phase and subphase',
  'The time and communication recorded for an element between phase boundaries is attributed to the phase and subphase it happened in, whatever the order in which subphases are visited; totals equal the sum over subphases, old phases are released on request and only those, and communication edges are told apart by kind, direction and both end points.',
  'histories inputs', 'every sequence of operations up to the bound; every pair of edges', 'Tests record one or two phases with increasing subphases.',
  ['src/vt/elm/elm_lb_data.cc', 'src/vt/elm/elm_lb_data.h', 'src/vt/elm/elm_comm.h'], [('accumulation', 'src/vt/elm/elm_lb_data.cc'), ('edge identity', 'src/vt/elm/elm_comm.h')]),
]
PROPS += [
P('C49', 'Epoch graphs show every dependency once and cycles never go unnoticed',
  'A graph of live epochs and their successors reports a cycle exactly when one is reachable; its drawing contains every reachable epoch and link exactly once, under its kind, root and label; graphs of different ranks merge to the union of their links, and survive serialization.',
  'inputs', 'every directed graph of up to 4 epochs, every pair of acyclic ones', 'Tests build one or two graphs; a missed link hides the epoch that hangs.',
  ['src/vt/termination/graph/epoch_graph.cc', 'src/vt/termination/graph/epoch_graph.h'], [('cycle search, merge and drawing', 'src/vt/termination/graph/epoch_graph.cc')]),
P('C50', 'Runtime components come up after their dependencies and go down in reverse',
  'Constructing a component pack brings up exactly the added components and everything they depend on, each once, every component after its startup dependencies, all initialized before any is started; cyclic startup dependencies are reported. Components are finalized and destroyed in the reverse order, only live pollable components are polled, and progress adds up their work units.',
  'configurations histories', 'every dependency relation over 3 components, every startup relation over 4, every set of added components', 'Tests use the one configuration of the real runtime.',
  ['src/vt/runtime/component/component_pack.cc', 'src/vt/runtime/component/component_pack.impl.h', 'src/vt/runtime/component/component_registry.h'], [('closure and order', 'src/vt/runtime/component/component_pack.cc')]),
P('C51', 'Signals reach every current listener of their pipe, and listeners expire exactly',
  'A signal delivered on a pipe triggers each current listener of that pipe exactly once, in registration order, with the data and pipe given, and no listener of another pipe; a listener registered for n uses is dropped after exactly n signals, a persistent one stays until cleared; an automatic pipe is finished exactly when all expected listeners and signals have arrived, a persistent one never.',
  'histories', 'every history of 5 operations over two pipes and three kinds of listeners', 'Tests trigger each callback kind once.',
  ['src/vt/pipe/signal/signal_holder.impl.h', 'src/vt/pipe/callback/callback_base.h', 'src/vt/pipe/state/pipe_state.cc'], [('delivery and expiry', 'src/vt/pipe/signal/signal_holder.impl.h'), ('completion', 'src/vt/pipe/state/pipe_state.cc')]),
P('C25', 'Time triggers run when due, in order, until removed',
  'On each poll every registered trigger whose period has passed since it last ran (or was registered) runs exactly once, earliest first; no trigger runs before it is due or after it was removed, triggers may be removed or added from within a trigger, and one that fires immediately also runs at registration. The manager asks for the time whenever a trigger is registered.',
  'histories', 'every history of 5 additions, removals and polls', 'Tests wait in real time for one or two triggers.',
  ['src/vt/timetrigger/time_trigger_manager.cc', 'src/vt/timetrigger/trigger.h'], [('due triggers and removal', 'src/vt/timetrigger/time_trigger_manager.cc')]),
]
CO = 'src/vt/collective/'
PROPS += [
P('C05', 'A reduction combines every contribution exactly once and delivers at its root',
  'The result of a reduction is delivered exactly once, on the requested root and nowhere else, before the epoch it was made in terminates, and equals the operator applied to every contribution of every rank exactly once; reductions with different stamps (or made one after the other) do not mix, in whatever order the ranks contribute and the messages arrive, also when several values per rank are expected.',
  'schedules configurations inputs', 'every delivery order within the bound, 2 to 7 ranks, every operator', 'Tests run one reduction at a time in the natural order.',
  [CO + 'reduce/reduce.impl.h', CO + 'reduce/reduce_manager.impl.h', CO + 'reduce/reduce_scope.impl.h', CO + 'reduce/operators/default_op.impl.h', CO + 'reduce/operators/functors/plus_op.h'], [('collecting and combining', CO + 'reduce/reduce.impl.h'), ('operators', CO + 'reduce/operators/functors/plus_op.h')]),
P('C06', 'Barriers release nobody early, then everybody; scatters deliver every part',
  'No rank passes a barrier (blocking, with a continuation, named or not) before every rank has entered it, and every rank passes it, its continuation running exactly once and inside the epoch it was entered in, whatever the order of messages and of different named barriers. A scatter from any rank hands each rank exactly the element made for it, once.',
  'schedules configurations', 'every delivery order within the bound, 2 to 7 ranks', 'Tests cannot tell a barrier that usually synchronizes from one that always does.',
  [CO + 'barrier/barrier.cc', CO + 'barrier/barrier.h', CO + 'scatter/scatter.cc', CO + 'scatter/scatter.impl.h'], [('barrier counts', CO + 'barrier/barrier.cc'), ('scatter layout', CO + 'scatter/scatter.cc')]),
P('C42', 'The spanning tree reaches every rank exactly once',
  'For every number of ranks, the default spanning tree has rank 0 as its only root, every other rank is the child of exactly one rank, which is the parent it names, every rank reaches the root, and child lists, child counts and numbers of descendants agree wherever they are computed.',
  'configurations', 'every rank count from 1 to 13', 'Tests see the one rank count they run with.',
  [CO + 'tree/tree.cc', CO + 'tree/tree.h'], [('tree shape', CO + 'tree/tree.cc')]),
P('C56', 'Collective scopes run MPI operations in one order on every rank',
  'Operations enqueued in collective scopes run exactly once on every rank, in the same order on all of them, whatever order each rank enqueued them in and messages arrived; waiting for one returns only after it ran, the enclosing epoch waits for all of them, and a dropped scope is deallocated once its operations have run. Scopes with user tags never interfere with system scopes.',
  'schedules histories', 'every delivery order within the bound, different enqueue orders', 'Tests enqueue in one order and check the results of the MPI calls.',
  [CO + 'collective_scope.cc', CO + 'collective_alg.cc'], [('consensus and postponed operations', CO + 'collective_alg.cc'), ('stamps', CO + 'collective_scope.cc')]),
]
LO = 'src/vt/topos/location/'
PROPS += [
P('C07', 'Messages for an entity reach it exactly once, wherever it has moved',
  'A message routed to an entity is handled exactly once, on the rank the entity is on at that moment, before the epoch it was sent in terminates, with its payload intact, wherever the entity registered and however often it migrates while messages (small or large) are on their way, also when they are sent before it registers. Every location request is answered exactly once with the rank it is on.',
  'schedules histories', 'every delivery order within the bound, several migration paths over 3 and 4 ranks', 'Tests move an entity once, after which everybody is told.',
  [LO + 'location.impl.h', LO + 'location.h', LO + 'cache/cache.impl.h'], [('routing, forwarding and location caches', LO + 'location.impl.h')]),
]
PROPS += [
P('C44', 'Byte counts and times are shown in the unit that fits, with their value',
  'Every byte count is shown in the largest binary unit not exceeding it, the number shown times the unit being exactly the count; unit names and units map to each other one to one. Times convert, add, subtract, scale, divide, compare and serialize exactly like their number of seconds, and are printed in engineering notation (exponent a multiple of three) correct to at least four digits.',
  'inputs', '442 881 byte counts around every power of two, every pair of 302 times', 'Tests format seven times.',
  ['src/vt/utils/memory/memory_units.cc', 'src/vt/timing/timing_type.h'], [('choice of unit', 'src/vt/utils/memory/memory_units.cc'), ('arithmetic and formatting', 'src/vt/timing/timing_type.h')]),
P('C45', 'Type and function names are taken apart at the right place',
  'For every well-nested type or function name, namespace and bare name are the parts before and after the last "::" outside template brackets (leading "&" and ":" dropped, an empty namespace if there is none); the argument list of a function without result, the single or last named template parameter of a pretty-printed function, the pieces of a string split at a delimiter, and what joins them, are exact, and names of other forms are returned unchanged or empty.',
  'inputs', 'every name of up to 7 tokens', 'Tests use a dozen names.',
  ['src/vt/utils/demangle/demangle.cc', 'src/vt/utils/demangle/demangle.h'], [('division of names', 'src/vt/utils/demangle/demangle.cc')]),
P('C59', 'Merged statistics equal those of the pooled values, however merged',
  'Count, sum, minimum, maximum, mean, variance, standard deviation and imbalance of diagnostic values, and also skewness and kurtosis of load statistics, are those of all values together, for every way of merging them in a reduction, also when some ranks have no value or the counts are large. A diagnostic value that is updated (replace, minimum, maximum, sum, average) reports exactly the updates since its last reset.',
  'histories inputs', 'every reduction tree over up to 4 ranks, every history of 5 updates', 'Tests reduce one set of values of the ranks they run with.',
  ['src/vt/runtime/component/diagnostic_value.h', 'src/vt/vrt/collection/balance/stats_msg.h'], [('merging and updating', 'src/vt/runtime/component/diagnostic_value.h'), ('load statistics', 'src/vt/vrt/collection/balance/stats_msg.h')]),
]
PROPS += [
P('C58', 'User-level threads keep their stack, and stop and go on exactly where told',
  'A thread runs from its start, or from where it last suspended, until it suspends or ends, and returns control to whoever ran or resumed it, however threads nest and interleave; its local data and callee-saved registers survive, and its code runs exactly once. Thread ids are never reused and find their thread until it is deallocated. Stacks have the size asked for (page-allocated ones in whole pages, the lowest a guard), and freeing one releases exactly its own memory.',
  'histories', 'every history of run, resume, suspend and nested run to the bound', 'Tests suspend and resume one thread at a time.',
  ['src/vt/scheduler/thread_action.cc', 'src/vt/scheduler/thread_manager.cc', 'src/vt/scheduler/thread_manager.impl.h', 'lib/context/src/context/context_stack.cc'], [('switching', 'src/vt/scheduler/thread_action.cc'), ('stacks', 'lib/context/src/context/context_stack.cc')]),
]
VC = 'src/vt/vrt/collection/'
PROPS += [
P('C08', 'Collection elements exist once each, and get every message meant for them',
  'A collection constructed collectively or by one rank (from its bounds, a range, a list of indices or objects given by the ranks, with the default map, a map function or a mapper object) has exactly the elements asked for, each on exactly one rank (the one its map names, or the one that gave the object), and keeps them until it is destroyed. A message to an element is handled exactly once by that element, a broadcast exactly once by every element, a reduction over the elements delivers each contribution exactly once to its target, all before the epoch they were made in terminates and with intact parameters, also when only some ranks have elements, and for several collections at a time.',
  'schedules configurations', 'every delivery order within the bound, 2 to 4 ranks, every message kind', 'Tests send in one order and count.',
  [VC + 'manager.impl.h', VC + 'collection_builder.impl.h', VC + 'holders/holder.impl.h', VC + 'broadcast/broadcastable.impl.h', VC + 'send/sendable.impl.h', VC + 'param/construct_params.h', 'src/vt/group/collective/group_info_collective.cc'], [('delivery and broadcast', VC + 'manager.impl.h'), ('construction', VC + 'collection_builder.impl.h')]),
P('C09', 'Migration moves an element once, whole, and leaves it reachable',
  'After elements migrate (between two epochs), every element is alive on exactly its new rank with the same contents, every migration hook of it ran exactly once and every listener was told; messages to it, broadcasts, reductions and location requests made afterwards from any rank reach it exactly once in its new place, also when all elements gather on one rank, when it returns and after several moves.',
  'schedules histories', 'every delivery order within the bound, several migration patterns on 2 to 4 ranks', 'Tests rotate elements once.',
  [VC + 'manager.impl.h', VC + 'migrate/migrate_handlers.impl.h', VC + 'holders/holder.impl.h', 'src/vt/topos/location/location.impl.h', 'src/vt/group/collective/group_info_collective.cc'], [('migration', VC + 'manager.impl.h'), ('location updates', 'src/vt/topos/location/location.impl.h')]),
P('C10', 'Elements inserted or destroyed between modification epochs come and go once',
  'When a modification of a dynamic collection finishes, every element inserted exists exactly once, on the rank requested (or the one its map names) however many ranks inserted it, every element destroyed is gone, and no other is affected; broadcasts, messages and reductions afterwards involve exactly the elements that exist, and an element destroyed (also away from home, or after it migrated) can be inserted again; inserting an element that exists changes nothing. Handlers of elements may insert and destroy, and go on in their own element\'s context.',
  'schedules histories', 'every delivery order within the bound, several insertion and destruction histories on 2 to 4 ranks', 'Tests insert each element once, on its home rank.',
  [VC + 'manager.impl.h', VC + 'insert/insertable.impl.h', VC + 'insert/modifiable.impl.h', VC + 'destroy/destroyable.impl.h', 'src/vt/topos/location/location.impl.h'], [('insertion and destruction', VC + 'manager.impl.h'), ('home records', 'src/vt/topos/location/location.impl.h')]),
P('C23', 'A saved collection is restored with every element, contents and place',
  'Restoring a collection that was saved to files (in one directory or spread over several) gives a collection with the same elements, each once, on the rank it was saved from, with exactly the contents it had; restoring in place brings back the saved contents wherever the elements have moved since. Either way the restored elements receive messages and broadcasts like any others.',
  'schedules configurations', 'every delivery order within the bound on 2 to 4 ranks, every element moved away from home or not', 'Tests save and restore elements that are at home and look at their contents only.',
  [VC + 'manager.impl.h', VC + 'collection_directory.h'], [('checkpoint and restore', VC + 'manager.impl.h')]),
]
PROPS += [
P('C11', 'A broadcast to a group of ranks is handled once by exactly its members',
  'A group made collectively, or by one rank from a list or range of ranks, gets one name everywhere and is announced exactly once (collectively: on every rank, by the end of the epoch it was made in). A broadcast to it, made by any rank, member or not, as soon as it is announced, is handled exactly once by every member and by nobody else, with its payload intact and before its epoch terminates; a reduction over it combines the contributions of exactly its members. Every member set works, empty, single and complete ones included, and groups do not disturb each other however their creations overlap or are deleted.',
  'schedules configurations', 'every delivery order within the bound for every subset of 2 to 4 ranks, default order for up to 7 and for chosen subsets of 13 to 16', 'Tests make the group of the even ranks.',
  ['src/vt/group/group_manager.cc', 'src/vt/group/group_manager.impl.h', 'src/vt/group/collective/group_info_collective.cc', 'src/vt/group/rooted/group_info_rooted.cc', 'src/vt/messaging/active.cc'], [('collective groups', 'src/vt/group/collective/group_info_collective.cc'), ('rooted groups', 'src/vt/group/group_manager.cc')]),
]
PROPS += [
P('C12', 'A callback runs at its target once per invocation, wherever it is invoked',
  'A callback to a function or functor on one rank or all ranks, to an object of an object group or all of them, to a collection element or the whole collection, or to a closure of the rank that made it, can be passed in messages and invoked on any rank: each invocation runs the target exactly once on exactly its rank(s) or element(s), with the parameters or message it was invoked with, and before the epoch it was invoked in terminates. Callbacks of several ranks, one-shot and lasting closures, and closures that use callbacks do not disturb each other; copies are equal to the original, and callbacks made separately are not.',
  'schedules configurations', 'every triple of making, invoking and target rank on 2 to 5 ranks, every delivery order within the bound', 'Tests invoke on the next rank and count calls in a static variable.',
  ['src/vt/pipe/pipe_manager_tl.impl.h', 'src/vt/pipe/pipe_manager_base.impl.h', 'src/vt/pipe/pipe_manager_base.cc', 'src/vt/pipe/callback/cb_union/cb_raw_base.impl.h', 'src/vt/pipe/callback/handler_send/callback_send_tl.impl.h'], [('making', 'src/vt/pipe/pipe_manager_tl.impl.h'), ('invoking', 'src/vt/pipe/callback/cb_union/cb_raw_base.impl.h')]),
]
PROPS += [
P('C13', 'An object group has one object per rank, reached by messages from everywhere',
  'An object group made collectively (from constructor arguments, a function, a smart or a raw pointer) has the same proxy on every rank, different from that of every other group past or present, and the proxy and the object of a rank lead to each other. A message to the object of a rank, a broadcast, or a multicast to a set of ranks (again and again, and before the set has a group of ranks) is handled exactly once by the object of each rank meant, with its parameters intact, before its epoch terminates; a message that arrives before the object is made waits for it, and a message that runs after the object was replaced runs on the new one. A member invoked locally returns its value; reductions over a group combine one contribution per rank and do not mix with those of other groups. Destroying a group destroys its objects, once, and leaves other groups alone.',
  'schedules configurations', 'every delivery order within the bound on 2 to 4 ranks (default order on 5), for every choice of target, late rank, replaced rank and set of ranks', 'Tests send to the next rank in one order.',
  ['src/vt/objgroup/manager.cc', 'src/vt/objgroup/manager.impl.h', 'src/vt/objgroup/manager.static.h', 'src/vt/objgroup/proxy/proxy_objgroup.impl.h', 'src/vt/runnable/runnable.cc'], [('groups', 'src/vt/objgroup/manager.impl.h'), ('dispatch', 'src/vt/objgroup/manager.static.h'), ('multicast', 'src/vt/objgroup/proxy/proxy_objgroup.impl.h')]),
]
LBD = VC + 'balance/'
PROPS += [
P('C17', 'Load balancing only moves objects: all survive, once, where the balancer says',
  'When a phase ends with a load balancer (due by the configured interval), every migratable object still exists exactly once, whole and reachable, and nothing else changed: RotateLB moves every object to the next rank, TestSerializationLB and no balancer leave them, RandomLB keeps at least one object on every rank that has some, OfflineLB puts every object where the recorded history says (also if ranks are empty); GreedyLB, HierarchicalLB, TemperedLB and TemperedWMin (weighing load only) do not make the largest load of a rank grow (beyond their granularity), and if all objects were on one rank, bring it down to about the average plus the largest object, with every documented strategy. This holds for any number of ranks, also odd ones and ranks without objects.',
  'schedules configurations inputs', 'every balancer and strategy, five load distributions, 2 to 7 ranks, every delivery order within the bound; every history of up to three phases for OfflineLB', 'Tests run one distribution with objects on every rank, and look at no placement.',
  [LBD + 'baselb/baselb.cc', LBD + 'lb_invoke/lb_manager.cc', LBD + 'greedylb/greedylb.cc', LBD + 'hierarchicallb/hierlb.cc', LBD + 'temperedlb/temperedlb.cc', LBD + 'randomlb/randomlb.cc', LBD + 'rotatelb/rotatelb.cc', LBD + 'offlinelb/offlinelb.cc', LBD + 'lb_data_restart_reader.cc'], [('reassignment', LBD + 'baselb/baselb.cc'), ('when to balance', LBD + 'lb_invoke/lb_manager.cc'), ('replay', LBD + 'lb_data_restart_reader.cc')]),
P('C18', 'A phase ends on all ranks together, runs its hooks in order and records its load',
  'No rank runs a hook of the end of a phase, or leaves it, before every rank has reached it. Every registered hook (rooted, collective, unsynchronized) runs exactly once per phase on every rank that registered it, by kind and then in order of registration, data collection before end before post migration before start of the next; what a collective hook sends is handled before the next collective hook of its kind starts; an unregistered hook never runs again. When a phase ends, the load recorded for each local migratable object is the work it did in that phase, and every message between elements is recorded once, at its receiver; the statistics file has one entry for every phase due, with the true loads of ranks and objects, before and (only if a balancer ran) after balancing.',
  'schedules histories', 'every delivery order within the bound on 2 to 4 ranks', 'Tests count hook executions on one schedule.',
  ['src/vt/phase/phase_manager.cc', LBD + 'node_lb_data.cc', LBD + 'lb_invoke/lb_manager.cc', 'src/vt/elm/elm_lb_data.cc', 'src/vt/context/runnable_context/lb_data.cc', VC + 'manager.impl.h'], [('phases and hooks', 'src/vt/phase/phase_manager.cc'), ('recording of load', LBD + 'node_lb_data.cc'), ('statistics', LBD + 'lb_invoke/lb_manager.cc')]),
]
RH = 'src/vt/rdmahandle/'
PROPS += [
P('C14', 'One-sided operations on RDMA handles read and write exactly what they name',
  'When an RDMA handle of an object group is ready on a rank, the memory of every rank can be used from it: count and getCount give the number of elements of the rank asked about (uniform or not, also zero). A blocking get or put, or a request after wait, transfers exactly the elements named, to or from exactly the buffer given, and touches nothing else; what a rank put under an exclusive lock, or accessed locally (read/modify/access), is seen by whoever takes the lock next; concurrent accumulates are all added, concurrent fetch-ops are totally ordered, read-modify-writes under an exclusive lock are not lost; an exclusive lock (of an operation, or of a local exclusive read, modification or access) excludes every other holder of a lock on that memory, so a transfer of several elements is never seen half done; what was put before a fence is there after it; actions of a handle run once, in order, with the data. Handles made together, of one or several groups and types, stay apart, on every rank, under every delivery order; destroying one leaves the others alone.',
  'schedules inputs', 'scripts of up to 8 operations per rank with every choice of starting operation on 2 to 4 ranks, element types of 2 to 8 bytes; every order of operations and messages within the bound, with operations applied late', 'Tests run one sequence of operations, synchronised by barriers, on whatever order MPI gives.',
  [RH + 'manager.impl.h', RH + 'holder.impl.h', RH + 'handle.node.impl.h', RH + 'lock_mpi.h', RH + 'request_holder.cc', 'src/vt/collective/collective_scope.cc'], [('operations', RH + 'holder.impl.h'), ('making handles', RH + 'manager.impl.h'), ('locks', RH + 'lock_mpi.h')]),
P('C15', 'Memory named by index is found wherever it is, also after its owner moved',
  'In a set of RDMA handles made by every rank (dense or sparse indices, different counts), get, rget, put, accum and fetchOp by (rank, index) and local accesses reach exactly the elements of that index, whose count they know, and nothing of its neighbours. Memory made by the elements of a collection (one handle at a time) belongs to the element: after load balancing moved elements at the end of a phase, also to and from ranks without elements, its contents, count and everything done to it before are intact, local access works on the rank where the element now is, and every other element reaches it by index, for several handles per element. Exclusive accesses by index exclude other accesses, as for C14. When all elements destroy their handle, later phases run as if it never was.',
  'schedules histories', '2 to 5 ranks, up to three phases, every order of operations and messages within the bound, with operations applied late', 'Tests make one handle on one layout, and move nothing.',
  [RH + 'sub_handle.impl.h', RH + 'sub_handle.h', RH + 'handle_set.h', RH + 'handle.index.impl.h', RH + 'manager.collection.impl.h', RH + 'cache.h'], [('location of memory', RH + 'sub_handle.impl.h'), ('memory of elements', RH + 'manager.collection.impl.h')]),
]
PROPS += [
P('C16', 'Queued work runs exactly once, most urgent first, also in nested scheduler loops',
  'Whenever the scheduler takes a unit of work it is one of those queued with the highest priority, each queued unit runs exactly once, one per step, and the queue then holds exactly the others, however work was queued (plain, with a priority, for a message) and also by running work; messages of several priorities waiting at a rank are handled in order of priority. Messages derived from one another order like the chains of priorities they were given, level by level, derived work coming before other work of the priority it was derived from (after it, where that is breadth first), and setting one level of a priority leaves the others. A scheduler loop nested in a handler (waiting for an epoch of its own) ends only when its epoch is done, other work, also other nested loops, goes on meanwhile, and all of them end. Triggers for the begin and end of idleness (of any work, and but for termination) and of scheduler loops alternate, idleness begins only without such work and no work runs in it, a trigger for one time runs once. None of this depends on how often progress is asked for (--vt_sched_num_progress, --vt_sched_progress_han, --vt_sched_progress_sec), and no such setting keeps the runtime from making progress.',
  'schedules histories inputs', 'every sequence of six operations on the queue; every field of a priority, every pair of chains of derived messages through all levels; every delivery order within the bound on 2 to 4 ranks, with four settings of the progress options', 'Tests queue a few units in one order, and never limit the progress calls.',
  ['src/vt/scheduler/scheduler.cc', 'src/vt/scheduler/scheduler.impl.h', 'src/vt/scheduler/priority_queue.h', 'src/vt/scheduler/priority_manip.cc', 'src/vt/messaging/message/message_priority.impl.h', 'src/vt/scheduler/base_unit.cc'], [('the loop', 'src/vt/scheduler/scheduler.cc'), ('the queue', 'src/vt/scheduler/priority_queue.h'), ('priorities of messages', 'src/vt/messaging/message/message_priority.impl.h')]),
]
PROPS += [
P('C40', 'Load balancing data files hold what happened, and read back as what was written',
  'With --vt_lb_data every rank writes a file that lists, for every enabled phase (all, or those chosen by a specification file: a phase, multiples of a number, each with offsets) in order and for no other, exactly the migratable objects it had in that phase with their loads, collection, index and home, and the messages between them, compressed or not, with or without load balancing. Whatever a holder of such data contains (phases with or without objects, sub-phases, every kind of communication edge, user-defined data and attributes of objects, phases and ranks, sets of skipped and identical phases) reads back from its JSON form as it was written.',
  'inputs histories', 'every set of objects in every set of three phases with four kinds of sub-phases and data, every set of ten kinds of edges, every pattern of skipped and identical phases among seven; runs of up to seven phases on 2 to 5 ranks', 'Tests read one literal document and write one.',
  [LBD + 'lb_data_holder.cc', LBD + 'node_lb_data.cc', 'src/vt/utils/json/json_appender.h', 'src/vt/utils/file_spec/spec.cc', 'src/vt/elm/elm_comm.h'], [('content', LBD + 'lb_data_holder.cc'), ('files of a run', LBD + 'node_lb_data.cc')]),
P('C60', 'Replayed workloads are balanced where their objects are',
  'Wherever the recorded loads of migratable objects are and wherever the objects themselves are meant to be, relocating the workloads for replay gives every rank exactly the loads of the objects that are on it, with their sub-phase loads and user data, each object once, and leaves the loads that cannot move. A replay of some phases (also with fewer recorded phases, used over and over) from whichever phase it begins, balances in every phase in which the balancer is to run the recorded loads of that phase at the places where the balancer last left the objects (those of the first phase before it has run), and passes statistics that say so to the callback, once per such phase.',
  'inputs schedules', 'every placement of three loads and three objects on 2 and 3 ranks; every placement of two loads in the first two recorded phases for replays of up to four phases on 2 to 4 ranks', 'Tests move all objects one rank on.',
  [LBD + 'workload_replay.cc', LBD + 'model/proposed_reassignment.cc', LBD + 'model/raw_data.cc', LBD + 'baselb/baselb.cc'], [('relocation', LBD + 'workload_replay.cc'), ('view of the result', LBD + 'model/proposed_reassignment.cc')]),
]
MOD = LBD + 'model/'
PROPS += [
P('C47', 'Load models predict from what was recorded what they say they predict',
  'For every history of recorded loads, sub-phase loads and communication (also of objects that were idle, had fewer sub-phases than others, or were on another rank) and every stack of models over the raw data, the load of an object in a past or future phase, of the whole phase or a sub-phase, is what the models of the stack stand for: that of the last phase (NaivePersistence), the median or the line through the last N phases or as many as there are, the sum over a block of future phases, the norm over the sub-phases (also the maximum), the selected sub-phases, with an overhead per message and byte received from other ranks, or the affine combination with the cost of communication; costs are split over sub-phases in proportion to work. Predictors answer for the next phase, also about measured loads and user data (those of the last phase), past phases pass through. No more of the history is needed than a stack asks for. Models of a collection answer for its objects and others for the rest; a proposed reassignment adds what arrives and hides what departs; iteration and counts give exactly the objects. In use, with any of these and any load balancer, phases end and the predictions fit the work done, also when one sub-phase is in focus.',
  'inputs histories schedules', 'every stack of up to three of 20 models with parameters; every history of up to three phases of six patterns for two objects and 16 patterns of communication (all of them for single models; for stacks of two and three the fixed families of histories listed in lm_2 and lm_3); ten stacks in runs of up to four phases with load balancing on 2 and 3 ranks', 'Tests query each model once over a stub that has a load for every question.',
  [MOD + 'raw_data.cc', MOD + 'linear_model.cc', MOD + 'persistence_median_last_n.cc', MOD + 'norm.cc', MOD + 'comm_overhead.cc', MOD + 'weighted_messages.cc', MOD + 'per_collection.cc', MOD + 'proposed_reassignment.cc', 'src/vt/elm/elm_lb_data.cc', LBD + 'lb_common.h'], [('models', MOD + 'composed_model.cc'), ('measurements', MOD + 'raw_data.cc'), ('models of collections', MOD + 'per_collection.cc')]),
]
MS = 'src/vt/messaging/'
PROPS += [
P('C20', 'Steps chained on elements run one after the other, each exactly once',
  'A step added to a set of chains (on every element of a collection, kept on the rank of each element or on its home) runs exactly once on exactly each element of the set, with its message intact, and on no element before everything the previous step of that element started, on any rank, is over; a collective step is over only when it is over on all elements, a merged step runs after the previous steps of both sets and both go on after it; chains by hand behave in the same way and know when they have terminated. This holds for any mixture of such steps (to the element, to other ranks, added at once or while earlier ones run, over several phases), and an epoch around them ends only after all of them. A pending send of any kind (of which steps consist) that is held keeps its epoch open and goes out, once, when it is released. The sets of all ranks together track exactly the elements that exist, each on the one rank it belongs to, also after elements migrated (between phases or as the last step of one, with or without steps so far), were inserted or destroyed.',
  'schedules histories', '2 to 4 ranks, up to seven steps over up to three phases with two migrations or three rounds of insertions and destructions, every order of messages within the bound', 'Tests run one fixed chain and look at a counter in each element.',
  [MS + 'dependent_send_chain.h', MS + 'collection_chain_set.h', MS + 'collection_chain_set.impl.h', MS + 'pending_send.h', MS + 'pending_send.cc', 'src/vt/termination/term_action.cc', 'src/vt/vrt/collection/manager.impl.h'], [('chains', MS + 'dependent_send_chain.h'), ('sets of chains', MS + 'collection_chain_set.h'), ('tracking of elements', MS + 'collection_chain_set.impl.h')]),
]
PROPS += [
P('C24', 'Asynchronous operations hold their epoch and resume what waits for them once',
  'An asynchronous operation (an MPI request or one the user defines) registered in an epoch, of any kind, keeps that epoch open until it is complete; its continuation runs exactly once, only after the operation is complete, on the rank that registered it, and may send messages and register further operations, which hold the epoch in turn; the data of MPI requests have arrived by then. With threads enabled, a message handler, element of a collection, object of an object group or invocation that blocks on such an operation goes on exactly once, only after the operation is complete, with its locals, its epoch, the sender it sees and its element or object as before, any number of times and with any number of others blocked at the same time, which complete in any order, while other handlers run undisturbed meanwhile (also when it goes on below a scheduler loop of one of them), and the epoch ends only after all of them are through.',
  'schedules', '2 to 4 ranks, up to six operations at a time completed in every order, every order of messages within the bound', 'Tests block once on a ring of MPI requests and do not build with threads in most configurations.',
  [MS + 'async_op.cc', MS + 'async_op_mpi.h', MS + 'async_op_wrapper.cc', MS + 'request_holder.h', 'src/vt/scheduler/thread_action.cc', 'src/vt/scheduler/suspended_units.cc', 'src/vt/context/runnable_context/td.cc', 'src/vt/runnable/runnable.cc'], [('operations', MS + 'async_op_mpi.h'), ('completion', MS + 'request_holder.h'), ('threads', 'src/vt/scheduler/thread_action.cc'), ('what a thread keeps', 'src/vt/runnable/runnable.cc')]),
]
EV = 'src/vt/event/'
PROPS += [
P('C26', 'Events complete when all they stand for has, and run their actions once',
  'An event is ready exactly from when it was made ready (a normal event), its MPI request finished, or all its children on its rank are ready (a parent, also of parents and of events that were ready before), and is then forgotten. Every action attached to an event runs exactly once, on the rank that attached it and not before the event is ready: at once if it already is, else when it becomes so (for requests and parents: when progress is next made). This holds whichever rank owns the event, for actions attached by an action of the same event, for actions that make further events ready, and for those attached to the local event that attaching to a remote one returns.',
  'histories schedules', 'every sequence of 6 (thorough: 7) operations on up to four events of one rank; every delivery order within the bound on 2 to 4 ranks with actions of every rank on every event', 'Tests use events only implicitly, for sends that complete at once.',
  [EV + 'event.cc', EV + 'event_record.cc', EV + 'event_holder.cc', EV + 'event_id.cc', EV + 'event_msgs.h'], [('events', EV + 'event.cc'), ('readiness', EV + 'event_record.cc')]),
]
