"""The registry of properties: what they state, where they live, how they are decided.

tools/gen.py writes properties.jsonl and MANIFEST.json from it; check.py runs them.
"""
PROPS = {}
NOT_CLAIMED = {}


def P(pid, title, statement, over, text, why, files, mechanism, harnesses, note, state=(), observe=(), technique=None, **kw):
    if isinstance(harnesses, str):
        harnesses = [dict(name=harnesses)]
    PROPS[pid] = dict(
        title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()), why=' '.join(why.split()),
        files=files, mechanism=mechanism, state=state, observe=observe, harnesses=harnesses, note=' '.join(note.split()),
        technique=technique or 'property-based testing: generated inputs with coverage-guided mutation and shrinking against a reference model', **kw)


P('C01', 'Messages cross a byte stream complete, in order and unaltered',
  '''Every sequence of messages (data, address, log, control and statistics) written to a stream with the library's own
  encoding is read back with the same fields and bytes, each message once and in order, however the bytes are fragmented or
  coalesced on the way. A message damaged in transit is never delivered and the messages before it are. Arbitrary bytes from a
  peer, also with correct checksums, are either rejected or delivered as a well-formed message whose topic, text and address lie
  within it; they never crash the reader or make it touch memory outside the message.''',
  ['inputs', 'histories', 'fault_sequences'],
  'all sequences of messages of all kinds and sizes, all ways of cutting their bytes into reads, all damage and all hostile field values',
  'the socket and message tests send a few fixed messages over one connection; fragmentation, damage and hostile sizes are never produced',
  ['src/lib/messages/msg.c', 'src/lib/messages/msg_msg.c', 'src/lib/messages/msg_addr.c', 'src/lib/messages/msg_log.c', 'src/lib/messages/msg_checksum.c',
   'src/lib/stats/stats_message.c', 'src/lib/read.c', 'src/lib/socket/rrr_socket_read.c', 'src/lib/socket/rrr_socket_common.c', 'src/lib/util/crc32.c'],
  [('header and data CRC32', 'src/lib/messages/msg_checksum.c'), ('read sessions with overshoot', 'src/lib/read.c'), ('verification and dispatch by type', 'src/lib/messages/msg.c')],
  'c01_stream',
  '''Search over generated message sequences, cuts, damage and hostile fields through real sockets; the oracle is the list of
  messages that were made. Bursts of at most 25 flipped bits are used for damage because the checksum guarantees their detection.''',
  observe=['callbacks of rrr_socket_read_message_split_callbacks'])


P('C02', 'Array messages carry values unaltered and malformed ones are rejected',
  '''A collection of typed and tagged values packed into an array message and unpacked again has the same values in the same
  order with the same types, tags, element counts and bytes; lookups by tag and index give the value stored there and never one
  outside it; splitting, cloning, merging and exporting give the elements the model has. An array message with arbitrary or hostile
  contents is either rejected or unpacked to values which all lie within the message, and everything that can be done with an
  unpacked array (lookups, string conversion, export, dump, split, packing again) is safe and does not abort the program. Every
  allocation is released, also when allocations fail.''',
  ['inputs', 'histories', 'fault_sequences'],
  'all arrays of all types, tags and element counts, all contents of array messages, and all points where an allocation fails',
  'the array test packs one fixed array; other combinations of types, counts and tags, and messages which are not made by the library, are never tried',
  ['src/lib/array.c', 'src/lib/type.c', 'src/lib/messages/msg_msg.c'],
  [('packing and unpacking', 'src/lib/array.c'), ('type definitions with export, pack and unpack functions', 'src/lib/type.c')],
  'c02_array',
  '''Arrays are generated with a list of the expected values; hostile messages are generated from structure with field-level
  damage as well as from raw bytes. Allocation failures are injected at every position of a case.''',
  observe=['rrr_array_message_append_to_array and the getters of rrr_array'])


P('C04', 'Conditions evaluate as the same expression does in C',
  '''A condition with any combination of the documented operators, parentheses, white space, decimal, negative and hexadecimal
  numbers and tag references gives the value of the same expression evaluated on 64-bit integers with the precedence and
  left-to-right grouping of C, where an operation is signed if one of its operands is. Division by zero, signed division overflow,
  unresolvable tags and unsigned values which do not fit where a signed one is needed give an error and never a value. Reverse
  polish input with the values first gives the documented result. Expressions with unbalanced parentheses or missing values are
  rejected when they are parsed; whatever is accepted is safe to evaluate, and a copy evaluates the same.''',
  ['inputs'],
  'all expressions, all values and signedness of the tags, and all sequences of tokens which are not expressions',
  'the condition test evaluates a fixed list of expressions',
  ['src/lib/condition.c', 'src/lib/parse.c'],
  [('shunting yard and evaluation', 'src/lib/condition.c'), ('tokens', 'src/lib/parse.c')],
  'c04_condition',
  '''Expressions are generated as trees, rendered with the fewest or more parentheses, and the result compared with the tree's
  value computed directly. Shifts by 64 or more are undefined in C and accepted with any result.''',
  observe=['rrr_condition_interpret and rrr_condition_evaluate'])


P('C03', 'Array definitions take input apart as documented',
  '''For every array definition of the documented grammar (all types, lengths, counts, signs and tags, references to earlier
  values, IF/ELSIF/ELSE with conditions, REWIND) and every input, importing gives exactly the values, tags and used byte count
  which the documentation prescribes; input which is too short is reported as incomplete, so that it can be tried again with more
  data, and input which does not match is rejected. A copied definition behaves the same. Text which is not a definition is
  rejected or, if accepted, safe to print, copy and import with; a definition which is not terminated is rejected. No input makes
  the import read outside it or abort.''',
  ['inputs'],
  'all definitions and all inputs including every truncation',
  'the parse tests import a few fixed definitions with matching input',
  ['src/lib/array_tree.c', 'src/lib/type.c', 'src/lib/condition.c', 'src/lib/fixed_point.c', 'src/lib/hdlc/hdlc.c', 'src/lib/parse.c'],
  [('definition parser and tree walk', 'src/lib/array_tree.c'), ('import functions of the types', 'src/lib/type.c')],
  'c03_tree',
  '''Definitions are generated as trees and rendered; an independent interpreter of the documentation both makes up matching input
  and predicts the outcome for every damaged or shortened version. Fixed point numbers may differ by 2^-24; for values of more than half a gigabyte both incomplete and error are accepted.''',
  observe=['rrr_array_tree_import_from_buffer'])


P('C05', 'Fixed point numbers and type conversions keep their values',
  '''Every fixed point number is converted to floating point exactly, to hexadecimal text and back without change, and to decimal
  text and back within its resolution. A number in text, decimal or hexadecimal, is read as the nearest fixed point number within
  one unit of resolution, up to the character which ends it; text which is not a number, and numbers which do not fit, are
  rejected, and no buffer is written beyond its size. A list of conversion methods applied to a value gives exactly the result of
  applying the documented methods from left to right, skipping those which are not possible; the source value is not changed, the
  tag is kept, and where no method is possible this is reported.''',
  ['inputs'],
  'all fixed point and floating point numbers, all texts, and all lists of conversion methods on values of all types',
  'the tests convert a handful of numbers and two lists of methods',
  ['src/lib/fixed_point.c', 'src/lib/type_conversion.c', 'src/lib/util/hex.c', 'src/lib/type.c'],
  [('conversion methods', 'src/lib/type_conversion.c'), ('fixed point text and floating point', 'src/lib/fixed_point.c')],
  'c05_numbers',
  '''Oracle: exact long double arithmetic and a second implementation of the documented methods. Not compared: str2h with numbers
  beyond 64 bits (documented as undefined) and blob2hex on a value which is a string already.''',
  observe=['rrr_type_convert_using_list', 'rrr_fixp_str_to_fixp'])


P('C06', 'Route and method definitions decide as documented',
  '''A route or method definition of the documented statements (topic filters, array tags, destinations, booleans, AND, OR, NOT, APPLY,
  POP, BAIL, comments) is accepted exactly if every operator finds what it needs on the stack, the stack is never deeper than the
  limit and ends empty; parsing stops there. Run on a message, definitions apply exactly the destinations, in order and with the truth value, which a
  stack machine does: a topic filter is true if it matches the topic of the message, a tag if the message is an array with a
  value of exactly that tag; a true BAIL ends the processing, also of the definitions which follow. Copies decide the same.
  Invalid values and unfinished definitions are rejected with a fault, and no input makes the parser read outside it.''',
  ['inputs'],
  'all definitions, all messages, and all damaged definitions',
  'the test runs a dozen fixed definitions with stand-ins for the topic and the tags',
  ['src/lib/discern_stack.c', 'src/lib/discern_stack_helper.c', 'src/lib/parse.c', 'src/lib/mqtt/mqtt_topic.c'],
  [('parser and execution', 'src/lib/discern_stack.c'), ('lookups in messages', 'src/lib/discern_stack_helper.c')],
  'c06_route',
  '''Definitions are generated valid by construction, or damaged; a second stack machine and an own topic matcher predict everything.''',
  observe=['rrr_discern_stack_interpret', 'rrr_discern_stack_collection_execute'])


P('C12', 'The MQTT broker gives every session exactly the messages it is entitled to',
  '''Clients with MQTT 3.1.1 and 5 which connect, subscribe, unsubscribe, publish with any QoS, leave and come back receive each message once per matching subscription, in order for each topic, with the lower
  of the two QoS values, the same payload and properties and the expiry which remains, and nothing else. Messages for a session which is away are kept (with QoS 0 they may be) until it comes back or
  ends, unless they expire or the client starts clean; what was not acknowledged is sent again at once. The last retained message of each topic which has not expired is sent on every new subscription. A will
  is published when its connection ends without a normal DISCONNECT, once its delay is over or the session ends, and not if the client is back before that; taking over a session ends the old connection
  with the reason for it. Sessions last as long as asked for (without an expiry at least 20 seconds after the last contact). The receive maximum and the maximum packet size of a client are never exceeded,
  packet ids are not used twice at a time, each request gets its acknowledgement with the right codes, and a QoS 2 message which is sent or released twice is delivered once. No
  packets in any order stop the broker or its service to others.''',
  ['histories', 'schedules', 'fault_sequences'],
  'all histories of connections, subscriptions, messages, losses of connection and time, and all sequences of packets',
  'the tests connect the RRR client to the RRR broker and send a few messages in fixed setups',
  ['src/lib/mqtt/mqtt_broker.c', 'src/lib/mqtt/mqtt_session_ram.c', 'src/lib/mqtt/mqtt_common.c', 'src/lib/mqtt/mqtt_connection.c'],
  [('sessions, queues, retained and will messages', 'src/lib/mqtt/mqtt_session_ram.c'), ('CONNECT and take-over', 'src/lib/mqtt/mqtt_broker.c')],
  [dict(name='c12_broker', sources=['targets/c12_broker.cpp', 'targets/c12_glue.c'], libs=['-Wl,--wrap=rrr_time_get_64'])],
  '''Own clients over TCP on the loopback and own model of sessions, retained messages and wills; the clock is a stand-in which the target moves forward. Taken as given: a client gets one message per
  matching subscription, retained messages are not sent again when a subscription which exists is repeated (the standard asks for it, but test_mqtt_commands relies on the opposite), the option retain handling is ignored, sessions without an expiry end 20 seconds after the last contact, the flags "no local" and "retain as published" are ignored, the client closes the connection after
  a DISCONNECT from the broker. Topics which start with $ are not used.''',
  observe=['rrr_mqtt_broker_new', 'rrr_mqtt_session_collection_ram_new_broker'])
P('C13', 'HTTP/1.1 messages are parsed to what they hold; ambiguous framing is refused',
  '''A well formed HTTP/1.0 or HTTP/1.1 request or response which arrives in any pieces and is followed by other data is complete exactly when its last byte has come (or its header, when the length is
  given there), with the method, URI, version, status, connection handling, header values and body which it holds, whether the body has a length, comes in chunks or does not exist. Headers which RRR does
  not know are kept unchanged and never make the message fail. Lengths and chunk sizes which do not fit, different lengths, a length together with chunks and
  start lines and header lines which are no such are refused; no message is ever read past its end, leaks or stops the program, and splitting it differently never changes the result.''',
  ['inputs', 'histories'],
  'all messages, all ways of splitting them and all corruptions',
  'the tests parse a handful of messages which come from RRR or curl, in one piece',
  ['src/lib/http/http_part_parse.c', 'src/lib/http/http_part.c', 'src/lib/http/http_header_fields.c', 'src/lib/http/http_util.c'],
  [('start lines, framing and chunks', 'src/lib/http/http_part_parse.c'), ('header fields', 'src/lib/http/http_header_fields.c'), ('merging of chunks', 'src/lib/http/http_part.c')],
  [dict(name='c13_http', sources=['targets/c13_http.cpp'])],
  '''Own generator of messages which knows the fields. Taken as given: chunk extensions and trailers are refused, white space may be repeated in the start line.''',
  observe=['rrr_http_part_parse', 'rrr_http_part_chunks_merge', 'rrr_http_part_chunks_iterate'])
P('C14', 'URIs, form fields, quoted values and queries are read back as they were written',
  '''Form fields with any names and values which RRR encodes (urlencoded or as multipart) are decoded to the same fields, from a query, a body with a length or chunks; forms of independent encoders which
  follow the standards are decoded likewise, with their content types. Strings survive URI encoding, header values survive quoting, and URIs are split into exactly their protocol (http, https, ws, wss), host,
  port (default 80 or 443), path and query, with the matching TLS and WebSocket flags. Values written to the queries of the InfluxDB module cannot break out of their place. URIs, %-sequences and
  forms which are malformed are refused; no form, however its parts are nested, is read past its end, leaks or stops the program.''',
  ['inputs'],
  'all fields, URIs and values, and all malformed forms',
  'the tests send one or two simple forms',
  ['src/lib/http/http_util.c', 'src/lib/http/http_fields.c', 'src/lib/http/http_part.c', 'src/lib/http/http_part_multipart.c', 'src/lib/http/http_query_builder.c'],
  [('URIs and quoting', 'src/lib/http/http_util.c'), ('forms', 'src/lib/http/http_part.c'), ('multipart', 'src/lib/http/http_part_multipart.c'), ('queries', 'src/lib/http/http_query_builder.c')],
  [dict(name='c14_forms', sources=['targets/c14_forms.cpp'])],
  '''Independent encoders and readers. Taken as given: fields with an empty name or an empty value are not kept apart from none, further equal signs in a query value must be encoded,
  the end boundary must be followed by CRLF, and values outside of quotes must not hold backslashes.''',
  observe=['rrr_http_part_multipart_and_fields_process', 'rrr_http_util_uri_parse', 'rrr_http_util_uri_encode', 'rrr_http_query_builder_append_values_from_array'])
P('C11', 'MQTT topic filters match, and the ACL grants, exactly what they say',
  '''A filter matches a topic if every level is equal or matched by + or, from there to the end, #, where wildcards do not match a
  level which starts with $ and # stands for at least one level; all matching functions agree and look at nothing outside the
  topic. Exactly the well-formed filters and topic names in valid UTF-8 are accepted. From an ACL file, access is given by the
  last topic block which covers the request: the action of the last line of the user in it, or else the default of the block, or
  else none; READ allows subscribing and WRITE allows both. A requested # is covered only by a # on the same level. Without a
  matching block access is denied, and a file with any invalid line is refused as a whole.''',
  ['inputs'],
  'all filters, topics, ACL files and requests',
  'the tests match about thirty fixed pairs and use one ACL file',
  ['src/lib/mqtt/mqtt_topic.c', 'src/lib/mqtt/mqtt_acl.c', 'src/lib/util/utf8.c', 'src/lib/messages/msg_msg.c'],
  [('matching and validation', 'src/lib/mqtt/mqtt_topic.c'), ('ACL file and access', 'src/lib/mqtt/mqtt_acl.c')],
  'c11_topic',
  '''Own matcher over lists of levels, own UTF-8 validation and own rule evaluation. Deviation from the MQTT standard taken as given: wildcards exclude $ on every level
  and a/# does not match a.''',
  observe=['rrr_mqtt_topic_match_topic_and_linear_with_end', 'rrr_mqtt_acl_check_access'])


P('C08', 'Buffers hand out every entry once, in order, and release what they keep',
  '''The FIFO buffers behave as a list does under every sequence of writes (plain, ordered, repeated, dropped, delayed), searches,
  replacements, reads, reads above an order, taking entries with the rest put back in front when the callback stops or fails,
  merging and clearing, also when the callbacks write to the buffer which is being read: entries come out in order, each exactly
  once, the count and statistics are right, errors of callbacks are reported, and each entry is released exactly once unless it was given
  away. Ordered writes place an entry before the first with the same or a higher order. With several threads writing and reading the protected buffer, nothing is lost or comes twice, the entries
  of each writer come in the order written, and there are no data races.''',
  ['histories', 'schedules', 'fault_sequences'],
  'all sequences of operations and callback results, failing allocations, and interleavings of writers and readers',
  'the fifo test writes ten entries and replaces some',
  ['src/lib/fifo.c', 'src/lib/fifo.h', 'src/lib/fifo_protected.c', 'src/lib/fifo_protected.h'],
  [('linked list with search, replace and put back', 'src/lib/fifo.c'), ('locking, write queue and splice', 'src/lib/fifo_protected.c')],
  [dict(name='c08_fifo'), dict(name='c08_threads', flavor='tsan', workers=4)],
  '''Model: a double ended queue and reference counts, compared after every operation. The threads run real schedules under ThreadSanitizer,
  so that races are found also when they do no harm in the run; the schedules are not enumerated. Not reached: overflow of the entry count.''',
  observe=['callbacks of the read, search and write functions'],
  technique='stateful property-based testing against a list model, and generated multi-threaded histories under ThreadSanitizer')


P('C07', 'Instances receive every message sent to them once, in order and unaltered',
  '''What an instance writes to its output reaches its readers: with duplication every reader gets every message, without it one of them
  does. A message comes once, with the content, address, times and routing it was written with (the routing decided when it was
  written), and an instance which asks for it gets no message which it wrote itself, however the message was routed back. Messages of one writer arrive in the order written, unless several readers
  compete for one buffer. This holds for buffers and for slots (buffer=no), for single messages, batches, clones and collections, when messages are
  dropped or writing fails, for messages forwarded while being read, and when instances run in threads of their own and are woken by the
  notifications only: as many notifications are sent as there are messages for each reader, and nothing stays behind when the writers stop.
  Polling reads at most the amount asked for and tells how many are left of it. Identifiers handed out by an instance are unique.''',
  ['histories', 'schedules', 'fault_sequences'],
  'all topologies, histories of writes and reads, errors and thread schedules',
  'the tests run fixed configurations with a few messages, mostly with one reader per instance',
  ['src/lib/message_broker.c', 'src/lib/message_holder/message_holder.c', 'src/lib/message_holder/message_holder_slot.c', 'src/lib/message_holder/message_holder_util.c',
   'src/lib/message_holder/message_holder_collection.c', 'src/lib/instance_friends.c'],
  [('write, poll, duplication and notifications', 'src/lib/message_broker.c'), ('slots instead of buffers', 'src/lib/message_holder/message_holder_slot.c')],
  [dict(name='c07_broker'), dict(name='c07_threads')],
  '''First target: a model of lists compared after every operation of a generated history in one thread, with failing allocations. Second: threads with random pauses at locks under
  AddressSanitizer, judged by what arrives. Schedules are sampled. Known finding: competing readers which have different sets of senders; the second target gives competing readers the same senders.''',
  observe=['callbacks of rrr_message_broker_poll_delete'],
  technique='stateful property-based testing against a list model, and generated multi-threaded histories with schedule perturbation')


P('C27', 'Processor modules change exactly the messages they are configured to change',
  '''The mangler writes one message for every array, with its values in order, those with a tag to clear removed, and each converted by every conversion of the list which applies and otherwise unchanged; the exploder writes one message for each value of
  an array, with the value, tag, topic and timestamp as configured; the buffer passes on everything which has not expired; messages which are not arrays are passed on unchanged or dropped as configured. The incrementer appends to topics which match its filter
  IDs which are within range, at the configured position within the modulus, carry the prefix, and follow the last ID of the same topic, also after a restart when a message database is used; other messages are passed on unchanged, and a message without
  valid ID is never written. Everything is written in the order received.''',
  ['inputs', 'histories', 'faults'],
  'all configurations and sequences of messages',
  'the tests use a few fixed messages and configurations for the mangler, and none for the others',
  ['src/modules/p_mangler.c', 'src/modules/p_exploder.c', 'src/modules/p_incrementer.c', 'src/modules/p_buffer.c', 'src/lib/util/increment.c'],
  [('mangler', 'src/modules/p_mangler.c'), ('exploder', 'src/modules/p_exploder.c'), ('incrementer', 'src/modules/p_incrementer.c'), ('IDs', 'src/lib/util/increment.c')],
  [dict(name='c27_modules', sources=['targets/c27_modules.cpp', 'targets/c27_glue.c', 'targets/c27_mangler.c', 'targets/c27_exploder.c', 'targets/c27_incrementer.c', 'targets/c27_buffer.c'])],
  'The modules run with their real configuration, on stand-ins for the thread, the queues and the message database; model: a list of values and a table of IDs. Restarts and failures of the message database are generated. Taken as given: messages are dropped when the message database fails.',
  observe=[])
P('C09', 'Channels between processes deliver every message once, in order and unchanged',
  '''Messages of all sizes written to a memory channel by one process are read by another exactly once, in the order written and with their bytes unchanged, however writing, reading, maintenance and failures of either interleave. A full channel refuses
  messages without damage, a message whose reader fails is delivered again, and a message which could not be written is not delivered. Memory handed out from shared memory maps never overlaps, keeps its contents until it is freed, is found again
  by its handle, and is given back to the system when everything is freed.''',
  ['inputs', 'histories', 'schedules', 'faults'],
  'all sizes, all sequences of writes, reads, frees and maintenance, and all interleavings of the two processes',
  'the tests pass a handful of messages through, and never fill a channel or fragment memory',
  ['src/lib/mmap_channel.c', 'src/lib/rrr_mmap.c', 'src/lib/rrr_shm.c'],
  [('channel', 'src/lib/mmap_channel.c'), ('memory maps', 'src/lib/rrr_mmap.c'), ('shared memory', 'src/lib/rrr_shm.c')],
  [dict(name='c09_mmap', sources=['targets/c09_mmap.cpp'], libs=['-Wl,--wrap=shmget,--wrap=shmat,--wrap=shmctl,--wrap=shmdt'])],
  'Model: a queue and a set of allocations with their contents; failures of shared memory calls are injected. The target with two processes samples the schedules of the operating system with random delays. In one of four cases the writer kills itself at a random point of a write. Taken as given: one writer and one reader for each channel; messages are not empty; messages of 4096 bytes or more may be lost with the writer, and the channel may then report errors.',
  observe=['rrr_mmap_channel_write_using_callback', 'rrr_mmap_channel_read_with_callback'])
P('C32', 'Lua scripts read, change and send messages without losing or altering anything',
  '''What a Lua script reads from a message is what the message holds, and what it sends is what it has set: topic, data, timestamp, type, address, protocol and all array values with their tags, types and order. Integers of the
  whole signed and unsigned 64 bit range and all fixed point numbers pass exactly both ways, as number or as string; strings and floats are converted to the number they say, truncated, or refused. Tables are arrays of one or
  more values. Arguments which can not be used give an error in the script which leaves the message usable; they never stop the program or leak memory, and failed calls leave nothing on the stack.
  Each message which arrives is given to the process function with the name of its method, or with direct dispatch to the function of that name.''',
  ['histories', 'inputs'],
  'all sequences of calls and all values',
  'the test script uses a few values, and does not look at what is sent',
  ['src/lib/lua/lua_message.c', 'src/lib/lua/lua.c', 'src/lib/lua/lua_cmodule.c', 'src/modules/p_lua.c'],
  [('messages', 'src/lib/lua/lua_message.c'), ('interpreter', 'src/lib/lua/lua.c'), ('module', 'src/modules/p_lua.c')],
  [dict(name='c32_lua', sources=['targets/c32_lua.cpp', 'targets/c32_glue.c', 'targets/c32_plua.c'], libs=['-Wl,--wrap=rrr_cmodule_worker_send_message_and_address_to_parent'])],
  'Model of the message; scripts are generated, and the results read through the C interface of Lua. What is sent to the parent process is recorded. Free choice: whether a refused value given to a set function clears the old ones, whether numbers with exponents in strings are accepted by the integer functions, and fixed point numbers at the end of the range.',
  observe=['rrr_lua_execute_snippet', 'rrr_lua_message_push_new_array'])
P('C29', 'Event queues deliver exactly the events which are passed',
  '''Every amount of events passed to a function of an event queue, from any thread and from inside callbacks, reaches the callback
  of the function: the callbacks are told of no more than was passed, what they leave is offered again, and in the end all has been offered, also when
  the function was paused in between. A paused function is not called, and its pause callback is told the right state. Error and exit results end the loop at once and give the right return
  value. When the queue is full, the caller of pass decides whether to retry. Events of a collection fire only while added or after being activated, not earlier than
  their interval, once per activation, and never after removal.''',
  ['histories', 'schedules'],
  'all sequences of passing, consuming, pausing and ending, from several threads',
  'no test covers pausing or partly consumed events',
  ['src/lib/event/event.c', 'src/lib/event/event.h', 'src/lib/event/event_collection.c', 'src/lib/socket/rrr_socket_eventfd.c'],
  [('dispatch, deferral and pausing', 'src/lib/event/event.c'), ('counting through pipes', 'src/lib/socket/rrr_socket_eventfd.c')],
  'c29_event',
  '''Amounts are counted on both sides; the callbacks decide at random what to take and when to pause. Timing is judged only in the direction which load cannot disturb.
  What is left in the callback which ends the loop is not judged. The eventfd variant is not built here, pipes are.''',
  observe=['event function, pause and collection callbacks'])


P('C15', 'WebSocket messages are delivered as sent; wrong frames end the connection',
  '''Messages which a peer sends over a WebSocket, in one or in any number of frames, masked or not, with pings and pongs in between (also within a message), arrive with the same type and bytes, once and in
  order, whatever pieces the data comes in. Each ping is answered by one pong with the same payload; frames which RRR sends have the shortest length form, are masked exactly if RRR is the client, and carry what was
  queued, in order. Reserved bits, unknown types, too long or fragmented control frames, frames which do not continue a message correctly, lengths out of range and too large messages end the connection, and
  nothing after them is delivered; no data leads to memory errors. Pings and timeouts happen after the time configured.''',
  ['inputs', 'histories'],
  'all messages, all ways to put them in frames, all ways to split the stream, all corruptions',
  'the tests send one WebSocket message in one frame',
  ['src/lib/websocket/websocket.c', 'src/lib/read.c'],
  [('frames, fragments and control frames', 'src/lib/websocket/websocket.c')],
  [dict(name='c15_websocket', sources=['targets/c15_websocket.cpp', 'targets/c15_glue.c'])],
  '''Oracle: an independent frame writer and reader. The real read framework runs on a local socket; only the transport is replaced. Taken as given: unmasked frames are accepted from clients, close frames are not
  answered, text is not checked to be UTF-8, lengths need not be in the shortest form.''',
  observe=['rrr_websocket_transport_ctx_read_frames', 'rrr_websocket_transport_ctx_send_frames'])


P('C10', 'MQTT packets are decoded as encoded, and malformed packets are refused',
  '''Every well formed packet of MQTT 3.1, 3.1.1 and 5 (all types except AUTH, with all properties) which arrives in pieces, moved in memory and followed by other data, is decoded to exactly the
  fields which it holds, and not before all of it is there. Packets which the standards call malformed (lengths or fields which do not fit, data left over, reserved flags, bad text, unknown
  properties and reasons) are refused, and never read past their end, leak or stop the program. Assembling a packet gives the same bytes again, also for publish packets
  which have been copied.''',
  ['inputs', 'histories'],
  'all packets, all ways of splitting them and all corruptions',
  'the tests exchange a handful of messages between RRR instances, which never send most of the fields',
  ['src/lib/mqtt/mqtt_parse.c', 'src/lib/mqtt/mqtt_assemble.c', 'src/lib/mqtt/mqtt_packet.c', 'src/lib/mqtt/mqtt_property.c', 'src/lib/mqtt/mqtt_payload_buf.c'],
  [('parser', 'src/lib/mqtt/mqtt_parse.c'), ('assembly', 'src/lib/mqtt/mqtt_assemble.c'), ('properties', 'src/lib/mqtt/mqtt_property.c')],
  [dict(name='c10_mqtt', sources=['targets/c10_mqtt.cpp', 'targets/c10_glue.c'])],
  '''Own encoder and decoder. Taken as given: the protocol name may be in any case and end in zero bytes, any known property may be in any packet and come twice (judged later by the handlers), the reason of
  DISCONNECT is not checked, 0x92 is accepted in PUBACK and PUBREC, topic aliases without topic are not supported, repeated filters of one SUBSCRIBE are merged, passwords must be text and not be empty,
  and a variable header must arrive in at most ten pieces.''',
  observe=['rrr_mqtt_packet_parse', 'rrr_mqtt_p_type_properties assemble'])
P('C19', 'HDLC frames are read exactly as they were written',
  '''Data of any bytes is put into a frame of exactly the computed length, with delimiters and escapes such that frames, which may follow each other directly or with more delimiters in between and begin in the middle of
  noise, are read back one by one as they were and end where they end, whatever pieces the data comes in; the array type hdlc does the same. Data without a complete frame is
  incomplete, and neither data which is too long nor any other input is read or written out of bounds: frames above the maximum are refused both ways.''',
  ['inputs'],
  'all data, all surroundings of frames and all ways of splitting them',
  'the tests read two frames of a file',
  ['src/lib/hdlc/hdlc.c', 'src/lib/type.c'],
  [('framing', 'src/lib/hdlc/hdlc.c'), ('array type hdlc', 'src/lib/type.c')],
  [dict(name='c19_hdlc', sources=['targets/c19_hdlc.cpp'])],
  'Own encoder and reference decoder.',
  observe=['rrr_hdlc_parse_frame', 'rrr_hdlc_export_frame'])
P('C20', 'Modbus responses are matched with their requests; wrong responses are refused',
  '''Requests (read coils, inputs and registers, write one or several registers) are sent in order, once, as frames which hold exactly what was asked for, under transaction numbers which are not in use, with at most 32
  outstanding. A response in any order, in any pieces, is handed to the callback of its function with its contents and the private data of its request, once. Responses without such a request, with another function, with sizes
  which do not fit the request, or with wrong lengths are refused, and never read past their end; private data is released exactly once. Requests unanswered for more than one second end the
  connection when their place is needed.''',
  ['inputs', 'histories'],
  'all requests, orders of responses, malformed responses',
  'the tests do not use Modbus',
  ['src/lib/modbus/rrr_modbus.c'],
  [('client', 'src/lib/modbus/rrr_modbus.c')],
  [dict(name='c20_modbus', sources=['targets/c20_modbus.cpp', 'targets/c20_glue.c'])],
  '''Model of the transactions and an own server; only the clock is replaced. Taken as given: protocol and unit identifiers are not checked, the echo in write responses is not compared with the request.''',
  observe=['rrr_modbus_client_read', 'rrr_modbus_client_write'])
P('C21', 'JSON and arrays are converted into each other without loss',
  '''Every JSON object within the permitted depth gives one array, inner objects before the outer ones, with exactly its plain values under their names: strings with all characters, integers of the full signed and unsigned
  64 bit range, numbers with fractions as fixed point, true and false as 1 and 0, null as empty. Incomplete text is told apart and gives nothing; loose values, numbers out of range and other errors are refused.
  Arrays are written as well formed JSON with their values, all elements of each, as selected by tags, and are read back from it as they were. No text leads to memory errors.''',
  ['inputs'],
  'all JSON texts and all arrays',
  'the tests convert one or two small objects',
  ['src/lib/json/json.c', 'src/lib/array.c', 'src/lib/fixed_point.c'],
  [('conversion', 'src/lib/json/json.c'), ('splitting of values', 'src/lib/array.c')],
  [dict(name='c21_json', sources=['targets/c21_json.cpp'])],
  '''Own writer and parser. Taken as given (behaviour of the JSON library): zero characters in names, integers beyond 64 bits, what follows after the text, numbers beyond the precision of double, invalid UTF-8.''',
  observe=['rrr_json_to_arrays', 'rrr_json_from_array'])
P('C17', 'Queued messages are sent in order and once, retried, or given up in time',
  '''Messages waiting to be sent (file and IP modules) are handed over until the receiver takes them, each once per run, in the order of the queue or, if order is to be preserved, in the order in which they were prepared, in which case
  nothing overtakes a message which is not ready. Messages older than the time to live are dropped and not sent; messages which have waited longer than the send timeout, counted from when they were prepared or last touched by
  related traffic, are dropped or returned as configured, and time to live goes before timeout. Soft errors drop one message; other errors end the run and are reported. What is left
  stays queued and is tried again by itself; each message is released exactly once.''',
  ['histories'],
  'all sequences of messages, results, times and parameters',
  'the tests send a few messages which are always taken at once',
  ['src/lib/send_loop.c', 'src/lib/message_holder/message_holder_util.c', 'src/lib/message_holder/message_holder_collection.c'],
  [('send loop', 'src/lib/send_loop.c'), ('time limits', 'src/lib/message_holder/message_holder_util.c')],
  [dict(name='c17_send', sources=['targets/c17_send.cpp'], libs=['-Wl,--wrap=rrr_time_get_64'])],
  '''Model of the queue with the clock replaced. Taken as given: the callbacks do not put messages in the queue during a run, and the timeout action retry is not combined with a timeout (the configuration forbids it).''',
  observe=['rrr_send_loop_run'])
P('C22', 'Compressed data is restored exactly; damaged data is refused',
  '''Data of any size is compressed to gzip data which any implementation reads back as it was, and gzip and zlib data from any implementation is decompressed to exactly the original, however large the result and whatever the size of the steps in
  which the buffer grows. Truncated, damaged and random data is reported as an error, never as success without or with wrong data, and all memory is released. The content encoding of HTTP
  uses this with the same guarantees.''',
  ['inputs'],
  'all data, all compressors and all damage',
  'the tests decompress one text',
  ['src/lib/zlib/rrr_zlib.c', 'src/lib/http/http_util.c'],
  [('compression', 'src/lib/zlib/rrr_zlib.c')],
  [dict(name='c22_zlib', sources=['targets/c22_zlib.cpp'], libs=['-lz'])],
  'Against zlib itself, called directly in one step with all data. Taken as given: what follows after the compressed stream, including further gzip members, is ignored.',
  observe=['rrr_zlib_gzip_compress', 'rrr_zlib_gzip_decompress'])
P('C23', 'Encodings, checksums and text functions give the standard results',
  '''Base64 (with padding and lines of 72 characters), base64url (without padding), hexadecimal and both byte orders give the standard forms, and what was encoded is decoded to exactly the original for any length; input which is no
  such encoding is refused, while foreign characters in between are skipped. CRC32, SHA-1 and SHA-256 are the standard values for any data, however it is split. Text is accepted as
  UTF-8 and decoded if and only if RFC 3629 permits it, also after zero characters. Formatting, conversion between cases and searching without regard to case treat ASCII letters as such and leave all
  else unchanged. No input leads to access out of bounds.''',
  ['inputs'],
  'all data of any length',
  'the tests have one fixed string per function, if any',
  ['src/lib/util/base64.c', 'src/lib/util/hex.c', 'src/lib/util/crc32.c', 'src/lib/util/sha256.c', 'src/lib/sha1/sha1.c', 'src/lib/util/utf8.c', 'src/lib/util/rrr_endian.c', 'src/lib/util/gnu.c', 'src/lib/util/rrr_str.c', 'src/lib/util/rrr_time.c'],
  [('base64', 'src/lib/util/base64.c'), ('CRC32', 'src/lib/util/crc32.c'), ('SHA-256', 'src/lib/util/sha256.c'), ('SHA-1', 'src/lib/sha1/sha1.c'), ('UTF-8', 'src/lib/util/utf8.c')],
  [dict(name='c23_codec', sources=['targets/c23_codec.cpp'], libs=['-lz', '-lcrypto'])],
  'Own encoders and decoders, zlib and OpenSSL. Taken as given: in base64, decoding ends after the first block with padding, wherever the padding is in it; iteration over characters ends at a zero character.',
  observe=['rrr_base64_encode', 'rrr_sha256_calculate', 'rrr_utf8_validate'])
P('C24', 'Binary safe strings and growing texts hold exactly what was put in',
  '''The strings used for HTTP and other protocols hold data of any bytes, zero included, and any sequence of setting, copying, moving, appending, prepending, trimming and formatting leaves exactly the expected contents;
  searching, splitting and comparing give every position, piece and result once and in order, the last piece marked as such, and end when the callback says so. Growing texts are always terminated,
  have the right length and enough room, however they are appended to, shortened, emptied or taken over. Nothing is read or written out of bounds and all memory is released.''',
  ['histories'],
  'all sequences of operations with all contents',
  'the tests use neither by itself',
  ['src/lib/helpers/nullsafe_str.c', 'src/lib/helpers/string_builder.c'],
  [('strings', 'src/lib/helpers/nullsafe_str.c'), ('string builder', 'src/lib/helpers/string_builder.c')],
  [dict(name='c24_str', sources=['targets/c24_str.cpp'])],
  'Against std::string. Taken as given: the text searched for is not empty, and data of length zero has no last piece when split.',
  observe=['rrr_nullsafe_str_split', 'rrr_string_builder_append'])
P('C16', 'The message database returns what was stored, across restarts and damage',
  '''A message which the database has acknowledged is returned exactly, until it is replaced, deleted or tidied: GET answers with the last message put under the topic, and with a negative answer if there is none. Requests are answered in
  order, each exactly once. IDX gives exactly the messages older than the given age, each once, and TIDY deletes exactly these. After a restart, also with another number of directory levels, everything is still there and in
  its place. Damaged or truncated files are never given out as messages and disturb nothing else, and a new message may be put in their place.''',
  ['histories', 'faults'],
  'all histories of requests from several clients, restarts, directory levels and damage to files',
  'the tests run one fixed sequence on an intact database',
  ['src/lib/msgdb/msgdb_server.c', 'src/lib/msgdb/msgdb_client.c', 'src/lib/msgdb/msgdb_common.c'],
  [('server', 'src/lib/msgdb/msgdb_server.c'), ('client', 'src/lib/msgdb/msgdb_client.c')],
  [dict(name='c16_msgdb', sources=['targets/c16_msgdb.cpp', 'targets/c16_glue.c'], libs=['-Wl,--wrap=rrr_time_get_64'])],
  'Server and clients run on one event queue over a real socket and file system; model: a map. The clock is replaced. Taken as given: a damaged file may be removed by IDX and TIDY; putting is not atomic with respect to crashes; one index or tidy at a time for each client.',
  observe=['rrr_msgdb_server_new', 'rrr_msgdb_client_cmd_idx'])
P('C25', 'Configuration files give exactly the instances and settings written in them',
  '''Every instance, sub instance and setting of a well-formed configuration file is available under its name with exactly its value, in order, whatever spaces, comments and line ends surround it, and nothing else. Duplicate
  names, missing values, sub instances without main instance and syntax errors make the whole file fail; no file, however damaged, makes the program crash, read outside the file or leak. Settings are converted to numbers, yes or no,
  ports, lists and maps exactly if they have the right form and range and are refused otherwise; settings never asked for are recognised. Replaced and packed settings keep their values.''',
  ['inputs', 'histories'],
  'all configuration files, well-formed or not, and all queries',
  'the tests use a few fixed files',
  ['src/lib/configuration.c', 'src/lib/settings.c', 'src/lib/instance_config.c', 'src/lib/parse.c', 'src/lib/map.c'],
  [('file format', 'src/lib/configuration.c'), ('settings', 'src/lib/settings.c'), ('instances', 'src/lib/instance_config.c')],
  [dict(name='c25_config', sources=['targets/c25_config.cpp'])],
  'Files are written from a model with random layout, or put together from fragments. Taken as given: only the first letter of yes and no counts; a trailing comma does not start an element; two array definitions with the same name are accepted; an opening bracket at the very end of a file is ignored.',
  observe=['rrr_instance_config_parse_string', 'rrr_settings_read_unsigned_integer'])
P('C26', 'Only the right password and permission of a user are accepted',
  '''A user is accepted exactly if the first line of the password file with that name is reached, its hash was made from exactly the password given, and, if a permission is asked for, it is among those of the user. Longer, shorter and
  otherwise different passwords, empty passwords and users without password are refused. Hashes made by the program are salted and fit only their password. Damaged hashes and files refuse, and never make the program crash or read outside.''',
  ['inputs', 'faults'],
  'all password files, hashes and requests',
  'the tests use a single user',
  ['src/lib/passwd.c'],
  [('passwords', 'src/lib/passwd.c')],
  [dict(name='c26_passwd', sources=['targets/c26_passwd.cpp'], libs=['-Wl,--wrap=PKCS5_PBKDF2_HMAC', '-lcrypto'])],
  'The oracle computes the hashes by itself; the number of iterations of the key derivation is divided for speed. Taken as given: lines before the line of the user must be well-formed.',
  observe=['rrr_passwd_authenticate', 'rrr_passwd_check'])
P('C35', 'Command lines are parsed exactly by the rules of the program',
  '''For all rules and all command lines the options, their values and the arguments without option are found in order with exactly their values: long and short names, combined short names, values after an equals sign or in the
  next argument, lists separated by commas, and everything after two dashes taken literally. Unknown options, missing, empty or unexpected values and too many arguments are refused. Numbers are converted exactly,
  or refused if they are out of range or no numbers. The arguments themselves are not changed and nothing leaks.''',
  ['inputs'],
  'all rules and command lines',
  'the tests start the programs with a few fixed command lines',
  ['src/lib/cmdlineparser/cmdline.c'],
  [('parser', 'src/lib/cmdlineparser/cmdline.c')],
  [dict(name='c35_cmdline', sources=['targets/c35_cmdline.cpp'])],
  'Model: the same rules written down independently. Taken as given: an option with a value takes whatever follows; prefixes (+, 0x, spaces) of numbers may be accepted or not.',
  observe=['cmd_parse', 'cmd_convert_uint64_10'])
P('C36', 'Streams and datagrams are cut into complete messages, in order and once',
  '''Whatever pieces data comes in, each message is handed over exactly once, complete, in order and with exactly its bytes, as soon as all of it is there; what follows it is kept and used first. Data of several senders of
  datagrams is never mixed. Bytes to be skipped are skipped. Messages may extend until the connection is closed; otherwise a close within or without a message is an error unless the receiver
  has said that it may come now. Too much data, errors from reading, from the receiver and from recognising the size are reported and drop only the data of that sender; senders which are silent for half a minute are
  forgotten. Reading pauses above the rate limit, and all memory is released.''',
  ['histories', 'inputs'],
  'all ways of splitting data, all senders, errors and times',
  'the tests send whole messages over local connections',
  ['src/lib/read.c', 'src/lib/socket/rrr_socket_read.c'],
  [('reading', 'src/lib/read.c'), ('sockets', 'src/lib/socket/rrr_socket_read.c')],
  [dict(name='c36_read', sources=['targets/c36_read.cpp'], libs=['-Wl,--wrap=rrr_time_get_64'])],
  'Model of each sender; read function and clock replaced in one target, real sockets and pipes in the other. Taken as given: the maximum size applies to all data read, including messages which follow.',
  observe=['rrr_read_message_using_callbacks', 'rrr_socket_read_message_default'])
P('C28', 'The cacher stores messages and gives back the newest of the topic',
  '''Each message with a topic which is not a request is stored once in the message database, or deletes what is there if it is empty and configured to; a request yields the newest message of its topic from the memory
  cache while it has not expired, and otherwise asks the database exactly once and passes on what it answers. Messages, requests, others and revived messages are forwarded, unchanged and in order, exactly as
  configured and to the receivers configured for them; expired messages are dropped. Tidy and revive run at start, where due, and at every interval with the configured ages. Failures of the database lose nothing but
  the operation concerned.''',
  ['inputs', 'histories', 'schedules', 'faults'],
  'all configurations and histories of messages, requests, answers of the database and time',
  'the tests run a few fixed setups with one or two messages',
  ['src/modules/p_cacher.c', 'src/lib/msgdb_helper.c'],
  [('cacher', 'src/modules/p_cacher.c'), ('commands to the database', 'src/lib/msgdb_helper.c')],
  [dict(name='c28_cacher', sources=['targets/c28_cacher_t.cpp', 'targets/c28_glue.c', 'targets/c28_cacher.c', 'targets/c28_averager.c'], libs=['-Wl,--wrap=rrr_time_get_64'] + ['-Wl,--wrap=rrr_msgdb_client_' + x for x in ('conn_ensure_with_callback', 'send', 'cmd_idx', 'cmd_tidy', 'cmd_get', 'cmd_del', 'close')])],
  'The module runs with its real configuration on stand-ins for the thread, the queues, timers, clock and the message database, which answers late, in any order between connections, or not at all. Taken as given: the memory cache goes by the timestamp of the messages.',
  observe=[])
P('C33', 'The averager averages exactly the measurements within its timespan',
  '''At every interval, one message with the average, maximum and minimum of all measurements not older than the timespan, and the first and last of their timestamps, is written with the configured topic, and none
  if there are no measurements. Messages which are not measurements are passed on unchanged or discarded as configured; measurements are passed on, with the configured topic, if configured. Malformed
  messages have no effect.''',
  ['inputs', 'histories'],
  'all configurations and histories of messages and time',
  'the averager has no test which checks its results',
  ['src/modules/p_averager.c'],
  [('averager', 'src/modules/p_averager.c')],
  [dict(name='c33_averager', sources=['targets/c33_averager_t.cpp', 'targets/c28_glue.c', 'targets/c28_cacher.c', 'targets/c28_averager.c'], libs=['-Wl,--wrap=rrr_time_get_64'] + ['-Wl,--wrap=rrr_msgdb_client_' + x for x in ('conn_ensure_with_callback', 'send', 'cmd_idx', 'cmd_tidy', 'cmd_get', 'cmd_del', 'close')])],
  'The module runs with its real configuration on stand-ins for the thread, the queues, timers and clock. Taken as given: a measurement is an array with the 64 bit values measurement, timestamp_from and timestamp_to; the sum of measurements fits in 64 bits.',
  observe=[])
P('C18', 'ASD sessions deliver each message exactly once over any network',
  '''Every message accepted by a session for assured single delivery over UDP is delivered to the application of the other side exactly once, unchanged, whatever datagrams are lost, repeated, delayed,
  reordered or corrupted and however long the network is cut, once the network works for long enough. A client which starts again is served as well, and messages from before that are delivered at most once.
  Arbitrary frames from strangers have no effect on this and stop nothing.''',
  ['inputs', 'histories', 'schedules', 'faults'],
  'all histories of messages and faults of the network',
  'no test runs UDP streams over a network which loses anything',
  ['src/lib/udpstream/udpstream_asd.c', 'src/lib/udpstream/udpstream.c', 'src/modules/p_ipclient.c'],
  [('assured single delivery', 'src/lib/udpstream/udpstream_asd.c'), ('streams and frames', 'src/lib/udpstream/udpstream.c'), ('memory for received messages', 'src/modules/p_ipclient.c')],
  [dict(name='c18_udpstream', sources=['targets/c18_udpstream.cpp', 'targets/c18_ipclient.c'], libs=['-Wl,--wrap=' + x for x in ('rrr_time_get_64', 'rrr_rand', 'rrr_ip_network_start_udp', 'rrr_ip_network_cleanup', 'rrr_socket_client_collection_new', 'rrr_socket_client_collection_destroy', 'rrr_socket_client_collection_connected_fd_push', 'rrr_socket_client_collection_fd_close_notify_setup', 'rrr_socket_client_collection_event_setup_raw', 'rrr_socket_client_collection_sendto_push_const', 'rrr_event_collection_push_periodic', 'rrr_event_collection_clear', 'rrr_event_collection_init', 'rrr_event_dispatch_break', 'event_add', 'event_del', 'event_active', 'event_pending', 'getaddrinfo', 'freeaddrinfo')])],
  'Two or three sessions with their real timers on a virtual clock and a stand-in for sockets and events. Taken as given: the order of delivery is not kept; a session which starts again uses reset, does so when the network holds no frames, and its reset frame arrives before anything else (listed as a known finding); for long enough means that the network also keeps the order of frames, because a stream whose first frame is overtaken is started again; strangers do not forge the address and ids of others.',
  observe=[])
P('C37', 'MQTT clients get exactly the access the passwords and the ACL give them',
  '''A client is connected to the broker exactly if it gives a user and the right password of the password file (and that user has the permission asked for), or no user where that is allowed; refused clients get the reason, nothing
  they send is done, and the connection of another client with the same id goes on. Each filter of a SUBSCRIBE is accepted exactly if the ACL lets the user read it, with the code for it in its place, and only accepted filters give
  messages, retained ones included. A message reaches others, or is retained, exactly if the ACL lets the user who sent it write to its topic; the sender gets the reason or, if configured and with MQTT 3.1.1, is disconnected. The same
  holds for wills: a connection with a will which may not be published is refused.''',
  ['inputs', 'histories'],
  'all ACL and password files, clients and histories',
  'the tests use one user with full access',
  ['src/lib/mqtt/mqtt_broker.c', 'src/lib/mqtt/mqtt_common.c', 'src/lib/mqtt/mqtt_acl.c'],
  [('authentication and the ACL handler', 'src/lib/mqtt/mqtt_broker.c'), ('messages which are denied', 'src/lib/mqtt/mqtt_common.c')],
  [dict(name='c37_access', sources=['targets/c37_access.cpp', 'targets/c12_glue.c'], libs=['-Wl,--wrap=rrr_time_get_64', '-Wl,--wrap=PKCS5_PBKDF2_HMAC', '-lcrypto'])],
  'The clients and the model of C12, with an ACL, a password file and settings which are generated; an observer who may do everything receives what the others publish. Taken as given: a client id belongs to one user, sessions do not outlive connections here, topics which start with $ are not used (C11 and C26 cover the files).',
  observe=[])
