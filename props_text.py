SRV = "src/server/"
LIB = "src/lib/"
p("C01", "Tag data integrity: reads return exactly what was last written",
  "A successful read of any byte range of a tag returns, bit for bit, the result of all earlier successful writes and masked writes by any client to that tag (zero where nothing was ever written, including the new part of a tag that was enlarged). A write changes exactly the bytes it names, and a masked write exactly the bits selected by its mask, and neither changes any other part of that tag or any other tag. A read or write that reaches outside the tag, or names a tag that does not exist or was deleted, is refused with an error and changes nothing.",
  ["histories", "inputs"], "every sequence of add/write/masked write/read/delete requests by any set of clients, every tag type and size, every offset, size and mask",
  "Tests write a handful of tags once and read them back; they never interleave many tags, enlargements, masks and refused accesses and compare the whole database afterwards.",
  [SRV+"tagbase.c", SRV+"message.c", LIB+"libmsg.c"],
  [("tag_read / tag_write / tag_mask_write bounds checks and copies", SRV+"tagbase.c"), ("request decoding", SRV+"message.c")],
  [{"name": "_db[]", "meaning": "tag array", "where": SRV+"tagbase.c"}], ["dax_read", "dax_write", "dax_mask", "wire protocol"])
p("C02", "Tag identity: names and indexes denote one tag for the server's lifetime",
  "Adding a tag with a new legal name yields an index never given to another tag before; adding an existing name with the same type returns the existing tag (enlarged, contents preserved, if more elements are asked for, except for queues, where that is refused) and with another type is refused without effect. Looking a tag up by name and by index always agree on name, type, element count and index, and find exactly the tags that were added and not deleted. A deleted tag's index stays dead for ever, its name becomes free, and illegal names, unknown types, zero counts and reserved names are refused.",
  ["histories", "inputs"], "every history of add/enlarge/delete/re-add/lookup over any number of tags, any order of names, past every internal capacity",
  "Tests add tags in a few fixed orders; the sorted name index, its growth and deletion at every position, and re-add after delete have to be right for every order and size.",
  [SRV+"tagbase.c", SRV+"message.c"],
  [("tag_add, tag_del, _add_index, _del_index, _get_by_name, _database_grow", SRV+"tagbase.c")],
  None, ["dax_tag_add", "dax_tag_byname", "dax_tag_byindex", "dax_tag_del"])
p("C03", "System status tags always describe the live database",
  "At every moment the status tags that publish the number of tags, the highest index handed out, the database capacity, the most recently added and deleted tag, the last registered module and the number of installed and active overrides equal the true values. No client write, masked write, group write, atomic operation, mapping or deletion can alter or remove them.",
  ["histories"], "every history of tag, module and override operations by any clients, including refused ones",
  "Tests look at one or two status tags after one operation; drift only shows after particular combinations (deleting an overridden tag, database growth, refused operations, disconnects).",
  [SRV+"tagbase.c", SRV+"module.c", SRV+"message.c"],
  [("status tag updates", SRV+"tagbase.c"), ("read-only attribute checks", SRV+"tagbase.c"), ("_lastmodule update", SRV+"module.c")])
p("C04", "Compound data types have one fixed, non-overlapping layout for everyone",
  "Creating a compound type from a legal definition succeeds once and every client that asks for it by name or number afterwards gets the same members with the same types and counts in the same order; re-creating it identically returns the same type and re-defining it differently is refused. A tag of such a type occupies exactly the bytes its members need: members follow in order, consecutive bits packed, everything else byte aligned, for every nesting and array. Illegal definitions are refused and change nothing.",
  ["inputs", "histories"], "every legal and illegal definition, nesting, array size and order of creation, any number of types",
  "Tests define a few fixed types; layout, nesting and refusal must be right for every combination of members.",
  [SRV+"tagbase.c", LIB+"libcdt.c"],
  [("cdt_create / serialize_datatype / type_size", SRV+"tagbase.c"), ("dax_cdt_create, type cache", LIB+"libcdt.c")])
p("C05", "Symbolic addresses select exactly the named part of a tag",
  "For every tag and every address made of its name, member names, array subscripts and bit subscripts, resolving the address yields exactly the location, element count, size and type of that part, and reading or writing through it affects exactly that part and nothing else. Addresses that name no existing part (unknown names or members, subscripts or counts out of range, malformed text) are refused.",
  ["inputs", "configurations"], "every type structure, nesting depth, subscript, bit position and count",
  "Tests check a fixed table of addresses over a fixed set of tags.",
  [LIB+"libcdt.c", LIB+"libdata.c"],
  [("dax_tag_handle, _parse_next_member", LIB+"libcdt.c"), ("dax_tag_read / dax_tag_write / dax_tag_mask", LIB+"libdata.c")])
p("C06", "Events fire exactly when their condition becomes true",
  "After every successful write, masked write, group write, atomic operation or propagated mapping to a tag, each subscription on that tag whose watched bytes were touched is notified if and only if its condition (written, changed, bit set, bit reset, equal, greater, less, moved by the deadband, tag deleted) is met, evaluated in the exact arithmetic of the data type. Edge conditions (bit set, bit reset, equal, greater, less) start out as not met and notify once each time they become met, and a deadband notifies once per excursion measured from the last notified value. No other operation produces a notification.",
  ["histories", "inputs"], "every event type, data type, watched range, value pair and history of writes",
  "Tests use a few values per event type; sign, width, edge and re-arm behaviour and partial overlaps need every combination.",
  [SRV+"events.c"],
  [("event_check, event_hit and the per-type tests", SRV+"events.c")])
p("C07", "Event notifications reach the right subscriber, complete and in order",
  "Each notification is delivered to the connection that subscribed and to no other, carries that subscription's identity and, when asked for, exactly the watched data as of the triggering write, and notifications arrive in the order of the writes that caused them. After a subscription is deleted, its tag is deleted, or its owner disconnects, it never notifies again, other subscriptions are unaffected, and asking about it or deleting it again reports that it does not exist.",
  ["histories", "schedules"], "every history of subscribe/option/unsubscribe/disconnect/write over several clients, subscriptions per tag and orders of removal",
  "Tests use one subscriber and a few events; list manipulation with several clients and removals in every position is not sampled.",
  [SRV+"events.c", SRV+"message.c", LIB+"libevent.c", LIB+"libmsg.c"],
  [("event_add, event_del, events_cleanup, event_opt", SRV+"events.c"), ("push_event/pop_event, dispatch", LIB+"libevent.c, "+LIB+"libmsg.c")])
p("C08", "Mappings copy the source into the destination on every source write",
  "While a mapping exists, every successful client write, masked write, group write or atomic operation that touches the mapped source part leaves the destination part equal to the source part, bit for bit and for any bit alignment, changing no other bit, unless the destination has become read-only; the copying goes one step and does not cascade, and writes elsewhere and reads change nothing. Deleting the mapping, or either tag, stops the copying and affects no other mapping. Mappings that do not fit, or name missing tags or parts, are refused.",
  ["histories", "inputs"], "every set of mappings (several per source, chains, bits and bytes, compound parts) and every history of writes, deletions and re-creations",
  "Tests install one or two mappings and write once; deletion in every list position and unaligned bit copies are not covered.",
  [SRV+"mapping.c", SRV+"message.c"],
  [("map_add, map_del, map_check", SRV+"mapping.c")])
p("C09", "Queue tags are lossless first-in first-out",
  "Every element successfully written to a queue tag is returned exactly once, unchanged, by the reads that follow, in the order the writes happened, whoever wrote or read; a read of an empty queue reports emptiness and removes nothing. This holds for any number of queued elements, any interleaving of writers and readers, and any number of queues, which never affect each other. Writes that are not exactly one whole element are refused and leave the queue unchanged.",
  ["histories", "schedules"], "every interleaving of writes and reads, through every internal growth and wrap-around position",
  "Tests push a fixed number and pop them; growth at every read/write position is only reached by long mixed histories.",
  [SRV+"virtualtag.c", SRV+"tagbase.c"],
  [("write_queue / read_queue ring buffer and growth", SRV+"virtualtag.c"), ("_queue_add", SRV+"tagbase.c")])
p("C10", "Tag groups move exactly their members' data",
  "Reading a group returns the concatenation of its members' current data in order, and writing a group has exactly the effect of writing each member's part with its slice, in order and up to the first one that is refused, with the same permission checks, notifications and mappings and no other effect; bits outside a bit member are preserved. A group belongs to the connection that made it, its number is never confused with another live group, and it is unusable after deletion or disconnection. Groups that are too large or name missing tags or parts are refused.",
  ["histories", "inputs"], "every member list (types, offsets, bits, overlaps), and every history of group creation, use, deletion and member tag deletion by several clients",
  "Tests read and write a few groups once; slot reuse, several clients and invalid members are not covered.",
  [SRV+"groups.c", SRV+"message.c", LIB+"libmsg.c"],
  [("group_add, group_del, group_read, group_write", SRV+"groups.c")])
p("C11", "Atomic operations compute the exact result in one indivisible step",
  "An increment, decrement, complement, or bitwise or/and/nor/nand/xor/xnor on any part of a tag replaces exactly that part by the mathematically defined result in the data type's own arithmetic (wrapping for integers), element by element or bit by bit, and changes nothing else. It behaves like a write for notifications, mappings and permissions. Operations that do not apply to the type or reach outside the tag are refused without effect.",
  ["inputs", "histories"], "every operation, data type, offset, bit position, count, operand and prior value",
  "Tests use aligned parts and a few operands; unaligned bits, non-zero offsets, several elements and extreme values are the rule in use.",
  [SRV+"atomic.c", SRV+"message.c"],
  [("atomic_op and per-operation functions", SRV+"atomic.c")])
p("C12", "Overrides substitute what is read and never touch the real value",
  "While an override is active on a tag, reads return the override's bits where it is installed and the real bits everywhere else; writes keep updating the real value, which is what reads return, complete, as soon as the override is switched off or removed. Installing, altering or removing part of an override affects exactly the bits named, and asking about an override returns the real value together with exactly the bits that are covered. Override requests outside the tag, or on tags without one, are refused without effect.",
  ["histories", "inputs"], "every history of install/extend/remove/switch/write/read on every tag type and part",
  "Tests install one override over a whole tag; partial, repeated and out-of-range use is not covered.",
  [SRV+"tagbase.c", SRV+"message.c", LIB+"libmsg.c"],
  [("override_add/del/get/set and tag_read masking", SRV+"tagbase.c")])
p("C13", "Only those entitled can change protected tags",
  "A read-only tag owned by a connection can be changed only by that connection, and system tags by no client, whichever request is used (write, masked write, group write, atomic operation, mapping, deletion or re-adding). A tag owned by a connection cannot be taken over by another, and disappears when, and only when, its owner's connection ends. A refused change leaves data, subscribers and attributes as they were.",
  ["histories", "schedules"], "every combination of owner, other clients, request kind and order of connect/disconnect, including reuse of connection slots",
  "Tests try one kind of write from one other client.",
  [SRV+"tagbase.c", SRV+"message.c", SRV+"module.c", SRV+"groups.c", SRV+"atomic.c"],
  [("is_tag_readonly / ownership checks", SRV+"tagbase.c"), ("tag_del_owned on disconnect", SRV+"tagbase.c, "+SRV+"module.c")])
p("C14", "Module status tags follow the life of each connection",
  "Each registered client gets exactly one status tag with a unique name derived from its own, carrying its start time, identity and running state, and the client can learn that name from the server; the tag goes away when the connection ends for any reason, together with the client's groups, subscriptions and owned tags and nothing else. Only the module itself can change its own state fields, nobody can change its identity fields, and anybody can change its command bits. Names that cannot be used, or are excluded by configuration, still leave the client fully connected and the database intact.",
  ["histories", "schedules", "configurations"], "every sequence of connects, registrations under equal/different/odd names, disconnects and crashes of clients",
  "Tests register a couple of modules in a fixed order.",
  [SRV+"module.c", SRV+"virtualtag.c", SRV+"message.c"],
  [("module_register / module_unregister", SRV+"module.c"), ("module tag write rules", SRV+"virtualtag.c")])
p("C15", "Retained tags survive any restart or crash with their last value",
  "After the server ends, for whatever reason and at whatever point, the next start recreates every retained tag with its name, type, compound type definition, size and the value of the last acknowledged write to it; this holds over any number of successive restarts, whether or not a client touches the tag in between. A retained tag that was deleted does not come back. Tags that were not retained do not reappear.",
  ["crash_points", "histories"], "every history of add/write/enlarge/delete/restart and every kill point after an acknowledged request",
  "Tests do one stop and start with a few base types.",
  [SRV+"retain.c", SRV+"tagbase.c", SRV+"server.c"],
  [("ret_init, ret_add_tag, ret_tag_write, ret_del_tag", SRV+"retain.c")])
p("C16", "No client input or failure can harm the server or other clients",
  "Whatever bytes a client sends (split or merged in any way, truncated, oversized, unknown or inconsistent requests, out-of-range arguments) and whenever it vanishes, the server keeps running, never leaks memory contents it should not, and keeps answering all other clients correctly. Every well-formed request gets exactly one answer, in order, however its bytes were fragmented on the wire, and a malformed one changes nothing in the database.",
  ["inputs", "fault_sequences", "schedules"], "every byte stream, fragmentation, request content and disconnect point",
  "Tests only send well-formed requests through the library.",
  [SRV+"buffer.c", SRV+"message.c", SRV+"tagbase.c", SRV+"groups.c", SRV+"events.c", SRV+"mapping.c"],
  [("buff_read framing", SRV+"buffer.c"), ("msg_dispatcher and per-message argument checks", SRV+"message.c")])
p("C17", "The client library gives the server's answers and acts on the tags its handles name",
  "Every call of the client library does to the database exactly what the request it stands for does, and returns the server's verdict and data for that call: additions, enlargements, deletions, reads, writes, masks, atomic operations, overrides, groups, mappings and subscriptions act on the tag, bytes and bits their handle or index names, however the sizes divide into messages, and an element that fits no message is refused without any effect. A lookup by name or index gives the current definition of the tag, except that a definition this client itself learnt before may be given until its own operation changes or deletes that tag or an access through it is refused because the tag is gone; a tag or address that the server does not know and the client never saw is refused. An error leaves the connection usable.",
  ["histories", "inputs"], "every history of operations by two or more library clients, every transfer size and name length",
  "Tests mostly use one client that never sees a stale tag definition, and transfers of a few sizes.",
  [LIB+"libmsg.c", LIB+"libdata.c", LIB+"libcdt.c", LIB+"libfunc.c"],
  [("tag cache", LIB+"libdata.c"), ("message building and splitting", LIB+"libmsg.c")])
p("C18", "Concurrent use by many clients and threads behaves like some serial order",
  "When any number of clients, and any number of threads sharing one connection, issue requests at the same time, every call returns and all results together equal those of some one-at-a-time order consistent with each caller's own order. No call receives another call's answer, no notification is lost or duplicated below the documented buffer limit, and when the buffer overflows the newest notifications are the ones kept.",
  ["schedules"], "every interleaving of several clients and several threads of one client",
  "Tests are single-threaded per client and almost always sequential.",
  [LIB+"libmsg.c", LIB+"libevent.c", SRV+"message.c"],
  [("connection lock, receive thread and response slot", LIB+"libmsg.c"), ("event FIFO", LIB+"libevent.c")])
p("C19", "Values and their text form convert exactly",
  "For every base type, converting a value to text and back yields the same value, wherever in an array the value is. Converting the text of a number (decimal, octal or hexadecimal) or of a date (a time stamp) to a value yields exactly that value, or the floating point value nearest to it; a number that does not fit an integer type gives the limit of the type and is reported as overflow or underflow. Only the element named is changed, the optional mask marks exactly that element, and no more than the given room is used for a text. Several threads may convert at the same time. Type names and type numbers convert into each other for every base and compound type, and so do the names and numbers of the kinds of events.",
  ["inputs"], "every type, value, text, element position",
  "Tests convert a table of values.",
  [LIB+"libfunc.c", LIB+"libcdt.c", LIB+"libevent.c"],
  [("dax_val_to_string / dax_string_to_val", LIB+"libfunc.c"), ("dax_string_to_type / dax_type_to_string", LIB+"libcdt.c"), ("dax_event_string_to_type / dax_event_type_to_string", LIB+"libevent.c")])
MB = "src/modules/modbus/"
p("C20", "Modbus server: registers and coils are the tags they stand for",
  "Every Modbus/TCP request to a server port of the Modbus module has the effect and the answer that the current values of the tags configured for its unit give. Reads return exactly the addressed coils, inputs or registers as the tags show them at that moment (overrides included); writes change exactly the addressed elements of the tags, with all the consequences a tag write has for other clients (events, mappings), and only what was written is acknowledged. A unit that is not configured is served by unit 0 if there is one and gets no answer otherwise; functions without a table, addresses outside of it, impossible quantities or too little data, and tags that cannot be read or written are answered with the exceptions 1, 2, 3 and 4 and change nothing. The callbacks are told unit, function, register and quantity and decide which requests are turned down. However requests are split, however many connections there are, whatever they send and however they end, other connections are served.",
  ["histories", "inputs"], "every sequence of requests on any connections in any pieces, mixed with any use of the tags by other clients, for every configuration of ports, units, tables and callbacks",
  "Tests send a few well formed requests on one connection to one unit with fixed tables.",
  [MB+"modbus.c", MB+"mbserver.c", MB+"database.c", MB+"modmain.c", MB+"modopt.c"],
  [("create_response, _read_bits_response, _read_words_response", MB+"modbus.c"), ("_mb_read, connections and their buffers", MB+"mbserver.c"), ("slave_read_database / slave_write_database", MB+"database.c")])
p("C21", "Lua scripts see and change exactly the tags' values",
  "What a script of the Lua package reads from a tag, a part of one or a queue is the value of its data type without loss: an integer (unsigned 64 bit numbers in two's complement), a float, a boolean, a string for characters, and a table by index or member name for arrays and compound values. What it writes changes exactly the elements and members it gives, converted as the type demands (integers and fractions wrap or truncate to the type, strings fill characters or bits from the start), and nothing else; a value of a wrong kind changes nothing. Tags and handles show the right fields, and adding, deleting, creating types, atomic operations, overrides, mappings and subscriptions do what the same request of the client library does; each notification of a subscription calls its function with its user data once, wherever in the script the function was given. A call that makes no sense, or is made without a connection, raises a Lua error that the script can catch, has no effect, and harms neither the interpreter nor later calls; a script can end its connection and start another.",
  ["inputs", "histories"], "every value and every kind of Lua argument for every data type, count and part of a tag, in every history of calls mixed with those of other clients",
  "Tests write and read a few small values and call the functions with proper arguments.",
  ["src/lib/lua/libdaxlua.c", LIB+"libopt.c", "src/lib/logger/daxlog.c"],
  [("daxlua_tag_read / _send_tag_to_lua, _write_to_tag", "src/lib/lua/libdaxlua.c"), ("daxlua_register_function, _event_add and the event callback", "src/lib/lua/libdaxlua.c"), ("_tag_handle and the handle's metatable", "src/lib/lua/libdaxlua.c")])
