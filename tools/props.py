"""The properties (single source for properties.jsonl and MANIFEST.json, see gen.py)."""
C = 'middleware/common/'
PROVED = 'Every obligation is discharged for all inputs with no bound on sizes below 2^30..2^32. '
TRUST = 'Trusted: clang front end, IR semantics in engine/, z3, models of libstdc++/libc in lib/, allocation never fails, one thread.'
PROPS = [
 dict(id='C01', title='Network byte order conversion is lossless and big-endian for every value',
  statement='Every integer and floating point value that is converted to network representation and back is the same value, bit for bit. The network representation of an integer is its big-endian two\'s complement, of a fixed width that does not depend on the host.',
  over=['inputs'], forall='every value of every convertible type (8 to 64 bit integers, bool, char, float, double, enums)',
  why='The tests convert a handful of values per type; the guarantee is needed for every bit pattern, including NaN payloads and negative values.',
  files=[C+'include/common/network/byteorder.h', C+'source/network/byteorder.cpp'],
  mechanism=[('encode/decode per width', C+'source/network/byteorder.cpp'), ('type dispatch and width selection', C+'include/common/network/byteorder.h')],
  level='proof', note='All obligations discharged for every bit pattern. '+TRUST),
 dict(id='C02', title='Ordered buffers return every added value in order and never touch foreign memory',
  statement='Values added to an ordered buffer are read back in the same order and with the same type and value, whatever the buffer held before and however it has to grow. Reading past what was added, or from a received buffer with any content, is refused and never reads outside the buffer.',
  over=['inputs', 'histories'], forall='any buffer content and size (also received, malformed), any cursor position, any value and size added or read',
  why='Tests add and get a few fixed values in fresh buffers; malformed received content and sizes near the limits are never sampled.',
  files=['middleware/buffer/source/order.cpp', 'middleware/buffer/include/casual/buffer/order.h'],
  mechanism=[('bounds check before every read', 'middleware/buffer/source/order.cpp'), ('growth before every write', 'middleware/buffer/source/order.cpp')],
  level='proof', note='One operation from an arbitrary buffer state, so any history by induction. '+PROVED+TRUST),
 dict(id='C03', title='Field buffers keep exactly the fields that were added, updated and removed',
  statement='A field buffer returns for each field identity and occurrence exactly the value that was added or last set, removing or updating one occurrence leaves all other fields and their relative order unchanged, and copying or sending the buffer preserves all of it. A received field buffer with any content is either accepted with every field inside the payload or refused, and no operation reads or writes outside the buffer.',
  over=['inputs', 'histories'], forall='any field identities, types, occurrences, values and sizes; any received content',
  why='Tests use a few fields with fixed values; overflow of size fields, malformed received content and interactions between occurrences are not sampled.',
  files=['middleware/buffer/source/field.cpp', 'middleware/buffer/include/casual/buffer/field.h'],
  mechanism=[('field index built and validated from content', 'middleware/buffer/source/field.cpp'), ('remove/update shift of the index', 'middleware/buffer/source/field.cpp')],
  level='other', note='Bounded stand-in: every obligation is discharged symbolically, but for at most 2 fields in the buffer (3 in the thorough tier), received payloads below 48 bytes and values below 4096 bytes. '+TRUST),
 dict(id='C04', title='String and octet buffers return exactly what was stored, at any size',
  statement='A string or octet buffer returns exactly the bytes last stored in it, resizing keeps the content that fits and a string always stays terminated inside the buffer. What is sent is exactly the string with its terminator, or all octets, and an unterminated string, received or local, is refused without reading outside the buffer.',
  over=['inputs', 'histories'], forall='any content, size and earlier state of the buffer; any user supplied size',
  why='Tests store short literals; the sizes at which growth and truncation happen and unterminated content are not enumerated.',
  files=['middleware/buffer/source/string.cpp', 'middleware/buffer/source/octet.cpp'],
  mechanism=[('string set/get/validate', 'middleware/buffer/source/string.cpp'), ('octet set/get', 'middleware/buffer/source/octet.cpp')],
  level='proof', note='One operation from an arbitrary buffer state. '+PROVED+TRUST),
 dict(id='C05', title='Buffers are owned by exactly one holder and are never sent beyond their size',
  statement='Every allocated, received or resized buffer has its own memory, an operation on one buffer leaves all others unchanged, and a buffer that is freed or handed over can not be used again, while the buffer a service was invoked with survives free until the invocation ends. A send takes exactly the user supplied part, never more than the buffer, and an unknown handle or type is refused.',
  over=['inputs', 'histories'], forall='any set of live buffers, any operation, any handle and any user supplied size',
  why='Tests run a few linear sequences with one or two buffers and valid sizes; aliasing, unknown handles and negative or oversized requests are not covered for every state.',
  files=[C+'include/common/buffer/pool.h', C+'source/buffer/pool.cpp', C+'source/buffer/type.cpp', 'middleware/xatmi/source/xatmi/explicit/buffer.cpp'],
  mechanism=[('buffer pool', C+'include/common/buffer/pool.h'), ('transport size check', C+'source/buffer/type.cpp')],
  level='other', note='Bounded stand-in: the obligations are discharged symbolically from any pool of at most 2 live buffers of less than 4096 bytes (requested sizes are unbounded); null handles and unknown types are proved without bound. '+TRUST),
 dict(id='C06', title='A message that is serialized is received with every field unchanged',
  statement='A message that is serialized to another process and deserialized there has every field equal to the one that was sent. A message that is serialized to another domain has exactly the bytes, in the order and network representation, that the interdomain protocol documents, and those bytes are received as the same message; a truncated message is refused.',
  over=['inputs'], forall='every value of every field, every size of strings, binaries and sequences, for every message of calls, conversations, transactions, queues and discovery',
  why='Tests serialize a few messages with default or fixed fields; a field that is not sent, sent in another order or width, or lost for certain values goes unnoticed.',
  files=[C+'include/common/serialize/native/binary.h', C+'include/common/serialize/native/network.h', C+'include/common/serialize/native/complete.h', C+'include/common/serialize/value.h', C+'include/common/message/service.h', C+'include/common/message/transaction.h', C+'include/common/message/conversation.h', 'middleware/gateway/include/gateway/message.h'],
  mechanism=[('fields of a message', C+'include/common/message/service.h'), ('native archive', C+'include/common/serialize/native/binary.h'), ('network archive', C+'include/common/serialize/native/network.h'), ('domain messages', 'middleware/gateway/include/gateway/message.h')],
  level='other', note='Single values of any size are proved for both archives; whole messages are bounded (arbitrary fields, strings and binaries of at most 40 bytes, at most 2 elements in a sequence). '+TRUST),
 dict(id='C07', title='Transaction ids are compared, ordered, branched and sent without losing identity',
  statement='Two transaction ids are equal exactly when format, global and branch parts are equal, and the order of ids is a strict total order consistent with that. A new branch keeps the whole global part and gets a branch part of its own, an id matches exactly its own global id, and an id or global id that is moved, sent and received, written as text and read back, is the same id.',
  over=['inputs'], forall='every XID with global and branch parts of 0 to 64 bytes, owned or not; every content the receiver held before',
  why='Tests use generated 16 byte parts; the sizes up to 64 and ids from foreign transaction managers are not sampled.',
  files=[C+'include/common/transaction/id.h', C+'source/transaction/id.cpp', C+'source/transaction/global.cpp', C+'include/common/transaction/global.h'],
  mechanism=[('xid comparison and order', C+'source/transaction/id.cpp'), ('global id', C+'source/transaction/global.cpp')],
  level='proof', note='Discharged for every xid; only the text form and the hash are bounded (a few sizes with one arbitrary byte). '+TRUST),
 dict(id='C08', title='Outcome codes of several resources combine to the most severe',
  statement='Combining outcome codes (XA, TX, and XA to TX) gives the most severe of them, whatever the order they arrive in, a success never hides a failure, and combining twice changes nothing. When a resource outcome is reported to the application, only success is reported as success, a heuristic or mixed outcome as mixed, an unknown outcome as hazard, and a failed resource as failure.',
  over=['inputs', 'histories'], forall='every code and every pair and triple of codes',
  why='Tests check a few pairs; the order of replies from resources is arbitrary.',
  files=[C+'source/code/xa.cpp', C+'source/code/tx.cpp', C+'include/common/code/tx.h', C+'include/common/code/xa.h'],
  mechanism=[('severity of xa codes', C+'source/code/xa.cpp'), ('tx aggregate', C+'source/code/tx.cpp'), ('conversion', C+'source/code/convert.cpp')],
  level='proof', note='Discharged for every combination of codes. Two different no_begin aggregates are excluded by assumption (never combined by the code). '+TRUST),
 dict(id='C09', title='A transaction commits only if all resources voted for it, and reports the truth',
  statement='A global transaction is committed only if every involved resource voted for commit, otherwise every resource is rolled back, and the decision is durable before anyone is told. The outcome is reported exactly once, to the one that asked, and is success only if every resource carried out the decision; a resource that fails or can not be reached is never taken for one that agreed, and transactions do not affect each other.',
  over=['inputs', 'schedules', 'histories'], forall='every vote and outcome code of the resources, in every order of replies, for requests from the application and from other domains',
  why='Tests run a few votes in one order; the combination of votes, order of replies, busy and lost instances and requests from other domains is not enumerated.',
  files=['middleware/transaction/source/manager/handle.cpp', 'middleware/transaction/source/manager/state.cpp', C+'include/common/message/coordinate.h'],
  mechanism=[('prepare/commit/rollback coordination', 'middleware/transaction/source/manager/handle.cpp'), ('branches and instances', 'middleware/transaction/source/manager/state.cpp')],
  level='other', note='Bounded stand-in: the real message handlers are driven with one to three resources with one instance each, and one or two transactions; votes and outcomes are any code where the entry says so. The database log, ipc and clock are assumed contracts. '+TRUST),
 dict(id='C10', title='A coordinated fan-out is reported exactly once, when all have answered',
  statement='A request that is fanned out to several receivers is completed exactly once, after every receiver has answered or is known to be gone, with exactly the answers that came, attributed to the ones that gave them. Answers that belong to no outstanding request change nothing, and coordinations do not affect each other.',
  over=['histories', 'schedules'], forall='every order of replies, failures and registrations, over the entries in flight',
  why='The unit tests complete a few pending entries in one order; replies, lost processes and nested coordinations interleave freely.',
  files=[C+'include/common/message/coordinate.h'],
  mechanism=[('fan::Out and minimal::fan::Out', C+'include/common/message/coordinate.h')],
  level='other', note='Bounded stand-in: histories of up to four events over at most three entries with two pending each. '+TRUST),
 dict(id='C11', title='Messages arrive whole, unchanged and in order, or the sender is told',
  statement='A message sent to another process or domain arrives once, with the same type, correlation, execution and payload, whatever pieces the transport delivers it in and whatever other messages are interleaved with it. A lost or broken connection is reported as such and never as a message, and a received message is handed out by what was asked for, in the order it arrived.',
  over=['inputs', 'schedules', 'faults'], forall='every payload, every split of it by the kernel, every errno',
  why='Local sockets deliver messages whole in tests; partial reads and writes, interleaved senders and errors are left to chance.',
  files=[C+'source/communication/tcp.cpp', C+'source/communication/tcp/message.cpp', C+'source/communication/ipc/message.cpp', C+'source/communication/ipc.cpp', C+'source/communication/ipc/send.cpp', C+'include/common/communication/device.h'],
  mechanism=[('tcp send/receive', C+'source/communication/tcp.cpp'), ('ipc chunks', C+'source/communication/ipc/message.cpp'), ('inbound device', C+'include/common/communication/device.h')],
  level='other', note='TCP header, send and receive are proved for every payload size and split; ipc chunking, the sender queue and the inbound device are bounded (up to three chunks, three messages, two senders). System calls are assumed contracts. '+TRUST),
 dict(id='C12', title='Domains that speak an older protocol version are understood and understand',
  statement='A message type is used with another domain exactly if it is documented for the protocol version that domain speaks. A call, reply, conversation, queue request or discovery that is transformed to, or from, the form of an older version keeps its identity and all it means: the service, the transaction, the payload, the outcome, the deadline and the direction of a conversation.',
  over=['inputs'], forall='every version, and every value of every field of the messages that have an older form',
  why='Tests transform a few messages one way; the meaning of every code, flag and absent value in the older form is not sampled.',
  files=['middleware/gateway/include/gateway/message/protocol.h', 'middleware/gateway/include/gateway/message/protocol/transform.h', 'middleware/gateway/include/gateway/message.h'],
  mechanism=[('versions of a message', 'middleware/gateway/include/gateway/message/protocol.h'), ('transformation', 'middleware/gateway/include/gateway/message/protocol/transform.h')],
  level='other', note='The version table is proved for every version; transformations are bounded (arbitrary fields, strings and binaries of at most 40 bytes, at most 2 elements in a sequence). A deadline that is already exceeded is excluded by assumption. '+TRUST),
 dict(id='C13', title='A service lookup is answered once, with a free instance, first come first served',
  statement='A lookup of a service is answered exactly once: with an instance that is alive, has the service and is not used or reserved by anyone else, or with absent only if no one has the service, or with timeout when its deadline is passed. No one waits for an instance that is idle, and the one that has waited the longest is served first; a lookup that is discarded, or whose caller is gone, frees the instance for the next; a caller whose instance dies, or does not answer in time, gets that outcome once, and an instance that is to be shut down or killed is not used, and the one that ordered the shutdown is told when it is done; local instances are used before those in other domains, which are used in the order of their priority; a request from another domain is never sent on to other domains without discovery.',
  over=['histories', 'schedules', 'faults'], forall='every history of lookups, advertisements, acknowledgements, discards, timeouts, shutdowns, lost callers and dying instances',
  why='Tests run a few histories in one order; lookups, dying servers, lost callers and timeouts interleave freely.',
  files=['middleware/service/source/manager/handle.cpp', 'middleware/service/source/manager/state.cpp', 'middleware/service/include/service/manager/state.h'],
  mechanism=[('lookup, ack, discard, timeout and shutdown handlers', 'middleware/service/source/manager/handle.cpp'), ('instances, services and deadlines', 'middleware/service/source/manager/state.cpp')],
  level='other', note='Bounded stand-in: the real message handlers are driven through every history of three to five events with at most two instances and three lookups; deadlines are arbitrary times. Ipc, the clock and the random choice are assumed contracts. '+TRUST),
 dict(id='C14', title='Work is done in the current transaction only, and its owner alone decides it',
  statement='Resources do their work for the transaction the application (or service) is in and for no other: begin, commit, rollback, suspend and resume start, end, suspend and resume the work of every resource, in any order they are used, chained or stacked, and if a resource fails to, the application is where it was and is told. Only the one that started a transaction decides it: commit reports success only if every resource carried out the commit, and a transaction that is marked as rollback only, timed out, or that has outstanding calls is never committed. When a service returns, no work goes on, a transaction it started is decided, one it joined is left to its owner, and the caller is told the truth about the state of the transaction.',
  over=['histories', 'faults', 'inputs'], forall='every history of begin, commit, rollback, suspend, resume and service invocation, with resources failing at any point',
  why='Tests run a few histories with resources that never fail; stacked and suspended transactions with failing resources are hardly sampled.',
  files=['middleware/common/source/transaction/context.cpp', 'middleware/common/source/transaction/transaction.cpp', 'middleware/common/source/transaction/resource.cpp'],
  mechanism=[('begin, commit, rollback, suspend, resume, join, finalize', 'middleware/common/source/transaction/context.cpp'), ('calls to a resource manager', 'middleware/common/source/transaction/resource.cpp')],
  level='other', note='Bounded stand-in: the real context and resource proxies against XA resource managers that check the association rules of the XA specification, for every history of at most 4 operations with at most 2 resources. The answers of the transaction manager are assumed. '+TRUST),
 dict(id='C15', title='A reply is the one to that very call, once, and failed calls leave nothing',
  statement='Every outstanding call has a descriptor of its own, and the reply for a descriptor is the reply to that call, with the outcome, user code and buffer the service returned, in whatever order replies arrive, and it is delivered once; a canceled call, or a reply that comes too late, is never taken for another. A call takes part in the transaction of the caller exactly if it is asked to, such a call can not be canceled and the transaction waits for its reply; during a synchronous call the work of the caller is suspended and always resumed, and the deadline of the caller follows the call. A call that could not be made leaves nothing behind: no descriptor, no reserved instance, no dependency of the transaction.',
  over=['histories', 'schedules', 'faults'], forall='every history of calls, replies, cancels and failures, with replies in any order',
  why='Tests call a few services that answer at once; orders of replies, late replies and failing calls are not sampled.',
  files=['middleware/common/source/service/call/context.cpp', 'middleware/common/source/service/call/state.cpp', 'middleware/common/source/service/lookup.cpp', 'middleware/common/include/common/communication/device.h'],
  mechanism=[('call, reply and cancel', 'middleware/common/source/service/call/context.cpp'), ('descriptors', 'middleware/common/source/service/call/state.cpp'), ('lookup', 'middleware/common/source/service/lookup.cpp')],
  level='other', note='Bounded stand-in: the real call context, transaction context and inbound device against a service manager and servers that answer in every order, for histories of at most 3 outstanding calls and 3 operations (12 calls for the uniqueness of descriptors). '+TRUST),
 dict(id='C16', title='A conversation has one in control, and both sides learn how it ended',
  statement='In a conversation exactly one side is in control, only that side can send, what it sends is received in order and unchanged, and control is given exactly when it is asked for. When a conversation ends, by return, failure or death of the service or by disconnect, the other side is told exactly how, once, the descriptor is gone, and other conversations are unaffected. A transaction waits for the conversations that take part in it and is not committed unless they ended well, and a conversation that could not be connected leaves nothing behind.',
  over=['histories', 'schedules', 'faults'], forall='every history of sends, receives and disconnects on both sides, with the other side acting at any time',
  why='Tests run a few scripted conversations; an end that arrives at an unexpected time, or a failing connect in a transaction, is not sampled.',
  files=['middleware/common/source/service/conversation/context.cpp', 'middleware/common/include/common/service/conversation/state.h', 'middleware/common/source/transaction/context.cpp'],
  mechanism=[('control, send, receive and disconnect', 'middleware/common/source/service/conversation/context.cpp'), ('participation in transactions', 'middleware/common/source/transaction/context.cpp')],
  level='other', note='Bounded stand-in: the real conversation context against another side that does anything the protocol lets it do, for histories of at most 4 operations and 2 conversations. '+TRUST),
 dict(id='C17', title='Every request to a server is answered once, and the instance is given back',
  statement='For every request a server gets, the service is invoked at most once, in the transaction its configuration asks for and with what the caller sent; exactly one reply that tells the outcome of the service is sent to the caller (or the request is forwarded whole, to be answered by another service), and then the instance is given back to the service manager exactly once. A transaction that the server started is committed exactly if the service succeeded and all work went well, and the caller of a transaction the server joined is told if it can not be committed. This holds whatever the service does, throws or leaves behind, whichever resource fails and also when the caller is gone, and one request does not affect the next.',
  over=['inputs', 'histories', 'faults'], forall='every kind of request, transaction configuration, act of the service, failure of a resource and loss of the caller',
  why='Tests invoke a few example services that mostly behave; failing resources, lost callers and conversational services that fail are not combined.',
  files=['middleware/common/include/common/server/handle/service.h', 'middleware/common/source/server/handle/service.cpp', 'middleware/common/source/server/handle/policy.cpp', 'middleware/common/source/server/handle/conversation.cpp', 'middleware/common/source/server/context.cpp', 'middleware/common/source/server/service.cpp'],
  mechanism=[('call, reply and acknowledge', 'middleware/common/include/common/server/handle/service.h'), ('transaction and forward policy', 'middleware/common/source/server/handle/policy.cpp'), ('what the service is given and returns', 'middleware/common/source/server/service.cpp')],
  level='other', note='Bounded stand-in: the real server against a modelled caller, service manager, transaction manager and one resource, for one or two requests. '+TRUST),
]
