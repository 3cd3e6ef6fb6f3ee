P = []


def prop(id, title, statement, over, quant, why, files, mech, technique='', note='', state=(), observe=(), na=None):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
             technique=technique, note=note, state=state, observe=list(observe))
    if na:
        d['na'] = na
    P.append(d)


SCHED = '''The tests are single-threaded unit tests of configuration, frames, headers, strings and sockets; no test
 runs two threads, a worker or a session, '''
ALWAYS = 'Decided on the current LLVM IR of the whole program with every call resolved; not bounded in path length.'

prop('P01', 'Every lock that is taken is released on every path',
     '''In the server and in every bundled extension and subprotocol, a lock taken during an operation (connecting,
     reading, sending, disconnecting, plugin callbacks, logging, stopping) has been released when that operation or thread
     ends, on every path, including those on which an allocation, a read, a write, a lookup or a library call fails. A
     thread never releases a lock it does not hold, never destroys a lock it holds, and waits on a condition only while
     holding its mutex.''',
     ['inputs', 'fault_sequences', 'schedules'],
     'every path through every thread, callback and exported plugin function, with every call able to fail',
     SCHED + 'and the paths that matter are error paths that need an allocation or a system call to fail at one exact place.',
     ['src/worker.c', 'src/session.c', 'src/message.c', 'src/server.c', 'src/event.c', 'src/pool.c', 'src/log.c',
      'subprotocols/broadcast/broadcast.c', 'extensions/permessage-deflate/permessage-deflate.c'],
     [('explicit unlock on every return', 'every function that locks')],
     technique='interprocedural path-sensitive lock typestate analysis on LLVM IR',
     note='''Every path of every entry point is explored abstractly with summaries; a lock operation is assumed to
     succeed on a valid lock. ''' + ALWAYS,
     state=[('lock count', 'how often this thread holds each lock')])

prop('P02', 'Threads cannot deadlock on locks, on waiting for jobs or on joining',
     '''The order in which threads take the locks of the server and its plugins (session table, session, send, job, server,
     pool, broadcast and compression locks) has no cycle and no thread takes a non-recursive lock it already holds. No thread
     waits for the other users of a session while it holds a lock they need or is itself counted as one of those users, and
     no thread is joined while holding a lock that the joined thread takes.''',
     ['schedules', 'histories'],
     'every interleaving of the worker, event-loop, cleanup, sending and main threads, with every plugin loaded',
     SCHED + 'and a lock-order inversion deadlocks only under one particular interleaving.',
     ['src/worker.c', 'src/session.c', 'src/message.c', 'src/server.c', 'src/pool.c', 'src/event.c',
      'subprotocols/broadcast/broadcast.c', 'extensions/permessage-deflate/permessage-deflate.c'],
     [('lock order', 'table lock, session lock, send lock, jobs lock'),
      ('own job released before waiting', 'WSS_disconnect')],
     technique='interprocedural lock-order graph (server plus plugins) with cycle detection on LLVM IR',
     note='''Lock classes are structure fields and globals; plugin callbacks are resolved to every bundled plugin. A
     cycle over classes is reported even when the objects are different. ''' + ALWAYS)

prop('P03', 'Data shared between threads is only accessed under the lock that guards it',
     '''The state of a connection that several threads use (buffered input and output, current state and events, message
     queue, TLS object, number of users, whether it is disconnecting, whether the handshake is done), the tables of
     sessions and of plugin clients, and the queue of the thread pool are read and written only while holding the lock that guards them; the
     tables are changed only while holding that lock exclusively. Exempt is only data that no other thread can reach: an
     object not yet published, or a connection its owner has unpublished and whose users it has waited for.''',
     ['schedules', 'histories'],
     'every access in every function that can run in a worker, event-loop, cleanup or sending thread',
     SCHED + 'and a data race shows only under one particular interleaving, if at all.',
     ['src/worker.c', 'src/session.c', 'src/message.c', 'src/server.c', 'src/pool.c', 'src/event.c',
      'subprotocols/broadcast/broadcast.c', 'extensions/permessage-deflate/permessage-deflate.c'],
     [('guard table', 'DESIGN.md P03'), ('per-session locks', 'include/session.h')],
     technique='interprocedural lockset analysis with ownership typestate on LLVM IR',
     note='''The guard of every field is a table in the check; the field and the held lock must belong to the same object. '''
     + ALWAYS)

prop('P04', 'A session is used only while it cannot be freed and is freed exactly once',
     '''A connection's session is used by a thread only while that thread is registered as a user of it (or holds the lock
     of the session table, or created it, or has waited for all users); a thread registers itself only in the same step that
     looks the session up and only if it is not being disconnected. Every registration is released exactly once on
     every path, and releasing the last one wakes the thread that waits for it. A disconnected session is freed exactly once, by the one thread that
     disconnected it, after waiting until it has no users, and never touched afterwards.''',
     ['schedules', 'histories', 'fault_sequences'],
     'every path of every thread that finds, uses, sends on, times out or disconnects a session',
     SCHED + 'and a use after free needs a disconnect to fall between a lookup and a use.',
     ['src/session.c', 'src/worker.c', 'src/message.c', 'src/server.c'],
     [('job counter', 'WSS_session_acquire, WSS_session_jobs_inc/dec/wait'),
      ('disconnecting flag', 'WSS_session_is_disconnecting')],
     technique='interprocedural ownership/typestate analysis on LLVM IR',
     note='Main\'s deletion of all sessions after joining every thread is outside the analysis. ' + ALWAYS,
     state=[('jobs', 'number of users of the session'), ('disconnecting', 'whether one thread has taken over its end')])

prop('P05', 'Plugins see every connection begin once and end once, in order',
     '''For every connection the negotiated subprotocol is told of the connect exactly once, after the handshake succeeded, and
     if it was, of the close exactly once, before the descriptor is closed and can be given to another client; it gets
     messages only between the two. Every extension that was opened for a request, whether the request is accepted or refused, is
     closed exactly once for the same descriptor, before that descriptor is closed; an extension whose parameters were refused is
     not used.''',
     ['histories', 'inputs', 'fault_sequences'],
     'every path on which a connection is set up, refused, used and ended, including failures in between',
     '''The tests never run a connection; a missing or doubled call shows only as a leak or as a stale entry in a plugin
     when a descriptor is reused.''',
     ['src/worker.c', 'src/session.c', 'src/header.c', 'src/message.c', 'subprotocols', 'extensions'],
     [('calls of the plugins', 'ws_protocol->connect/message/close, ext->open/close'), ('end of a session', 'WSS_session_delete')],
     technique='typestate analysis of the plugin life cycle by abstract interpretation of LLVM IR',
     note='''Connections with up to two negotiated extensions (four in thorough) are distinguished. Each work item is analysed
     alone, from every state of the connection it can find.''')

prop('P06', 'Only an accepted handshake opens a connection; others get the right error',
     '''A request is answered with 101 and becomes a connection only if its method and HTTP version are supported, it has a
     complete header within the configured sizes with at most one key, it asks for an upgrade to websocket with version 13, 8 or 7 and a
     16-byte key, and its path, host and origin are among the configured ones where such lists are configured (a missing
     field is not). Otherwise it is refused with an HTTP error: 404 for the path, 400 for the host, 403 for the origin, 426
     (or 400) when it is no valid upgrade, 501 (or 426, 400) for the version. Every complete request is answered or its connection closed; a
     subprotocol is told about a connection, and frames are read or sent on it, only after the 101 response is
     queued.''',
     ['inputs', 'configurations'],
     'every combination of right, wrong and missing header fields and configured lists, and every path of the code that decides',
     '''The tests pass some dozens of complete headers to the parser; which of the many checks applies to which request, under which
     configuration, and that nothing slips past them in the worker, is not settled by them.''',
     ['src/header.c', 'src/worker.c', 'src/str.c', 'src/message.c', 'src/server.c'],
     [('checks of the request', 'WSS_parse_header, WSS_upgrade_header'), ('handshake', 'handshake() in worker.c')],
     technique='abstract interpretation of LLVM IR, partitioned by class of request, with a handshake automaton',
     note='''Requests are partitioned by whether each field is right, wrong or missing (two deviations at a time, three in
     thorough); comparison functions of the C library, regexec and the Base64 decoder are taken by contract.''')

prop('P07', 'Only valid frames are accepted; others end the connection with the right code',
     '''Every frame a client sends is checked before it has any effect: reserved bits only with a negotiated extension, a known
     opcode, masked, control frames unfragmented and at most 125 bytes, payload within the configured limit, and a closing frame
     that is empty or carries an allowed code (1000-1003, 1007-1014, 3000-4999) and a UTF-8 reason. A frame that fails a check is
     answered with a closing frame (code 1002; 1002 or 1003 for an unknown opcode, 1009 for a payload over the limit, 1007 for a
     reason that is not UTF-8) and nothing after it is parsed. A valid frame is never rejected, except for exceeding the
     configured number of frames, and never ignored, except a pong.
     ''',
     ['inputs'],
     'every combination of header bits, opcodes, lengths, closing codes and reasons, and every path of the code that checks them',
     '''The tests parse and build single frames; no test runs the code that decides whether a frame is accepted, and
     the checks interact (an earlier one hides a later one), so samples of single mistakes do not settle it.''',
     ['src/worker.c', 'src/frame.c'],
     [('validation of parsed frames', 'WSS_read'), ('closing frames', 'WSS_closing_frame')],
     technique='abstract interpretation of LLVM IR, partitioned by frame class, with an acceptance automaton',
     note='''The frames are partitioned into about 2000 classes (intervals of lengths around every limit, all opcodes, header
     bits, closing codes); quick combines at most two mistakes per frame, thorough all. UTF-8 checking itself is taken by its
     contract.''')

prop('P08', 'Every open connection stays watched for the event it needs, or is ended',
     '''Whenever the server is done with a piece of work for a connection that it does not end, the connection is registered with the event
     queue for the event its unfinished input or output needs: for being writable when output could not be written, otherwise for
     being readable (under TLS, for what the TLS layer asks for), for one wake-up at a time and with its own
     descriptor, before another thread can take the connection over. A connection whose input or output has failed, or that the server has
     decided to end, is ended or woken up once more to be ended. No connection is left open with nothing that wakes it up, and
     none is woken for several threads at once.''',
     ['schedules', 'inputs', 'fault_sequences'],
     'every path of the code that reads, writes, accepts, pings and sends, with every result of each system and TLS call',
     '''The tests never run a connection, and it takes a full socket buffer, half a message or an error at the right call to leave
     one unwatched; it then hangs silently.''',
     ['src/worker.c', 'src/event.c', 'src/server.c', 'src/ssl.c', 'src/message.c'],
     [('registration', 'WSS_poll_set_read, WSS_poll_set_write'), ('wanted event', 'session->event'),
      ('request to end', 'session->closing')],
     technique='typestate analysis (wanted event against armed event) by abstract interpretation of LLVM IR',
     note='''Each work item is analysed alone, from every state of the connection, with and without TLS, and with every result of
     each read, write and TLS call; what plugins may send to the connection they are called for is modelled by the result of
     the analysis of sending. That epoll_ctl itself succeeds is assumed.''',
     state=[('event', 'event the connection needs next'), ('closing', 'the connection is to be ended'),
            ('state', 'what the connection was doing when it had to wait')])

prop('P09', 'A queued message is never left unsent while its connection stays open',
     '''A message accepted for a connection is written to it as soon as the connection can take it, no matter which threads use the
     connection meanwhile. Whoever is done with a connection first writes everything that is queued for it, the messages queued
     by other threads in the meantime included, or leaves it marked as being in the middle of a write that goes on when there is room
     again. No interleaving of senders with the thread that uses the connection leaves a message
     waiting for some unrelated later event.''',
     ['schedules', 'inputs', 'fault_sequences'],
     'every interleaving of a sending thread with a thread that uses the connection, and every result of each read and write',
     '''No test sends over a connection, and the window between the last look at the queue and giving up the connection
     is a few instructions wide; a lost wake-up shows up only as a message that arrives late or never.''',
     ['src/worker.c', 'src/message.c', 'src/server.c'],
     [('hand-over', 'WSS_flush, session->pending'), ('queue', 'WSS_message_send_frames'), ('writing', 'WSS_write')],
     technique='typestate analysis with interference (flags other threads change) by abstract interpretation of LLVM IR',
     note='''The work items of a connection are analysed alone from every state of the connection; the flag by which senders tell
     that something is queued may change between any two accesses. The ring buffer is taken by its contract. A message dropped
     because the queue is full is not covered.''',
     state=[('pending', 'messages may be queued'), ('state', 'the connection is in the middle of a write')])

prop('P10', 'Output is complete, in order and never mixed',
     '''Every message queued for a connection is written to it from its first to its last byte, each byte once and messages in
     the order they were queued, however the writes are split by the system; a message that has to wait goes on exactly where it
     stopped, and is only given up when it is complete or the connection is being ended. The pings and closing frames the server
     sends on its own are complete too, or end the connection, and are never put into the middle of another message.''',
     ['inputs', 'schedules', 'fault_sequences'],
     'every split of the output into partial, interrupted, delayed and failing writes, with and without TLS',
     '''The tests never write to a connection, and one wrong offset is only visible with partial writes, which need a slow reader;
     it then shifts every following frame.''',
     ['src/worker.c', 'src/ssl.c', 'src/server.c'],
     [('writing the queue', 'WSS_write, WSS_ssl_write_partial'), ('control frames', 'write_control_frame, WSS_ssl_write')],
     technique='abstract interpretation of LLVM IR with a reference position in the output (linear forms over symbolic lengths)',
     note='''Histories are bounded: two batches of at most two messages (quick; three thorough) with symbolic lengths and start
     position, each written in up to two parts; the ring buffer is taken by its contract. Messages of 4 GB and more are not covered.''',
     state=[('written', 'bytes already written of the message that has to wait')])

prop('P11', 'Frames are written and read as RFC 6455 says',
     '''For every length, opcode and combination of flags a frame is put on the wire with exactly the header RFC 6455 prescribes (shortest
     length form, network byte order, never masked) followed by its data, and a message is split into frames that carry it
     completely, once and in order. Received bytes are read back as the frame they stand for, unmasked, wherever in the buffer it starts and
     whichever vector instructions the server was compiled for; a frame not yet completely received is recognised as such, and no
     announced length makes the server read or write outside its buffers. Closing, ping and pong frames are
     well-formed control frames that carry their code and reason, or the data of the ping they answer.''',
     ['inputs'],
     'every frame, by classes of header and length; contents, and where the length is symbolic lengths, are left open',
     '''The tests encode and decode a handful of lengths, most of them far from the limits of the three length forms and of the
     vectors the data is unmasked in.''',
     ['src/frame.c', 'include/frame.h'],
     [('encoding', 'WSS_stringify_frame, WSS_stringify_frames'), ('splitting', 'WSS_create_frames'), ('decoding', 'WSS_parse_frame'),
      ('control frames', 'WSS_closing_frame, WSS_ping_frame, WSS_pong_frame')],
     technique='abstract interpretation of LLVM IR per class of frame, buffers as symbolic byte ropes, compared with the format',
     note='''Classes: lengths around every limit in every length form, all prefixes of headers, lengths near the maximum; data bytes
     are symbolic. Unmasking is analysed for 86 lengths up to 300 with AVX-512, AVX2, SSE and no vector instructions. Failing allocations
     are not covered here.''')

prop('P12', 'Messages reach the subprotocol as the client sent them',
     '''Whatever frames a client sends, and however their bytes are spread over several reads, every complete message is handed to the
     subprotocol exactly once, in order, with the type of its first frame and the data of all its frames, after the extensions have seen each
     of its frames once; a text that is not UTF-8 as a whole is never handed over but ends the connection with 1007. Every ping is answered
     with its own data, also between the frames of a message, and neither is kept back because later data is incomplete. Nothing
     received after a closing frame or a violation is handled, and reading, also when it fails or memory runs out, loses no memory and
     uses none that has been freed.''',
     ['inputs', 'histories', 'fault_sequences'],
     'every sequence of up to four frames (five thorough) and where it is cut into reads, with TLS, extensions, interrupted and failing reads, failing allocations',
     '''The tests parse single frames; the assembly of messages depends on how control frames, fragments, errors and the limits of the reads
     fall together, which takes particular sequences to go wrong.''',
     ['src/worker.c', 'src/frame.c'],
     [('reading', 'read_internal, WSS_ssl_read'), ('assembly, delivery', 'WSS_read'), ('answers', 'WSS_pong_frame, WSS_closing_frame')],
     technique='abstract interpretation of LLVM IR per sequence of frame kinds and cuts, compared with a frame-by-frame reference',
     note='''Bounded to the enumerated sequences (about 7900 histories; frame contents symbolic, lengths small and fixed per kind). What the frame
     parser hands back is taken from P11 and P07, the UTF-8 test by its contract; one extension, which replaces the data of each message.''',
     state=[('frames', 'the frames of a message not yet complete'), ('payload', 'the bytes of a frame not yet complete')])

prop('P13', 'Running out of memory never crashes the server',
     '''Whichever allocation fails, alone or together with all later ones, neither the server nor a bundled plugin uses the null pointer it
     got, or ends the process because of it: the operation that needed the memory is given up.''',
     ['fault_sequences', 'inputs'],
     'every allocation of the server and of the plugins, failing alone or as the first of many, on every path',
     'The tests never make an allocation fail, and which of some hundred allocations fails is up to the machine.',
     ['src', 'subprotocols/broadcast/broadcast.c', 'extensions/permessage-deflate/permessage-deflate.c', 'include/uthash.h'],
     [('allocations', 'WSS_malloc, WSS_calloc, WSS_realloc, WSS_copy, plugin allocators, uthash_malloc')],
     technique='path-sensitive interprocedural null-pointer analysis of LLVM IR with injected allocation failures',
     note='''All entry points, loops to a fixpoint. In four functions in which a pointer is null by an invariant the analysis does not see, only failures of
     the function's own allocations count. Null pointers handed to zlib, OpenSSL and the C library's regular expressions' internals are theirs;
     offsets into a null array that are not constant count as the null pointer itself.''')

prop('N01', 'Compression is lossless',
     '''Whatever a client sends compressed reaches the subprotocol exactly as it was before compression, and what is sent compressed decompresses to what was
     sent, whatever window sizes and context takeover were agreed.''',
     ['inputs', 'histories'], 'all messages and all negotiated parameters', 'Tests compress nothing.',
     ['extensions/permessage-deflate/permessage-deflate.c'], [('compression', 'inFrames, outFrames')],
     na='''Equality of data through zlib's inflate and deflate quantifies over the behaviour of a library of which there is no source here; no static
     argument over this repository decides it.''')

prop('N02', 'The vectorised UTF-8 test agrees with RFC 3629',
     'A text is accepted exactly when it is well-formed UTF-8, on every processor the server is compiled for.',
     ['inputs'], 'all byte strings', 'The tests try a handful of texts.',
     ['include/utf8.h'], [('test', 'utf8_check')],
     na='''The validator is a table-driven vector algorithm (shuffles, saturating subtractions); its correctness is equality with a language over all byte
     strings, which needs exhaustive evaluation or a solver, not a static rule. P12 takes it by its contract.''')

prop('N03', 'The handshake answer is the SHA-1 digest of the key',
     'For every key the accept header is the base64 of the SHA-1 of the key and the GUID.',
     ['inputs'], 'all keys', 'The tests use no handshake.',
     ['src/ssl.c', 'src/b64.c', 'src/sha1.c'], [('digest', 'WSS_base64_encode_sha1')],
     na='''The digest is computed inside OpenSSL in the build that is used; equality of a hash over all inputs is not a property static analysis of this
     repository can settle. P06 decides that a handshake is only answered when the key is there and well-formed.''')

prop('N04', 'The ring buffer is linearizable',
     'Messages put into the queue of a connection by several threads at once are each taken out exactly once, in an order consistent with when they were put in.',
     ['schedules'], 'all interleavings of producers and the consumer', 'The tests never use the ring buffer.',
     ['src/ringbuf.c'], [('queue', 'ringbuf_acquire, ringbuf_produce, ringbuf_consume, ringbuf_release')],
     na='''The lock-free algorithm is correct by an argument over interleavings of atomic operations (that of a model checker), which no lock-based or
     flow-based static rule expresses. P09 and P10 take it by its contract.''')

prop('N05', 'Timeouts fire promptly',
     'An idle or unresponsive connection is ended not much later than the configured time.',
     ['schedules', 'configurations'], 'all timings', 'The tests start no server.',
     ['src/server.c'], [('supervision', 'WSS_cleanup')],
     na='Bounds on elapsed time depend on the machine, its load and the scheduler; nothing in the source bounds them.')

prop('P14', 'Every accepted task is run exactly once by the thread pool',
     '''A task is accepted exactly when the queue has room and the pool is not shut down; accepted tasks are taken in the order of acceptance, each is
     run once, with its own argument and without the pool's lock, and none waits while a worker sleeps. A graceful shutdown, which
     is the one the server uses, runs all accepted tasks; every shutdown, and a creation that fails half-way, wakes and waits for all workers, and frees the
     pool only then.''',
     ['schedules', 'histories', 'fault_sequences'],
     'schedules of adding tasks, workers starting, sleeping, waking (also spuriously), running and of the shutdown, for pools of up to three workers and queue places',
     'The tests start one pool and never give it a task; full queues, wake-ups and shutdowns at particular moments are not sampled.',
     ['src/pool.c', 'src/http.c'],
     [('accepting', 'threadpool_add'), ('working', 'threadpool_thread'), ('shutdown', 'threadpool_destroy, threadpool_free')],
     technique='abstract interpretation of LLVM IR along schedules, compared with a first-in first-out queue',
     note='''Bounded to 19236 schedules of up to six steps (121912 of up to eight thorough), each followed by a shutdown. Other threads act while a worker sleeps, while it runs a
     task and, by adding tasks, right after it releases the lock. Failing lock and join operations are not covered.''',
     state=[('queue', 'accepted tasks not yet taken')])

prop('P15', 'What a subprotocol sends is queued for exactly the addressed client',
     '''The echo subprotocol answers every message to its sender, the broadcast subprotocol sends it to every other connected client once and
     to nobody else, whatever clients have come, left, or could not be admitted for lack of memory before. What a
     subprotocol sends is framed with the type and length it gave, shown once to every negotiated extension, and put as a whole into the queue
     of the addressed connection once, which is then written; if any of that fails it is dropped and all its memory freed.''',
     ['histories', 'fault_sequences'],
     'histories of clients coming, failing to come, speaking and leaving, including so many that the table grows; every failing step of sending',
     'The tests load the subprotocols but connect no clients; wrong receivers need clients that left or came in particular orders.',
     ['subprotocols/broadcast/broadcast.c', 'subprotocols/echo/echo.c', 'src/message.c', 'include/uthash.h'],
     [('receivers', 'onConnect, onMessage, onClose'), ('sending', 'WSS_message_send')],
     technique='abstract interpretation of LLVM IR along client histories and per shape of message, compared with a set of clients and a list of steps',
     note='''Bounded to 7169 histories of up to five steps of three clients (21749 of up to six thorough) and two with 200 clients; messages of up to three
     frames, two extensions. Frames and their encoding are P11's, the queue is taken by its contract, writing is P09's and P10's.''',
     state=[('clients', 'the connected clients of the subprotocol')])

prop('P16', 'Every HTTP answer is complete, well-formed and of the length it states',
     '''Every complete request gets one answer, or its connection is closed. The bytes sent are exactly one HTTP response: a status line with the version of the
     request and the status, fields each on a line of its own and none twice, an empty line, and content of exactly the length stated. A 101 upgrades to websocket and
     has the accept value for the key of the request, the negotiated subprotocol if one was asked for, and every negotiated extension with its parameters; a
     426 says what to upgrade to, a 501 which versions are supported, and the favicon is sent as it is on disk. When memory runs out no memory is lost.''',
     ['inputs', 'fault_sequences'],
     'every status, with and without a version, negotiated names and parameters of different lengths, sizes of the favicon around powers of ten, failing allocations',
     'The tests send no request; the lengths of answers depend on names, numbers of digits and statuses that are not sampled.',
     ['src/worker.c', 'include/worker.h'],
     [('answers', 'handshake_response, upgrade_response, http_response, favicon_response'), ('answering', 'WSS_read')],
     technique='abstract interpretation of LLVM IR per class of answer, buffers as symbolic byte strings, compared with the grammar of a response',
     note='''69 classes of answers (74 thorough), each with every allocation failing in turn. Lengths are the enumerated ones; the bytes of names, dates, digests
     and files are symbolic. The digest itself is N03's; what the request is answered with is P06's; texts of refusals are not judged.''')

prop('P17', 'Connections are ended for idleness exactly at the configured limits',
     '''Every time supervision is due, each connection whose handshake is complete and that was active as long ago as the client limit, or longer, is told so by
     a close frame with code 1013 and ended; all others stay and, if pings are configured, get one ping. Neither frame is put into the middle of a message that is still
     being written, a negative limit is no limit, and supervision is due every client limit divided by the number of pings. A connection on which something was read or written counts as
     active from then on, pings sent do not count, and one that waited longer than the read or write limit in the middle of a read or write is ended instead of going on.''',
     ['inputs', 'configurations'],
     'elapsed times below, at, next to and far beyond each limit, with each fraction of a second; limits negative, zero, small, large; with and without TLS, in each state of a connection',
     'The tests start no server; times next to a limit and connections in the middle of writing are not sampled.',
     ['src/server.c', 'src/worker.c'],
     [('supervision', 'WSS_cleanup'), ('read and write limits, activity', 'WSS_work')],
     technique='abstract interpretation of LLVM IR per class of elapsed time, limit and state, compared with the decision to take',
     note='''1591 classes (more thorough). How promptly the system runs the supervision is N05; what the frames are is P11's, that they are sent whole P10's.''')

prop('P18', 'Compression is negotiated as RFC 7692 demands',
     '''An offer of permessage-deflate with unknown, repeated, missing or out-of-range parameters is declined, any other that zlib can keep to is
     accepted. The answer grants a context or window limit the client asked for, limits the client's window only if it offered that and no wider than
     it offered, and the server then compresses with no larger window than the answer says and expects windows as large as it allows, also when memory runs
     out on the way. Where the client leaves the choice the configured windows are used, and nothing is lost when an offer is declined or the connection ends.''',
     ['inputs', 'configurations', 'fault_sequences'],
     'offers with each parameter, each value in and around the range, malformed values, pairs and longer lists in both orders; eight configurations; each failing allocation',
     'The tests load the extension but make no offers; wrong windows show only with particular combinations of offer, configuration and message.',
     ['extensions/permessage-deflate/permessage-deflate.c'],
     [('negotiation', 'onOpen'), ('configuration', 'onInit'), ('release', 'onClose')],
     technique='abstract interpretation of LLVM IR per class of configuration and offer, texts as byte strings, compared with the rules of RFC 7692',
     note='''2952 pairs of configuration and offer, each with every allocation failing in turn. zlib is taken by its documentation; regular expressions are matched by the C
     library. The server may also decline offers of 8-bit windows, which zlib cannot keep to. Offers with odd spaces inside a parameter are not judged.''')

prop('P19', 'Messages pass through compression whole, in order and marked',
     '''The payloads of a compressed message, in order and followed by the four bytes the sender left off, are what is decompressed, and all that comes out,
     however long, is what its frames carry afterwards, unmarked. All payload of a message sent is compressed and flushed, fully so if each message has to be compressed on its own, and what comes
     out, without the four final bytes, is what its frames carry, the first one marked; an empty result is a single zero byte. Messages that are not marked, control frames and connections without
     compression are left as they are, each connection uses its own state, and for any configured chunk size this ends and no memory is lost.''',
     ['inputs', 'configurations'],
     'messages of one to five frames of different and zero lengths; outputs around multiples of the chunk size; sensible and other chunk sizes; invalid data; other connections',
     'The tests load the extension but give it no message; wrong output shows only at particular lengths.',
     ['extensions/permessage-deflate/permessage-deflate.c'],
     [('received', 'inFrames'), ('sent', 'outFrames')],
     technique='abstract interpretation of LLVM IR per shape of message, payloads and the output of zlib as symbolic byte strings',
     note='''1920 messages (more thorough), as long as memory suffices. zlib is taken by its contract, including that it repeats the flush mark when room ran out; that decompressing what was compressed
     gives the same bytes is N01.''')

prop('P20', 'The configuration file decides the settings and who may connect',
     '''Each documented key of the configuration file sets its own setting to the value in the file, other settings keep their defaults, and a value of the wrong
     kind is ignored or, where a list or a port cannot be used, the file is refused. The hosts accepted are the configured ones, alone and with each port in use; the request URIs accepted are /
     and those made of the configured hosts, paths and queries, for either scheme, also for empty names and whatever the ports. If memory runs out the configuration is refused rather than
     the server started without its restrictions, and everything is given back exactly once.''',
     ['configurations', 'inputs', 'fault_sequences'],
     'every key alone, with every kind of value, all keys in both orders; lists of all small lengths; ports of every number of digits and none; combinations of hosts, paths and queries; each failing allocation',
     'The tests load six files; a wrong list, length or pattern shows only with particular combinations of ports and lists.',
     ['src/config.c', 'src/http.c', 'include/http.h'],
     [('settings', 'WSS_config_load'), ('release', 'WSS_config_free'), ('request URIs', 'WSS_http_regex_init')],
     technique='abstract interpretation of LLVM IR per class of configuration, the parsed file as an abstract tree, compared with what the file says',
     note='''771 configurations (more thorough), each with every allocation failing in turn. The parser of JSON is taken to do its work; regular expressions are matched by the C library. What other
     paths are accepted when none is configured is not judged, nor the default settings.''')


prop('P21', 'The server is taken apart only when nothing uses it any more',
     '''However the server ends, by a start-up that fails at any step, a thread that fails, or a shutdown, its threads are told to stop and awaited and its queued tasks are finished
     before any server, pipe, socket, TLS context or connection that they can use is closed or freed. All that was set up is then released exactly once and the server does not wait for ever. An interrupt ends it in order and a client
     that has gone does not end it; it runs exactly the servers that are configured, and exits with success only if nothing failed.''',
     ['fault_sequences', 'configurations', 'schedules'],
     'every step of starting and stopping failing in turn, for each combination of the settings that switch on HTTPS and ports out of range; tasks and threads may run until they are stopped and joined',
     'The tests call single functions that set up a socket; no test starts or stops a server or makes a step fail.',
     ['src/server.c', 'src/http.c', 'src/event.c', 'src/socket.c'],
     [('start and end', 'WSS_server_start')],
     technique='abstract interpretation of LLVM IR with typestate and ownership of every resource, per configuration and failing step',
     note='''One step fails per course. What threads and tasks do in between is that of other properties; that they end when told is taken from their loops. The set-up of TLS itself is taken as one step, as is
     loading plugins.''')