#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['teleprox/' + f for f in files],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))

prop('C01', 'Every reply reaches exactly the call that asked for it',
 "Each request sent with a reply requested (blocking or asynchronous) completes with the return value or error of exactly that request, whatever the order in which results are collected, however many requests and clients are outstanding at once, and even if earlier requests of the same client timed out or had their futures dropped. "
 "The completion of an asynchronous request can also be observed by polling done() and is reported once the reply has arrived. "
 "A value that its receiver fails to decode makes its own request fail and no other. A request with replies disabled returns None at once, never consumes a reply, and never disturbs the replies of other requests.",
 ['schedules', 'histories'], "all interleavings of up to 3 client threads with the server thread, all request/collect histories up to depth 5 over {blocking, async, off, timed-out, dropped, collected in any order}, backlogs larger than the transport's high-water mark",
 "test_rpc collects two futures in reverse order once, on one client, with an idle server; late replies, several clients, dropped futures and long backlogs are never combined",
 ['client.py', 'server.py'],
 [('request ids and table of pending futures', 'teleprox/client.py:RPCClient.send/process_msg'), ('reply carries the request id', 'teleprox/server.py:RPCServer._send_result')],
 ['Future.result()', 'Future.done()', 'return value of a proxy call'],
 [('futures', 'pending requests by id', 'teleprox/client.py')])

prop('C02', 'Requests run once, in send order per client, one at a time',
 "A server executes every request it receives exactly once, requests of one client in the order that client sent them (mixing blocking, asynchronous and no-reply requests freely), and never runs two requests at the same time except when one of them is itself waiting on a remote call. "
 "All requests are executed in the one thread that runs the server. A request is not lost because its client is closed, or the thread that sent it ends, directly afterwards.",
 ['schedules', 'histories'], "all interleavings of 2-3 client threads x up to 3 requests each, in every mix of reply modes and under every server run mode",
 "tests use one client at a time against an idle server and never record the order or the thread in which requests execute",
 ['server.py', 'client.py', 'qt_server.py', 'qt_poll_thread.py'],
 [('single receive loop', 'teleprox/server.py:RPCServer.run_forever'), ('FIFO socket per client', 'teleprox/client.py:RPCClient.send')],
 ['calls recorded by a published object'])

prop('C03', 'Remote failures reach their caller only and never harm the server',
 "Whenever processing a request fails (the called object raises anything, including SystemExit; a name, attribute, module, action or released object does not exist; arguments do not fit; the result cannot be transmitted), that request alone fails, raising RemoteCallException with the original exception's type name and a traceback text at its caller. "
 "If the request asked for no reply, no reply is sent and the failure is reported once through the server process's uncaught-exception hook. "
 "The server and all of its clients go on working as if the request had not been made.",
 ['inputs', 'histories', 'fault_sequences'], "every failure kind x every action x every reply mode x both serializers, each in every position of a history of good requests from two clients",
 "tests provoke a TypeError, a KeyError and an ImportError once each, on one client, and rarely look at the server afterwards",
 ['server.py', 'client.py'],
 [('catch-all around request processing', 'teleprox/server.py:RPCServer._process_one'), ('second attempt to send an error when the result cannot be sent', 'teleprox/server.py:RPCServer._process_one'), ('RemoteCallException', 'teleprox/client.py')],
 ['exception raised at the caller', 'sys.excepthook of the server process', 'later requests'])

prop('C04', 'Timeouts are honoured and leave the client usable',
 "A blocking request, or a wait on a future, with timeout T raises TimeoutError if and only if its own reply has not arrived within T (up to polling granularity), no matter how much other traffic (replies to other requests, requests to a server in the same thread) arrives meanwhile; with no timeout it waits as long as needed. "
 "After a timeout the client remains usable: later requests work and the abandoned request's late reply is discarded or still delivered to its own future, never to anything else.",
 ['schedules', 'inputs'], "all combinations of timeout and reply delay from a small set, with and without a server in the waiting thread (plain and Qt), with other traffic arriving at every point in between",
 "test_rpc has one 10 ms timeout on an otherwise quiet connection, and no test waits in a thread that also runs a server",
 ['client.py'],
 [('process_until_future deadline arithmetic', 'teleprox/client.py:RPCClient.process_until_future')],
 ['exception and (virtual) time at which the wait returns'])

prop('C05', 'Closing a server releases every client, and is final',
 "When a server closes, whoever asked for it (any client, its own process, process exit), every other client that has talked to it is told: each of their unfinished requests completes, with its result if the server had executed it and otherwise with RuntimeError, instead of hanging, and later requests fail with RuntimeError immediately. "
 "Asking a server to close returns True to the caller, including when it is already closed or is being closed by another client at the same time. "
 "No request is executed after the server has closed, and its address is free again.",
 ['schedules', 'histories'], "all interleavings of one or two closers with clients that have requests outstanding, queued behind the close, or sent after it; all server run modes",
 "test_disconnect closes servers with no requests outstanding, sequentially",
 ['client.py', 'server.py', 'qt_server.py'],
 [('disconnect broadcast to known clients', 'teleprox/server.py:RPCServer.process_action'), ('failing all pending futures', 'teleprox/client.py:RPCClient._server_disconnected')],
 ['Future.result()', 'disconnected()', 'close_server()'],
 [('_clients', 'clients a disconnect message is owed to', 'teleprox/server.py'), ('_disconnected', 'client knows the server is gone', 'teleprox/client.py')])

prop('C06', 'Mutually calling processes do not deadlock',
 "If the thread that waits for a remote result also runs a server, that server keeps executing incoming requests during the wait, so that any chain or cycle of nested calls (callbacks, mutual recursion between servers, a server calling back into its caller several levels deep, two parties calling each other simultaneously) completes with correct results and without timing out. "
 "This holds for every server that is currently running in the thread, including one started after an earlier one was closed.",
 ['schedules', 'programs'], "all call chains up to length 5 over 3 participants, and pairs of chains started concurrently, under all interleavings up to the deviation bound",
 "test_rpc runs one two-party ping-pong started by a third thread, in one schedule",
 ['client.py', 'server.py'],
 [('polling the client and the local server socket together', 'teleprox/client.py:RPCClient._get_poller/process_until_future')],
 ['result and virtual duration of the outermost call'])

prop('C07', 'A proxied object lives exactly as long as its undeleted proxies',
 "An object sent by proxy stays alive and usable as long as at least one reference handed out for it has not been deleted (explicitly, or by collection of a proxy with automatic deletion enabled), and the server drops its own hold on it once all of them have been. "
 "Using a deleted proxy, or anything derived from or copied from it, raises an error at the caller even while other references keep the object alive; using, copying or deriving attributes from a proxy never deletes its reference. "
 "A proxy with automatic deletion may be collected at any moment and in any thread: this never delays or disturbs a call in progress. "
 "A proxy never comes to denote a different object, even when memory addresses are reused.",
 ['histories'], "collection at every line of client, proxy and serializer that a call executes; all histories up to depth 5 over {obtain, use, derive attribute, delete, garbage-collect with auto-delete, pass to the other client, recreate object} on 2 objects and 2 clients",
 "test_rpc deletes one proxy of one object, with a single reference, and uses each auto-delete proxy for nothing before it is collected",
 ['server.py', 'proxy.py', 'client.py'],
 [('reference sets per object', 'teleprox/server.py:RPCServer.get_proxy/process_action'), ('__del__ and derived proxies', 'teleprox/proxy.py:ObjectProxy')],
 ['weakref to the object on the server', 'use of each proxy'],
 [('_proxy_refs', 'object id -> object, outstanding references', 'teleprox/server.py')])

prop('C08', 'Proxies keep object identity through every hop',
 "A proxy sent back to the process that owns its object is turned back into that very object (or, for a proxy to an attribute path, into that attribute's value), no matter through how many other processes, containers or serializers it travelled; anywhere else it arrives as a proxy to the same object. "
 "Two proxies compare equal without contacting the server when they denote the same object and attribute path, proxies to different attributes or objects are not presumed equal, and equal proxies have equal hashes.",
 ['histories', 'inputs'], "all routes up to length 4 over 3 processes, 2 objects, attribute paths up to depth 2, nested in lists/dicts/tuples; all pairs of proxies obtained on these routes",
 "test_rpc passes one whole-object proxy from one server to another and compares one pair of equal proxies",
 ['proxy.py', 'server.py', 'serializer.py'],
 [('unwrap on decode', 'teleprox/serializer.py:Serializer.decode'), ('__eq__ / __hash__', 'teleprox/proxy.py:ObjectProxy')],
 ['identity of the object received by its owner', '== and hash() of proxies'])

prop('C09', 'Operating on a proxy gives the same result as on the object',
 "Attribute get and set, calls with any positional and keyword arguments, item access, len, str, comparisons, binary arithmetic and bitwise operators, and their reflected forms, applied to a proxy have the same result and the same effect on the remote object as the same Python operation on the object itself; where that would raise, RemoteCallException naming the same exception type is raised (str() only once the proxy's safe printing is disabled; until then it describes the proxy). "
 "The same holds for direct use of the client API (calling, fetching, importing, transferring).",
 ['inputs', 'programs'], "every supported operator x every pair of operands from a small value set x proxy on either or both sides; attribute chains up to depth 3; call signatures up to 2 positional and 2 keyword arguments",
 "tests use about five of some sixty forwarded operations, each on one value",
 ['proxy.py', 'client.py', 'server.py'],
 [('one forwarding method per operator', 'teleprox/proxy.py:ObjectProxy'), ('call_obj', 'teleprox/server.py:RPCServer.process_action')],
 ['result of the operation', 'state of the remote object'])

prop('C10', 'Values survive serialization unchanged',
 "Any value built from the supported types (None, bool, int, float, str, bytes, list, tuple, dict, date, datetime, numpy arrays, scalars and dtypes, proxies), nested in any way, arrives equal in value, type, shape and dtype, in either direction and inside arguments, keyword arguments, results and published items. "
 "With the JSON serializer the documented exceptions apply: tuples arrive as lists, numpy scalars that are also Python floats or strings may arrive as those, and dictionary keys must be strings. Instances of subclasses may arrive as the type they are derived from, and bytearrays arrive as bytes. "
 "What cannot be transmitted is refused with an error, never altered silently.",
 ['inputs'], "all values up to nesting depth 3 over a leaf alphabet with one or more representatives per type and per code path (sign, size, emptiness, byte order, contiguity, timezone, structured dtype), for both serializers",
 "test_serializer checks one flat dict with one value per type",
 ['serializer.py'],
 [('encode/decode hooks', 'teleprox/serializer.py:Serializer')],
 ['loads(dumps(x))', 'echo call through a server'])

prop('C11', 'Copy-or-proxy decisions and call options are honoured',
 "A result is returned by proxy when the call asks for a proxy, and otherwise by value exactly when its type is among the serializable types in force (the defaults, or those given to the client or server; None, tuples, proxies, dtypes and what the message format has natively always count), else by proxy; an argument of a non-serializable type is sent by proxy if the sending thread runs a server and is refused with TypeError, sending nothing, if it does not. "
 "Options given for one call override the proxy's own options, those override the client's defaults, attribute proxies derived by deferred lookup inherit their parent's settings, and setting an option on one proxy affects no other existing proxy. "
 "Immediate attribute lookup (deferral disabled) and deferred lookup yield the same values.",
 ['inputs', 'configurations'], "all combinations of sync mode, return type, timeout and deferral given at call, proxy and client level, x value types x serialize-type settings x local server present or not",
 "tests vary one option at a time on one proxy",
 ['proxy.py', 'client.py', 'server.py', 'serializer.py'],
 [('auto_proxy', 'teleprox/server.py'), ('_proxy_options and per-call overrides', 'teleprox/proxy.py:ObjectProxy.__call__'), ('default_proxy_options', 'teleprox/client.py')],
 ['type of the value received', 'options in effect'])

prop('C12', 'One working connection per thread and server',
 "Within a thread, asking for the client of an address always yields the same client until it is closed, and creating a second one explicitly is refused; different threads always get different clients. "
 "Every client gets its own replies even if threads or processes carry the same display names, or a client is closed and re-created immediately. "
 "If a connection cannot be established, ConnectionRefusedError (nothing listening) or TimeoutError (no answer) is raised and nothing is left behind, so that a later attempt succeeds once the server is there.",
 ['schedules', 'histories', 'fault_sequences'], "all interleavings of 2-3 threads connecting to 1-2 servers with equal or different names; all histories up to depth 5 of {get, create, close, start server, stop server}; late connection teardown",
 "tests create clients one after the other from distinctly named threads and never reconnect",
 ['client.py'],
 [('clients_by_thread registry and its lock', 'teleprox/client.py:RPCClient'), ('socket identity', 'teleprox/client.py:RPCClient.__init__')],
 ['identity of returned clients', 'ping through each'],
 [('clients_by_thread', '(thread, address) -> client', 'teleprox/client.py')])

prop('C13', 'At most one server per thread, in every run mode',
 "A thread runs at most one server: registering a second one is refused and leaves the first one working, while servers in different threads never interfere. "
 "A server serves requests equally when run forever, in a background thread, or lazily (during the thread's own waits or by explicit processing), and once it is closed its thread can run a new one, while processing requests on the closed one raises RuntimeError.",
 ['schedules', 'histories'], "all histories up to depth 5 over {create, run lazily, run in thread, request, process one, close, create again} in 2 threads, with all interleavings of concurrent registrations",
 "tests start one server per thread and never restart or double-register",
 ['server.py'],
 [('servers_by_thread registry', 'teleprox/server.py:RPCServer.register_server/unregister_server')],
 ['get_server()', 'requests to each server'],
 [('servers_by_thread', 'thread -> server', 'teleprox/server.py')])

prop('C14', 'Starting a process yields a connected client or a clean failure',
 "Starting a process either returns an object whose client is connected to a server in that new process, configured with exactly the name, name prefix, addresses, log level, log address and mode that were asked for, or raises an error that says why; after a failure no spawned process is left running. "
 "This holds however the start-up messages between the two processes are delayed, repeated or interleaved, and for every documented form of the arguments.",
 ['schedules', 'inputs', 'fault_sequences', 'crash_points'], "all interleavings of the start-up handshake up to the deviation bound, child death at every step, server creation failing in the child; all combinations of documented argument forms",
 "tests start processes that come up normally, with two or three argument combinations",
 ['process.py', 'bootstrap.py'],
 [('status handshake over a temporary socket', 'teleprox/process.py:start_process, teleprox/bootstrap.py'), ('command line', 'teleprox/process.py:start_process')],
 ['return value or exception of start_process', 'set of live processes', 'state inside the child'])

prop('C15', 'Stopping, killing and waiting are reliable; only daemons survive',
 "Stopping a child process makes it close its server, run its exit handlers and exit, and returns its exit code once it has; killing it ends it at once; waiting returns its exit code or raises TimeoutError at the given time; all are harmless on a process that is already gone. "
 "When a process exits normally, its non-daemon children (and theirs in turn) are stopped, while daemon processes go on running and remain reachable. "
 "None of this blocks because of output the child has written or clients that no longer exist.",
 ['schedules', 'histories', 'crash_points'], "all orders of {stop, kill, wait, poll, parent exit, child crash, other client closing the server} up to length 3 on one or two levels of children, under all interleavings up to the deviation bound, with the child dying at every step",
 "test_basics stops and kills idle children once each",
 ['process.py', 'server.py'],
 [('stop/kill/wait/poll', 'teleprox/process.py:ChildProcess'), ('exit handlers', 'teleprox/process.py, teleprox/server.py:RPCServer._atexit'), ('double fork for daemons', 'teleprox/bootstrap.py')],
 ['return values', 'set of live processes afterwards'])

prop('C16', 'No forwarded log record is lost, duplicated, reordered or altered',
 "Every log record handled by a connected log sender arrives at its log server exactly once, and records of one process arrive in the order they were logged, whatever threads they come from, whatever they carry (formatting arguments, exception information, extra attributes, non-string messages), and even if the sender is closed or the process exits right after logging. "
 "A record that cannot be forwarded faithfully is degraded or dropped alone; it never stops later records from being forwarded and never raises in the logging call; and a handler or filter of the server's logger that fails for one record does not affect the others. Logging never waits for the log server: without a server, or with one that does not keep up, the calls return at once, and the sender closes and the process exits within a few seconds. "
 "Delivered records keep their level, logger name, formatted message and creation time, and carry the originating host, process and thread names.",
 ['schedules', 'inputs', 'histories'], "all interleavings of 2 logging threads, the forwarding thread and close; all record shapes from an alphabet covering each code path, in every order of up to 3 records",
 "the logging tests log one or two plain messages from one thread; the test for records logged right before exit is flaky and excluded",
 ['log/remote.py'],
 [('queue and forwarding thread', 'teleprox/log/remote.py:LogSender'), ('receiving thread', 'teleprox/log/remote.py:LogServer')],
 ['records handled by the server-side logger'])

prop('C17', 'Log routing follows the configured server and level',
 "Records go to the log server that was most recently configured for the process, and to no other, from the moment the new address is set; the address reported for the process is that of its own log server if it has one and otherwise the last one set, and is passed on to the processes it starts. A sender that a program attaches to a logger forwards exactly the records which that logger gives it and which pass the sender's own level and filters, to the server it was connected to last. "
 "A log server passes on exactly the records at or above its logger's effective level (or all of them if level filtering is turned off), and a stopped log server releases its socket and handles nothing more.",
 ['schedules', 'histories', 'configurations'], "all histories up to depth 4 over {set address A/B, log at each level, change server level, start/stop server} with the forwarding thread interleaved at every point",
 "one test reconnects a sender once, while idle",
 ['log/remote.py', 'process.py'],
 [('global sender and server', 'teleprox/log/remote.py:set_logger_address/start_log_server'), ('filter_by_level', 'teleprox/log/remote.py:LogServer.run')],
 ['records handled by each server-side logger', 'get_logger_address()'])

prop('C18', 'Captured process output is logged completely and in order',
 "Every line a captured child process writes to stdout or stderr appears as exactly one log record, complete and in order per stream, marked with the process name and stream, at INFO level for stdout and WARNING for stderr, including empty lines, lines with undecodable bytes or formatting characters, and a final line without newline. "
 "Nothing the child writes can stop the capture (so that the child never blocks on a full pipe), and all output written before the process ended is logged even if it is stopped, killed or waited for.",
 ['inputs', 'schedules', 'histories'], "all outputs of up to 3 chunks from an alphabet of lines (plain, empty, unterminated, non-UTF-8, percent signs, long), on one or both streams, interleaved with stop/wait at every point",
 "tests look for one short ASCII line per stream; the quick-exit variant is flaky and excluded",
 ['log/stdio.py', 'process.py'],
 [('pipe polling threads', 'teleprox/log/stdio.py:PipePoller'), ('wait()', 'teleprox/process.py:ChildProcess.wait')],
 ['records emitted for the child'])

prop('C19', 'The console log handler prints every record once, in time order',
 "Every record given to the time-sorting log handler is written exactly once, with the text it had when it was logged and a header naming the host, process and thread it came from; records whose arrival is delayed by less than the handler's hold time are written in order of creation time; and all records still held are written when the process exits; other handlers get the record unaltered. "
 "This holds when records arrive from several threads while the handler is writing or flushing.",
 ['schedules', 'histories'], "all arrival orders and delays of up to 4 records over 2 emitting threads, with the writer thread and the exit flush interleaved at every point",
 "no test checks the handler's output",
 ['log/handler.py'],
 [('sorted hold list and lock', 'teleprox/log/handler.py:RPCLogHandler')],
 ['text written to the stream'])

prop('C20', 'Timers call back at the right times and can be restarted',
 "A started timer calls its callback repeatedly, never twice within less than the interval (start to start) and not more than the limit if one is given; after stop() has returned, at most a call already under way completes and no further call begins. "
 "Starting a timer again after it was stopped, reached its limit or failed makes it run again with a fresh count, whatever the timing, and it never makes two threads call at once. "
 "A callback that is a proxy (including a proxy to a method of a remote object) is invoked through a connection belonging to the timer's own thread. An exception that a callback raises is reported by the exception hook of the threads.",
 ['schedules', 'histories'], "all histories up to depth 4 of {start, stop, wait} with every interleaving against the timer thread, intervals and callback durations shorter and longer than each other, limits 1-3, local and proxied callbacks",
 "timers have no test at all",
 ['timer.py', 'server.py', 'proxy.py'],
 [('running flag, count and lock', 'teleprox/timer.py:Timer'), ('copy of the proxy for the timer thread', 'teleprox/proxy.py:ObjectProxy._copy')],
 ['(virtual) times of the calls'])

prop('C21', 'A Qt server runs every request in the GUI thread and replies to it',
 "A server run alongside a Qt event loop executes every request exactly once, in the thread of the event loop and in arrival order per client, while its socket is used only by its polling thread; each reply reaches its caller. "
 "When it closes, the reply to the closing client and the notices to all others are still delivered, the application is asked to quit if so configured, the polling ends, and no further request is executed.",
 ['schedules'], "all interleavings of 2 clients, the polling thread and the event loop up to the deviation bound, including close with requests queued at every stage",
 "test_qt_rpc makes a few calls from one client with the event loop otherwise idle",
 ['qt_server.py', 'qt_poll_thread.py', 'server.py'],
 [('request signal and return socket', 'teleprox/qt_poll_thread.py:QtPollThread'), ('process_action/_final_close', 'teleprox/qt_server.py:QtRPCServer')],
 ['thread in which published objects are called', 'replies'])

prop('C22', 'Qt is imported only on request and never overridden',
 "Importing the package or asking whether Qt is loaded never imports Qt; when Qt is requested, the binding that is already loaded in the process is used, otherwise the one explicitly asked for, otherwise the first importable one in the documented order, and from then on always the same one. "
 "Asking for another binding than the one loaded raises ValueError, and a failed request raises ImportError (every time, until it can succeed), never leaving a partial namespace behind.",
 ['histories', 'configurations'], "all subsets of importable bindings (also half-importable ones) x all histories up to depth 4 over {check, import any, import a given binding, program imports a binding itself}",
 "test_qt runs three fixed histories with the one binding that is installed",
 ['qt_util.py', 'qt.py'],
 [('HAVE_QT / QT_LIB / qt_namespace', 'teleprox/qt_util.py')],
 ['bindings imported', 'QT_LIB and namespace returned'])

prop('C23', 'Shared arrays share their contents and are freed only by their owner',
 "A shared array has the shape, dtype and contents it was created with, for any shape and dtype and whatever the memory layout of the source; a copy sent to another process sees the same shape, dtype and contents, and a write on either side is seen on the other. "
 "Clean-up (explicit or at exit) releases the blocks created by that process as owner, and never destroys one merely received from elsewhere or created with closing disabled; failing to create an array leaves no block behind.",
 ['inputs', 'histories'], "all shapes up to rank 3 (including empty and rank 0) x a set of dtypes x memory layouts; all histories up to depth 4 of {create, copy, send, write, clean up} over 2 processes",
 "shared memory has no test at all",
 ['shmem.py', 'serializer.py'],
 [('all_shmem / close_all', 'teleprox/shmem.py'), ('__reduce__', 'teleprox/shmem.py:SharedNDArray')],
 ['array contents on both sides', 'shared memory blocks that exist'])

prop('C24', 'Published names form one consistent namespace',
 "An item published under a name, by the server's process or by any client, is what every client (and the server itself) gets for that name until it is published again: by value for serializable types, otherwise as a proxy to that one object. "
 "Publishing returns only when it has taken effect, names do not affect one another, an unknown name is an error naming it, and concurrent publishers and readers see some single order of the publications.",
 ['schedules', 'histories'], "all interleavings of 2-3 threads doing up to 2 publish/get operations each on 2 names; all sequential histories up to depth 4, checked for linearizability",
 "test_published_objects publishes and reads two names from one client",
 ['server.py', 'client.py'],
 [('_namespace, get_item/set_item', 'teleprox/server.py')],
 ['client[name]', 'server[name]'])

prop('C25', 'Uncaught exceptions are logged once and change nothing else',
 "With exception logging installed (as it is in every spawned process), an exception that reaches the top of any thread, or that is raised by a request that wants no reply, produces exactly one log record containing its traceback, whether logging was installed once or several times. "
 "Afterwards the process, its server and its other threads go on unharmed.",
 ['histories', 'schedules'], "all histories up to depth 3 over {install, raise in main, raise in thread, raise in no-reply request, raise exception with failing str} under all interleavings",
 "test_unhandled_exception (excluded from the stable set) raises one exception of each kind",
 ['log/handler.py', 'server.py', 'bootstrap.py'],
 [('log_exceptions hooks', 'teleprox/log/handler.py')],
 ['records logged', 'later requests'])

prop('C26', 'Process clean-up helpers kill what they were given and nothing else',
 "The clean-up helpers signal only processes they were told about (registered, given by id, or matching the given search text), report exactly those that were still alive, tolerate processes that vanish at any moment, and never mask an exception raised in the guarded block. "
 "The port check reports open exactly when something accepts connections at the address, closed when the connection is refused and timeout when nothing answers in time.",
 ['histories', 'fault_sequences', 'inputs'], "all sets of up to 3 processes x alive/dead/vanishing at each step x exception or none in the block; all connection outcomes",
 "the helpers are only used by tests, on the processes of the tests themselves",
 ['util.py'],
 [('ProcessCleaner, kill_procs, assert_pids_dead', 'teleprox/util.py'), ('check_tcp_port', 'teleprox/util.py')],
 ['signals sent', 'exceptions and return values'])

prop('C27', 'The measured clock offset is right to within the round-trip delay',
 "The clock difference a client measures to its server equals the true offset of the two clocks to within half of the longest round trip of the measurement, in sign and magnitude, for every pattern of message delays in either direction.",
 ['schedules', 'inputs'], "all patterns of up to 3 delayed messages (delays from a small set, either direction) over the measurement's requests, x positive, zero and negative true offsets",
 "measure_clock_diff has no test",
 ['client.py'],
 [('measure_clock_diff', 'teleprox/client.py:RPCClient')],
 ['return value of measure_clock_diff()'])

prop('C28', 'The log viewer is handed every record once, in order, in the GUI thread',
 "Every log record accepted by the logger a LogViewer was created for (given by name or as an object, the root logger included, with records of its child loggers) and by the level and the filters of the viewer's handler is handed to the viewer's new_record() exactly once and unaltered, in the GUI thread, the records of each thread in the order they were logged; a logging call never waits for the GUI thread, and viewers do not affect each other. "
 "This holds for records logged by several threads at once, by the GUI thread itself and by other processes through a log server.",
 ['schedules', 'histories', 'inputs'], "all schedules of up to 3 logging threads, a log server and the GUI thread (busy, polling or in its event loop) up to a deviation bound, with switches between any two lines of the module; all combinations of logger, levels and filters; all histories of up to 4 attached and detached viewers",
 "the log viewer has no test",
 ['log/logviewer.py'],
 [('handler and signal', 'teleprox/log/logviewer.py:QtLogHandler'), ('connection to the widget', 'teleprox/log/logviewer.py:LogViewer')],
 ['records passed to new_record() and the thread it runs in'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
