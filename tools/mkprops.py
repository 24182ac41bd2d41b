#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is this list)."""
import json, os
CS = "lib/Socket/CSocket/CSocket.cpp"; CSH = "include/bcl/CSocket.h"; SH = "include/bcl/Socket.h"
IC = "include/bcl/IntrusiveConnection.h"; RD = "include/bcl/RedirectIO.h"; DG = "include/bcl/Diagnostic.h"
TQ = "include/bcl/transparent_queue.h"; JS = "include/bcl/Json.h"; ND = "lib/Socket/NodeJSSocket/NodeJSSocket.cpp"
NOTEST = "The existing five tests only compare and fill a TransparentQueue; nothing in them "
P = []
def p(id, title, st, over, q, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(obs), hook_needed=None)))
p("C01", "Received bytes reach every listener once, in order, on their own connection",
  "For every connection served by the C socket server, each receive listener is given exactly the bytes the client sent on that connection, zero bytes included, in order, without loss, duplication or bytes of another connection, in chunks no longer than the buffer size passed to startServer. All listeners of a connection see the same chunks, in registration order, and everything that arrived before an orderly end of stream is delivered before the connection is reported closed.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "every byte content, segmentation, buffer size, number of listeners and clients, thread schedule, interrupted or failing receive",
  NOTEST + "opens a socket; a test would see one segmentation on one schedule.", [CS, SH],
  [("SocketImp::run receive loop", CS), ("receiveData", CS)], [("mReceiveCallbacks", "listeners in registration order", CS)], ["Socket::receive listeners", "recv()"])
p("C02", "A message reported as sent is on the wire whole and in order, else an error",
  "When sending a message on a C socket connection is reported with the Send status, the client is sent exactly that message, complete, directly after the previously sent ones. When that is not possible the send is reported as SendError instead, at most a prefix of the failed message goes out with nothing after it, and the connection is closed once the current receive listeners have run.",
  ["inputs", "fault_sequences", "schedules"],
  "every message content and size, partial write, interruption, full send buffer, reset peer and resource error at any point",
  NOTEST + "sends anything, and real loopback sends never come back short.", [CS, SH], [("SocketImp::send", CS), ("sendData", CS)],
  [("mState", "Open, OnClose after a failed send, Closed", CS)], ["send()", "status handler"])
p("C03", "A connection is closed exactly once and its closed listeners run once, last",
  "Every accepted C socket connection that ends (end of stream, receive error, failed send, exception of a receive listener or an allocation failing while it is served) has its descriptor closed exactly once and no other descriptor is ever closed or used after closing; then each closed listener is invoked exactly once, in registration order, after the close and after every receive listener. The flag passed is true when the client ended the stream in an orderly way and closing succeeded, and false after a receive error, a send failure that ended the connection, a failed close, or an exception of a receive listener, which ends only that connection. The connection's memory is released afterwards also when a closed listener throws.",
  ["schedules", "fault_sequences", "histories"], "every way and moment a connection can end, with descriptor numbers being reused at once by later connections",
  NOTEST + "ends a connection; descriptor reuse races need a particular interleaving.", [CS, SH], [("SocketImp::closeSocket", CS), ("SocketImp::run", CS)],
  [("mClosedCallbacks", "closed listeners", CS)], ["close()", "Socket::closed listeners"])
p("C04", "Status events name what happened, once, in order and on the right connection",
  "The status handler of the C socket server is told exactly what happened: one Listen with the real bound address and port, one Accept per accepted connection with both real endpoint addresses and ports, one Receive per delivered chunk, one Send or SendError per message, one AcceptError per failed accept, one ReceiveError per failed receive, one ServerAddressError per accepted connection whose own address cannot be found out, an UnknownError for an accepted connection that cannot be served, and one Close or CloseError per closed descriptor. Events of a connection carry that connection's addresses, begin with Accept and end with Close or CloseError; AcceptError and ServerAddressError carry the bound address of the server.",
  ["schedules", "fault_sequences", "configurations"], "every history of connections, faults and schedules; fixed and system-chosen port",
  NOTEST + "starts a server.", [CS, CSH], [("status notifications", CS), ("Connection", CSH)], [("mConnection", "endpoint description", CS)], ["SocketStatusHandler"])
p("C05", "Trouble on one connection never stops the server or disturbs the others",
  "Once listening, the C socket server keeps accepting and serving: a client that resets, vanishes, stalls or half-closes, a failed accept, a failure to start a connection's thread, a failing allocation, a slow closed listener or a reused descriptor ends at most the connection concerned and never terminates the process, ends the accept loop or blocks service to other clients. Every well-behaved client that connects is accepted and served within a bounded simulated time once faults stop.",
  ["schedules", "fault_sequences", "histories"], "every sequence of per-connection faults, stalls and descriptor reuse, on every schedule",
  NOTEST + "opens two connections; SIGPIPE, EMFILE, ECONNABORTED and thread failures do not happen on demand.", [CS], [("accept loop", CS), ("one thread per connection", CS)],
  [("ActiveSockets", "connections being served", CS)], ["accept()", "send()"])
p("C06", "The connection limit is never exceeded, and waiting clients get their turn",
  "When startServer is given a positive maximum number of connections, there are never more than that many connections accepted and not yet closed at the same time, and no client is refused because of the limit. A client that arrives below the limit, or waits when a connection ends and its place becomes free, is accepted within a bounded simulated time; with a maximum of 0 there is no limit.",
  ["schedules", "histories", "configurations"], "every maximum, arrival and departure pattern, and schedule",
  NOTEST + "has concurrent clients, and waiting for a slot takes seconds of real time.", [CS, CSH], [("sanitizeConnections and the limit test of the accept loop", CS)],
  [("ActiveSockets", "connections being served", CS)], ["accept()"])
p("C07", "A failed server start is reported by its cause and releases everything",
  "If resolving the host, creating, configuring, binding, naming or listening on the socket fails, startServer reports exactly the status of the failed step (HostnameError, CreateError, OptionError, BindError, ServerAddressError, ListenError), closes the socket exactly once if it was created and reports Close or CloseError for it, and returns without reporting Listen or accepting. Without such a failure it binds to the requested address and port and listens, also directly after an earlier server on that port has ended.",
  ["fault_sequences", "configurations"], "a failure of every start-up system call, combined with failing close, for every address form",
  NOTEST + "starts a server; the failing calls cannot be provoked from a test.", [CS], [("startServer set-up sequence", CS)], [], ["status handler", "socket calls"])
p("C08", "Every request gets exactly one response, in request order",
  "Over an intrusive connection, the requests in a received message (its pieces separated by the delimiter; a last piece without delimiter counts, a last empty one does not) are handed to the server's answer handlers one at a time, unchanged and in order, the next only after the previous one has been responded. Each request is responded exactly once and in order, with the handler's return value followed by the delimiter. When an allocation fails in between, the failure is passed on to the socket or to the caller of answer(): no request is lost in silence and no handler is given a request that was never received.",
  ["inputs", "schedules"], "every request and response content, joining of requests, delimiter, and interleaving of transport and server threads including spurious wake-ups",
  NOTEST + "uses this header; lost wake-ups and stale data need particular schedules.", [IC], [("connect() receive listener", IC), ("answer()", IC)],
  [("mIsReceive/mIsSend", "hand-over flags between the transport and the server thread", IC)], ["Socket::send"])
p("C09", "Requests that arrive after the server is done are each rejected",
  "Once the server has given up its intrusive connection (the connection object is destroyed, also after an exception in a handler), every request not yet answered and every later request is responded exactly once with REJECT and the delimiter, also when several requests arrive in one message. A response that a handler returned before is still delivered and never replaced by REJECT.",
  ["schedules", "inputs"], "every moment the server may end relative to arriving messages, every joining of requests",
  NOTEST + "uses this header.", [IC], [("~IntrusiveConnection", IC), ("connect() receive listener", IC)], [("mReject", "the server is gone", IC)], ["Socket::send"])
p("C10", "Closing ends answer() without a call, and nobody waits forever",
  "After the socket of an intrusive connection is closed, answer() returns false without invoking its handler, on this and any later call, and it does not return false while the connection is open. Neither the server nor the transport waits forever: a server blocked in answer() is woken by the close, the closed listener returns once the server has noticed or ended, and every delivered message returns once it is answered or the server has ended.",
  ["schedules"], "every interleaving of close, requests, answers, server end and spurious wake-ups",
  NOTEST + "uses this header; a lost wake-up is one interleaving among many.", [IC], [("closed listener", IC), ("answer()", IC)], [("mClose", "the socket is closed", IC)], ["answer()", "closed listener"])
p("C11", "Connection state is shared without races and freed exactly once",
  "On every schedule of transport and server threads, an intrusive connection accesses shared state only with proper synchronisation, never uses memory after it was freed or the socket after it was closed, and has freed everything it allocated, once, when the socket is closed and the server has ended. This holds also when an allocation fails, or a listener cannot be added or the server thread not started, in which case connect() reports the failure by an exception.",
  ["schedules", "fault_sequences"], "every interleaving down to single memory accesses, and thread start failure",
  NOTEST + "uses this header.", [IC], [("ownership protocol for Status between closed/receive listeners and IntrusiveConnection", IC)], [("Status", "shared connection state", IC)], ["heap", "memory accesses"])
p("C12", "Moving an intrusive connection moves the duty to answer or reject",
  "Moving an intrusive connection, by construction or assignment, within or across threads, transfers it completely: only the new object receives and answers requests, and destroying, assigning to or calling answer() on the moved-from object does nothing. Assigning over a live connection gives that one up as its destruction would, self-assignment changes nothing, and assignment yields the assigned object.",
  ["histories", "schedules"], "every sequence of moves, hand-overs between server threads, assignments and destructions interleaved with requests",
  NOTEST + "uses this header.", [IC], [("move constructor and assignment", IC)], [("mStatus", "ownership of the connection", IC)], ["answer()", "Socket::send"])
p("C13", "Redirected output lands in the target file as the mode says",
  "After a successful redirection every byte written to the redirected descriptor is in the target file: mode Rewrite starts from an empty file, mode Append keeps the earlier content and adds behind it, mode Read keeps the file and redirects input from it. Redirection stays in force after the object is destroyed or moved, and a failed redirection leaves the descriptor as it was unless the descriptor had already been switched.",
  ["histories", "fault_sequences", "inputs"], "every mode, previous content, sequence of writes by several writers, short or failing disk operations",
  NOTEST + "redirects anything.", [RD], [("RedirectIO constructor", RD)], [("mFile", "target stream", RD)], ["file content", "descriptor table"])
p("C14", "diff() returns exactly what was written since the mark",
  "On an output redirection without I/O errors, diff() returns exactly the bytes written to the redirected descriptor since the last position setting (the redirection itself, setDiffPos or resetDiffPos), whatever the bytes and however many, and isDiff() is true exactly when there are such bytes. Output being written while they run is either in the result or still reported by a later call, never lost or repeated relative to the marks.",
  ["inputs", "schedules", "histories"], "every content including zero bytes and long lines, every call sequence and writer interleaving",
  NOTEST + "redirects anything.", [RD], [("isDiff/diff/setDiffPos/resetDiffPos", RD)], [("mDiffPos", "marked position", RD)], ["diff()", "isDiff()"])
p("C15", "Failing file operations are reported and never produce wrong data",
  "When opening, redirecting, reading, seeking, flushing or closing the target file fails at any point, RedirectIO records a diagnostic naming the file, the failed operation and its cause, diff() returns an empty string and isDiff() false for that call, and the object stays safe to query, move and destroy. Later calls, once the fault is gone, give correct results again, and a successful operation records no error.",
  ["fault_sequences", "histories"], "an error, short read or full disk at every file operation of every call sequence",
  NOTEST + "redirects anything; file operations do not fail on demand.", [RD, DG], [("storeErrNo paths", RD)], [("mErrors", "recorded diagnostics", RD)], ["errors()", "diff()"])
p("C16", "Each opened target file is closed exactly once, across moves and failures",
  "Every stream RedirectIO opens is closed exactly once: at destruction of the object that owns it at that time, when another redirection is move-assigned over it, or at once when construction fails after opening. Moving transfers the stream, moved-from and default-constructed objects own nothing, and no stream is used after it was closed.",
  ["histories", "fault_sequences"], "every sequence of constructions, moves, assignments and destructions with failing constructions and closes",
  NOTEST + "redirects anything.", [RD], [("destructor, move operations, constructor error paths", RD)], [("mFile/mErrors", "ownership of the stream", RD)], ["fopen/fclose"])
p("C17", "A diagnostic is inserted completely or not at all",
  "Diagnostic::insert either appends one entry with the text 'kind Ccode(position): message' and returns true, or leaves the entries unchanged: a formatting failure returns false and counts one internal error, and a failing allocation is reported by an exception. Earlier entries, their order and text are never changed by a later insertion, clearing or swapping affects exactly the containers concerned, and no memory is leaked or released wrongly.",
  ["fault_sequences", "histories"], "every sequence of insert, clear, swap and iteration with allocation or formatting failing at any point",
  NOTEST + "uses diagnostics; allocation failures do not happen on demand.", [DG], [("Diagnostic::insert", DG)], [("mDiagnostics", "entries", DG), ("mInternalError", "failed insertions", DG)], ["insert()", "iteration"])
p("C18", "A TransparentQueue stays a FIFO queue through failing allocations",
  "A TransparentQueue returns the pointers pushed or emplaced into it in first-in first-out order, with size, empty, front, back and the comparisons agreeing with that sequence through every mixture of push, emplace, pop, copy, move, assignment and swap. An operation whose allocation fails throws and leaves the queues involved valid and holding what they held before, and no internal storage is leaked, shared or freed twice.",
  ["histories", "fault_sequences"], "every operation sequence over several queues with an allocation failing at any point",
  "The existing tests push at most three elements and compare; they never pop, copy, move, swap, assign or fail an allocation.", [TQ], [("push/pop/emplace/copy/move/swap", TQ)],
  [("mIsSingle", "element stored inline or in a queue", TQ)], ["queue operations"])
p("C19", "JSON reading and writing survive allocation failure at any point",
  "When an allocation fails anywhere while JSON text is parsed into or produced from values, the operation ends with the exception or a failure result: the process is not terminated, no memory is leaked or freed twice, and the parser can be used again. A repetition without fault gives the same result as if the failed attempt had never happened, and an operation that reports success under a fault has produced the complete correct result.",
  ["fault_sequences", "inputs"], "an allocation failure at every allocation of every document and value of the supported types",
  NOTEST + "parses JSON.", [JS], [("json::Parser and Traits specialisations", JS)], [], ["Parser::parse", "Parser::unparse"])
p("C20", "Damaged or truncated JSON is refused or read, never read out of bounds",
  "A JSON document in which bytes were lost, cut off, added or changed is either refused, with an error recorded, or read as what it still says: the parser ends, reads nothing outside the text, leaks nothing, and reports success only if the remaining text is one complete well-formed document whose values fit the requested types (numbers in range, array indexes complete, keys and elements of maps and sets single). Text that unparse produced is always accepted and gives back the values it was made from (floating point to six decimals; what is absent, a null pointer, is left out, and an array with a hole is refused as an array), also with the keys of objects in another order and white space between the tokens.",
  ["fault_sequences", "inputs"], "every document of the supported types, every truncation point and corruption, key order and white space",
  NOTEST + "parses JSON.", [JS], [("Lexer and Parser", JS)], [], ["Parser::parse", "Parser::unparse"])
p("C21", "The Node.js addon delivers data and close events faithfully",
  "Through the Node.js addon every data event of the wrapped socket reaches each receive listener once, in order and with exactly its bytes, the close event reaches each closed listener once with the had_error flag, and messages sent by the server reach the JavaScript send function in order. Events or arguments of a wrong type raise a JavaScript exception and never crash or reach the server, and per-event memory is released.",
  ["inputs", "histories", "fault_sequences"], "every event sequence and payload, several connections, wrongly typed events and throwing send functions",
  NOTEST + "builds or loads the addon.", [ND, SH], [("receiveWrapper/closedWrapper/send", ND)], [("mReceiveCallbacks/mClosedCallbacks", "listeners owned by the socket", ND)], ["JavaScript callbacks"])
p("C22", "An addon connection lives until its socket is closed, then it is released",
  "A started addon connection and its listeners stay usable while the socket is open, and through all listeners of the close event, no matter when garbage collection runs or whether JavaScript keeps a reference. After the close event, once JavaScript drops it, the connection, its listeners and the JavaScript functions given to connect are released exactly once.",
  ["schedules", "histories"], "every placement of garbage collections and dropped references in every event sequence",
  NOTEST + "loads the addon; collection timing is not under a test's control.", [ND], [("Ref/Unref of the wrapped connection, destructors", ND)], [("mSocket", "owned socket", ND)], ["destructors under gc()"])
p("C23", "A client's session over the network gets the right answers",
  "With the C socket server and intrusive connections combined, as the library is meant to be used, every well-behaved client gets the handler's answers to its requests, complete, in order and delimited, whatever other clients do, and REJECT after the server of that session has ended. When a client goes away, its server is told by answer() returning false, and all resources of the session are released.",
  ["schedules", "fault_sequences", "histories"], "every mixture of clients, faults, segmentations and schedules over the combined stack",
  NOTEST + "runs the stack.", [CS, IC, SH], [("SocketImp and IntrusiveConnection listeners", CS), ("connect()", IC)], [], ["client side of the simulated network", "answer()"])
TR = "include/bcl/trait.h"; CE = "include/bcl/cell.h"; MA = "include/bcl/marray.h"; MF = "include/bcl/marray_f.h"; VP = "include/bcl/ValuePtrWrapper.h"; TG = "include/bcl/tagged.h"
p("C24", "A trait set owns its descriptions: each one is released exactly once",
  "A TraitSet knows exactly the traits that were set and not unset since, setting a trait unsets those of its group it cannot stand with, and a description stored for a trait is the one get() returns until it is replaced, released, or its trait unset or displaced; then it is deleted exactly once, or handed to the caller by release(). No description is lost, deleted twice or shared by two sets, also when sets are moved, assigned or destroyed. An operation that fails for lack of memory leaves the set unchanged and the description with the caller. Maps of traits built from a set list it under exactly its traits.",
  ["histories", "fault_sequences", "programs"], "every sequence of operations on several sets and descriptors with nested groups of traits, an allocation failing at any point",
  NOTEST + "uses traits, and none makes an allocation fail.", [TR, CE], [("TraitSet", TR), ("TraitDescriptor", TR), ("TraitMapConstructor, StaticTraitMap", TR)],
  [("mValues", "owned descriptions by trait", TR), ("mTD", "bits of the traits set", TR)], ["destructors of descriptions", "is(), get(), release()"])
p("C25", "Arrays, value pointers, cells and tagged tuples keep and release their elements",
  "Multi-dimensional arrays give every element its own place, construct and destroy each exactly once, refuse dimensions too large to exist, and hand their elements over when moved. A ValuePtrWrapper designates its value through insertions, erasures, reorderings and moves of its container until the value is gone. Cells of a StaticMap, tagged tuples and pairs hold what was stored under each key; copying or moving between maps carries over exactly the common cells; swapMemory exchanges two objects. When an element's constructor or assignment or an allocation fails, nothing leaks, no element is destroyed twice, and the other elements keep their values.",
  ["histories", "fault_sequences", "inputs"], "every sequence of operations and dimensions, an allocation or an element's constructor or assignment failing at any point",
  NOTEST + "uses them, and none makes a constructor fail.", [MA, MF, VP, CE, TG, "include/bcl/convertible_pair.h", "include/bcl/utility.h"],
  [("marray", MA), ("marray_f", MF), ("ValuePtrWrapper", VP), ("CopyToCellFunctor, MoveToCellFunctor, CopyFromCellFunctor, MoveFromCellFunctor", CE), ("tagged_tuple", TG)],
  [("mData, mDims, mOffset", "elements of an array and their places", MA)], ["constructors and destructors of elements", "operator[], value<Key>()"])
p("C26", "Servers which run side by side in one process are independent",
  "Several C socket servers may be started in threads of one process, also at the same moment, with different host names, ports, limits and buffer sizes. Each of them binds to the address and port requested for it, and its handler gets the events of its own socket and connections and no others. Its own maximum limits its connections and its own buffer size its chunks. No two of them serve the same address and port. A start of one that fails, also because another one has the address, is reported by its cause to that one only and can be repeated; neither it, nor a full limit, a failing, resetting or staying connection, or a listener of one server which does not return, ends, delays or alters the service of another.",
  ["schedules", "fault_sequences", "configurations"], "every schedule of two to four servers started and served at once, every combination of their addresses, limits and buffer sizes, start-up and connection faults",
  NOTEST + "starts a server; a race between two starting servers needs a particular schedule.", [CS, CSH, SH], [("startServer", CS), ("getAddressInfo", CS), ("SocketImp", CS)],
  [("ActiveSockets", "connections of one server", CS)], ["status handler", "bind()", "accept()", "listeners"])
p("C27", "Threads with their own objects, or only reading one, do not disturb each other",
  "JSON parsers, records and writers, diagnostics, queues, trait sets, arrays and cells keep no state outside of the object they are given, and reading an object does not change it. Threads which use different objects at the same time, or read the same one, each get the results they get alone, free of data races, whichever thread is first to use a part of the library and also when an allocation of one of them fails.",
  ["schedules", "inputs", "fault_sequences"], "every schedule of two to four threads down to single memory accesses, every mixture of what they do, allocation failure in one of them",
  NOTEST + "starts a thread.", [JS, DG, TQ, TR, CE, MA, MF, VP, TG, "include/bcl/utility.h"],
  [("Parser::parse, unparse, Object::name", JS), ("Diagnostic iterators", DG), ("TraitSet::is, get", TR)], [], ["results of every thread", "memory accesses"])
# not simulation targets
p("C30", "Types are computed as documented: type lists, keys, bits of traits",
  "Type lists, tuple utilities and compile-time queries of cells, tags and traits yield for every list of types the documented type, index, mask or Boolean.",
  ["programs"], "every instantiation", NOTEST + "instantiates them.", [CE, TG, TR, "include/bcl/utility.h", "include/bcl/tuple_utils.h", "include/bcl/legacy/cell_legacy.h"], [("template definitions", CE)])
p("C31", "Linear equations are solved exactly and overflow is noticed",
  "Solving equations and systems yields values that satisfy them, and an overflow of the coefficient type is reported instead of wrong values.",
  ["inputs"], "every system of equations", NOTEST + "solves equations.", ["include/bcl/Equation.h"], [("milp solver", "include/bcl/Equation.h")])
p("C32", "Iterator adaptors and chains behave like the sequences they present",
  "A Chain and an IteratorDataAdaptor give the elements of the sequence they present, in order, forwards and backwards.",
  ["inputs"], "every sequence", NOTEST + "uses them.", ["include/bcl/Chain.h", "include/bcl/IteratorDataAdaptor.h"], [("class definitions", "include/bcl/Chain.h")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
