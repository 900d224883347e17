#!/usr/bin/env python3
"""Authoring aid: writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": ["src/pypsrp/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    if "state" in a: a["state"] = [{"name": s, "where": "src/pypsrp/powershell.py"} for s in a["state"]]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Every fragment of every PSRP message is sent, once and in order",
  "Whenever the client turns a protocol message into fragments, every fragment reaches the server exactly once and in order: opening a pool, invoking a pipeline, feeding it input, exchanging keys and answering host calls all transmit the whole message, however many fragments it takes. Fragments that create or feed a pipeline carry that pipeline's command id and pool fragments none.",
  ["inputs"], "all message sizes, hence all fragment counts (1, 2, many), for each operation that transmits a message",
  "The replayed tests only send messages that fit one fragment (a few have two), so a fragment dropped, duplicated or reordered past that never shows.",
  ["powershell.py"], [("pool open", "RunspacePool.open"), ("pipeline creation and input", "PowerShell._invoke, PowerShell.begin_invoke"), ("key exchange", "RunspacePool.exchange_keys"), ("host response", "RunspacePool._process_host_call")],
  observe_at=["WinRS.open", "WinRS.command", "WinRS.send"])
p("C02", "Fragments partition the message, numbered, flagged and within the size budget",
  "The fragments of a message are consecutive, non-overlapping slices that concatenate to exactly that message, share one object id that no other message uses, are numbered 0,1,2,... and flagged start only on the first and end only on the last. The payload of a fragment plus the 21-byte fragment header never exceeds the connection's current payload limit, including after that limit is renegotiated and when messages share a fragment.",
  ["inputs", "configurations"], "all message lengths, all payload limits, all message batches",
  "Tests use a handful of fixed lengths; boundary arithmetic (exact multiples, leftover space, a renegotiated limit) ranges over all lengths and limits.",
  ["powershell.py"], [("fragmenting", "Fragmenter.fragment, fragment_multiple, _byte_iterator"), ("wire layout", "Fragment.pack/unpack"), ("renegotiated limit", "RunspacePool._process_session_capability")])
p("C03", "Reassembly only accepts in-order fragments and never mixes or loses messages",
  "Incoming fragments are grouped by object id only; a fragment whose number is not the next expected one for its object raises an error and is never delivered. A message is delivered exactly when its end fragment arrives, as the concatenation of its parts in order, its reassembly state is then discarded, and incomplete messages survive until later data completes them.",
  ["inputs", "histories"], "all sequences of fragments over all object ids and all ways of splitting them over receives",
  "Tests feed a few well-formed streams; interleaved objects, messages split over several receives and wrong fragment numbers are sampled once or never.",
  ["powershell.py"], [("reassembly", "Fragmenter.defragment"), ("fragment header", "Fragment.unpack")])
p("C04", "Every message type is encoded, decoded and routed consistently",
  "Every PSRP message type the protocol defines has one numeric code as specified by MS-PSRP, is decoded into the message class that declares that same code, and the header is written and read in the same layout (destination, type, pool id, pipeline id, data). Every message type the server can send to a pool or pipeline reaches its handler, and a message no handler exists for is kept and returned, never an error.",
  ["inputs"], "all message types, each in pool and pipeline context",
  "Recorded sessions contain only the message types those sessions happened to produce.",
  ["messages.py", "powershell.py"], [("codes", "MessageType"), ("decode table", "Message.unpack"), ("header", "Message.pack/unpack"), ("routing", "RunspacePool._parse_responses")])
p("C05", "Received records land in their own stream, in arrival order, none lost",
  "While a pipeline is polled, each error, warning, verbose, debug, progress and information record is appended to the stream of its own kind on that pipeline, each output object is appended to the output, in arrival order, and a final error attached to the pipeline state is added to the error stream. The pipeline's state follows the state the server reports, and it is marked as having errors when that state is failed.",
  ["histories", "inputs"], "all sequences of records over all record kinds and states",
  "Tests replay particular sequences; a swapped or overwriting stream shows only for the record kind concerned.",
  ["powershell.py"], [("record handlers", "PowerShell._process_*"), ("output", "PowerShell.poll_invoke"), ("polling", "PowerShell.end_invoke")])
p("C06", "A WSMan response is only used if it answers the request that was sent",
  "Every request carries a fresh unique message id, and a response whose relates-to id is missing or different raises an error instead of being returned to the caller.",
  ["inputs", "fault_sequences"], "all requests and all response documents",
  "The test transport always replays a matching response.",
  ["wsman.py"], [("correlation", "WSMan.invoke"), ("request header", "WSMan._create_header")])
p("C07", "HTTP and WSMan failures always surface, as the documented exception",
  "A response with status 401 raises an authentication error, any other HTTP error status raises a WSMan fault when the body is a SOAP fault and otherwise a transport error carrying the status and body; none is returned as data or swallowed. When a client polls for output, only the operation-timed-out fault (0x80338029) is treated as 'no data yet'; every other fault propagates.",
  ["fault_sequences", "inputs"], "all HTTP statuses, fault documents and fault codes at every request",
  "Tests raise a few fixed statuses and fault codes.",
  ["wsman.py", "powershell.py", "shell.py"], [("status check", "_TransportHTTP._send_request"), ("fault parsing", "WSMan.invoke, WSMan._parse_wsman_fault"), ("timeouts", "PowerShell.poll_invoke, Process.poll_invoke")])
p("C08", "Only receives are resent, boundedly, under a fresh security context",
  "A request is resent after a connect or read timeout only if it is a receive; every other operation is attempted once, so its effect cannot be duplicated. Resends are limited to the stated number, after which the timeout is raised, and after a timed-out request the message encryption context is discarded and set up again before anything else is sent.",
  ["fault_sequences"], "all sequences of timeouts at the handshake or the request, for every operation",
  "Timeout sequences at each position are not replayed; the mocks time out in one or two places.",
  ["wsman.py"], [("retry loop", "_TransportHTTP.send"), ("operations", "WSMan.receive and its siblings"), ("adapter retries", "_TransportHTTP._build_session")])
p("C09", "When message encryption is required, no payload is sent in clear",
  "Message encryption is required for plain HTTP unless the user said never, and for HTTPS only if the user said always; a combination of encryption setting and authentication that cannot honour this is rejected before any connection. When required, every request body sent is the encrypted form (apart from the empty authentication request), with matching content type and length headers, and when not required it is the plain SOAP message.",
  ["configurations", "inputs"], "all combinations of ssl, encryption setting and auth protocol, and all messages",
  "Tests sample some combinations; an unprotected send path would need the specific combination and message.",
  ["wsman.py", "encryption.py"], [("requirement", "_TransportHTTP.__init__"), ("wrapping", "_TransportHTTP.send"), ("framing", "WinRMEncryption.wrap_message")])
p("C10", "Encrypted messages are framed losslessly and decrypted only if intact",
  "An outgoing message is split into consecutive parts covering it exactly (16 KiB for CredSSP, one part otherwise), each part sent with its own original length and its own signature and ciphertext. An incoming part is accepted only if the decrypted size equals its announced length, otherwise an error is raised; accepted parts are concatenated in order, and a response announced as encrypted is always decrypted before use.",
  ["inputs", "fault_sequences"], "all message lengths, protocols and response bodies",
  "Tests use a few short bodies; chunk boundaries and mismatching lengths range over all sizes.",
  ["encryption.py", "wsman.py"], [("wrap", "WinRMEncryption.wrap_message"), ("unwrap", "WinRMEncryption.unwrap_message"), ("response", "_TransportHTTP._send_request")])
p("C11", "Runspace pool operations obey the pool state machine",
  "Each pool operation (open, connect, disconnect, reset, get command metadata, close, set runspace counts) contacts the server only in the states in which it is allowed; in the states where it is a no-op it returns without sending anything, and in every other state it raises the invalid-state error without sending anything. After success the pool is in the state the operation promises, and disconnecting also marks every pipeline of the pool disconnected.",
  ["histories", "programs"], "all operations in all of the pool states",
  "Tests call operations in the usual order and check a few wrong orders.",
  ["powershell.py"], [("pool operations", "RunspacePool.open/connect/disconnect/close/reset_runspace_state/get_command_metadata")],
  state=["RunspacePool.state"])
p("C12", "Pipeline operations obey the pipeline state machine",
  "Invoking, stopping, closing, connecting to and nesting a pipeline contact the server only from the states in which each is allowed; otherwise they raise the invalid-state error (or are the documented no-op) without sending anything. Invoking without commands is rejected, a started pipeline is registered with its pool before the server can answer and is running afterwards, and stop and close send their own signal (ctrl-c, terminate) for that pipeline's command and remove it from the pool.",
  ["histories", "programs"], "all operations in all of the pipeline states",
  "Tests exercise mostly legal orders of calls.",
  ["powershell.py", "shell.py"], [("pipeline operations", "PowerShell.begin_invoke/stop/close/connect_async/create_nested_power_shell"), ("signals", "SignalCode")],
  state=["PowerShell.state"])
p("C13", "Pipeline input always ends with exactly one end-of-input",
  "If input is given when invoking a pipeline, the pipeline is created expecting input, every input object is sent once and in order, and exactly one end-of-input message follows the last one; if none is given the pipeline is created with no input and nothing more is sent.",
  ["inputs"], "all inputs: none, single values, lists, generators of any length",
  "Tests use one or two input shapes; the end marker must be right for each length and shape.",
  ["powershell.py"], [("input loop", "PowerShell.begin_invoke")])
p("C14", "Pool requests wait for the answer to their own call id",
  "A pool request that expects a reply (runspace counts, availability, reset) uses a call id no earlier request of that pool used, is registered before it is sent, waits for the reply carrying that same id, and is deregistered once it is answered. A negative reply raises an error and leaves the locally recorded limits unchanged; availability queries never change the limits.",
  ["histories", "schedules"], "all sequences of pool requests and replies, positive or negative",
  "Tests replay one request at a time with a positive reply.",
  ["powershell.py"], [("request and reply", "RunspacePool.min_runspaces/max_runspaces setters, get_available_runspaces, reset_runspace_state"), ("reply routing", "RunspacePool._process_runspacepool_availability")],
  state=["RunspacePool.ci_table", "RunspacePool._ci_counter"])
p("C15", "Key exchange happens once, is bounded, and secrets need the negotiated key",
  "A server's request for the public key starts a key exchange; an exchange runs at most once per pool, waits no longer than the session key timeout and then raises. When the session key arrives the secure-string cipher is set from it and the private key is dropped; until a key is negotiated, serialising a secure string raises an error and never emits the text in the clear, and a received secure string is handed back still encrypted.",
  ["histories", "inputs"], "all orders of key messages and secure string uses",
  "Recorded sessions exchange keys in one order; the no-key paths are checked for single values.",
  ["powershell.py", "serializer.py"], [("exchange", "RunspacePool.exchange_keys, _process_encrypted_session_key"), ("secure strings", "Serializer._serialize_secure_string/_deserialize_secure_string")])
p("C16", "Secrets never reach the logs, exception texts or string forms",
  "Passwords, private keys, certificate key passwords, session keys and the clear text of secure strings are never passed to a log call, put in an exception message, or written anywhere but the authentication libraries and the encrypted serialised form.",
  ["programs", "inputs"], "all log, warning and exception sites and all values that carry a secret",
  "Tests do not look at log output.",
  ["wsman.py", "negotiate.py", "powershell.py", "serializer.py", "client.py", "_pool_manager.py"], [("credentials", "_TransportHTTP, HTTPNegotiateAuth"), ("session key", "RunspacePool._process_encrypted_session_key")])
p("C17", "File transfers verify integrity and leave no partial results",
  "Fetching writes the destination only after the hash of everything received equals the hash reported by the server; on a mismatch, an error or an empty reply it raises and the destination is untouched, and on every exit the temporary file is closed and deleted. Copying sends every byte of the local file in order followed by its checksum, and the remote script moves the file into place only if the checksum matches.",
  ["inputs", "fault_sequences", "crash_points"], "all file contents and sizes, and a failure at any step",
  "Integration tests with real servers cover the good path; failures at each step and hash mismatches are not replayed.",
  ["client.py", "pwsh_scripts/copy.ps1", "pwsh_scripts/fetch.ps1"], [("fetch", "Client.fetch"), ("copy", "Client.copy"), ("remote side", "copy.ps1, fetch.ps1")])
p("C18", "Client helpers release the remote shell or pool and report results faithfully",
  "Running a command, a script, a copy or a fetch closes the remote shell or pool it opened on every exit, including errors. The reported success flag, return code, stdout, stderr and streams are those the server produced, and a failed remote script in copy or fetch raises an error.",
  ["fault_sequences"], "a failure at any step of each helper",
  "Tests fail at one or two steps.",
  ["client.py", "shell.py"], [("helpers", "Client.execute_cmd/execute_ps/copy/fetch"), ("error mapping", "Client._handle_powershell_error")])
p("C19", "WinRS shells are deleted exactly if open, with all output captured in order",
  "A shell is created before use and deleted once when closed, only if it was opened, always addressed by the selectors the server returned. A process's output is accumulated per stream in arrival order without losing bytes, its return code and state follow the server, and its signals and input address its own command id and mark the end of input only when asked.",
  ["histories", "inputs"], "all sequences of receives, sends and signals",
  "Tests replay a few recorded sessions.",
  ["shell.py"], [("shell", "WinRS.open/close/send/receive/signal/command"), ("process", "Process.begin_invoke/poll_invoke/end_invoke/send/signal")])
p("C20", "Each WSMan operation sends its own action and hands back the response body",
  "Each WSMan operation issues a single request with the action URI of that operation and exactly the resource, resource body, options, selectors and timeout it was given, and returns the body of the response. The request header always carries action, message id, resource URI, endpoint, session id, locales, maximum envelope size and operation timeout.",
  ["inputs"], "all operations and all argument combinations",
  "Tests of a replayed session compare XML for the operations and argument combinations that session used.",
  ["wsman.py"], [("operations", "WSMan.command ... WSMan.signal"), ("header", "WSMan._create_header"), ("sets", "OptionSet, SelectorSet")])
p("C21", "Timeouts given by the caller reach the wire and the HTTP layer outlasts them",
  "A per-call operation timeout is the operation timeout of every request made for that call, and the HTTP timeout of such a request is longer than it; without one the connection's default operation timeout and the configured connect and read timeouts are used.",
  ["inputs", "configurations"], "all public calls accepting a timeout and all values",
  "Tests pass a timeout in few calls and the replay transport ignores the HTTP timeout.",
  ["wsman.py", "shell.py", "powershell.py"], [("propagation", "PowerShell.poll_invoke, RunspacePool.is_alive, WinRS.receive, WSMan.invoke, _TransportHTTP.send")])
p("C22", "Certificate validation and proxy settings are applied exactly as configured",
  "The server certificate is verified unless the user turned validation off; a given CA path is used as is, and environment CA settings apply only when validation is left simply on. An explicit proxy replaces the environment proxies, disabling proxies bypasses them, warnings about insecure requests are silenced only when validation is off, and certificate authentication without TLS or its key files is rejected.",
  ["configurations"], "all combinations of certificate, proxy and environment settings",
  "Tests sample combinations.",
  ["wsman.py", "_pool_manager.py"], [("session", "_TransportHTTP._build_session"), ("auth builders", "_TransportHTTP._build_auth_*")])
p("C23", "Authentication sends only what was configured and binds the channel",
  "Each authentication protocol is set up with exactly the credentials and options configured for it, refusing to start when mandatory ones are missing. Negotiate authentication sends its channel binding token for the server's certificate on TLS unless disabled, delegates credentials only when asked, requests encryption keys only when message encryption is required, and fails when the server offers none of the protocols it may use.",
  ["configurations", "inputs"], "all configurations and all server challenges",
  "Unit tests mock one challenge flow.",
  ["negotiate.py", "wsman.py"], [("handshake", "HTTPNegotiateAuth.handle_401"), ("builders", "_TransportHTTP._build_auth_*")])
p("C24", "A liveness check never opens a connection and never hides other faults",
  "Checking whether a pool is alive never opens a new network connection, in this thread only and restored on every exit; it returns false and marks the pool closed when the shell is disconnected, unknown, timed out or unreachable, true otherwise. Any other fault propagates.",
  ["fault_sequences", "schedules"], "all outcomes of the probe request, including concurrent requests on other threads",
  "Tests mock some of the outcomes.",
  ["powershell.py", "_pool_manager.py"], [("probe", "RunspacePool.is_alive"), ("guard", "DisableNewConnectionsContext, New*Connection pools")])
p("C25", "Connection pool customisation stays local to each session",
  "Building a session never changes process-wide state of the HTTP library: the pool classes used are per adapter, so creating any number of sessions leaves other users of the library unaffected and never nests the customisation.",
  ["histories"], "any number of sessions created in any order",
  "A leak shows only after many sessions or in another user of the library.",
  ["_pool_manager.py"], [("adapter", "create_request_adapter")])
p("C26", "Host calls run the method the server named and answer the call it made",
  "Every host method id of the protocol invokes the method of that name on the host part that implements it, with the arguments sent; an unknown or unimplemented id is reported, not misrouted. A response is sent only for calls that return a value, carries the same call id and method id, names the same pipeline, and goes to the prompt-response stream.",
  ["inputs"], "all host method ids, for pool and pipeline host calls",
  "Tests call a handful of methods.",
  ["host.py", "powershell.py", "complex_objects.py"], [("dispatch", "PSHost.run_method"), ("response", "RunspacePool._process_host_call"), ("ids", "HostMethodIdentifier")])
p("C27", "Every declared property of a wire object exists and has a unique wire name",
  "Each protocol object can be serialised right after construction: every property it declares exists on a new instance, no two of its properties share a wire name, and every enumeration names exactly the values it defines. The type names declared for an object are the ones serialised.",
  ["inputs"], "all protocol object classes and all of their properties",
  "Tests construct some of the classes with some properties.",
  ["complex_objects.py", "messages.py", "serializer.py"], [("declarations", "ComplexObject subclasses")])
p("C28", "Serialiser and deserialiser agree on every tag, type and escape",
  "Every primitive and container tag the serialiser emits is one the deserialiser reads as the same kind of value, following MS-PSRP's tag table, and values with no explicit type are given a tag for their own Python type. Text that is not representable (control characters, lone surrogates, literal escape sequences) is escaped on output and unescaped on input in property names and values alike, and escaping never depends on other values serialised before.",
  ["inputs"], "all value types and all strings",
  "Tests sample types and strings.",
  ["serializer.py"], [("tag tables", "Serializer.serialize/_get_types_from_obj/deserialize"), ("escaping", "Serializer._serialize_string/_deserialize_string")])
p("C29", "Serialising never alters shared type descriptions, so elements stay independent",
  "Serialising or deserialising a value never modifies the caller's type description, a class's property declarations or the description shared by the elements of a collection; each element is handled by its own type, and object references resolve only within the document they occur in.",
  ["inputs", "histories"], "all collections, heterogeneous ones included, and any sequence of documents",
  "Tests use homogeneous collections; a leak needs a particular order of element types.",
  ["serializer.py", "complex_objects.py"], [("metadata", "Serializer._serialize_lst/_que/_stk/_dct, deserialize")])
p("C30", "Features newer than the server's protocol are refused or left out",
  "Operations and command properties that need a newer protocol version (state reset 2.3; merging warning, verbose, debug 2.2 and information 2.3) are refused, or omitted from what is sent, when the server negotiated an older version, and offered otherwise; versions are compared numerically part by part.",
  ["configurations"], "all negotiated versions and all version-dependent features",
  "Tests use one or two versions.",
  ["powershell.py", "complex_objects.py", "_utils.py"], [("gates", "PowerShell._set_merge_to, merge_all, RunspacePool.reset_runspace_state, Command"), ("comparison", "version_equal_or_newer")])
p("C31", "Everything the library raises on purpose derives from one error type",
  "Every exception class the library defines for its own failures derives from its base error type, and every error it raises deliberately is one of those or a standard error for bad arguments, so a caller handling the base type misses no protocol failure; faults keep code, machine, reason and provider details.",
  ["inputs", "fault_sequences"], "all raise sites",
  "Tests trigger some of the raise sites.",
  ["exceptions.py"], [("hierarchy", "exceptions module"), ("raise sites", "whole package")])
p("C32", "Values survive a serialise-deserialise round trip unchanged",
  "For every value of a supported type, deserialising its serialised form yields an equal value.",
  ["inputs"], "all values of all supported types",
  "Tests sample values.",
  ["serializer.py"], [("round trip", "Serializer.serialize/deserialize")])
p("C33", "Every request fits the maximum envelope size announced to the server",
  "The size in bytes of every SOAP request never exceeds the maximum envelope size announced in it.",
  ["inputs", "configurations"], "all operations, configurations, and payloads",
  "Depends on run-time lengths of every header field.",
  ["wsman.py"], [("estimate", "WSMan._calc_envelope_size")])
p("C34", "Polling ends when the server reports a final state",
  "Waiting for a pipeline or process returns once, and only once, the server has reported a final state, however long that takes and whatever arrives before it.",
  ["schedules", "fault_sequences"], "all server behaviours over time",
  "Needs unbounded histories of server replies.",
  ["powershell.py", "shell.py"], [("wait loops", "PowerShell.end_invoke, Process.end_invoke")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
