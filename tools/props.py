#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
L = "libamqpprox/amqpprox_"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "Open sessions relay every byte exactly, in order, to the right peer only",
  "Once a session is open, the bytes the broker receives are exactly the whole AMQP frames the client sent, in order, each once, and the same holds from broker to client, however the bytes are cut into TCP segments, whatever the frame types, channels and sizes (up to the maximum frame size), and however slowly either peer reads. Bytes of one session never appear on another session's sockets. Whole frames a peer sent before closing its socket still reach a peer that keeps reading and is not itself sending.",
  ["inputs", "schedules", "histories"], "every stream of AMQP frames in both directions, every segmentation, every interleaving of reads, writes and stalls over several concurrent sessions",
  "The tests push a handful of fixed frames through a mocked socket one at a time; they never vary segmentation, back-pressure, buffer re-use between sessions or frames that straddle reads.",
  [L+"session.cpp", L+"packetprocessor.cpp", L+"frame.cpp", L+"buffer.cpp", L+"bufferpool.cpp", L+"maybesecuresocketadaptor.h"],
  [("read-frame-write loop with carry-over of the incomplete tail", L+"session.cpp readData/handleData/copyRemaining/handleWriteData"),
   ("pass-through of whole frames", L+"packetprocessor.cpp process")],
  ["bytes at the client's and the broker's TCP sockets"])

p("P02", "Handshake to the broker carries the client's own login, tuning and vhost",
  "When a client completes an AMQP login through the proxy, the broker receives the client's mechanism, response, locale, tuning values, vhost and every client property unchanged, in their original order and types, followed only by the proxy's own identification fields naming the client's address and port and the proxy's host and ports. The client in turn sees a valid Start, Tune and then the broker's own OpenOk, and nothing before its turn in the handshake. None of this depends on how either side's bytes are segmented or on whether tuning and open are sent together.",
  ["inputs", "schedules"], "every client property table, credential, tuning value and vhost that fits a frame, every segmentation of both sides of the handshake",
  "The tests run fixed handshakes with one property table against mocks that hand over whole frames.",
  [L+"connector.cpp", L+"connectorutil.cpp", L+"packetprocessor.cpp", L+"session.cpp", L+"methods_startok.cpp", L+"methods_tuneok.cpp", L+"methods_open.cpp", L+"types.cpp"],
  [("handshake state machine", L+"connector.cpp receive"), ("identification fields", L+"connectorutil.cpp injectProxyClientIdent")],
  ["frames received by the broker", "frames received by the client"])

p("P03", "AMQP encoding and decoding agree with the AMQP 0-9-1 wire format",
  "Decoding any well-formed frame, connection method, field table or field array yields exactly the values it carries, and encoding any such value yields bytes an independent AMQP 0-9-1 codec reads back as the same values, for every field type at every nesting up to the supported depth of 100. Decoding an incomplete prefix of a frame asks for more data and consumes nothing. Encoding into a space that is too small fails cleanly without writing outside that space.",
  ["inputs"], "every frame, method and nested field table, every output buffer size, every prefix",
  "Unit tests check a few fixed byte strings per type.",
  [L+"types.cpp", L+"frame.cpp", L+"method.cpp", L+"fieldtable.cpp", L+"fieldvalue.cpp", L+"buffer.cpp", L+"methods_start.cpp", L+"methods_startok.cpp", L+"methods_tune.cpp", L+"methods_tuneok.cpp", L+"methods_open.cpp", L+"methods_openok.cpp", L+"methods_close.cpp", L+"methods_closeok.cpp"],
  [("typed encode/decode", L+"types.cpp"), ("frame encode/decode", L+"frame.cpp")], ["decoded values", "encoded bytes"])

p("P04", "Malformed or hostile bytes end at most the session they arrived on",
  "Whatever bytes a client or a broker sends at whatever point of a session, the proxy neither crashes nor touches memory it does not own, and every other session keeps working unchanged. Bytes that violate the protocol (bad frame end, oversized frame, wrong protocol header, undecodable handshake method or one out of turn before tuning is done) cause that session's sockets to be closed, and nothing after the violation is forwarded. A client that sends a wrong protocol header is told the supported one before being closed.",
  ["inputs", "histories"], "every byte string, at every handshake stage, from either side, in every segmentation",
  "Tests feed a couple of hand-written bad inputs; they are not built with sanitizers and do not explore truncation at every point.",
  [L+"types.cpp", L+"packetprocessor.cpp", L+"frame.cpp", L+"session.cpp", L+"connector.cpp", L+"method.cpp"],
  [("bounds checks on decode", L+"types.cpp, "+L+"buffer.h"), ("error to disconnect", L+"session.cpp handleData catch blocks")],
  ["process liveness under sanitizers", "sockets of the affected and of an unrelated session"])

p("P05", "Each connection goes to a broker of its vhost's mapping, or is refused",
  "At any point of any history of backend, farm and mapping commands, a new connection for a vhost is opened to the backend mapped to exactly that vhost if there is one, else to a member of the farm mapped to it, else to a member of the default farm. If there is no mapping, or the mapped backend or farm no longer exists, the client receives a Close explaining that there is no broker mapping for its vhost; if the farm has no existing members left the client is disconnected; in neither case is any broker contacted. Mapping changes never affect sessions that are already open.",
  ["histories", "configurations", "inputs"], "every sequence of BACKEND/FARM/MAP commands interleaved with connections for arbitrary vhost names",
  "Tests cover single static configurations of the selector with mocks.",
  [L+"connectionselector.cpp", L+"resourcemapper.cpp", L+"farmstore.cpp", L+"backendstore.cpp", L+"mapcontrolcommand.cpp", L+"farmcontrolcommand.cpp", L+"backendcontrolcommand.cpp", L+"farm.cpp"],
  [("mapping lookup with default fallback", L+"connectionselector.cpp acquireConnection")], ["which broker accepts a connection", "Close received by the client"])

p("P06", "Failover reaches any reachable backend, in priority order, without repeats",
  "When a connection is opened to a farm, the proxy tries its backends one after another, all of a higher-priority partition before any of a lower one, and each backend at most once, until one accepts; for a backend named by DNS every resolved address is tried in turn. If any of them is reachable the client's session is established on it, and if none is the client is disconnected. Unreachable brokers tried on the way never change what the client or the final broker sees.",
  ["fault_sequences", "configurations"], "every farm, every subset of refused or unresolvable backends, every partitioning",
  "Tests simulate one failing endpoint with mocked sockets.",
  [L+"session.cpp", L+"connectionmanager.cpp", L+"robinbackendselector.cpp", L+"backendset.cpp", L+"dnsresolver.h"],
  [("retry loop over backends and endpoints", L+"session.cpp attemptConnection/attemptResolvedConnection")], ["connection attempts seen by the resolver and the brokers", "client outcome"])

p("P07", "Round-robin spreads connections evenly over a farm's backends",
  "For a farm whose backends all accept connections, new connections are handed out to the least recently used backend of the highest-priority partition, so that over any run of consecutive connections the number each backend of that partition receives differs by at most one. This holds for every farm size and across several vhosts sharing the farm. A backend that has refused a connection is tried again once its turn comes.",
  ["histories", "configurations"], "every farm size and composition, every number of consecutive connections",
  "Unit tests only call the selector directly on two or three fixed backends, not through real sessions.",
  [L+"robinbackendselector.cpp", L+"backendset.cpp", L+"connectionmanager.cpp", L+"session.cpp"],
  [("last-used markers", L+"backendset.cpp markPartition"), ("selection order", L+"robinbackendselector.cpp select")], ["connections accepted per broker"])

p("P08", "Farm partitions keep every member exactly once, same-datacenter first",
  "Whatever members, datacenter setting and partitioning a farm is given, in whatever order the commands arrive, every member belongs to exactly one partition and none is lost, duplicated or invented. With datacenter affinity, members in the proxy's own datacenter form a higher-priority partition than all others, without reordering anything a previously applied policy already separated, and changing the datacenter re-evaluates every farm. New connections follow the current partitioning.",
  ["histories", "configurations"], "every member set, datacenter assignment and command order",
  "Tests check one or two fixed farms.",
  [L+"affinitypartitionpolicy.cpp", L+"farm.cpp", L+"backendset.cpp", L+"farmstore.cpp", L+"datacenter.cpp", L+"datacentercontrolcommand.cpp", L+"farmcontrolcommand.cpp", L+"partitionpolicystore.cpp"],
  [("partition split", L+"affinitypartitionpolicy.cpp partition"), ("repartition on change", L+"datacentercontrolcommand.cpp, "+L+"farm.cpp")], ["FARM PRINT output", "brokers chosen for new connections"])

p("P09", "Connection-rate limits admit and refuse exactly what is configured",
  "At any point of any history of limit commands, in each one-second window a vhost may open as many connections as its own configured limit allows, or the default limit when it has none, and any number when neither is set; limits of one vhost never consume another's allowance. Connections beyond the limit never reach a broker: the client receives a Close saying it is limited, after a delay, and is disconnected. Alarm-only limits never refuse anything, and disabling a limit restores the default or unlimited behaviour at once.",
  ["histories", "inputs"], "every sequence of LIMIT commands, connection attempts and clock advances over several vhosts",
  "Tests drive the limiter with a few calls; they do not mix commands, vhosts and window boundaries, nor go through sessions.",
  [L+"connectionlimitermanager.cpp", L+"fixedwindowconnectionratelimiter.cpp", L+"connectionselector.cpp", L+"limitcontrolcommand.cpp", L+"session.cpp"],
  [("fixed window counter", L+"fixedwindowconnectionratelimiter.cpp allowNewConnection"), ("limit lookup", L+"connectionlimitermanager.cpp allowNewConnectionForVhost"), ("delayed refusal", L+"session.cpp establishConnection")], ["client outcome and timing", "broker connection attempts", "LIMIT PRINT output"])

p("P10", "Data-rate limits slow a client down but never lose or stop its data",
  "With a data-rate limit of at least one byte per second in force for a session's vhost (its own, else the default), the proxy takes no more than the configured bytes per second from each client beyond one read, keeps forwarding everything it took, and resumes after each second so that all data eventually arrives intact and in order. An alarm-only rate never delays anything, and data from the broker is never throttled. Changing or disabling a limit takes effect on connections that are already open.",
  ["histories", "inputs", "schedules"], "every limit value, traffic pattern, segmentation and sequence of limit changes under a controlled clock",
  "Tests cover the quota counter and one socket-level case.",
  [L+"maybesecuresocketadaptor.h", L+"dataratelimit.cpp", L+"dataratelimitmanager.cpp", L+"limitcontrolcommand.cpp", L+"session.cpp"],
  [("quota consumed on read, restored by timer", L+"maybesecuresocketadaptor.h async_read_some/recordReadUsage"), ("limit lookup", L+"dataratelimitmanager.cpp")], ["bytes the broker has received at each point of virtual time"])

p("P11", "No client reaches a broker unless the auth service allowed it",
  "With an auth service configured when a client connects, no connection to a broker is opened for a client unless the service answered that client's own request, carrying its vhost and credentials, with a well-formed ALLOW; a DENY, a status other than success, a malformed or missing answer or an unreachable service leads to disconnection. When the ALLOW carries replacement credentials the broker receives those instead of the client's (and the reason given with them as client property amqpprox_auth), otherwise the client's own; this holds for the service's last answer when a pause of the vhost makes the proxy ask it again. A refused client gets a Close with the reason, cut to the protocol's limit, exactly when it advertised that it understands authentication-failure Close.",
  ["inputs", "fault_sequences"], "every service answer and failure, every client property table and credential",
  "Tests call the interceptor with a few canned answers.",
  [L+"httpauthintercept.cpp", L+"defaultauthintercept.cpp", L+"session.cpp", L+"authcontrolcommand.cpp", L+"connector.cpp", "authproto/authresponse.proto"],
  [("auth callback", L+"session.cpp establishConnection"), ("http exchange", L+"httpauthintercept.cpp")], ["auth requests seen by the service", "broker connections", "client frames"])

p("P12", "Pausing a vhost holds its new connections; unpausing lets them complete",
  "While a vhost is paused, no connection for it reaches a broker, the client is kept connected without being answered, and connections of other vhosts are unaffected. After it is unpaused every connection held back completes its login normally, using the routing in force at that time, and later ones are not held. Sessions that were already open when their vhost was paused stay connected and keep receiving the broker's data, nothing their clients send meanwhile is forwarded, and unpausing ends them. A login that had already reached its broker when the pause came goes on, and from its completion is such an open session if its vhost is still paused then, or an ordinary one if it is not. The set of paused vhosts reported is exactly the set paused and not since unpaused.",
  ["histories", "schedules"], "every interleaving of pause, unpause, connection stages, client data and mapping changes over several vhosts",
  "Tests check the paused-flag store and one mocked session.",
  [L+"vhostcontrolcommand.cpp", L+"vhoststate.cpp", L+"vhostestablishedpauser.cpp", L+"session.cpp", L+"sessionstate.cpp"],
  [("hold at connection time", L+"session.cpp establishConnection/pause/unpause"), ("new sessions of paused vhosts", L+"vhostestablishedpauser.cpp")], ["broker connections", "client frames", "VHOST PRINT"])

p("P13", "A session ends on both sides together, and only when it should",
  "When either peer closes or resets its socket, or a disconnect command names the session, its vhost or its backend side, both of its sockets are closed, and the session disappears from the listings at the next clean-up. A graceful disconnect tells the client to close, once it has confirmed or is gone tells the broker to close, and ends when the broker has confirmed or is gone; each is told once, a peer that asks to close of its own meanwhile is confirmed, and whatever else they still send is discarded. Sessions not named by a command, and sessions of other vhosts, stay open and working.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of closes, resets, commands and traffic over many sessions in every stage",
  "Tests check a few mocked closes; none check that other sessions survive or that nothing is leaked.",
  [L+"session.cpp", L+"sessioncleanup.cpp", L+"server.cpp", L+"sessioncontrolcommand.cpp", L+"vhostcontrolcommand.cpp", L+"connector.cpp"],
  [("error propagation", L+"session.cpp handleSessionError/performDisconnectBoth"), ("garbage collection", L+"sessioncleanup.cpp")], ["EOF at client and broker", "CONN output", "open descriptors"])

p("P14", "Traffic and connection statistics account for everything exactly once",
  "The totals reported overall, per vhost, per backend and per source equal exactly the bytes and frames relayed and the connections opened, live and ended, each counted once, no matter how collection, session end and clean-up interleave. Per-entity figures sum to the overall figures, counters never go backwards or wrap, and ended sessions' traffic is never lost or counted twice. Each connection that ends is classified exactly once (assuming hostname mapping is not switched while sessions are open; the first per-source figures after per-source collection is switched on may miss earlier traffic).",
  ["histories", "schedules"], "every interleaving of traffic, session ends, clean-ups, statistic collections and per-source switching",
  "Tests feed one or two fixed sessions to the collector.",
  [L+"statcollector.cpp", L+"statsnapshot.cpp", L+"connectionstats.cpp", L+"sessionstate.cpp", L+"sessioncleanup.cpp", L+"packetprocessor.cpp", L+"statcontrolcommand.cpp"],
  [("collection over live plus carried-over totals", L+"statcollector.cpp collect/deletedSession/populateStats"), ("per-read counting", L+"packetprocessor.cpp")], ["STAT output", "snapshot values"])

p("P15", "Statistics output is well formed for every name and value",
  "For every vhost, backend and source name and every value, the JSON statistics output is a valid JSON document (for names that are valid text) from which exactly the reported names and numbers can be read back, and the human and filtered forms show the same numbers for exactly the requested entity. Metrics sent to a statistics daemon are complete, well-formed datagrams carrying the same values, with characters that have a meaning to the daemon replaced in names.",
  ["inputs", "histories"], "every snapshot: arbitrary names including quotes, control and non-ASCII characters, and arbitrary 64-bit values",
  "There are no tests of the formatters or the publisher.",
  [L+"jsonstatformatter.cpp", L+"humanstatformatter.cpp", L+"statsdpublisher.cpp", L+"statcontrolcommand.cpp"],
  [("formatting", L+"jsonstatformatter.cpp format")], ["STAT PRINT/JSON output", "UDP datagrams"])

p("P16", "Any control command line gets an answer and never takes the proxy down",
  "For every line sent to the control socket, valid or not, in any sequence and in any state of the proxy, the sender receives a reply and the reply ends, except for commands documented to stream continuously. Apart from the exit command no command stops the proxy, its control interface, its listeners or its traffic. A command that is rejected as invalid leaves the configuration unchanged.",
  ["inputs", "histories"], "every sequence of command lines, including malformed arguments, unknown names, unresolvable hosts and ports in use",
  "There are no tests of the command handlers at all.",
  [L+"control.cpp", L+"controlcommand.h", L+"backendcontrolcommand.cpp", L+"farmcontrolcommand.cpp", L+"mapcontrolcommand.cpp", L+"limitcontrolcommand.cpp", L+"statcontrolcommand.cpp", L+"tlscontrolcommand.cpp", L+"listencontrolcommand.cpp", L+"vhostcontrolcommand.cpp", L+"sessioncontrolcommand.cpp", L+"authcontrolcommand.cpp", L+"loggingcontrolcommand.cpp", L+"datacentercontrolcommand.cpp", L+"maphostnamecontrolcommand.cpp", L+"server.cpp"],
  [("command dispatch", L+"control.cpp processInput")], ["replies on the control socket", "liveness of the process and of an existing session"])

p("P17", "Configuration printouts show exactly the configuration in force",
  "After any history of configuration commands, the printouts of backends, farms, mappings, paused vhosts, limits, datacenter and auth service list exactly the entries that were added and not since removed, with their current attributes. Adding a backend that exists, removing one that does not, or adding a farm with an unknown member or selector is reported as an error and changes nothing; adding a farm again replaces it. A printout never alters the configuration.",
  ["histories"], "every sequence of configuration commands over small and odd name sets",
  "Store classes are tested one call at a time; the command layer is untested.",
  [L+"backendstore.cpp", L+"farmstore.cpp", L+"resourcemapper.cpp", L+"vhoststate.cpp", L+"connectionlimitermanager.cpp", L+"dataratelimitmanager.cpp", L+"backendcontrolcommand.cpp", L+"farmcontrolcommand.cpp", L+"mapcontrolcommand.cpp", L+"limitcontrolcommand.cpp", L+"vhostcontrolcommand.cpp", L+"datacentercontrolcommand.cpp", L+"authcontrolcommand.cpp"],
  [("stores and their PRINT", "store classes")], ["PRINT replies"])

p("P18", "Pooled buffers are large enough, exclusive, recycled and accounted",
  "Every buffer obtained from the pool is at least as large as requested and its memory is used by no other holder until it is released, for every set of pool sizes and every sequence of acquire, release, swap and reuse. Released buffers become available again, and the reported statistics (in use, high-water mark, spill-over) always match the history. No buffer is leaked or released twice.",
  ["histories", "configurations"], "every pool configuration and sequence of operations on many handles",
  "Tests acquire and release a few buffers.",
  [L+"bufferpool.cpp", L+"bufferhandle.cpp", L+"buffersource.cpp", L+"buffer.cpp"],
  [("size-class selection", L+"bufferpool.cpp acquireBuffer"), ("RAII handle", L+"bufferhandle.cpp")], ["buffer contents and addresses", "pool statistics"])

p("P19", "Brokers asking for it get a correct PROXY header before anything else",
  "For a backend configured to be sent the PROXY protocol, the first bytes on every connection to it, ahead of any TLS or AMQP bytes, are exactly one well-formed version 1 PROXY line naming the client's address and port and the address connected to and port of the backend, both in the same address family (IPv4 mapped into IPv6 when they differ), and the login then proceeds as usual. Backends not so configured never receive one.",
  ["inputs", "configurations"], "every client and backend address and port, with and without TLS, static and DNS-named backends, after failovers",
  "Tests format a few fixed headers.",
  [L+"proxyprotocolheaderv1.cpp", L+"session.cpp", L+"backend.cpp", L+"backendcontrolcommand.cpp"],
  [("header synthesis", L+"session.cpp getProxyProtocolHeader/attemptEndpointConnection")], ["first bytes the broker receives"])

p("P20", "TLS on either side changes nothing but encryption, and stays on where asked",
  "With TLS on the client side, the broker side, both or neither, login and relayed bytes are the same as in plain text for every segmentation and record size. A port started as secure never speaks plain text and a plain port never TLS, and a backend configured for TLS is never sent AMQP in plain text. A failed TLS handshake ends only that session.",
  ["configurations", "inputs", "schedules"], "every combination of TLS on both sides, every traffic pattern, record size and handshake failure",
  "Tests mock the TLS layer entirely.",
  [L+"maybesecuresocketadaptor.h", L+"session.cpp", L+"server.cpp", L+"tlscontrolcommand.cpp", L+"listencontrolcommand.cpp", L+"tlsutil.cpp"],
  [("one-byte read workaround and SSL_pending", L+"maybesecuresocketadaptor.h")], ["bytes at both peers above and below TLS"])

p("P21", "Name resolution answers are the ones resolved, and are cached only briefly",
  "Every lookup completes exactly once with the addresses the resolver gave for exactly that host and service, or its error. An answer is re-used only until the cache is next cleared, which happens once per cache period, and failed lookups are not remembered. Cancelling or changing the clean-up never loses a pending lookup.",
  ["histories", "fault_sequences"], "every sequence of lookups, answers, errors, clock advances and cache operations",
  "Tests look up a few names once.",
  [L+"dnsresolver.cpp", L+"dnsresolver.h"], [("cache keyed by host and service", L+"dnsresolver.h resolve"), ("periodic clear", L+"dnsresolver.cpp cleanupCache")], ["callback results", "resolver calls"])

p("P22", "A broker's refusal during login is passed on to the client",
  "If the broker answers any step of the login with a connection Close, the client receives a Close with the same reply code and text before its socket is closed, and is never told the connection is open. If the broker drops the connection instead, the client is disconnected. Other sessions are unaffected.",
  ["inputs", "fault_sequences"], "every reply code and text, at every login step, in every segmentation",
  "Tests check one Close at one step with mocked sockets.",
  [L+"connector.cpp", L+"session.cpp", L+"closeerror.cpp", L+"methods_close.cpp"],
  [("Close detection", L+"connector.cpp decodeMethod"), ("relay", L+"session.cpp handleData")], ["frames and EOF at the client"])

p("P23", "The proxy listens on exactly the ports it was told to",
  "After any history of listen commands, new connections are accepted on exactly the ports started and not since stopped, with the security mode it was started with; starting a port that is already listening changes nothing. Failing to listen on one port (already in use, not permitted) leaves everything else working. Stopping a port refuses new connections and leaves open sessions working.",
  ["histories", "fault_sequences"], "every sequence of LISTEN START/START_SECURE/STOP over several ports, some in use elsewhere, back to back or spaced out",
  "There are no tests of listening.",
  [L+"server.cpp", L+"listencontrolcommand.cpp"], [("acceptor map", L+"server.cpp startListening/stopListening/doAccept")], ["connect results and handshake mode per port"])

p("P24", "Event subscribers are called exactly while subscribed",
  "Each event emission calls every current subscriber exactly once with the emitted arguments, and never a subscriber whose handle has been released or replaced. Subscriptions survive moves of their handle and are independent of each other. This holds when subscribers subscribe, unsubscribe or emit during an emission (one that is added or removed during an emission may or may not see that emission), and when several threads do so at once.",
  ["histories"], "every sequence of subscribe, emit, move, swap and release on several events",
  "Tests cover a single subscribe and unsubscribe.",
  [L+"eventsourcesignal.cpp", L+"eventsourcesignal.h", L+"eventsource.h"], [("subscription handle", L+"eventsourcesignal.cpp")], ["calls made to subscribers"])

p("P25", "The control tool and command line deliver what the operator typed",
  "The control tool sends exactly its arguments as one command line and prints exactly the bytes of the reply, however large and however fragmented, and exits non-zero if it cannot reach the proxy. The proxy's own command line starts it in the described simple mode, sending every vhost to the given destination, when all of the simple-mode options are given, without any configuration when none is, and otherwise refuses to start. A proxy that was told to exit ends with status 0 and removes its control socket, and one that was killed at any moment can be started again with the same options.",
  ["inputs", "configurations"], "every argument vector, reply size and fragmentation; every combination of command-line options; kills and restarts",
  "There are no tests of either program.",
  ["amqpprox_ctl/client.m.cpp", "amqpprox/amqpprox.m.cpp"], [("argument joining and reply loop", "amqpprox_ctl/client.m.cpp"), ("simple mode", "amqpprox/amqpprox.m.cpp")], ["bytes on a control socket", "stdout and exit code", "routed connections"])

p("P26", "Control commands and traffic at the same time do not interfere",
  "Control commands of any kind may arrive at any moment relative to logins, traffic and disconnections, which are handled by another thread: whatever the interleaving, neither thread uses memory the other is changing or has released, the program neither crashes nor stops serving, and every command is answered. Sessions of vhosts that no command touches are unaffected. Once no vhost is paused any more, every login that was under way comes to an end.",
  ["schedules", "histories"], "every interleaving of the control thread's commands with the server thread's work",
  "Tests are single-threaded.",
  [L+"server.cpp", L+"session.cpp", L+"sessionstate.h", L+"farmstore.cpp", L+"backendstore.cpp", L+"resourcemapper.cpp", L+"vhoststate.cpp", L+"connectionlimitermanager.cpp", L+"dataratelimitmanager.cpp", L+"statcollector.cpp", L+"control.cpp"],
  [("shared state between the two threads", L+"server.cpp, sessionstate.h, farmstore.cpp, vhoststate.cpp")], ["ThreadSanitizer reports", "replies to commands", "bytes of the untouched session", "outcome of every login"])

p("P27", "TLS peers are verified and shown certificates exactly as configured",
  "For each side (ingress and egress), every connection made after a TLS command follows the settings in force at that time: with VERIFY_MODE PEER a peer whose certificate is not issued by a trusted CA (or has expired) is refused, a client without certificate is refused exactly if FAIL_IF_NO_PEER_CERT is set too, and without PEER nobody is refused for their certificate; the proxy shows the certificate chain that was set last; only the ciphers set last are used. A refused client is disconnected without any AMQP and without any broker being contacted; a refused broker is sent no AMQP and no credentials. A TLS command that is rejected changes nothing, and sessions that are open already are unaffected by any of them.",
  ["configurations", "histories", "inputs"], "every sequence of TLS commands on both sides, before and after the port is opened, against every kind of peer certificate and cipher list",
  "There are no tests of the TLS commands or of verification.",
  [L+"tlscontrolcommand.cpp", L+"server.cpp", L+"maybesecuresocketadaptor.h", L+"tlsutil.cpp"],
  [("settings", L+"tlscontrolcommand.cpp configure"), ("contexts used by new connections", L+"server.cpp doAccept, ingressTlsContext, egressTlsContext")], ["outcome of handshakes", "certificate and cipher seen by the peers", "bytes at brokers", "replies and printouts"])

p("P28", "Hosts are shown by their own name once hostname mapping is on",
  "Until MAPHOSTNAME DNS is used no reverse lookup is made and every peer is shown by its IP address. From then on, in every place where the proxy names a peer - the identification of the client sent to the broker, the request to the authentication service, the CONN listing and the per-source and per-backend statistics - the host is shown by the name a reverse lookup of its own address gave since the command, for sessions that were open already as well as later ones, and by its address if that lookup fails. A failing lookup of one host does not affect how another is shown, and neither lookups nor their failure disturb any session.",
  ["histories", "inputs", "fault_sequences"], "every order of logins, mapping commands and changes of the reverse-lookup table, any names, any subset of lookups failing",
  "Tests only check one address against a stub.",
  [L+"dnshostnamemapper.cpp", L+"maphostnamecontrolcommand.cpp", L+"sessionstate.cpp", L+"connector.cpp", L+"statcollector.cpp"],
  [("cache", L+"dnshostnamemapper.cpp prime/mapToHostname"), ("hand-over to sessions", L+"maphostnamecontrolcommand.cpp, server.cpp doAccept, sessionstate.cpp")], ["amqpprox_client at the broker", "CONN", "statistics keys", "authentication requests"])

p("P29", "What ends leaves nothing behind",
  "Everything a session, a failed login, a control connection, a command or a listening port took up is given back when it ends, however it ends: going through the same activity again and again, with everything ended in between, the proxy's number of open files and its memory do not keep growing and no ended session stays listed.",
  ["histories", "fault_sequences"], "every repeated mixture of sessions, failures and commands",
  "Tests run each thing once and do not look at what remains.",
  [L+"server.cpp", L+"session.cpp", L+"maybesecuresocketadaptor.h", L+"control.cpp", L+"statcontrolcommand.cpp", L+"authrequest.cpp", L+"connectionlimitermanager.cpp", L+"dnsresolver.cpp"],
  [("session clean-up", L+"server.cpp removeSession/clearDefunctSessions"), ("handlers that own the session", L+"session.cpp"), ("output streams", L+"control.cpp, statcontrolcommand.cpp")], ["open file descriptors", "bytes allocated", "CONN"])

p("P30", "Alarm-only limits report exactly what exceeds them and hold nothing up",
  "With LIMIT CONN_RATE_ALARM in force for a vhost (its own value, else the default), every login of that vhost beyond the configured number within a one-second window is logged exactly once, at warning level, in a line containing AMQPPROX_CONNECTION_LIMIT, the vhost and the limit; no other login is logged so, and disabling or changing the alarm takes effect at once. With LIMIT DATA_RATE_ALARM in force, a session whose client keeps sending more than the rate for several seconds is reported in the log with the text Data Rate Alarm and the rate, attributed to that session's vhost and connection, at most once a second; a session that stays below its rate, or whose broker alone sends much, is not reported. Alarms alone never delay, refuse or close anything.",
  ["inputs", "schedules", "histories"], "every sequence of alarm and limit commands, logins, traffic in both directions and times between them, over several vhosts and sessions, plain and TLS",
  "The tests ask the limiter object whether it allows a connection with a mocked clock; nothing reads the log, and the data alarm path has no test.",
  [L+"connectionlimitermanager.cpp", L+"fixedwindowconnectionratelimiter.cpp", L+"maybesecuresocketadaptor.h", L+"dataratelimit.cpp", L+"dataratelimitmanager.cpp", L+"limitcontrolcommand.cpp", L+"session.cpp"],
  [("connection alarms", L+"connectionlimitermanager.cpp allowNewConnectionForVhost"), ("data alarms", L+"maybesecuresocketadaptor.h async_read_some/onTimer")],
  ["log records with their severity and session attributes", "bytes at the peers' sockets"])

p("P31", "Logs follow their verbosities and never contain credentials",
  "The console and the log file each show exactly the messages whose severity is within their own verbosity (console: the --consoleVerbosity option, 0 by default; file: 3 by default), LOG CONSOLE and LOG FILE change one of them from then on without affecting the other, and invalid arguments change neither. Messages logged before an orderly exit are in the log file afterwards, and a later run on the same log directory keeps the earlier one's. Passwords of clients, and replacement credentials from the auth service, do not appear in any message of debug level or more severe for well-formed logins, however the login ends, nor in control answers or Close texts, and are sent to no other session's broker or auth request.",
  ["inputs", "histories"], "every sequence of verbosity changes and logins; every way a login with credentials can succeed or fail",
  "The tests do not start the logging component and never look for credentials in what the proxy writes.",
  [L+"logging.cpp", L+"logging.h", L+"loggingcontrolcommand.cpp", "amqpprox/amqpprox.m.cpp", L+"connector.cpp", L+"session.cpp", L+"httpauthintercept.cpp", L+"sessionstate.cpp"],
  [("sinks and filters", L+"logging.cpp start/stop/setConsoleVerbosity/setFileVerbosity"), ("LOG command", L+"loggingcontrolcommand.cpp handleCommand")],
  ["stderr and log files of the amqpprox process", "log records", "control answers"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
