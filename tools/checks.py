"""Which targets decide which property."""
ASSUMPTIONS = [
    "The proxy's own main() and library run unmodified inside the harness process; only the two run() loops, logging sinks, the clock and name resolution are replaced.",
    "Schedules explored are those of one thread polling both event loops; real preemption between the control and the server thread is explored only where a target says so.",
]
def W(name, target, **k): return dict(bin="world_" + name, target=target, **k)
def U(name, target, **k): return dict(bin="unit_" + name, target=target, **k)
CHECKS = {
    "P01": dict(jobs=[W("relay", "relay_any")],
                technique="stateful property-based testing of the whole proxy against an exact byte model",
                note="Random histories of up to 3 sessions, up to ~900 kB per direction, bursts of thousands of tiny frames in one write; every byte on every socket compared."),
    "P02": dict(jobs=[W("login", "login_any")],
                technique="property-based testing of the whole proxy: generated logins compared field by field with an independent AMQP codec",
                note="1-4 logins per case, all field types, StartOk up to ~100 kB, generated segmentation on both sides."),
    "P03": dict(jobs=[U("codec", "codec_table", weight=2), U("codec", "codec_damaged"), U("codec", "codec_method", weight=2), U("codec", "codec_frame")],
                technique="property-based differential testing against an independent AMQP 0-9-1 codec, with round trips, damaged inputs and every output size, under ASan/UBSan",
                note="Generated frames, methods and tables; nesting up to the decoder's limit."),
    "P04": dict(jobs=[W("hostile", "hostile_any", weight=3), U("codec", "codec_damaged")],
                technique="generation-based fuzzing of the whole proxy under ASan/UBSan with a victim session as oracle",
                note="Definite violations and mutated bytes at every stage from both sides; the victim and a newcomer are exercised after each."),
    "P22": dict(jobs=[W("login", "broker_refuses")],
                technique="fault injection at generated login steps against an exact outcome model",
                note="1-3 rounds of logins over plain and TLS; Close with any code and text, a dropped connection, or a stray method at each of 4 steps."),
    "P05": dict(jobs=[W("route", "route_any")],
                technique="stateful model-based testing: configuration histories and logins against a model of the mapping",
                note="Up to ~35 commands and logins per history over colliding names; 4 brokers."),
    "P06": dict(jobs=[W("route", "failover_any")],
                technique="fault injection over generated farms, outcome and attempt order compared with a model",
                note="1-7 backends, static and DNS with 0-3 addresses of both families, any subset refusing, unresolvable or failing at connect, peer-address or socket-option calls, 1-5 logins."),
    "P07": dict(jobs=[W("route", "fair_any", weight=2), U("mass", "robin_any")],
                technique="property-based testing: invariant over every window of consecutive connections",
                note="1-7 backends, up to 40 connections, optional earlier phase with refusals; the selector alone up to 3000 connections."),
    "P08": dict(jobs=[W("route", "partition_any", weight=2), W("route", "partition_order", weight=2), U("mass", "policy_any")],
                technique="stateful model-based testing of partitioning through where connections go and the order backends are tried in",
                note="Command histories of up to ~35 steps; complete attempt order observed when every member refuses; the affinity policy alone over more partitions."),
    "P09": dict(jobs=[W("limit", "connlimit_any", weight=2), U("mass", "limiter_any")],
                technique="stateful model-based testing of connection limits on a virtual clock",
                note="Limit and alarm commands for named and default vhosts interleaved with logins and time; outcome of each login compared with a model; the limiters alone over bursts of up to 70000."),
    "P10": dict(jobs=[W("limit", "datalimit_any")],
                technique="property-based testing of data rate limits on a virtual clock: bytes delivered per interval bounded above and eventually complete",
                note="Limit commands before and during sessions; generated traffic in both directions."),
    "P11": dict(jobs=[W("auth", "auth_any", weight=2), W("auth", "auth_paused")],
                technique="fault injection into a generated auth service, outcomes compared with a model",
                note="Allow/deny with and without credentials, error statuses, bad bodies, drops, stalls and late answers."),
    "P12": dict(jobs=[W("pause", "pause_any", weight=2), W("pause", "pause_pending"), W("pause", "pause_midway")],
                technique="stateful model-based testing of pause and unpause histories, with logins in every stage",
                note="Up to 24 steps over three vhosts; up to 23 steps with logins waiting for authentication and several commands before the server runs."),
    "P13": dict(jobs=[W("life", "life_any", weight=2), W("life", "leave_any"), W("life", "graceful_busy"), W("life", "graceful_cross"), W("life", "paused_any")],
                technique="stateful model-based testing with injected closes, resets and disconnect commands at generated points",
                note="2-6 sessions, up to 14 steps; events at generated rounds of a login; graceful disconnects with data stuck half-way, and crossing with Close, CloseOk, data and ends of both peers; clients and brokers leaving, and drains, while a vhost is paused."),
    "P23": dict(jobs=[W("listen", "listen_any")],
                technique="stateful model-based testing of listen command histories, including back-to-back commands and busy ports",
                note="3 ports plus a busy one, up to 16 command groups; plain and TLS clients probe each port, with injected accept() failures and half-done logins across the commands."),
    "P14": dict(jobs=[W("stats", "stats_any", weight=3), U("mass", "statsum_any")],
                technique="stateful model-based testing: the statistics stream read throughout generated session histories on a virtual clock, accumulated figures against a model",
                note="Up to 26 steps; per-entity sums, monotone counters and totals after every kind of end; the collector alone with figures up to 2^50."),
    "P15": dict(jobs=[U("statfmt", "json_any"), U("statfmt", "human_any"), U("statfmt", "statsd_any"), W("stats", "statout_any", weight=2)],
                technique="property-based round trips: generated snapshots read back by a strict JSON reader, a line reader and a StatsD receiver",
                note="Arbitrary names and 64-bit values; up to 12 entities."),
    "P16": dict(jobs=[W("control", "control_any", weight=3), W("control", "bigout_any")],
                technique="grammar-based fuzzing of the control interface of the whole proxy with a session under way, under ASan/UBSan",
                note="Up to 30 lines per history: every command with valid, boundary, missing and garbage arguments, raw bytes, early leavers, slow readers of megabyte outputs."),
    "P17": dict(jobs=[W("control", "config_any", weight=3), W("control", "bigout_any")],
                technique="stateful model-based testing: configuration command histories, every printout read back and compared with a model",
                note="Up to 40 commands over colliding names in any letter case, with rejected commands in between."),
    "P18": dict(jobs=[U("parts", "pool_any", weight=3), U("parts", "cursor_any")],
                technique="stateful model-based testing of the buffer pool under ASan, contents and statistics compared after every few steps",
                note="Up to 7 generated sizes or the proxy's own, up to 24 handles and 124 operations; demand repeated 60 times for recycling."),
    "P19": dict(jobs=[W("login", "proxy_any")],
                technique="property-based testing of the whole proxy: the first bytes each broker receives compared with the expected line",
                note="1-5 backends, IPv4/IPv6, static/DNS, TLS or not, failovers; source addresses in 127.0.0.0/16."),
    "P20": dict(jobs=[W("relay", "tls_any")],
                technique="stateful property-based testing of the whole proxy with TLS on either side against an exact byte model, with failing handshakes injected",
                note="TLS 1.2 and 1.3, record sizes 512-16384, all combinations of plain and TLS on both sides."),
    "P21": dict(jobs=[U("parts", "dns_any"), W("route", "dnsfresh_any")],
                technique="stateful model-based testing of the resolver on a virtual clock with every answer different and held back, plus whole-proxy routing over names that move",
                note="Up to 53 operations over colliding host/service pairs; both the system resolver path and the override path."),
    "P24": dict(jobs=[U("parts", "events_any", weight=2), U("parts", "eventsource_any", weight=0.5), U("parts", "events_threads"), U("parts", "events_threads", variant="tsan", thorough_only=True)],
                technique="stateful model-based testing of subscriptions, including changes made by subscribers during emissions, and concurrent use",
                note="1-3 events, 1-8 handles, up to 53 operations; nested emissions; 3-6 threads; the eight events of the proxy side by side."),
    "P25": dict(jobs=[W("tool", "ctl_any", needs=["amqpprox_ctl"]), W("tool", "main_any", needs=["amqpprox"])],
                technique="property-based testing of the two programs as processes: generated argument vectors, replies, options, kills and restarts against a model",
                note="Arguments of any byte up to 60 kB, replies up to ~300 kB in up to 12 fragments; option subsets with missing, empty and wrong values; up to 3 runs on the same socket."),
    "P26": dict(jobs=[W("tool", "race_any", variant="tsan", needs=["amqpprox"])],
                technique="randomised concurrency testing: the real program built with ThreadSanitizer, generated control commands against generated logins and traffic",
                note="5-200 commands from every command family and up to 200 traffic steps per case on two real threads; logging mostly off, since it orders the threads.",
                assumptions=["Preemption is left to the operating system; ThreadSanitizer reports unordered accesses whether or not they happened to collide. Boost.Log is not instrumented, and accesses inside it are not judged."]),
    "P27": dict(jobs=[W("tls", "verify_any")],
                technique="stateful model-based testing of the whole proxy: TLS commands on both sides interleaved with clients and brokers of every kind of certificate",
                note="Up to 16 steps; no, trusted, untrusted, self-made, chained and expired certificates; two CAs; three ciphers; invalid files and lists in between.",
                assumptions=["TLS 1.2 at the peers, so that the cipher list decides the cipher and refusals show in the handshake."]),
    "P28": dict(jobs=[W("names", "names_any")],
                technique="stateful model-based testing of the whole proxy: logins, mapping commands and changes of the reverse-lookup table in any order",
                note="Up to 16 steps, 4 client and 3 broker addresses; reverse lookups answered by the case: any name, none, or any error.",
                assumptions=["Whether a name or a failure is remembered is left open: any answer since the last MAPHOSTNAME command counts."]),
    "P29": dict(jobs=[W("leak", "leak_any")],
                technique="metamorphic stateful testing of the whole proxy: the same generated list of sessions, failures and commands gone through again and again",
                note="1-6 of 31 kinds of activity, up to 10 rounds; open files and allocated bytes must stop growing.",
                assumptions=["Bytes allocated are those ASan counts for the whole process, with the harness's own records emptied each round.",
                             "Removed backends are kept on purpose (sessions may still name them), so adding and removing backends is not among the repeated commands."]),
    "P30": dict(jobs=[W("log", "connalarm_any"), W("log", "dataalarm_any")],
                technique="model-based stateful testing of the whole proxy on a virtual clock with every log record captured",
                note="Logins against the set of fixed-window states the alarm configuration allows; traffic above, near and below the alarm rates of 2-3 sessions.",
                assumptions=["A data alarm may use any rate that was in force within the last 2.2 s, and the default until the vhost is known.",
                             "The report of an excess is required only after 4 s or more at two and a half times the rate."]),
    "P31": dict(jobs=[W("tool", "logs_any", needs=["amqpprox"]), W("log", "secrets_any")],
                technique="model-based and differential testing: the amqpprox process's console and log file against the verbosities in force and each other; unique passwords searched in every output",
                note="1-2 runs per case, 16 steps; 30 steps of logins ending in every way.",
                assumptions=["Messages about a login that are logged after a verbosity change are judged by the laxer of the verbosities since.",
                             "Trace level (which prints whole login methods) and messages about malformed frames are outside the credential claim."]),
}
