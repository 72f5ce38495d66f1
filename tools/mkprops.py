#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None
        }})


NOTESTS = ("The passing tests exercise only the filter parser and the timer "
           "list in isolation; the server tests need libxcm and are not run. ")

prop("C01", "The directory lists exactly the currently published services",
     "After any history of publish, republish, unpublish, connect, disconnect and time passing, a services "
     "query returns exactly the services that are published or orphaned-and-not-yet-expired, each once, with "
     "the generation, properties, TTL, owning client id and orphan time of its last accepted publication. "
     "With a filter, exactly the subset whose properties match is returned. A service is gone once it is unpublished "
     "or its orphan TTL has run out, and never otherwise.",
     ["histories", "schedules"],
     "All interleavings of operations by any number of clients, users and domains, and all timings of disconnects.",
     NOTESTS + "A handful of fixed histories cannot cover the product of ownership, orphan and generation states.",
     ["paf/sd.py", "paf/server.py"],
     [("Client.publish/unpublish/remove_service", "paf/sd.py"), ("services_request", "paf/server.py")],
     [("DB.services", "service id to service record", "paf/sd.py")],
     ["services transaction notifications"])

prop("C02", "A subscription's notifications reconstruct the matching service set",
     "From the moment a subscription is accepted, applying its appeared, modified and disappeared notifications in "
     "order yields exactly the set of services matching its filter, with their current generation, properties, TTL, "
     "owner and orphan state. There is exactly one notification per change that concerns a service which matched "
     "before or after it, of the type implied by matching before and after, and none for other changes or after the "
     "subscription is cancelled. Services already present are announced as appeared after the accept.",
     ["histories", "schedules"],
     "All filters, all sequences of service changes before, during and after subscribing, any number of subscribers.",
     NOTESTS + "Missed, duplicated or mistyped events depend on which of many state transitions is taken under which filter.",
     ["paf/sd.py", "paf/server.py"],
     [("Subscription.notify", "paf/sd.py"), ("ServiceDiscovery.service_changed", "paf/sd.py"),
      ("subscription_triggered", "paf/server.py")],
     [("DB.subscriptions", "active subscriptions", "paf/sd.py"), ("sub_tas", "subscription id to transaction", "paf/server.py")],
     ["subscribe transaction notifications"])

prop("C03", "Republication obeys generation rules; failed publishes have no effect",
     "Republishing with a higher generation replaces properties, TTL and owner; with the same generation it succeeds only "
     "if properties and TTL are unchanged (refreshing ownership and clearing orphan state); with a lower generation it "
     "fails. The failure reasons are old-generation and same-generation-but-different. A failed publish or unpublish "
     "changes nothing observable and triggers no notification, and an unpublished service id may be published anew at any generation.",
     ["histories", "inputs"],
     "All pairs of existing record and republished record over generation, properties, TTL, owner and orphan state.",
     NOTESTS + "The decision depends on the combination of five attributes and prior ownership history.",
     ["paf/sd.py", "paf/server.py"],
     [("Client.publish", "paf/sd.py"), ("publish_request", "paf/server.py")],
     [("Service.cur/prev", "current and previous generation", "paf/sd.py")],
     ["publish response", "services listing", "subscription notifications"])

prop("C04", "Orphaned services live exactly one TTL and can be reclaimed",
     "When the owner's connection ends for any reason, each of its services is marked orphan with the time of "
     "disconnection, and is removed when its TTL has elapsed since then: not before, and promptly after. A republish "
     "before that by a permitted client clears the orphan state and cancels the removal, after which the service is again tied to "
     "its new owner's connection, however many times this is repeated. Subscribers see the transition to "
     "and from orphan as a modification and the removal as a disappearance.",
     ["histories", "schedules", "fault_sequences"],
     "All sequences of disconnect, reconnect, republish by same or other client, TTL change and time advance.",
     NOTESTS + "Orphan timing needs repeated disconnect/reconnect histories under controlled time.",
     ["paf/sd.py", "paf/timer.py"],
     [("maintain_orphans", "paf/sd.py"), ("Client.disconnect", "paf/sd.py"), ("capture_service", "paf/sd.py")],
     [("orphan_timers", "service id to purge timer", "paf/sd.py"),
      ("Connection.services", "services tied to a connection", "paf/sd.py")],
     ["services listing", "subscription notifications and their times"])

prop("C05", "Only the owning user may alter services, and ids stay bound to users",
     "A service can be republished or unpublished only by clients authenticated as the user that owns it; all other "
     "attempts fail with permission-denied and leave it untouched, while another client of the same user takes over ownership. "
     "A client id that is connected, or that still has services, can be used only by the user it belongs to, "
     "and a subscription can be cancelled only by the client that created it. The user is derived from the transport "
     "peer: the certificate key identifier for TLS, else the IP address for TLS or TCP, else a common default user.",
     ["histories", "inputs"],
     "All assignments of users, client ids and transports to sequences of publish, unpublish, takeover and reconnect.",
     NOTESTS + "Access control has to hold for every history of ownership transfer.",
     ["paf/sd.py", "paf/server.py"],
     [("check_access", "paf/sd.py"), ("determine_user_id", "paf/server.py"), ("Client.connect", "paf/sd.py")],
     [("Client.user_id", "user bound to a client id", "paf/sd.py")],
     ["fail-reason of hello, publish, unpublish, unsubscribe", "services listing"])

prop("C06", "Resource limits are enforced exactly and resources are never leaked",
     "A new client, subscription or service is refused with insufficient-resources exactly when the number of live "
     "resources of that kind held by that user, or in total, equals the configured limit. Every way a resource "
     "can go away (unsubscribe, unpublish, orphan expiry, disconnect, failed request) returns it exactly once. Republishing or taking "
     "over an existing service never needs additional quota.",
     ["histories", "configurations"],
     "All limit settings per user and in total, and all histories that allocate, transfer, fail and release resources.",
     NOTESTS + "Leaks and double releases only show after particular release paths have been taken.",
     ["paf/sd.py"],
     [("ResourceManager", "paf/sd.py"), ("Consumer", "paf/sd.py")],
     [("Consumer.used_resources", "per-user usage", "paf/sd.py")],
     ["fail-reason of hello, subscribe, publish"])

prop("C07", "Filter evaluation follows the documented semantics",
     "For every filter and every property multimap, matching equals the documented meaning: equality against any value "
     "(an integer value equals its decimal representation), greater-than and less-than on integer values only, presence, "
     "substring with anchored initial and final parts and ordered non-overlapping middle parts over string values, and the Boolean operators. "
     "Evaluation never fails and takes time polynomial of low degree in the size of filter and properties.",
     ["inputs"],
     "All syntactically valid filters over all property maps, including special characters, newlines and mixed value types.",
     "The existing filter tests use a few hand-picked filters; they never pair wildcards with integer or multi-line values or pathological repetition.",
     ["paf/filter.py"],
     [("match", "paf/filter.py")], (), ["Filter.match", "services query with filter", "subscription filter"])

prop("C08", "Filter parsing accepts exactly the grammar and printing round-trips",
     "A string is accepted as filter exactly when it conforms to the documented grammar, and otherwise is rejected "
     "with a parse error and nothing else, however deeply nested or malformed. The printed form of a parsed filter "
     "parses to an equivalent filter and is stable under repetition. Escaping arbitrary text yields a filter that matches literally that text.",
     ["inputs"],
     "All strings, including deep nesting, stray escapes and truncated expressions.",
     "The existing tests list a few accepted and rejected strings.",
     ["paf/filter.py"],
     [("parse", "paf/filter.py"), ("escape", "paf/filter.py"), ("__str__", "paf/filter.py")], (),
     ["paf.filter.parse", "str(filter)"])

prop("C09", "Protocol messages survive encoding and invalid ones are rejected",
     "Every well-formed message of every command, type and protocol version, with any permitted field values, decodes "
     "to what was encoded, and its encoding is a JSON object with exactly the fields the protocol specification lists. "
     "Decoding rejects, with a protocol error and nothing else, any bytes that are not such a message: wrong JSON, missing, "
     "superfluous or mistyped fields, numbers out of range, unknown commands or message types, or commands "
     "not belonging to the protocol version.",
     ["inputs"],
     "All byte strings and all field value combinations for both protocol versions.",
     NOTESTS + "No test covers the message codec alone.",
     ["paf/proto.py"],
     [("Message.parse", "paf/proto.py"), ("Message.to_wire", "paf/proto.py"), ("Field.pull/put", "paf/proto.py")], (),
     ["Message.parse", "Message.to_wire"])

prop("C10", "Hostile or broken peers never disturb the server or other clients",
     "Whatever bytes a peer sends, and whenever its connection fails, the server keeps running and at most that peer's "
     "connection is dropped; messages violating the protocol cause it to be dropped. Other clients' "
     "requests, subscriptions and services are served as if the offender had merely disconnected.",
     ["inputs", "fault_sequences", "histories"],
     "All message contents (random, mutated and structurally valid but out of place), all transport errors at any send, receive or accept.",
     NOTESTS + "Crashes are triggered by particular unexpected value types or message combinations.",
     ["paf/server.py", "paf/proto.py", "paf/filter.py"],
     [("Connection.activate", "paf/server.py"), ("Message.parse", "paf/proto.py")], (),
     ["event loop survival", "connection close", "other clients' responses"])

prop("C11", "Every request is answered according to its transaction type",
     "Each valid request yields, in its own transaction, exactly the message sequence of its type: complete or fail for single-response "
     "commands, accept then notifications then complete for listings, accept then an open-ended stream for subscribe "
     "(completed by unsubscribe, before the unsubscribe itself completes) and track, or a single fail with a documented reason. Responses never cross transactions or "
     "connections, and a transaction id may be reused once its transaction has ended. A request reusing a live "
     "transaction id, or an inform outside a two-way transaction, is a protocol violation that ends the connection.",
     ["histories", "schedules", "inputs"],
     "All interleavings of concurrent transactions on any number of connections, all transaction id choices.",
     NOTESTS + "Transaction bookkeeping errors need particular overlapping transactions.",
     ["paf/server.py", "paf/proto.py"],
     [("Transaction", "paf/server.py"), ("invoke_handler", "paf/server.py")],
     [("Connection.tas", "live transactions", "paf/server.py")],
     ["messages received per transaction"])

prop("C12", "Handshake selects the right version and gates all other commands",
     "A hello succeeds with the highest protocol version in both the client's and the domain's configured range, and fails with "
     "unsupported-protocol-version if there is none; a hello for a client id that is connected fails with "
     "client-id-exists, and may be retried on the same connection. Before a successful hello every other command fails with no-hello; after it, a "
     "repeated hello returns the version in use, a changed client id is denied, and exactly the commands and message "
     "formats of the selected version are available.",
     ["histories", "inputs", "configurations"],
     "All client and server version ranges, all orders of hello and other commands, all client id conflicts.",
     NOTESTS + "The handshake state machine has many paths (retry, conflict, version mismatch).",
     ["paf/server.py", "paf/conf.py"],
     [("hello_request", "paf/server.py"), ("get_highest_allowed", "paf/conf.py")],
     [("handshaked/proto_version/client_id", "handshake state", "paf/server.py")],
     ["hello response", "no-hello failures"])

prop("C13", "Silent clients are probed and timed out on schedule, live ones never",
     "A version 3 client silent for its maximum idle time is disconnected at about that time, and never earlier; the maximum idle time is "
     "the lowest TTL among the services it owns, bounded by the domain's idle limits, or the upper limit if it has none. "
     "If it has a track transaction it is sent one query after about half that time, and any message from it restarts the period. "
     "Version 2 clients are never timed out for silence, and a connection attempt with an already connected client id probes the "
     "existing client, which is disconnected only if it then stays silent for half its maximum idle time.",
     ["histories", "schedules", "configurations"],
     "All idle limits, service TTLs, and timings of client activity relative to the idle period.",
     NOTESTS + "Timing behaviour over long, irregular activity patterns is not tested.",
     ["paf/sd.py", "paf/server.py"],
     [("Connection idle timers", "paf/sd.py"), ("check_idle/track_inform", "paf/server.py")],
     [("idle_state", "active, tentative or timed out", "paf/sd.py")],
     ["time of track queries and of connection close"])

prop("C14", "A closed connection leaves nothing behind but its orphans",
     "When a client's connection ends, its subscriptions and transactions are gone, its client id and subscription ids are free to be used again, its "
     "quota is returned, and nothing is ever sent for it again; only its services remain, as orphans. Once these have expired, "
     "the server is in the same observable and internal population state as if the client had never connected. Likewise, what a "
     "client has ended itself (subscriptions, services and transactions of a connection which stays) is not held any longer.",
     ["histories", "fault_sequences"],
     "All states of a client at the moment of disconnection and all ways of disconnecting, repeated any number of times.",
     NOTESTS + "Residue accumulates only over histories of takeover, reconnect and expiry.",
     ["paf/sd.py", "paf/server.py"],
     [("Client.disconnect", "paf/sd.py"), ("Connection.terminate", "paf/server.py")],
     [("DB.clients", "known clients", "paf/sd.py"), ("client_connections", "handshaked connections", "paf/server.py")],
     ["clients/subscriptions listings", "object counts after quiescence"])

prop("C15", "Timers fire once, in order, never early, and cancel cleanly",
     "For every sequence of adding and cancelling timers and of time passing, including from within timer handlers, "
     "processing fires exactly the timers whose expiration time has passed and that were not cancelled, each once, in order of "
     "expiration time. The reported next timeout is always the earliest pending expiration time, and every "
     "change of it is announced to the owner.",
     ["histories", "inputs"],
     "All operation sequences over timers, including equal times and re-entrant changes.",
     "The existing tests use a few fixed or purely additive sequences and no re-entrancy.",
     ["paf/timer.py"],
     [("TimerManager", "paf/timer.py")], [("deque", "pending timers by expiration", "paf/timer.py")],
     ["handler invocations", "next_timeout", "change callback"])

prop("C16", "The event loop dispatches exactly the sources that are due",
     "Every registered source whose descriptor is ready, whose timeout has passed or that is marked active has its handler invoked, "
     "without starving the others, and a source that has been removed is not invoked, "
     "even if sources are added, changed or removed, or descriptors reused, from within handlers. "
     "The loop sleeps no longer than until the earliest timeout, and stops on request or on a termination signal.",
     ["histories", "schedules"],
     "All sequences of source operations, including re-entrant ones, against real descriptors and time.",
     NOTESTS + "There are no event loop tests.",
     ["paf/eventloop.py"],
     [("EventLoop", "paf/eventloop.py"), ("Source", "paf/eventloop.py")],
     [("source_fd/fd_source/source_timeout", "registrations", "paf/eventloop.py")],
     ["handler invocations and their time"])

prop("C17", "Slow clients lose nothing, get everything in order and are throttled",
     "Messages to a client that cannot currently receive are kept and delivered later exactly once and in order, "
     "for any pattern of the transport becoming ready, without delaying other clients. While many (128 or more) messages are queued for "
     "a client no further requests are read from it, and reading resumes once the queue has drained. No pending message is left undelivered when the transport is ready.",
     ["schedules", "histories"],
     "All patterns of transport readiness for all clients, interleaved with any requests.",
     NOTESTS + "Back-pressure needs a transport that blocks at chosen points.",
     ["paf/server.py"],
     [("try_send/receivable/update_source", "paf/server.py")], [("out_wire_msgs", "queued messages", "paf/server.py")],
     ["messages received by slow and fast clients", "messages read by the server"])

prop("C18", "Connection slots are bounded and always recovered",
     "With a total client limit N the server has at most N connections open at any time, counting unfinished handshakes, and "
     "whenever fewer are open, waiting connections on any of its sockets are accepted. A connection that has not completed "
     "its handshake is dropped about two to three seconds after it was made, and not before, whatever it has sent and whatever other clients do. Without a "
     "limit all connections are accepted, and a failing accept does not prevent later ones.",
     ["histories", "schedules", "fault_sequences", "configurations"],
     "All limits, arrival patterns, handshake outcomes and accept errors, on one or more sockets.",
     NOTESTS + "Slot recovery depends on the order of accepts, failures and timeouts.",
     ["paf/server.py"],
     [("sock_activate/conn_terminated", "paf/server.py"), ("clean_out_connections", "paf/server.py")],
     [("clientless_connections", "connections without handshake", "paf/server.py")],
     ["accepted and closed connections over time"])

prop("C19", "Configuration is loaded faithfully or rejected with a clear error",
     "Every configuration file that follows the documented format yields exactly the described domains, sockets, TLS attributes, version and idle "
     "limits, resource limits and log settings, with documented defaults for what is left out and aliases treated as their "
     "modern names. Content that is not valid YAML, or has values of a wrong type or out of range, or conflicting or missing keys, is "
     "rejected with a configuration error; no content leads to another exception or a silently altered setting.",
     ["configurations", "inputs"],
     "All YAML documents, valid and with arbitrary values in place of expected ones.",
     NOTESTS + "There are no passing configuration tests.",
     ["paf/conf.py", "paf/sd.py"],
     [("load/populate", "paf/conf.py"), ("IdleLimit", "paf/sd.py")], (), ["paf.conf.load result or error"])

prop("C20", "The client library reports server behaviour faithfully and safely",
     "For every operation and every sequence of server messages, the client delivers to each "
     "transaction's callback, or returns from the blocking call, exactly the events of that transaction in order with their contents, and a failure is reported with its reason (or as "
     "unknown). Requests are sent exactly once and in order whatever the transport readiness. Messages that violate the protocol "
     "raise a protocol error, and lost connections a transport or protocol error, never anything else and never a wrong result. "
     "What belongs to a finished transaction is not held on to by the connection.",
     ["inputs", "schedules", "fault_sequences"],
     "All operation sequences, response orders, malformed or unexpected server messages and transport errors.",
     NOTESTS + "Client tests need a running server and then only see correct servers.",
     ["paf/client.py", "paf/proto.py"],
     [("Client.process/try_send/try_receive", "paf/client.py"), ("Transaction.consume_message", "paf/client.py")],
     [("transactions", "live client transactions", "paf/client.py")],
     ["callback events", "return values", "exceptions"])

prop("C21", "Domain files resolve to exactly the servers they list",
     "Resolving a domain name returns the servers of its file, in order, with the addresses, TLS attributes and protocol version limits "
     "given, for both the plain-text format (blank and comment lines ignored) and the JSON format. A name without "
     "a file is taken as an address, and listing domains yields exactly the regular files of the domains directory given by the environment.",
     ["inputs", "configurations"],
     "All file contents in both formats, and all directory layouts.",
     NOTESTS + "Domain file tests need libxcm and cover a few files.",
     ["paf/client.py"],
     [("read_domain/parse_domain_json/parse_domain_custom", "paf/client.py")], (), ["ServerConf lists"])

prop("C22", "Client and subscription listings describe the live system",
     "A clients query lists exactly the clients that have completed the handshake, each once, with its id, transport address and connect time, "
     "and for version 3 its idle time, protocol version and, once measured, track latency. A subscriptions query lists exactly the live subscriptions with "
     "their owner and an equivalent filter expression.",
     ["histories", "schedules"],
     "All histories of connects, handshakes, disconnects, subscribes and unsubscribes across protocol versions.",
     NOTESTS + "Listings have to agree with every reachable state.",
     ["paf/server.py", "paf/sd.py"],
     [("clients_request/subscriptions_request", "paf/server.py")],
     [("client_connections", "handshaked connections", "paf/server.py")],
     ["clients and subscriptions notifications"])

prop("C23", "Domains are isolated and all sockets of a domain are equivalent",
     "Clients of one domain never see or affect services, subscriptions, clients, ids or resource usage of another domain "
     "in the same process, and one domain's load or failures do not delay another. Within a domain the socket through which a "
     "client connected makes no difference to what it sees.",
     ["histories", "configurations", "schedules"],
     "All assignments of clients to domains and sockets, all histories.",
     NOTESTS + "Isolation is a property over pairs of histories.",
     ["paf/server.py", "paf/daemon.py"],
     [("Server", "paf/server.py"), ("run", "paf/daemon.py")], (), ["all responses per domain"])

prop("C24", "The command line client performs what is typed and survives bad input",
     "Each command line issues exactly the corresponding protocol operation with the given ids, generation, TTL, typed property values and "
     "filter, and prints the outcome reported by the server. Malformed command lines, and commands that are not available with the "
     "protocol version in use, produce a message and no operation, and never end the session; invalid program options produce a "
     "message and a failure status.",
     ["inputs"],
     "All command lines, including quoting, odd argument counts, empty and non-numeric arguments.",
     NOTESTS + "No pafc test runs without libxcm.",
     ["app/pafc"],
     [("PafCli", "app/pafc"), ("parse_props", "app/pafc")], (), ["requests issued", "text printed"])

prop("C25", "The daemon honours its command line and fails cleanly",
     "For every command line, the daemon serves exactly the domains, sockets, limits and log destinations that options, arguments and "
     "configuration file together specify, with options taking precedence over the file. Any invalid option value or configuration leads "
     "to an error message and a non-zero exit status before serving, and a termination signal to a clean exit with status zero.",
     ["configurations", "inputs"],
     "All combinations of options, arguments and configuration files, valid and invalid.",
     NOTESTS + "No daemon test runs without libxcm.",
     ["paf/daemon.py", "paf/conf.py", "paf/logging.py"],
     [("main/run", "paf/daemon.py"), ("configure", "paf/logging.py")], (), ["servers created", "exit status", "log output"])

prop("C26", "The transport binding transfers messages and attributes unaltered",
     "Messages of any content up to the maximum size, attribute values of every type, and error codes pass through the transport binding "
     "unaltered, with closed connections, would-block conditions, failures and values that cannot be represented reported as such. Every "
     "socket and attribute map is released exactly once, and not used thereafter.",
     ["inputs", "fault_sequences"],
     "All message contents and sizes, attribute names, types and values, and error codes of the transport library.",
     NOTESTS + "The binding cannot even be imported by the tests that run.",
     ["paf/xcm.py"],
     [("ConnectionSocket/ServerSocket/Socket", "paf/xcm.py"), ("_attr_to_py/_attr_map_add", "paf/xcm.py")], (),
     ["bytes, attributes and errors seen on either side of the binding"])

prop("C27", "Republishing after a server restart rebuilds the same directory",
     "If a server restarts empty at any point of a history, and every client reconnects and republishes its services in any order and "
     "any number of times, the resulting directory, and what subscribers can reconstruct, equals the one before the restart "
     "for all connected owners. Repeating a republication is idempotent: it changes nothing and notifies nobody.",
     ["histories", "crash_points", "schedules"],
     "All histories, all restart points, all orders and repetitions of reconnection and republication.",
     NOTESTS + "Recovery is a relation between two runs.",
     ["paf/sd.py", "paf/server.py"],
     [("Client.publish", "paf/sd.py")], (), ["services listings before and after"])

prop("C28", "Daemon and client library together keep the service discovery promises",
     "With the daemon as a process of its own, and clients using the client library (blocking calls, asynchronous ones, several "
     "requests in flight, readiness callbacks, domain files) over real descriptors: every request is answered, in order, with the "
     "documented outcome; every subscriber sees each change of a matching service, in the order of the changes and with the right "
     "generation, properties, TTL, owner and orphan time, also when several clients work at once and when it did not read for a while; "
     "services of clients that end become orphans, also those published right before the end, and vanish when their TTL is over, not "
     "before; what is served of a client that ends amid requests is a first part of them; hostile peers disturb nobody; the services the "
     "benchmarking tool publishes appear and disappear like any others; the daemon ends with status 0 on a termination signal, its clients notice, and it can be started again on the same addresses.",
     ["inputs", "histories", "schedules", "crash_points"],
     "All configurations, all sets of clients and requests, all interleavings of processes, all points at which a client or the daemon ends.",
     NOTESTS + "The end-to-end suite fixes a few scenarios (and can't run without libxcm); the guarantees are about all of them, and "
     "about the parts in combination: a message framed, a descriptor registered or a callback dispatched wrongly shows nowhere else.",
     ["app/pafd", "app/pafc", "app/pafbench", "paf/client.py", "paf/server.py", "paf/sd.py", "paf/eventloop.py", "paf/xcm.py", "paf/proto.py",
      "paf/daemon.py"],
     [("Client", "paf/client.py"), ("Server", "paf/server.py"), ("EventLoop", "paf/eventloop.py")], (),
     ["outcomes, events and listings seen by users of the client library; exit statuses; pafc output"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
