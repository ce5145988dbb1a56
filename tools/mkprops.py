#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that edits are reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                  "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": hook}})

prop("P01", "The broker delivers each message to exactly the current owner of its address",
 "At every moment of any history of clients connecting, adding and removing addresses and aliases, and disconnecting, a request sent to an address reaches the client that currently owns that address, exactly once and unaltered, and no other client. A request to an address nobody owns is answered to its sender with a definite 'no such destination' error instead of being lost or timing out. An alias that a live owner holds cannot be taken over by someone else.",
 ["histories", "schedules"], "every sequence of up to 4 (thorough 5) add/remove/alias/unalias/disconnect operations by 3 clients over nested and sibling dotted names, probing every name after every step",
 "tests register a handful of fixed names once; ownership after overlapping prefixes, re-registration, removal of parents/children and disconnects is a combinatorial space",
 ["src/rtmessage/rtrouted.c", "src/rtmessage/rtRoutingTree.c", "src/rtmessage/rtConnection.c"],
 [("routing tree", "topic -> route", "src/rtmessage/rtRoutingTree.c"), ("gRoutes/gClients", "live routes and clients", "src/rtmessage/rtrouted.c")],
 [("topic tree insert/lookup/remove", "src/rtmessage/rtRoutingTree.c"), ("dispatch and undeliverable turn-around", "src/rtmessage/rtrouted.c")],
 ["messages received by each client's callback", "return codes and response of a request"])

prop("P02", "Every request gets its own response or a timely error",
 "Whatever the interleaving of concurrent callers, reader and dispatcher threads, late replies and connection loss, each outstanding request completes exactly once: with the reply its responder produced for that very request, or with an error no later than its timeout (plus, when the connection is lost, the bounded time spent re-establishing it). A reply that arrives after its request timed out is never handed to another request, and the connection keeps working afterwards.",
 ["schedules", "fault_sequences"], "all schedules within the deviation bound of 2-3 concurrent requests on one connection, including early firing of each timeout, a delayed or missing reply and loss of the connection",
 "a mismatched or lost reply needs a particular order of a timeout, a reply and a second request; tests run one schedule",
 ["src/rtmessage/rtConnection.c", "src/rtmessage/rtSemaphore.c", "src/rtmessage/rtList.c"],
 [("pending request list", "outstanding sequence numbers", "src/rtmessage/rtConnection.c"), ("sequence number", "identity of a request", "src/rtmessage/rtConnection.c")],
 [("request send/wait/dequeue", "src/rtmessage/rtConnection.c"), ("reader thread response matching", "src/rtmessage/rtConnection.c")],
 ["status, payload and elapsed virtual time of each request call"])

prop("P03", "Messages survive any stream fragmentation; a bad peer harms only itself",
 "However the byte stream of a connection is split into reads, the sequence of messages a well-behaved client sends is received complete, unaltered and in order, at the broker and at the receiving client. Bytes that are not a valid message, a message cut off by disconnection, or a well-formed message with hostile contents may cost the sender its own message or connection, but never crash or stall the broker, corrupt memory, or disturb messages between other clients.",
 ["inputs", "fault_sequences"], "every placement of up to 2 short reads; every truncation point and every single-field corruption (boundary values) of each kind of broker message, with a healthy pair of clients exchanging messages before, during and after",
 "tests only ever send well-formed messages in one write",
 ["src/rtmessage/rtrouted.c", "src/rtmessage/rtConnection.c", "src/rtmessage/rtMessageHeader.c", "src/rtmessage/rtMessage.c"],
 [("per-client read state machine", "preamble/header/payload progress", "src/rtmessage/rtrouted.c")],
 [("header encode/decode", "src/rtmessage/rtMessageHeader.c"), ("client read", "src/rtmessage/rtrouted.c"), ("reader thread", "src/rtmessage/rtConnection.c")],
 ["messages received by healthy clients", "broker liveness", "memory errors"])

prop("P04", "Data arrives exactly as it was sent",
 "A value of any supported type, and a property list or nested object of any shape, that one component hands to the bus through a get, set, method, event or subscription call is received by the other component with the same names, order, types, lengths and bits. This holds for boundary values of every type, empty and long strings, embedded zero bytes, and payloads larger than any internal buffer.",
 ["inputs"], "every (type, boundary value) x every path (get, set, multi-get, multi-set, method in, method out, event, initial value, message codec, cache codec), and every object tree up to the bound",
 "tests transport a few sample values per type over one path",
 ["src/rbus/rbus_value.c", "src/rbus/rbus_property.c", "src/rbus/rbus_object.c", "src/rbus/rbus_buffer.c", "src/core/rbuscore_message.c", "src/rbus/rbus.c"],
 [("msgpack buffer", "encoded message", "src/core/rbuscore_message.c"), ("TLV buffer", "encoded value", "src/rbus/rbus_buffer.c")],
 [("value/property/object to and from message", "src/rbus/rbus_value.c"), ("message codec", "src/core/rbuscore_message.c")],
 ["the value seen by the peer's handler or returned by the call"])

prop("P05", "Get and set reach the right element and report the true outcome",
 "A get returns exactly what the owning component's handler supplied for that element, and a set hands the owner's handler exactly the given value for that element; an error chosen by the handler is the error the caller sees and, for a set, means no silent success. Requests for unknown, non-readable, non-writable or wrong-kind elements, or through an unusable handle, fail with the documented error and run no handler. A multi-parameter or wildcard get returns each requested or matching element its owner lets be read exactly once, or an error.",
 ["inputs", "histories"], "every operation x every element kind and access mode x every handler verdict, over scalars, rows, nested tables and several components, after short histories of registration, row changes and closed components",
 "tests cover a fixed set of elements and mostly successful calls",
 ["src/rbus/rbus.c", "src/rbus/rbus_element.c", "src/core/rbuscore.c"],
 [("element tree", "registered elements and rows of a component", "src/rbus/rbus_element.c")],
 [("get/set request handlers", "src/rbus/rbus.c"), ("multi and wildcard get", "src/rbus/rbus.c")],
 ["return code and values of the call", "handler invocations at providers"])

prop("P06", "A multi-parameter set is applied as a unit per its commit and rollback options",
 "When a multi-parameter set succeeds, every parameter has reached its owner's handler exactly once, in order per owner, and each owner sees the commit flag exactly on its last parameter when commit was requested and never otherwise. When any parameter is rejected, unwritable or unknown, the call reports an error naming the failing parameter, and if rollback was requested every readable parameter that had already been changed, at any live owner, is restored to its former value.",
 ["inputs", "fault_sequences"], "every assignment of 1-4 parameters to 1-3 owners x every position and kind of failure x commit/rollback/session options, against a transactional reference model",
 "rollback after a failure at a particular position in a particular owner is a product space; tests try one or two failures",
 ["src/rbus/rbus.c"],
 [("cached old values", "values to restore on rollback", "src/rbus/rbus.c")],
 [("multi-set client", "src/rbus/rbus.c"), ("set request handler", "src/rbus/rbus.c")],
 ["handler calls with their options", "provider state after the call", "returned code and failing name"])

prop("P07", "Element registration is exclusive, all-or-nothing and reversible",
 "At any time each element name has at most one owner on the bus: registering a name another component holds fails with a duplicate error and changes nothing, for any of the names in the same call. A successful registration makes exactly those elements reachable, unregistering them (or closing the component) makes them unreachable and free for others to claim, and neither disturbs any other element.",
 ["histories", "schedules"], "all sequences up to depth 4 (thorough 5) of register/unregister/close/reopen by two components over colliding name sets, and all bounded schedules of two components registering the same names concurrently",
 "tests register distinct names once per process",
 ["src/rbus/rbus.c", "src/rbus/rbus_element.c", "src/core/rbuscore.c", "src/rtmessage/rtrouted.c"],
 [("element tree", "local registrations", "src/rbus/rbus_element.c"), ("routing tree", "bus-wide ownership", "src/rtmessage/rtRoutingTree.c")],
 [("register/unregister data elements", "src/rbus/rbus.c"), ("alias add/remove", "src/rtmessage/rtConnection.c")],
 ["return codes", "which component answers a get for each name"])

prop("P08", "Table rows exist exactly as the history of row operations says",
 "After any sequence of adding and removing rows (by consumers, or by the owner itself, with or without aliases, in nested tables) the rows that can be listed, read, written and added to are exactly those added and not removed, reachable by instance number and by alias, each with its own children. Removing a row removes everything beneath it and nothing else; a row number that is already present is refused, and a refused or failed row operation changes nothing. The elements of a table may be registered in any order, also while the table has rows.",
 ["histories"], "all sequences up to depth 3 (thorough 4) of 24 row operations over a nested table with reused numbers and aliases, comparing the complete observable tree and the row events with a reference; all registration orders of a nested table's elements",
 "tests add and remove rows in one fixed order",
 ["src/rbus/rbus.c", "src/rbus/rbus_element.c"],
 [("row instances", "instantiated rows and aliases", "src/rbus/rbus_element.c")],
 [("add/remove/register/unregister row", "src/rbus/rbus.c"), ("row instantiation", "src/rbus/rbus_element.c")],
 ["row listings", "wildcard and direct gets", "row events"])

prop("P09", "Each published event reaches every current subscriber once, in order",
 "An event published for an element is handed exactly once, with the same data, to each subscription that exists at that moment (as long as its consumer keeps up, i.e. has no more than 30 messages unprocessed), exact, wildcard or row, in any number of components, in publication order per subscription, and to no other handler. Subscribing twice identically is refused, unsubscribing ends delivery for good and leaves other subscriptions alone, and publishing with nobody subscribed or for an unknown element is reported as such.",
 ["histories", "schedules"], "all sequences up to depth 3 (thorough 4) of 51 subscribe/unsubscribe/row/close operations by three consumers in two processes over exact, wildcard and table events, publishing every event after each, and all bounded schedules of publish against publish, subscribe, unsubscribe, close and unsubscribing handlers",
 "duplicated, lost or misdirected events depend on the subscription history and on interleavings that tests do not enumerate",
 ["src/rbus/rbus.c", "src/rbus/rbus_subscriptions.c", "src/rbus/rbus_tokenchain.c", "src/core/rbuscore.c"],
 [("subscription list", "who is subscribed to what", "src/rbus/rbus_subscriptions.c"), ("client event list", "handler per subscription", "src/rbus/rbus.c")],
 [("subscribe/unsubscribe handler", "src/rbus/rbus.c"), ("publish", "src/rbus/rbus.c"), ("client event dispatch", "src/rbus/rbus.c")],
 ["handler invocations at each consumer", "return codes"])

prop("P10", "Value-change and filter subscriptions fire exactly on real changes and crossings",
 "A subscription to a property without a publisher is notified once for every change of the value between two polls, with the old and new value, whatever the type, and never when the value is unchanged. A subscription with a filter is notified exactly when the filter's verdict on the value changes, with the verdict stated, independently of other subscriptions to the same property; an initial-value request yields the value current at subscription.",
 ["inputs", "histories"], "every ordered change between boundary values of every type (and from and to the same value) x every filter operator, negation and two-level combination, all subscribed at once, for scalar and row properties and for published changes; all histories up to depth 4 (thorough 5) of subscribing, unsubscribing, changing, setting and making unreadable, with a poll after each step; all bounded schedules of a poll against subscribe, unsubscribe, row changes, set and close",
 "crossing logic for each type and combination of filters is an input space; tests use a few integer sequences",
 ["src/rbus/rbus_valuechange.c", "src/rbus/rbus_filter.c", "src/rbus/rbus_value.c", "src/rbus/rbus.c"],
 [("last known value", "value at the previous poll", "src/rbus/rbus_valuechange.c")],
 [("polling thread", "src/rbus/rbus_valuechange.c"), ("filter evaluation", "src/rbus/rbus_filter.c"), ("publish with filters", "src/rbus/rbus.c")],
 ["events received by each subscription"])

prop("P11", "Interval subscriptions tick on schedule for their duration and then stop",
 "A subscription with an interval delivers the current value once per interval to its own handler only, and with a duration it ends after that duration with exactly one completion notice and nothing afterwards. Several interval subscriptions on the same element are independent, and unsubscribing stops delivery promptly, even in the middle of an interval.",
 ["histories", "schedules"], "all combinations of two interval subscriptions (interval x duration x relative start x same or other consumer, element or wildcard) with one of ten actions (unsubscribe, close, death, provider close or death, value change, failing reads, row changes) at each half second, under virtual time; all bounded schedules of such an action at the moment of a tick or of the last tick; boundary values of interval and duration",
 "tests sample one or two intervals in real time and cannot place an unsubscribe at every point of a tick",
 ["src/rbus/rbus_intervalsubscription.c", "src/rbus/rbus.c", "src/rbus/rbus_subscriptions.c"],
 [("interval records", "one timer per interval subscription", "src/rbus/rbus_intervalsubscription.c")],
 [("interval thread", "src/rbus/rbus_intervalsubscription.c")],
 ["events with their virtual arrival times"])

prop("P12", "Subscriptions survive a provider restart; a damaged cache never does harm",
 "When a provider crashes or closes and starts again under the same name, every subscription of a still-running consumer is in force again after it re-registers its elements, with the same filter and kind, exactly once; subscriptions of consumers that are gone, or that had unsubscribed, are not revived. Whatever crash point, truncation or corruption the saved file has, the provider starts normally, without memory errors, and serves new subscriptions.",
 ["crash_points", "histories", "inputs"], "all histories up to depth 2 (thorough 3) of subscribing and unsubscribing (eleven kinds), provider death, close and restart, consumer close and death, row changes, publishing afterwards; every crash point while a subscription is saved; every truncation, every single-byte corruption (boundary values) and duplications of saved files",
 "no test restarts a provider at each point of writing the file or damages the file",
 ["src/rbus/rbus_subscriptions.c", "src/rbus/rbus_filter.c", "src/rbus/rbus_buffer.c", "src/rbus/rbus.c"],
 [("subscription cache file", "saved subscriptions", "src/rbus/rbus_subscriptions.c")],
 [("save/load cache", "src/rbus/rbus_subscriptions.c"), ("resubscribe on registration", "src/rbus/rbus_subscriptions.c")],
 ["events delivered after the restart", "return codes of new calls"])

prop("P13", "An asynchronous subscription ends in exactly one answer",
 "Every asynchronous subscribe call that was accepted calls its response handler exactly once: with success as soon as a provider that appears before the deadline accepts it, with the provider's refusal, or with a timeout at the deadline, unless it is cancelled by unsubscribing or closing first, in which case the handler is never called again. After success events flow; after failure none do.",
 ["histories", "schedules"], "all combinations of the provider's appearance (at once, between retries, after the deadline, never), the timeout, the provider's verdict (accepts, refuses, slow, no answer), a second pending subscription of seven kinds, and a cancellation, close or death at four moments; all bounded schedules of the moment of the answer against eight actions of another thread, with provider crash points",
 "needs control of time and of the order of retry, cancellation and provider start",
 ["src/rbus/rbus_asyncsubscribe.c", "src/rbus/rbus.c"],
 [("pending list", "subscriptions being retried", "src/rbus/rbus_asyncsubscribe.c")],
 [("retry thread", "src/rbus/rbus_asyncsubscribe.c")],
 ["response handler calls", "events received"])

prop("P14", "A method call runs once at its owner and its outcome is reported faithfully",
 "Invoking a method runs the owner's handler exactly once with the given arguments and returns exactly its result code and outputs, synchronously, or through exactly one callback for the asynchronous form, also when the owner answers later from another thread. If the owner is missing, dies or does not answer, the caller gets an error within the timeout and an answer that comes later is discarded.",
 ["inputs", "schedules", "fault_sequences"], "every result code x six results x six arguments x answered at once / later / after the timeout x three call forms; 20 names without a method; providers that block, never answer or die; ten kinds of concurrent calls (swapped deferred answers, answer at the moment of the timeout, closing, nesting, calls from the callback, provider death) under all bounded schedules",
 "tests call methods one at a time with prompt answers",
 ["src/rbus/rbus.c", "src/core/rbuscore.c", "src/rtmessage/rtConnection.c"],
 [("async method handle", "identity of a deferred answer", "src/rbus/rbus.c")],
 [("method invoke and response", "src/rbus/rbus.c")],
 ["return code, outputs and callback count at the caller", "handler invocations at the owner"])

prop("P15", "Concurrent use of the API never deadlocks, corrupts memory or loses an operation",
 "When several threads of several components use the API at the same time (getting, setting, subscribing, publishing, registering, adding rows, opening and closing), every call returns within its timeout, no thread deadlocks, no memory is used after it is freed, and the state afterwards is one that some one-at-a-time order of the calls could have produced. Calls made from within handlers where the documentation allows them return as well.",
 ["schedules"], "all schedules within the deviation bound of pairs of API operations running concurrently against the same elements, all 496 pairs of 31 operations that share locks or data; 24 calls from within 12 kinds of handler",
 "lock-order inversions and check-then-act races need specific preemptions",
 ["src/rbus/rbus.c", "src/rbus/rbus_valuechange.c", "src/rbus/rbus_subscriptions.c", "src/core/rbuscore.c", "src/rtmessage/rtConnection.c"],
 [("global and per-handle mutexes", "protect handles, subscriptions, elements, value-change lists", "src/rbus/rbus.c")],
 [("lock acquisition order", "src/rbus/rbus_handle.c"), ("callback dispatch thread", "src/rtmessage/rtConnection.c")],
 ["completion of every call", "final observable state", "memory errors"])

prop("P16", "At most one session is open and its identity is reported consistently",
 "At any time at most one session is active: creating one succeeds only when none is active, every component that asks is told the same current session (0 when none), and only closing with the active identifier ends it. These results hold for any order and interleaving of create, query and close requests from several components, every change of session is announced to subscribers, and session numbers accompany sets to the handlers.",
 ["histories", "schedules"], "all sequences up to depth 3/4 of create/query/close(current/other/0/-1) by two components, deaths and manager restarts against a reference automaton; all forms and options of sets; all bounded schedules of two or three concurrent requests with crash points of the manager",
 "tests run one create/close pair",
 ["src/session_manager/session_manager.c", "src/rbus/rbus.c"],
 [("current session", "active session number", "src/session_manager/session_manager.c")],
 [("session methods", "src/session_manager/session_manager.c"), ("session API", "src/rbus/rbus.c")],
 ["return codes and session numbers at each component"])

prop("P17", "A component death or broker restart leaves no stale state and is survived",
 "When a component dies at any moment, its names become free, its subscriptions vanish at every provider, requests waiting for it fail within their timeout, and all other components keep working. When the broker connection is lost and the broker comes back, a surviving component reconnects by itself and its address, and subscriptions made by it or at it, work again without any new call.",
 ["crash_points", "schedules"], "a crash of a provider or consumer at every scheduling point of each operation; a cut of the connection, a broker restart, or a second death of the broker during reconnection, at every scheduling point; thread schedules up to a deviation bound",
 "tests never kill a component at a chosen instruction",
 ["src/rtmessage/rtrouted.c", "src/rtmessage/rtConnection.c", "src/core/rbuscore.c", "src/rbus/rbus.c", "src/rbus/rbus_subscriptions.c"],
 [("client list", "live clients and their routes", "src/rtmessage/rtrouted.c"), ("listener table", "addresses to restore on reconnect", "src/rtmessage/rtConnection.c")],
 [("disconnect clean-up and advisory", "src/rtmessage/rtrouted.c"), ("reconnect", "src/rtmessage/rtConnection.c")],
 ["what other components observe afterwards"])

prop("P18", "A direct connection behaves like the bus",
 "Opening a direct connection to the owner of an element succeeds once for an existing element and fails for others; gets, sets, method calls and events on that element through it give the same results as through the broker. Closing it, from either side, or the death of the peer, leaves both components able to communicate through the broker again.",
 ["histories", "schedules"], "all sequences up to depth 4 of open/close direct, get, set, subscribe, publish and peer close, compared step by step with the same history over the broker",
 "tests open one direct connection and use it once",
 ["src/rtmessage/rtrouteBase.c", "src/core/rbuscore.c", "src/rbus/rbus.c"],
 [("private client list", "direct peers", "src/core/rbuscore.c")],
 [("direct server loop", "src/rtmessage/rtrouteBase.c"), ("direct open/close", "src/rbus/rbus.c")],
 ["results of calls over the direct handle"])

prop("P19", "Discovery reports exactly the registered components and elements",
 "At any moment of any history, asking which component owns an element, which elements a component has, which components exist and which elements or rows lie under a path returns exactly what is registered at that time, without duplicates or omissions, in the order of the questions asked where one is documented. Questions about unknown names get an empty answer or the documented error, never stale data.",
 ["histories"], "after all histories up to depth 2/3 (from three starting registrations) of register, unregister, row operations, close, death and failed registration by two components, all discovery queries over all names, prefixes and depths, against a reference tree; all crash points and bounded schedules of a registration, unregistration or close with a query at the same time",
 "tests query a fixed registration once",
 ["src/rtmessage/rtrouted.c", "src/rtmessage/rtRoutingTree.c", "src/core/rbuscore.c", "src/rbus/rbus.c", "src/rbus/rbus_element.c"],
 [("routing tree", "registered names", "src/rtmessage/rtRoutingTree.c"), ("element tree", "elements and rows", "src/rbus/rbus_element.c")],
 [("discovery requests", "src/rtmessage/rtrouted.c"), ("element info", "src/rbus/rbus.c")],
 ["returned lists"])

prop("P20", "The value, property and object model behaves like plain immutable data",
 "For every value of every type, storing and reading back, copying and swapping preserve type and content, and so does parsing back the text form of a scalar; equality is exact and an order comparison agrees with the mathematical or lexicographic order of the type. Property lists and objects behave as ordered name-to-value lists under any sequence of set, append, push, get, count and compare, and memory is released exactly when the last holder releases it, never earlier.",
 ["inputs", "histories"], "all pairs of boundary values of all types for comparison, conversion and copy; all operation sequences up to depth 5 on property lists and objects against a list model",
 "unit tests check sample values per function, not all pairs or sequences",
 ["src/rbus/rbus_value.c", "src/rbus/rbus_property.c", "src/rbus/rbus_object.c", "src/rtmessage/rtRetainable.h"],
 [("value storage", "typed content", "src/rbus/rbus_value.c"), ("property chain", "ordered list", "src/rbus/rbus_property.c")],
 [("compare/convert/copy", "src/rbus/rbus_value.c"), ("list operations", "src/rbus/rbus_object.c")],
 ["results of accessor calls", "memory errors"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P), "properties")
