"""What each check runs.  Every run is an exhaustive exploration of one scenario (scn/*.cpp) up to the stated bound."""
def R(scn, bound=0, quick=None, thorough=None, name=None, **kw):
    d = dict(scn=scn, bound=bound, **kw)
    if name: d["name"] = name
    if quick: d["quick"] = quick
    if thorough: d["thorough"] = thorough
    return d
BIG = {"steps": 200000000}
MED = {"steps": 2000000}
CHECKS = {
 "P01": {"sources": ["p01.cpp", "wire.cpp"], "level": "exploration", "technique": "exhaustive enumeration of registration/send histories against the real broker under a controlled scheduler, compared with a reference routing table",
   "assumptions": ["names and expressions over the small alphabets in scn/p01.cpp"],
   "runs": [R("p01_names", **BIG), R("p01_routing", params={"depth": 3}, thorough={"params": {"depth": 4}}, **BIG)]},
 "P02": {"sources": ["p02.cpp", "wire.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive exploration of thread schedules, timeout firings, crash points and answer scripts on the real client and broker (deviation-bounded stateless model checking)",
   "assumptions": ["schedules within the stated deviation bound; 2-3 overlapping requests"],
   "runs": [R("p02_conc", 2, **BIG), R("p02_conc", 1, name="p02_conc3", params={"req": 3}, thorough={"bound": 2}, **BIG), R("p02_race", 2, thorough={"bound": 3}, **BIG), R("p02_loss", 2, thorough={"bound": 3}, **BIG), R("p02_api", 1, thorough={"bound": 2}, **BIG), R("p02_script", params={"depth": 4, "parts": 16}, thorough={"params": {"depth": 5, "parts": 128}}, **BIG)]},
 "P03": {"sources": ["p03.cpp", "wire.cpp"], "level": "exploration", "technique": "exhaustive enumeration of stream fragmentations, header-field corruptions, truncations and malformed internal messages against the real broker and client",
   "assumptions": ["one hostile peer; field values from the boundary sets in scn/p03.cpp"],
   "runs": [R("p03_split_broker", **BIG), R("p03_split_client", **BIG), R("p03_header", **BIG), R("p03_truncated", **BIG), R("p03_internal", **BIG)]},
 "P04": {"sources": ["p04.cpp"], "level": "exploration", "technique": "exhaustive enumeration of value/path/tree cases on the real stack under a controlled scheduler",
   "assumptions": ["values are the boundary values listed in scn/common.cpp; trees up to the stated size"],
   "runs": [R("p04_values", **BIG), R("p04_trees", **BIG, params={"nodes": 1, "depth": 1}, thorough={"params": {"nodes": 2, "depth": 1}})]},
 "P05": {"sources": ["p05.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive enumeration of names, parameter lists, handler outcomes, operation histories (with provider deaths) and thread schedules on the real stack, compared with a reference model",
   "assumptions": ["two providers and the elements listed in scn/p05.cpp; lists and histories up to the stated length"],
   "runs": [R("p05_get", **BIG), R("p05_set", **BIG), R("p05_multi", params={"len": 2}, thorough={"params": {"len": 3}}, **BIG), R("p05_hist", slots=9, params={"depth": 4}, thorough={"params": {"depth": 5}}, **BIG), R("p05_conc", 1, thorough={"bound": 2}, **BIG)]},
 "P06": {"sources": ["p06.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive enumeration of parameter lists x options x rejections, owner-crash points and thread schedules on the real stack, compared with a reference model",
   "assumptions": ["three providers and the parameters listed in scn/p06.cpp; lists up to the stated length"],
   "runs": [R("p06_lists", params={"len": 3}, thorough={"params": {"len": 4}}, **BIG), R("p06_death", 2, thorough={"bound": 3}, **BIG), R("p06_conc", 1, slots=8, thorough={"bound": 2}, **BIG)]},
 "P07": {"sources": ["p07.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive enumeration of registration histories of two components (with closes and deaths) and of thread schedules and crash points on the real stack, compared with a reference ownership map",
   "assumptions": ["two components and the elements listed in scn/p07.cpp; histories up to the stated length"],
   "runs": [R("p07_hist", slots=9, params={"depth": 2}, **BIG), R("p07_hist", slots=9, name="p07_hist3", params={"depth": 3, "every": 0}, thorough={"params": {"depth": 3, "every": 1}}, **BIG), R("p07_conc", 2, slots=9, thorough={"bound": 3}, **BIG), R("p07_listed", slots=9, **BIG)]},
 "P08": {"sources": ["p08.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive enumeration of row-operation histories and registration orders on the real stack, comparing the complete observable tree with a reference",
   "assumptions": ["one owner with a two-level table, rows and aliases as listed in scn/p08.cpp; histories up to the stated length; the owner's add handler returns unused numbers"],
   "runs": [R("p08_hist", params={"depth": 3}, thorough={"params": {"depth": 4}}, **BIG), R("p08_order", **BIG)]},
 "P09": {"sources": ["p09.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive enumeration of subscribe/unsubscribe/row/close histories and of thread schedules of publishing against subscription changes on the real stack, compared with a reference model",
   "assumptions": ["one owner with plain and table events, three consumers and the subscriptions listed in scn/p09.cpp; histories up to the stated length; schedules within the deviation bound"],
   "runs": [R("p09_hist", params={"depth": 3}, thorough={"params": {"depth": 4}, "budget": 3600}, **BIG), R("p09_raw", slots=6, params={"depth": 3}, thorough={"params": {"depth": 4}}, **MED), R("p09_conc", 1, slots=8, thorough={"bound": 2}, **BIG)]},
 "P10": {"sources": ["p10.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive enumeration of filters x value changes, of subscription/value histories (one poll after each step) and of thread schedules at the moment of a poll, on the real stack under virtual time, compared with a reference model",
   "assumptions": ["value triples per type and filter combinations as listed in scn/p10.cpp; at most 28 filters at once per consumer"],
   "runs": [R("p10_filter", **BIG), R("p10_hist", params={"depth": 4}, thorough={"params": {"depth": 5}, "budget": 3600}, **BIG), R("p10_several", params={"depth": 3}, thorough={"params": {"depth": 4}, "budget": 2400}, **BIG), R("p10_conc", 1, slots=6, thorough={"bound": 2}, **BIG)]},
 "P11": {"sources": ["p11.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive enumeration of interval-subscription histories and of thread schedules around timer firings on the real stack under virtual time, compared with a reference model of the deliveries",
   "assumptions": ["one provider, two consumers and the intervals and durations listed in scn/p11.cpp; histories up to the stated length"],
   "runs": [R("p11_hist", slots=6, **MED), R("p11_conc", 1, slots=6, thorough={"bound": 2, "budget": 1800}, **MED), R("p11_large", slots=12, steps=100000)]},
 "P12": {"sources": ["p12.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive enumeration of subscription/crash/restart histories, of crash points while the cache is written, and of damaged cache files, on the real stack compared with a reference model",
   "assumptions": ["one provider, two consumers and the subscriptions listed in scn/p12.cpp; histories up to the stated length; the file system keeps what was written before a process crash (process death, not power loss)"],
   "runs": [R("p12_hist", slots=10, params={"depth": 2}, thorough={"params": {"depth": 3}, "budget": 2400}, **MED), R("p12_crash", 1, slots=12, thorough={"bound": 2, "budget": 1800}, **MED), R("p12_corrupt", slots=8, thorough={"params": {"all": 1}}, **MED)]},
 "P13": {"sources": ["p13.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive enumeration of provider appearance times, verdicts, second subscriptions and cancellations under virtual time, and of thread schedules and provider deaths at the moment of the answer, on the real stack compared with a reference model",
   "assumptions": ["the times, verdicts and subscriptions listed in scn/p13.cpp; schedules within the deviation bound; a provider answers a subscribe request within the library's own limit of one second or counts as not answering"],
   "runs": [R("p13_hist", slots=8, **MED), R("p13_conc", 1, slots=8, thorough={"bound": 2, "budget": 1800}, **MED)]},
 "P14": {"sources": ["p14.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive enumeration of arguments x results x result codes x ways and times of answering x call forms under virtual time, and of thread schedules and provider deaths during concurrent calls, on the real stack compared with a reference model",
   "assumptions": ["arguments, results and names listed in scn/p14.cpp; two or three calls at once; schedules within the deviation bound; a component is not closed while its own thread is inside a call on it"],
   "runs": [R("p14_calls", slots=12, **MED), R("p14_missing", slots=12, **MED), R("p14_conc", 2, slots=8, thorough={"bound": 3, "budget": 2400}, **MED)]},
 "P15": {"sources": ["p15.cpp", "p15n.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive exploration of thread schedules up to a deviation bound of all pairs of API operations running at the same time, and of every call made from within every kind of handler, on the real stack with ASan and lock-misuse detection",
   "assumptions": ["pairs of the 31 operations listed in scn/p15.cpp by two threads, on the same elements; 12 kinds of handler x 24 calls in scn/p15n.cpp; schedules within the deviation bound", "a component is not closed while one of its own threads is inside a call on it; a call from a request handler that needs the same component to handle another request can only time out, because a component's requests are handled one after another"],
   "runs": [R("p15_pairs", 1, slots=10, thorough={"bound": 2, "budget": 7200}, **MED), R("p15_nested", 1, slots=10, thorough={"bound": 2, "budget": 3600}, **MED)]},
 "P16": {"sources": ["p16.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive enumeration of session histories by several components with deaths and restarts, of set forms and options, and of thread schedules and manager deaths during concurrent requests, on the real session manager and stack compared with a reference automaton",
   "assumptions": ["three components; histories up to the stated length; two or three concurrent requests; schedules within the deviation bound"],
   "runs": [R("p16_hist", slots=14, params={"depth": 3}, thorough={"params": {"depth": 4}}, **MED), R("p16_sets", slots=10, **MED), R("p16_conc", 1, slots=10, thorough={"bound": 2, "budget": 2400}, **MED)]},
 "P17": {"sources": ["p17.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive exploration of all crash points of a component, of the broker (also during the reconnection to it) and of all points at which a connection may break, with thread schedules up to a deviation bound, during each API operation on the real stack; afterwards all other components are checked to work and to hold nothing stale",
   "assumptions": ["one operation in progress; three components, one provider with properties, events, a table and a method; the broker is back after 0 to 40 s", "elements registered before a broker restart need not be found again (documented TODO in rtConnection_ConnectAndRegister), subscriptions, component addresses and new registrations must be", "the strict check of a dead consumer's subscriptions is made for a provider that uses a direct connection; for others it is a known finding"],
   "runs": [R("p17_death", 1, slots=8, thorough={"bound": 2, "budget": 2400}, **MED), R("p17_router", 1, slots=10, thorough={"bound": 2, "budget": 2400}, **MED), R("p17_cut", 1, slots=10, thorough={"bound": 2, "budget": 1200}, **MED), R("p17_again", 1, slots=10, params={"few": 1}, thorough={"params": {"few": 0}}, **MED), R("p17_stale", slots=10, **MED)]},
 "P19": {"sources": ["p19.cpp", "kit.cpp"], "level": "exploration", "technique": "exhaustive enumeration of registration, unregistration, row, close, death and failed-registration histories, each followed by all discovery queries over all names, paths and depths, and of crash points and schedules of a registration or close with a query at the same time, on the real stack against a reference tree",
   "assumptions": ["five groups of elements of two components, one table with rows, a nested table; histories up to the stated length from three starting registrations; one concurrent query", "elements unregistered while their component keeps others may still be listed by element information over a path (known finding of P07)"],
   "runs": [R("p19_hist", slots=10, params={"depth": 2}, thorough={"params": {"depth": 3}, "budget": 2400}, **MED), R("p19_death", 1, slots=10, thorough={"bound": 2, "budget": 2400}, **MED)]},
 "P20": {"sources": ["p20.cpp"], "level": "exploration", "technique": "exhaustive enumeration of value pairs and operation sequences on the real code against a reference model",
   "assumptions": ["values are the boundary values listed in scn/p20.cpp"],
   "runs": [R("p20_pairs"), R("p20_access"), R("p20_text"), R("p20_lists", params={"depth": 5}, thorough={"params": {"depth": 6}}, **BIG), R("p20_objects", params={"depth": 4}, thorough={"params": {"depth": 6}}, **BIG)]},
}
