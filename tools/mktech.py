#!/usr/bin/env python3
"""Writes techniques.json: what decides each property."""
import json, os
T = {
"P01": "property-based testing, differential: generated calls through reflection against the same call made directly in C++",
"P02": "property-based testing against an independent table of the conversion rules (harness/rules.h)",
"P03": "model-based property testing: generated overload sets and calls against a ranking model",
"P04": "stateful model-based testing: generated operation histories on a pool of Values against an ownership model, under AddressSanitizer",
"P05": "property-based testing: generated access chains ending in mutation attempts, content compared with a snapshot",
"P06": "property-based testing against a reference table of casts, with address and lifetime oracles",
"P07": "model-based property testing: generated type hierarchies and member histories against a reference map",
"P08": "property-based testing, differential: generated field walks against direct member access, and generated layouts",
"P09": "stateful model-based testing: generated lookup, alias and loader histories against a registry model, one process each",
"P10": "property-based testing: names built from known components (round trip), arbitrary strings against a reference splitter",
"P11": "stateful model-based testing: generated scope histories against a tree of names",
"P12": "stateful model-based testing: generated operation histories, the plain container as the model",
"P13": "stateful model-based testing: generated histories of pointers against plain pointers, with lifetime accounting",
"P14": "property-based testing, differential: generated values of every primitive against the C++ operators and limits",
"P15": "stateful model-based testing: generated histories of traits against a write-once map",
"P16": "property-based testing: round trip of generated objects under every option",
"P17": "property-based testing: printed text read by an independent strict JSON parser and compared with a reference denotation",
"P18": "property-based testing: documents rendered from generated data, compared with a reference denotation; metamorphic re-rendering",
"P19": "generation- and mutation-based fuzzing (structure-aware) under ASan/UBSan with allocation and lifetime accounting",
"P20": "differential fuzzing against an independent strict recogniser, with exhaustive short inputs",
"P21": "property-based testing against a reference UTF-8/escape codec, with exhaustive code points and byte sequences",
"P22": "model-based property testing: generated classes and traits against a reference of keys",
"P23": "differential fuzzing of error positions against an independent position-tracking reader",
"P24": "property-based testing of misuse with generated names against complete expected messages, under ASan",
"P25": "randomized concurrency testing: generated per-thread scripts under ThreadSanitizer, compared with the same scripts run alone",
"P26": "property-based testing, differential: every Value operator against the C++ operator on distinguishable operands",
"P27": "model-based property testing: recorded callback events against a reference event list for generated documents and callbacks",
"P28": "model-based property testing: descriptions read back by a strict reader and compared with the history of additions and the query API",
"P29": "program generation: random classes reflected by random DSL, compared with their description and with the same uses compiled directly",
"P30": "fault injection: an exception or bad_alloc at every point of generated operations, with lifetime and memory accounting",
}
B = "Generated-input search: no violation in the cases generated (counts in the evidence); not a proof. "
N = {k: B for k in T}
N["P09"] += "Throwing loaders, aliases over existing ids and aliases of aliases are not generated."
N["P10"] += "All strings of up to 8 (thorough: 10) characters over {a, :, <, >} are enumerated."
N["P11"] += "Names with malformed later components given to mutating calls are not generated."
N["P14"] += "Every type is covered; boundary values of each are enumerated, other values are sampled."
N["P16"] += "Depth up to 1000."
N["P20"] += "All short token sequences and number spellings are enumerated, longer documents sampled."
N["P21"] += "All code points and all byte sequences by class are enumerated, longer strings sampled."
N["P25"] += "Schedules are those of the machine with random yields, 2 to 8 threads; ThreadSanitizer also sees races that did not change a result."
N["P29"] += "12 (thorough: 40) generated units of 8 classes each, from the seed; no ref-qualified members, volatile or over-aligned classes; overloaded operators only where the DSL takes them."
N["P30"] += "Up to 12 points of an operation per case; failures while types are loaded are not injected."
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({k: {"technique": T[k], "note": N[k].strip()} for k in T}, open(V + "/tools/techniques.json", "w"), indent=1)
