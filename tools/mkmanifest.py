#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/meta.json: method, level and trust of every check."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.join(HERE, "..")
DERIVE_TRUST = ["rustc's macro expansion", "the models of std and of the crates used by generated code in zodlint", "serde's naming and shape rules as written down in tools/spec.py",
                "the reader of zod expressions and TypeScript types (tslint/shape.js)", "the families of types in tools/corpus.py stand for all derivable types"]
TV = "translation_validation"
NOTE = ("Derived implementations of a corpus of witness types (expanded by rustc with the current derive crate, never compiled to code or run) are abstractly interpreted over opaque component types; "
        "what they evaluate to is parsed and compared with serde's rules. Holds for all component types; types outside the corpus families are covered by the uniformity of the expansion only.")


def S(rule): return dict(technique="abstract interpretation of macro expansions, compared with serde's rules", level=TV, rule=rule, note=NOTE, assumptions=DERIVE_TRUST)

RPC_TRUST = ["rustc's macro expansion", "the models of std, futures, tokio and serde in zodlint", "the TypeScript compiler's parser and binder", "the worlds in tools/sdk.py stand for all namespaces and backends"]
RNOTE = ("Witness crates with namespaces, RPC implementations and backends are expanded by rustc with the current derive crate (not compiled to code, not run); the generation code in core/ and the expansions are abstractly interpreted together, "
         "with user types and user method bodies opaque. Holds for all user types and results; other namespace layouts are covered by the uniformity of the expansion only.")


def R(rule, technique="abstract interpretation of macro expansions and generation code"): return dict(technique=technique, level=TV, rule=rule, note=RNOTE, assumptions=RPC_TRUST)


CT = ["the models of std, futures, tokio, axum and serde in zodlint", "tasks run to completion one after the other at their awaits; other interleavings differ only in the order of independent effects", "sequences up to the bounds stand for longer ones, since loops are followed for all contents of their state"]
CNOTE = "The proxy and the websocket bridge are abstractly interpreted with backend, messages, socket and the outcome of every send and receive opaque; effects over channels, tasks and shared cells are compared with the rule on every path."


def C(rule): return dict(technique="abstract interpretation of the proxy and the websocket bridge, with channel, task and shared-cell effects", level=TV, rule=rule, note=CNOTE, assumptions=CT)


WT = ["the compiler's name resolution and type checker", "the witness programs in tools/p_misc.py stand for all programs"]
WNOTE = ("Every run type-checks the witness programs against the current crates (metadata only, nothing is linked or run) and compares the compiler's verdict with the one the property demands. "
         "Each program that must be rejected has an accepted twin that differs only in the violation, so a rejection for another reason shows.")


def W(rule, technique): return dict(technique=technique, level=TV, rule=rule, note=WNOTE, assumptions=WT)


TT = ["the abstract machine of tslint/machine.js models JavaScript, promises and JSON as the language specifies", "the model of WebSocket and timers in tslint/client.js (events in any order a browser can deliver them)", "zod's parse returns its argument or throws"]
TNOTE = ("The client runtime (the text the SDK starts with) is abstractly interpreted from its syntax tree, together with generated client functions, with payloads opaque, over every order of calls, subscriptions, closings, timer and socket events up to the bounds; "
         "equal states are merged. It is not executed by any JavaScript engine.")


def T(rule): return dict(technique="abstract interpretation of the client's syntax tree over all event orders", level=TV, rule=rule, note=TNOTE, assumptions=TT)


M = {
 "S01": S("Per struct of the corpus: the structure of schema(), with component types opaque, equals the structure serde deserializes."),
 "S02": S("Per enum of the corpus: the structure of schema() equals the union of the variants' wire shapes under its tagging; discriminated unions name the tag and only have plain objects with that tag."),
 "S03": S("Per type of the corpus: every key, literal, discriminator and exported name in schema() and type_def() is among serde's deserialization names, beside the component it belongs to."),
 "S04": S("Per type of the corpus: an entry or position is optional in schema() and type_def() exactly if serde has a default for it; tuple structs with a required position after an optional one do not derive."),
 "S05": S("Per type of the corpus: the sequence of names and components in schema() and type_def() is that of the kept fields and variants."),
 "S06": S("Per type of the corpus and per built-in type: schema() and type_def() have one structure."),
 "S07": S("Per type of the corpus: inline()/inline_schema() are references to the registered namespace and name, schemas refer through z.lazy; the built-in containers keep references to what they contain."),
 "S08": S("Over the call structure of every generated and built-in method: references reach no other type, schema()/type_def() of derived types reach others only as references, references to built-in types reach their parameters only as references. With that the call depth is bounded by the nesting of a field's type."),
 "S09": S("Per number type: the schema's checks, folded to an interval, are the type's range."),
 "S16": S("Per scalar type: schema() and type_def() are of the kind of JSON value serde writes; the checks of text schemas are folded over texts of every class (length and plane of characters, address families) and admit exactly those serde reads."),
 "S10": S("Per built-in generic, instantiated with opaque and with derived types, and per tuple arity 1..30: the structure of its four methods is the composition of its parameters."),
 "S11": dict(S("Per function of every type of the corpus and of the built-in types and their compositions, and per SDK of the worlds: the evaluated text, with opaque components declared, has no error of the TypeScript checker against zod 3's declarations."),
   technique="abstract interpretation of macro expansions, judged by the TypeScript type checker against zod's declarations"),
 "S12": S("Per from/try_from type of the corpus: schema and type are those of the source type; registered and referred to by its own name."),
 "S13": S("Per documentation form of the corpus: docs() is one block comment whose lines are the documented ones."),
 "S14": R("Per SDK of the name worlds: every name that generated code uses resolves, by the TypeScript checker's own symbol table, to the import, the runtime, a namespace of the SDK, the standard library or the function's own plain parameter."),
 "S15": W("Per place of a component, per container, per source type, per attribute and per form of backend: the compiler rejects the program exactly if something in it cannot be exported.", "compile-fail witnesses with accepted twins, decided by the compiler's type checker"),
 "N01": R("Per derived type of the worlds: the registrations evaluated from the expansion hold it once under its namespace and exported name; the SDK text evaluated from Backend::generate has one exported schema and one exported type of that name in that namespace, with the structure of that type's schema() and type_def()."),
 "N03": R("Per backend of the worlds: the SDK text evaluated from Backend::generate starts with the client runtime; its namespaces are those of the backend that have types or methods, and their members are exactly the types and methods of that namespace."),
 "N04": R("Per namespace and backend: the multiset of (namespace, name, schema, type) in each listing equals the one of the types derived for it, and the functions listed are those of its methods."),
 "R01": R("Per message and backend of the worlds: on every path through the handler evaluated from the expansion, with arguments, results and serialization outcomes opaque, the effects contain exactly the one send the property names, with the request's id, to the sender given."),
 "R02": R("Per stream of the worlds: on every path, the handler sends nothing itself, spawns one task whose received items are each sent once in order with the request's id, and the table holds the task's handle under that id."),
 "R03": R("Per cancel message and stream start: the table of running streams afterwards, and the handles aborted, are exactly the named change; no handle leaves the table unaborted."),
 "R04": R("The drop of the table, evaluated for several contents, aborts each handle in it."),
 "R08": R("The namespaces, methods and message keys in the SDK's client functions and runtime equal, per method, those under which the evaluated handler dispatches."),
 "R09": R("Per method: parameters, schemas and types of the client function are those of the method's arguments in order, and the evaluated handler passes the decoded arguments in the same order."),
 "R05": C("Over all sequences of up to three messages on up to three connections of one proxy: on every path each answer channel handed to the backend is the one the sending connection reads, connections share no answer channel and no table of running streams, and the requests of one connection all meet the same table; likewise for two websockets."),
 "R06": C("No path through the generated handlers, the request loop or the websocket bridge panics or aborts; every message the queue accepted is handled, also after failing ones; a text that does not decode is answered with an error without id and the websocket is read on."),
 "R07": C("Over all sequences of up to four messages on two connections: one task and one unbounded queue; every accepted message is queued once and handled once in order; the next message is taken only after the call for the one before has been awaited."),
 "R10": W("Per signature form (receiver, arguments, asynchrony, result; alone, first and last in its block): the compiler accepts the program exactly if the form is a usable one.", "compile-fail witnesses with accepted twins, decided by the compiler's type checker"),
 "R11": C("On every path through the evaluated websocket bridge, with the socket and the channels opaque: each received text message is sent once to the request channel, each answer once to the socket, in order; other messages send nothing; the loops end only at a closed or failing side."),
 "R12": C("Over sequences of messages on several connections of one proxy: wherever the request loop waits for the next message, no table of running streams is reachable from any variable in scope, nor from the proxy; each connection's answering half and its requests own the same table; no table is forgotten; and the bridge's two directions are arms of one selection, or the direction that reads answers is aborted."),
 "N02": W("Per pair of kinds, per way of naming, and per pair of RPC implementations: the compiler rejects the program exactly if two exported names, or two RPC implementations, fall together in one namespace.", "compile-fail witnesses with accepted twins, decided by the compiler's type checker"),
 "C01": T("On every explored path: the messages sent by each call carry an id no other call has, one message per call and one cancellation per closed stream, and data reaches a caller only from an answer with its id."),
 "C02": T("On every explored path: after an answer of any form the server's Response type can serialize to with the id of a pending call, that call's promise is settled, resolved with the answer's data or rejected with the error."),
 "C03": T("On every explored path: the listeners registered are those of pending calls and open streams; without listeners the socket is closed, and a lost connection is re-opened exactly if listeners remain."),
 "C04": T("On every explored path: every message handed over is sent once on an open socket, never on another; at most one socket is being opened; each delay is an entry of the configured table."),
 "C05": T("Per argument type of the corpus and per form of value its TypeScript type admits: the JSON structure the interpreted client sends is one that serde's rules decode for the Rust type."),
 "U01": dict(W("No token unsafe in any source file, no attribute that lifts the lint, no text with unsafe that macros could paste; every crate root denies unsafe code; the expansions in all accepted witness programs compile under forbid(unsafe_code).", "source lint over token trees, and forbid witnesses decided by the compiler"),
   note="Every token of every source file of the three crates is looked at (features and cfg variants included); generated code is decided by compiling the witness programs under forbid(unsafe_code)."),
}
NA = {
 "Q01": "quantifies over run-time values of zod and serde_json; its structural parts are decided as S01-S06, S09 and S10",
 "Q02": "a liveness property over timers, network and server behaviour; the structural parts of the client are decided as C01-C04",
 "Q03": "quantifies over timing and queue growth; nothing in the source bounds either",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"), encoding="utf8")]
    json.dump({k: dict(rule=m["rule"], level=m["level"], assumptions=m["assumptions"]) for k, m in M.items()}, open(os.path.join(HERE, "meta.json"), "w"), indent=1)
    checks = [dict(property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}", evidence_file=f"evidence/{i}.json",
                   technique=M[i]["technique"], level=M[i]["level"], level_note=M[i]["note"]) for i in ids if i in M]
    na = [dict(property=i, reason=NA.get(i, "no check yet")) for i in ids if i not in M]
    json.dump(dict(version=1, setup_cmd="cargo build --release --offline --manifest-path zodlint/Cargo.toml", checks=checks, not_applicable=na,
                   notes="No hooks: the checks read /repo's sources and the compiler's expansions of witness programs that depend on it."),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
