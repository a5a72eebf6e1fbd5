#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
D="derive/src/"
# ---------------------------------------------------------------- schemas
p("S01","Derived struct schemas have the wire shape serde reads",
  "For every struct the derive accepts, the generated schema validates exactly the wire shape serde deserializes: an object with one entry per named field, an array with one position per positional field in declaration order, or the bare inner value for a one-field tuple struct or a transparent struct. Every entry or position is validated by the schema of that field's own type, and a flattened field contributes its keys at the top level.",
  ["programs"],"all structs accepted by the derive: any number of fields, any field types, any mix of serde attributes",
  "The tests derive about a dozen hand-written structs; the number of fields, their attributes and combinations are unbounded.",
  [D+"impl_struct.rs",D+"lib.rs",D+"args.rs"],
  [("struct expansion","derive/src/impl_struct.rs Struct::expand_schema"),("field expansion","derive/src/impl_struct.rs StructField::expand_schema")],
  ["the string returned by schema()"])
p("S02","Derived enum schemas follow serde's tagging",
  "For every enum the derive accepts and each of serde's tagging styles (external, internal, adjacent, untagged), the schema is the union of exactly the variants serde can deserialize, each in the wire shape serde gives that variant under that tagging: bare name or null, keyed object, tag entry beside the fields, or tag and content entries. A union that discriminates does so on the enum's tag, and only when every alternative is an object carrying that tag.",
  ["programs"],"all enums accepted by the derive: any number and mix of unit, one-field, many-field and struct variants under every tagging style",
  "Tests check each tagging with one or two variants of a single kind and at most two fields; mixed variants, larger enums and attribute interactions are not reached.",
  [D+"impl_enum/mod.rs",D+"impl_enum/field.rs",D+"impl_enum/variant/mod.rs",D+"impl_enum/variant/struct_variant.rs",D+"impl_enum/variant/tuple_variant.rs",D+"impl_enum/variant/unit_variant.rs"],
  [("union construction","derive/src/impl_enum/mod.rs Enum::expand_schema"),("variant expansion","derive/src/impl_enum/variant/*.rs expand_schema")],
  ["the string returned by schema()"])
p("S03","Generated names are serde's deserialization names",
  "Every field key, variant name, tag key, content key and exported type name in generated schemas and type definitions is the name serde uses when deserializing (after rename and rename_all), never the plain Rust identifier or a serialization-only name.",
  ["programs"],"all derived types and all rename / rename_all combinations on containers, variants and fields",
  "The tests rename with symmetric names on a few shapes; names that differ between serialization and deserialization and most container/variant/field combinations are not tried.",
  [D+"impl_struct.rs",D+"impl_enum/mod.rs",D+"impl_enum/field.rs",D+"impl_enum/variant/mod.rs",D+"impl_enum/variant/struct_variant.rs",D+"impl_inventory.rs"],
  [("name lookup","derive/src/impl_struct.rs expand, derive/src/impl_enum/field.rs VariantFields::new, derive/src/impl_enum/variant/mod.rs Variant::new: name().deserialize_name()")],
  ["schema(), type_def(), inline(), the generated SDK"])
p("S04","Fields are optional exactly when deserialization has a default",
  "A field is marked optional in the generated schema and in the generated type definition exactly when serde fills it with a default if it is absent, whether the default is declared on the field or (for structs) on the whole container. A positional field that must be present never follows one that may be absent in a tuple struct.",
  ["programs"],"all derived types, all positions of default attributes",
  "Tests put one default on one field in a few shapes.",
  [D+"impl_struct.rs",D+"impl_enum/field.rs"],
  [("struct fields","derive/src/impl_struct.rs expand (optional), StructField::expand_schema/expand_type_defs"),("variant fields","derive/src/impl_enum/field.rs VariantFields::new, NamedField, TupleField")],
  ["schema(), type_def()"])
p("S05","Skipped fields and variants vanish; all others appear once, in order",
  "A field or variant that serde never deserializes appears neither in the schema nor in the type definition; every other field and variant appears exactly once, in declaration order. Skipping one never shifts another's name, type or attributes and never changes the wire shape of the rest.",
  ["programs"],"all derived types, all subsets of skipped fields and variants, any number of fields",
  "The tests skip one field or variant in two-element types and mostly check only that a substring is absent.",
  [D+"impl_struct.rs",D+"impl_enum/mod.rs",D+"impl_enum/field.rs",D+"impl_enum/variant/tuple_variant.rs"],
  [("struct filter","derive/src/impl_struct.rs expand"),("variant filter","derive/src/impl_enum/mod.rs expand"),("variant field filter","derive/src/impl_enum/field.rs VariantFields::new")],
  ["schema(), type_def()"])
p("S06","Schema and TypeScript type describe the same values",
  "For every derived type and every built-in type, the TypeScript type definition and the zod schema describe the same structure: the same keys, positions, alternatives, literal names, element types and optionality.",
  ["programs"],"all derived types over all attribute combinations, and every built-in implementation",
  "The tests compare both strings for fixed examples only; agreement has to hold for every shape and every built-in.",
  [D+"impl_struct.rs",D+"impl_enum/mod.rs",D+"impl_enum/field.rs",D+"impl_enum/variant/struct_variant.rs",D+"impl_enum/variant/tuple_variant.rs",D+"impl_enum/variant/unit_variant.rs","core/src/build_ins.rs"],
  [("paired generators","every expand_schema / expand_type_def(s) pair in derive/src"),("paired methods","core/src/build_ins.rs schema / type_def pairs")],
  ["schema() against type_def()"])
p("S07","References between generated types resolve and are deferred",
  "Wherever one derived type refers to another, it does so as <namespace>.<name>, the namespace and name under which the SDK exports that other type; a reference from a schema is deferred so that it is valid whatever the order of declarations.",
  ["programs"],"all pairs of derived types, all namespaces, all renames",
  "The tests compare a few inline names with constants; they never relate the reference to the registered export.",
  [D+"impl_struct.rs",D+"impl_enum/mod.rs",D+"impl_inventory.rs",D+"impl_namespace.rs","core/src/lib.rs","core/src/rpc/server.rs"],
  [("inline references","inline / inline_schema in derive/src/impl_struct.rs and impl_enum/mod.rs"),("reference rendering","core/src/lib.rs InlinedType Display"),("registration","derive/src/impl_inventory.rs")],
  ["inline(), inline_schema(), the generated SDK"])
p("S08","Generation terminates for recursive types",
  "Producing the schema, the type definition or the SDK terminates for every set of derived types, including types that contain themselves directly or mutually through any built-in container, pointer, option, result, tuple or array.",
  ["programs"],"all finite sets of (mutually recursive) derived types over all built-in type constructors",
  "No test derives a recursive type; termination is a property of the call structure over all type graphs.",
  ["core/src/lib.rs","core/src/build_ins.rs",D+"impl_struct.rs",D+"impl_enum/mod.rs",D+"impl_enum/field.rs","core/src/rpc/codegen/mod.rs"],
  [("bounded expansion","derived inline/inline_schema stop at a name; built-ins must recurse only through inline/inline_schema")],
  ["schema(), type_def(), generate()"])
p("S09","Number schemas accept exactly the Rust type's range",
  "The schema of each fixed-width integer type accepts exactly the integers of that type's range and nothing else; pointer-sized integers accept exactly integers of their sign, and floating-point types accept non-integral numbers.",
  ["inputs"],"all integer types and all numeric inputs",
  "No test checks the bounds of a numeric schema; the tests compare schemas with themselves.",
  ["core/src/build_ins.rs"],[("literal table","core/src/build_ins.rs impl_primitive! invocations")],["schema() of u8..u128, usize, i8..i128, isize, f32, f64"])
p("S16","Scalars are described by the JSON value serde writes",
  "The schema and the type definition of every built-in scalar type describe the kind of JSON value that serde writes for it: text for strings, characters and network addresses, numbers, booleans, and null for the unit type. The schema of a text-like type accepts every text serde writes for it, and for characters and network addresses no other text.",
  ["inputs"],"all scalar types and all texts",
  "Tests compare the schemas of scalars with themselves; none looks at the texts they accept.",
  ["core/src/build_ins.rs"],[("scalars","core/src/build_ins.rs impl_primitive")],["schema(), type_def()"])
p("S10","Built-in generic types map to their parameters' schemas",
  "The schema and the type definition of every built-in generic type are composed of exactly its type parameters, each used once and in order: sequences and sets of the element, maps of key and value, tuples by position, options as the value or nothing, results as the Ok or Err object. Owning pointers and cells are transparent; a weak pointer is its target or nothing, as an option is.",
  ["programs"],"every built-in generic implementation instantiated at every type, all tuple arities",
  "Only one built-in (Result) has a test; tuples are implemented up to 30 elements and never checked.",
  ["core/src/build_ins.rs"],[("implementations","core/src/build_ins.rs impl_shadow!, impl_tuples!, impl_wrapper! and hand-written impls")],["schema(), type_def()"])
p("S11","Generated schema code uses the zod API correctly",
  "Every schema expression and every type that can be generated, and every generated SDK as a whole, is well-formed TypeScript that type-checks against the zod 3 API: it only calls functions that exist, with arguments of the kinds they accept.",
  ["programs"],"all schema expressions and types derivable for any type, all SDKs",
  "The Rust tests compare strings and never hand them to TypeScript or zod.",
  ["core/src/build_ins.rs",D+"impl_struct.rs",D+"impl_enum/mod.rs",D+"impl_enum/field.rs",D+"impl_enum/variant/struct_variant.rs",D+"impl_enum/variant/tuple_variant.rs",D+"impl_enum/variant/unit_variant.rs"],
  [("format strings","all z.… fragments in core/src/build_ins.rs and derive/src")],["schema()"])
p("S12","Conversion containers are described by their source type",
  "A type that serde deserializes from another type (from / try_from) is validated and typed as that source type, whatever its own fields are, while still being exported and referable under its own name.",
  ["programs"],"all structs and enums with from or try_from, all source types",
  "No test uses from or try_from.",
  [D+"impl_struct.rs",D+"impl_enum/mod.rs"],[("from branch","derive/src/impl_struct.rs Struct::expand and derive/src/impl_enum/mod.rs Enum::expand (from_ty)")],["schema(), type_def()"])
p("S13","Doc comments are carried over completely and safely",
  "A derived type's doc comment, all of its lines in order, is emitted as the block comment of the exported schema and type, a type without docs gets no comment, and no doc text can end the comment early.",
  ["programs","inputs"],"all doc comments (any number of lines, any text)",
  "Tests use the single line 'Hello World'.",
  [D+"docs.rs",D+"impl_struct.rs",D+"impl_enum/mod.rs",D+"lib.rs","core/src/rpc/server.rs"],[("doc collection","derive/src/docs.rs RustDocs::from_attrs / to_tokens"),("emission","core/src/rpc/server.rs generate_with_options")],["docs(), the generated SDK"])
p("S14","Generated identifiers never capture each other",
  "In generated client code, no name the user chose (of an argument, a method, a type or a namespace) hides a name the generated code itself refers to: the validation library, the request and subscribe functions of the runtime, the list of arguments, the namespaces of the SDK and the built-in TypeScript types. Names that are reserved in TypeScript do not break the generated code. So calling a generated function always validates its arguments and sends its request, and every reference means the type it was generated for.",
  ["programs"],"all names of arguments, RPC methods and streams, exported types and namespaces",
  "No test generates a client function, and none uses names that collide.",
  ["core/src/rpc/codegen/mod.rs",D+"rpc/args.rs","core/src/rpc/server.rs"],[("function template","core/src/rpc/codegen/mod.rs RpcMember::decl"),("emission","core/src/rpc/server.rs generate_with_options")],["the generated SDK"])
p("S15","What zod cannot describe does not compile",
  "Deriving the exports of a type of which some part is not itself exportable (at any depth, in any place serde reads, or as the type it is converted from) is rejected at compile time; so are unions and generic types, which have no single name and description, types without a namespace or with one that does not exist or is no namespace, unknown or repeated attributes, and backends that are no structs of distinct namespaces with RPC implementations. Nothing is silently left out of the SDK. Parts that serde never reads need not be exportable, and the same programs without the fault compile.",
  ["programs"],"all derived types, namespaces and backends",
  "Tests only derive what works; a rejection cannot be tested without compiling programs that must fail.",
  [D+"lib.rs",D+"args.rs",D+"impl_struct.rs",D+"impl_enum/mod.rs",D+"rpc/backend_impl.rs","core/src/build_ins.rs"],
  [("input checks","derive/src/args.rs; derive/src/lib.rs"),("bounds by use","derive/src/impl_struct.rs, impl_enum: calls of <T as ZodType>; core/src/build_ins.rs bounds"),("backends","derive/src/rpc/backend_impl.rs")],["compilation of the user's crate"])
# ---------------------------------------------------------------- namespaces / registration
p("N01","Each derived type is exported once, as schema and type",
  "Every derived type is registered exactly once, under the name of the namespace it was derived for and its own exported name; the SDK of a backend serving that namespace contains for it exactly one exported schema and exactly one exported type, both under that name and taken from that type.",
  ["programs"],"all derived types, namespaces and backends",
  "No test generates an SDK or looks at the registry.",
  [D+"impl_inventory.rs",D+"impl_struct.rs",D+"impl_enum/mod.rs","core/src/lib.rs","core/src/rpc/server.rs"],
  [("registration","derive/src/impl_inventory.rs expand; core/src/lib.rs NamespaceMemberDefinition::new_for"),("emission","core/src/rpc/server.rs generate_with_options")],["the generated SDK"])
p("N02","Name clashes within a namespace do not compile",
  "Deriving two types of the same name for one namespace, or attaching two RPC implementations to one namespace, is rejected at compile time; the same names in different namespaces are accepted.",
  ["programs"],"all programs deriving types and RPC implementations",
  "The one existing compile-fail test for this depends on the compiler's wording and is not reliable; duplicate type names are not tested.",
  [D+"lib.rs",D+"impl_namespace.rs",D+"rpc/impl_rpc.rs"],
  [("type registration","derive/src/lib.rs expand_type_registration"),("one RPC impl","derive/src/rpc/impl_rpc.rs expand: impl RpcNamespace")],["compilation of the user's crate"])
p("N03","The SDK contains exactly the backend's namespaces",
  "The SDK generated for a backend starts with the client runtime and then contains one block for each of the backend's namespaces that has types or methods, holding all of that namespace's types and RPC functions and nothing from any other namespace.",
  ["programs","configurations"],"all backends, all sets of registered namespaces, types and methods",
  "No test generates an SDK.",
  ["core/src/rpc/server.rs","core/src/lib.rs","core/src/rpc/codegen/mod.rs"],
  [("collection and filtering","core/src/rpc/server.rs Backend::generate_with_options, rpc_members, zod_namespaces; core/src/lib.rs NamespaceMemberDefinition::collect")],["generate()"])
p("N04","Listings of the registry are complete and separate",
  "members() of a namespace, the collection of all registered types, and the listings of types and RPC functions of a backend each contain every type derived for (and every RPC method implemented on) the namespaces asked for exactly once, under the right namespace and with that type's own name, schema and type definition, and nothing of any other namespace.",
  ["programs","configurations"],"all namespaces, backends and sets of registered types and methods",
  "One test asks for the members of one namespace; the other listings are not called.",
  ["core/src/lib.rs","core/src/rpc/server.rs","core/src/rpc/codegen/mod.rs"],
  [("members","core/src/lib.rs Namespace::members, NamespaceMemberDefinition::collect"),("backend listings","core/src/rpc/server.rs Backend::rpc_members, zod_namespaces")],["the values returned"])
# ---------------------------------------------------------------- rpc server
p("R01","Every call gets exactly one answer carrying its id",
  "Handling a well-formed call of a method produces exactly one message to the caller: the method's serialized result, or an error if the result cannot be serialized, tagged with the id of the request. Handling a call that does not match any method or whose arguments do not fit produces exactly one error message with that id.",
  ["inputs","programs"],"all requests to all backends",
  "No test runs the RPC server.",
  [D+"rpc/backend_impl.rs",D+"rpc/impl_rpc.rs","core/src/rpc/mod.rs"],
  [("dispatch","derive/src/rpc/backend_impl.rs expand_backend_impl / expand_req_enum_impl"),("method call","derive/src/rpc/impl_rpc.rs expand_req_variant_impl_method"),("response constructors","core/src/rpc/mod.rs Response::{method,stream,error}")],["messages on the response channel"])
p("R02","Streams deliver every item in order, tagged with the call's id",
  "Calling a stream method starts forwarding its items in the background: every item the stream yields is sent once, in order, as a stream message with the id of the call, until the stream ends or the caller is gone. Starting a stream sends nothing itself and the running stream is remembered under the call's id.",
  ["inputs","schedules","programs"],"all stream methods, all item sequences, all disconnect points",
  "No test runs a stream.",
  [D+"rpc/impl_rpc.rs",D+"rpc/backend_impl.rs","core/src/rpc/mod.rs"],
  [("forwarding task","derive/src/rpc/impl_rpc.rs expand_req_variant_impl_stream"),("registration","derive/src/rpc/backend_impl.rs expand_backend_impl")],["messages on the response channel"])
p("R03","Cancelling stops exactly the named stream",
  "A cancel request stops the running stream with that id, forgets it, and affects no other stream; a cancel for an unknown id has no effect. No running stream can become unreachable for cancellation while its connection's state exists.",
  ["histories","programs"],"all sequences of stream starts, cancels and id reuse",
  "No test cancels a stream.",
  [D+"rpc/backend_impl.rs","core/src/rpc/server.rs"],
  [("cancel branch","derive/src/rpc/backend_impl.rs expand_backend_impl CancelStream"),("handle table","core/src/rpc/server.rs SubscriberMap")],["aborted tasks"])
p("R04","Dropping the server state stops all its streams",
  "When the table of running streams is dropped, every stream still in it is stopped.",
  ["histories"],"all contents of the stream table at the time of the drop",
  "No test drops a table with running streams.",
  ["core/src/rpc/server.rs"],[("Drop","core/src/rpc/server.rs impl Drop for SubscriberMap")],["aborted tasks"])
p("R05","Connections are isolated from each other",
  "Answers and stream items for a request are delivered only to the connection that sent the request, and stream ids of one connection never collide with those of another: no connection can cancel, replace or receive another connection's stream.",
  ["histories","schedules"],"all numbers of connections sharing one backend, all request sequences with equal ids",
  "No test opens two connections.",
  ["src/rpc/servers/proxy.rs","src/rpc/servers/axum.rs"],
  [("per-request response sender","src/rpc/servers/proxy.rs ProxyTx::send, BackendProxy::new"),("stream table","src/rpc/servers/proxy.rs BackendProxy::new subscribers")],["messages received per connection"])
p("R06","Clients cannot bring the server down",
  "No message a client sends and no moment at which it disconnects makes the server's request loop or connection handling panic or stop serving other clients; text that is not valid JSON is answered with an error and the connection stays usable.",
  ["inputs","fault_sequences","schedules"],"all client messages, all disconnect points",
  "No test sends malformed input or disconnects during a call.",
  ["src/rpc/servers/proxy.rs","src/rpc/servers/axum.rs",D+"rpc/impl_rpc.rs",D+"rpc/backend_impl.rs","core/src/rpc/mod.rs"],
  [("request loop","src/rpc/servers/proxy.rs BackendProxy::new"),("socket loop","src/rpc/servers/axum.rs websocket"),("generated handlers","derive/src/rpc/*.rs")],["liveness of the server task"])
p("R07","Requests are handled one at a time in arrival order",
  "All requests to a shared backend are handled by a single task, each to completion before the next is taken from the queue, every received request is handled exactly once, and the queue accepts requests without blocking or dropping.",
  ["schedules","histories"],"all interleavings of requests from all connections",
  "No test uses the shared backend.",
  ["src/rpc/servers/proxy.rs"],[("queue and task","src/rpc/servers/proxy.rs BackendProxy::{new,connect}, ProxyTx::send")],["order of calls on the backend"])
p("R08","Every generated client call reaches its own server method",
  "The namespace and method names a generated client function sends are exactly the ones under which the server dispatches to that method of that namespace's instance in the backend, including renamed namespaces; the message shape the client sends is the one the server decodes, and every server answer has the shape the client looks for.",
  ["programs","inputs"],"all backends, namespaces (renamed or not), methods and streams",
  "No test connects generated client code to the server.",
  [D+"rpc/backend_impl.rs",D+"rpc/impl_rpc.rs",D+"impl_namespace.rs","core/src/rpc/mod.rs","core/src/rpc/codegen/mod.rs","src/rpc/clients/static/websocket_client.ts"],
  [("dispatch tags","derive/src/rpc/backend_impl.rs expand_req_enum; derive/src/rpc/impl_rpc.rs expand"),("client call","core/src/rpc/codegen/mod.rs RpcMember::decl; websocket_client.ts execute/onmessage"),("envelope","core/src/rpc/mod.rs Request, Response")],["wire messages"])
p("R09","Arguments keep their order, types and names from client to method",
  "For every RPC method, the generated client function takes one parameter per method argument in order, validates each against that argument's own schema and declares it with that argument's own type; the server passes the transmitted arguments to the method in the same order, and the client's return type is the method's result type (the item type for streams).",
  ["programs"],"all methods and streams with any number and types of arguments",
  "No test generates a client function or dispatches a call.",
  ["core/src/rpc/codegen/mod.rs",D+"rpc/impl_rpc.rs",D+"rpc/args.rs"],
  [("client function","core/src/rpc/codegen/mod.rs RpcMember::decl, RpcArgument::new"),("registration","derive/src/rpc/impl_rpc.rs expand_inventory_submit"),("server call","derive/src/rpc/impl_rpc.rs expand_req_variant_decl / expand_req_variant_impl")],["the generated SDK, the method call"])
p("R10","Unusable RPC signatures are rejected at compile time",
  "An RPC method is accepted exactly if it takes &mut self without a named lifetime, its arguments are plain names of exportable, deserializable types that implement Debug, and it is either async, with a plain exportable result, or synchronous and returns a stream of exportable items; every other receiver, argument or return form stops compilation.",
  ["programs"],"all method signatures in an RPC implementation block",
  "Three of the five compile-fail tests for this do not pass reliably with current compilers, and they sample five signatures.",
  [D+"rpc/args.rs",D+"rpc/impl_rpc.rs"],[("signature checks","derive/src/rpc/args.rs RpcItem::from_ast; derive/src/rpc/impl_rpc.rs expand_inventory_submit")],["compilation of the user's crate"])
p("R11","The websocket bridge forwards every message in both directions",
  "Every text message received on a websocket is handed to the backend exactly once and in order, every answer produced for that connection is sent on that websocket exactly once and in order, other message kinds are ignored, and the bridge ends only when one side is gone.",
  ["histories","fault_sequences","schedules"],"all message sequences and disconnect points",
  "No test opens a websocket.",
  ["src/rpc/servers/axum.rs","src/rpc/servers/proxy.rs"],[("bridge","src/rpc/servers/axum.rs websocket"),("connection halves","src/rpc/servers/proxy.rs ProxyTx, ProxyRx")],["websocket traffic"])
p("R12","A connection that ends takes its streams with it, and only then",
  "The running streams of a connection are owned by that connection alone: when a websocket is closed by its client, or all halves of a connection have been dropped and its pending requests are handled, every stream started over it is stopped, whatever the server, its request loop and its other connections go on doing. As long as the requesting or the answering half of the connection exists, none of its streams is stopped because of the connection.",
  ["histories","schedules"],"all moments at which a connection ends",
  "No test closes a connection while a stream runs.",
  ["src/rpc/servers/axum.rs","src/rpc/servers/proxy.rs","core/src/rpc/server.rs"],[("end of the bridge","src/rpc/servers/axum.rs websocket"),("ownership of the table","src/rpc/servers/proxy.rs BackendProxy::new, connect, split")],["which streams run after a disconnect"])
# ---------------------------------------------------------------- TypeScript client
p("C01","The client matches answers to calls by a unique id",
  "Every call and every stream subscription of the TypeScript client uses an id no other call of that client uses, sends exactly one message carrying it together with the namespace, method and arguments, and delivers data only from answers with that id. Closing a stream sends one cancellation that names that stream's id and no other.",
  ["histories","schedules"],"all interleavings of calls, subscriptions and answers",
  "The TypeScript client has no tests.",
  ["src/rpc/clients/static/websocket_client.ts"],[("ids and matching","websocket_client.ts request, subscribe, execute")],["websocket traffic, promises, stream callbacks"])
p("C02","Every answer to a pending call settles it",
  "When the server answers a pending call, the client's promise settles: a result resolves it with the result's data, an error rejects it; every kind of message the server can send is recognized.",
  ["inputs","histories"],"all server answers",
  "The TypeScript client has no tests.",
  ["src/rpc/clients/static/websocket_client.ts","core/src/rpc/mod.rs"],[("message routing","websocket_client.ts socket.onmessage"),("promise","websocket_client.ts request")],["promises"])
p("C03","Client listeners are removed when no longer needed",
  "A call's listener is removed once its promise settles, unsubscribing from a stream removes exactly that listener, and the connection is closed when the last listener is gone, and a lost connection is re-opened exactly if listeners remain.",
  ["histories"],"all sequences of calls, subscriptions and unsubscriptions",
  "The TypeScript client has no tests.",
  ["src/rpc/clients/static/websocket_client.ts"],[("subscriptions","websocket_client.ts websocketStore.subscribe, request, reopen, close")],["listener set, socket"])
p("C04","Messages sent before the connection is open are sent once it opens",
  "A message handed to the client while its connection is not open is sent exactly once after the connection opens, at most one connection is being opened at a time, and reconnect delays never leave the configured table.",
  ["schedules","fault_sequences"],"all connection states at the time of sending, any number of reconnects",
  "The TypeScript client has no tests.",
  ["src/rpc/clients/static/websocket_client.ts"],[("open and send","websocket_client.ts open, open_and_send, reopenTimeout")],["websocket traffic"])
p("C05","Arguments accepted by validation survive the wire",
  "Every JavaScript value kind that a generated argument type admits (objects, arrays, maps, sets, missing values) is encoded by the client in the JSON form the server decodes for the corresponding Rust type.",
  ["inputs"],"all argument values accepted by generated validation",
  "No test sends arguments.",
  ["src/rpc/clients/static/websocket_client.ts","core/src/build_ins.rs"],[("encoding","websocket_client.ts execute"),("container types","core/src/build_ins.rs HashMap, HashSet")],["wire messages"])
# ---------------------------------------------------------------- misc
p("U01","No unsafe code",
  "None of the crates contains unsafe code, none of the generated code does, and no attribute lifts the lint that bans it.",
  ["programs"],"all code paths of all crates and all expansions",
  "Tests do not look for unsafe code; the lint that denies it can be overridden by an attribute anywhere in the crate.",
  ["src/lib.rs","src/rpc/mod.rs","core/src/lib.rs","core/src/rpc/mod.rs",D+"lib.rs"],[("lint","#![deny(unsafe_code)] in each crate root")],["source"])
p("Q01","Values validated by a generated schema deserialize in Rust",
  "For every type and every JavaScript value that a generated schema accepts, serializing the value to JSON and deserializing it as the Rust type succeeds, and every value the Rust type serializes to is accepted by the schema.",
  ["inputs","programs"],"all types and all values",
  "Quantifies over run-time values of zod and serde_json for every type.",
  ["core/src/build_ins.rs",D+"impl_struct.rs",D+"impl_enum/mod.rs"],[("schemas","core/src/build_ins.rs, derive/src")],["zod parse results against serde results"])
p("Q02","Reconnection eventually restores pending calls and streams",
  "After a connection loss with calls or streams pending, the client reconnects and every pending call is eventually answered or rejected.",
  ["fault_sequences","schedules"],"all connection losses",
  "Depends on timers, network and server behaviour at run time.",
  ["src/rpc/clients/static/websocket_client.ts"],[("reconnect","websocket_client.ts reopen")],["promises"])
p("Q03","Slow handlers do not delay other connections without bound",
  "A handler or client that is slow does not indefinitely delay or exhaust memory for other connections of the same backend.",
  ["schedules"],"all handler durations and client speeds",
  "Quantifies over timing and queue growth.",
  ["src/rpc/servers/proxy.rs"],[("unbounded queues","src/rpc/servers/proxy.rs")],["latency, memory"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
