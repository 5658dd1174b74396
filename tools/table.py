NA = {}

prop("P01", "Loading and saving an OpenAPI 3.0 document preserves it",
 "Every valid OpenAPI 3.0 JSON document can be loaded, and saving it again yields strict JSON (no repeated members) with exactly the same members and values, x- extensions included, at every place of the document. Loading and saving the result once more changes nothing further. Not promised: an empty optional container (e.g. top-level `security: []`) may be dropped, numbers beyond double precision may be rounded, and the default `style` of a header object, header parameter or cookie parameter may be spelled out.",
 ["inputs"], "all documents within a number of deviations from a minimal document, for every kind of object of the specification",
 "The tests load a few fixture files; an entity has up to 35 members, a union with references and unknown members, and the members interact (which member was dropped depends on which others are present), so the space is combinatorial.",
 [E3], [("entity decoders and encoders", E3), ("union encoder", E3 + " marshalUnion"), ("reference unions", E3 + " *OrRef")],
 "bounded exhaustive enumeration of documents (stateless explorer over the real code)",
 "All documents of a grammar written from the OpenAPI 3.0 specification up to the stated number of deviations are loaded, saved, reloaded and compared exactly; trusts the grammar and the JSON comparison of the harness.")

prop("P02", "Loading and saving an OpenAPI 3.1 document preserves it",
 "Every valid OpenAPI 3.1 JSON document can be loaded, and saving it again yields strict JSON (no repeated members) with exactly the same members and values, x- extensions and schema keywords included, at every place of the document. Loading and saving the result once more changes nothing further. Not promised: an empty optional container (e.g. top-level `security: []`, an empty schema) may be dropped, numbers beyond double precision may be rounded, and the default `style` of a header object, header parameter or cookie parameter may be spelled out.",
 ["inputs"], "all documents within a number of deviations from a minimal document, for every kind of object of the specification",
 "The tests load two fixture files; references may stand next to siblings, security schemes and parameters are unions of several alternatives, and the members interact, so the space is combinatorial.",
 [E31], [("entity decoders and encoders", E31), ("union encoder", E31 + " marshalUnion"), ("reference unions", E31 + " *OrReference")],
 "bounded exhaustive enumeration of documents (stateless explorer over the real code)",
 "All documents of a grammar written from the OpenAPI 3.1 specification up to the stated number of deviations are loaded, saved, reloaded and compared exactly; trusts the grammar and the JSON comparison of the harness. Boolean schemas and non-string link parameters are known findings.")

prop("P03", "Malformed documents are rejected, not silently damaged",
 "Loading a JSON document in which a required member is missing, a member has a wrong JSON type, or an enumerated member has a value outside of its enumeration fails with an error, and for OpenAPI 3.0 so does an unknown member that is not an x- extension. Loading never panics, and an accepted document is saved without damage to the members that the specification defines. Not promised: conditionally required members (schema or content of a header, and of an OpenAPI 3.1 parameter; `required` of a 3.1 path parameter; target of a link), null in place of an absent member, the inside of OpenAPI 3.1 schemas (free-form), unknown members of OpenAPI 3.1 (ignored).",
 ["inputs"], "every single mutation at every position of every document of the bounded grammar",
 "A test can try a handful of broken documents; the guarantee has to hold at each of several hundred member positions of each object kind, alone and next to other members.",
 [E3, E31], [("required members and unknown members checks", E3 + " UnmarshalJSON"), ("enumerations", E3 + " UnmarshalJSON of enum types"), ("oneOf resolution", E31 + " UnmarshalJSON")],
 "bounded exhaustive enumeration of mutated documents (stateless explorer over the real code)",
 "Every mutation of the listed classes at every position of the bounded documents; classes that a version does not enforce are excluded by name in DESIGN.md.")

prop("P04", "YAML and JSON forms of a document are equivalent",
 "Loading a document from YAML gives the same specification as loading the equivalent JSON, including YAML with non-string keys, anchors or flow style, and saving a specification as YAML and loading it back gives the same specification. The YAML output has the top-level members in the order of the JSON output, and broken input fails with an error, never a panic.",
 ["inputs"], "all documents of the bounded grammar in several YAML spellings, and scalars that YAML could read as another type",
 "YAML re-types scalars (yes, null, 1e3, 0x1f, dates) depending on value and position; tests convert one fixture each.",
 [Y3, Y31], [("YAML decoding", Y3 + " UnmarshalYAML"), ("ordered YAML encoding", Y3 + " MarshalYAML"), ("key conversion", Y3 + " convertMapI2MapS")],
 "bounded exhaustive enumeration of documents and spellings (stateless explorer over the real code)",
 "All bounded documents and all tricky scalars at every kind of free-form position, against an exact JSON comparison; trusts yaml.v2 for YAML grammar.")

prop("P05", "An operation is registered once, validated, and never lost",
 "Over any history of registrations, an operation is accepted exactly if its method is one of the eight HTTP methods in any case, no operation was registered for that method and cleaned path, and its path parameters match the placeholders; otherwise the call fails and the registered operations stay as they were. Accepted operations are all present in the specification under their lowercase method and cleaned path with exactly their content (with a 204 response if none was given), and setting up an operation later updates only that operation, with all its setup functions in order, or not at all if one of them fails. Webhooks are accepted once per name and kept apart from paths.",
 ["histories", "inputs"], "all sequences of registration calls up to a depth over a small alphabet of methods, paths and operations",
 "Tests call each entry point once or twice; duplicates depend on the history, the case of the method and the spelling of the path, through three different entry points that share the registry.",
 [H3, H31, R3, R31, OP], [("registration", H31 + " AddOperation, SetupOperation, AddWebhook"), ("operation context creation", R31 + " NewOperationContext"), ("method and path cleaning", OP + " SanitizeMethodPath")],
 "explicit-state exploration of all call histories up to a depth against a map model",
 "All histories up to the stated depth are executed on the real registry and compared with an independent map model after every call.")

prop("P06", "Path placeholders and path parameters match exactly",
 "A path pattern is cleaned by dropping the regular expression of each placeholder and nothing else, and its parameter names are reported in order. An operation is accepted if and only if every placeholder has exactly one path parameter of that name, every path parameter has a placeholder, and no two parameters share name and location, whatever mix of declaration forms is used; references to parameters of the components are left alone.",
 ["inputs", "programs"], "all path patterns composed of up to a number of segments from an alphabet, combined with all small sets of declared parameters",
 "Tests cover about ten fixed patterns; mismatches arise from combinations such as repeated names, names that are prefixes of others, regular expressions with braces or colons, and same names in different locations.",
 [OP, H3, H31], [("path parsing", OP + " SanitizeMethodPath"), ("path parameter validation", H31 + " validatePathParams")],
 "bounded exhaustive enumeration of patterns and parameter sets against an independent parser",
 "All patterns and parameter sets within the bounds, compared with an independent hand-written path scanner; patterns with unbalanced braces are outside of the domain.")

prop("P07", "Request structure fields become exactly the right parameters",
 "Every field of a request structure tagged for path, query, form, header or cookie (directly, through embedding, or by custom name mapping) yields exactly one parameter with that name and location, and no other parameter appears. Path parameters are required, others are required iff tagged so; collection format, object values, JSON values, deprecation, description, examples and defaults are rendered as documented; the same name and location twice is an error.",
 ["programs", "inputs"], "all structures of up to a few fields over an alphabet of types, tags and mappings, in both versions",
 "Structures are programs: each field combines a type, a location, and half a dozen modifier tags, and fields interact with each other and with the other content units; tests fix some twenty structures.",
 [R3, R31, IJ], [("parameters", R31 + " parseParametersIn"), ("reflection options", IJ + " ReflectParametersIn")],
 "bounded exhaustive enumeration of structure types against an independent reference model",
 "All structures within the bounds are built with reflection and added as operations of the real reflector; the expected parameter list comes from an independent model, schema details of single fields from the underlying JSON schema library.")

prop("P08", "Request bodies are produced exactly when documented",
 "A request body with the right media types (JSON, urlencoded, multipart when it has files, or a custom type) appears exactly when the structure has body fields and the method allows a body or the structure enforces it; form fields take precedence over JSON unless JSON is enforced. The properties of a body schema are exactly the fields tagged for it; several content units accumulate their media types, and descriptions and customizations apply.",
 ["programs", "inputs", "histories"], "all combinations of method, structure kind, enforcement, declared content type and order of up to a few content units",
 "The decision depends on method, tags, enforcement interfaces, mapping, declared type and earlier units at once; tests pick single points.",
 [R3, R31, IJ], [("request setup", R31 + " setupRequest"), ("body decision", IJ + " ReflectRequestBody")],
 "bounded exhaustive enumeration of operation programs against an independent reference model",
 "All combinations within the bounds on the real reflector against a decision-table model of the documented behaviour.")

prop("P09", "Responses carry the status, content and headers that were declared",
 "Each declared response appears under its own key (200 when unset, 1XX-5XX for families, default), and no response appears that was not declared. Units with one status accumulate media types and headers; a body schema appears iff the structure has a body and the method is not HEAD; headers are exactly the header fields; descriptions default to the description of the structure and then to the status text; a reference set by the user replaces the content.",
 ["programs", "inputs", "histories"], "all sequences of up to a few response units over an alphabet of statuses, structures, content types, formats and options",
 "Units for the same status merge with each other in order-dependent ways; tests mostly declare distinct statuses.",
 [R3, R31, IJ], [("response setup", R31 + " setupResponse"), ("headers", R31 + " parseResponseHeader"), ("body", IJ + " ReflectJSONResponse")],
 "bounded exhaustive enumeration of operation programs against an independent reference model",
 "All combinations within the bounds on the real reflector against an independent model.")

prop("P10", "Every schema reference resolves and component names never collide",
 "After any sequence of successful registrations every local reference in the document points to an existing, non-empty component, component names use only the characters that OpenAPI allows, and distinct Go types never share a component while one type keeps a single component per usage (body, form). The component describes the type it was generated from, regardless of which operation mentioned it first and in which role.",
 ["programs", "histories"], "all sequences of operations over a curated universe of named, generic, recursive and same-named types in all roles",
 "Collisions need a particular combination of types, packages, roles and order; the tests register few types per specification.",
 [R3, R31, IJ], [("definition collection", R31 + " collectDefinition"), ("definition naming", IJ + " sanitizeDefName")],
 "explicit-state exploration of all registration histories up to a depth",
 "All histories within the bounds; after every step all references of the saved document are resolved and each component is compared with the shape of the type.")

prop("P11", "Schema conversion keeps constraints and is self-contained",
 "Converting a schema to JSON Schema and back keeps every constraint both formats can express, and converting a schema in either direction, as long as it uses only keywords that both formats have, gives a schema that accepts exactly the same values. A converted schema carries every component it refers to, directly or indirectly, however references nest or recurse, and conversion terminates without a panic and leaves the specification untouched.",
 ["inputs"], "all schemas within a number of deviations over all keywords, and all reference graphs over a few components",
 "Conversion is a hand-written list of some 40 keywords with recursion through eight kinds of subschemas; cycles and shared references appear in graphs the tests never build.",
 [J3, J31], [("conversion", J3 + " ToJSONSchema, FromJSONSchema"), ("reference collection", J31 + " findReferences")],
 "bounded exhaustive enumeration of schemas and reference graphs; finite value universe compared by a reference validator",
 "All schemas and reference graphs within the bounds; acceptance is compared on a finite universe of values by a validator written for the harness.")

prop("P12", "Walking request and response schemas agrees with the document",
 "Walking the schemas of a content unit calls back exactly once for every parameter, JSON body, urlencoded form field, response header and response body that adding the same unit to an operation (GET for a response) would document, with the same location, name (canonical for response headers), required flag (false for bodies) and schema; request bodies of other media types are not walked. Every schema given to the callback is self-contained, an error of the callback ends the walk and is returned, and the completion hook runs exactly once.",
 ["programs", "inputs", "fault_sequences"], "all content units of the bounded structure grammar, all methods, failing callback at every position",
 "The walkers re-implement the document builder for validation libraries; a disagreement shows only for particular unit shapes.",
 [W3, W31], [("walkers", W31 + " WalkRequestJSONSchemas, WalkResponseJSONSchemas")],
 "bounded exhaustive enumeration of content units and fault positions, differential against the document",
 "All units within the bounds; expected callbacks are derived from the saved document of the same unit.")

prop("P13", "Schema hooks see the operation being processed",
 "While an operation is added, every user hook invoked for a schema that the document shows can retrieve that operation together with whether a response is processed and in which location (body for all kinds of bodies), and these match the place of the document where the schema ends up. Hooks of one operation never see another operation, and the operation context exposes exactly the values that were set.",
 ["programs", "histories"], "all operations of a bounded structure grammar with observing hooks, interleaved with other operations",
 "Tests check the context in one hook of one operation; the state is a mutable field shared by nested reflection passes.",
 [OP, IO, R3, R31, IJ], [("operation context", OP + " WithOperationCtx, OperationCtx"), ("state", IO)],
 "bounded exhaustive enumeration of operation programs with monitoring hooks",
 "All programs within the bounds; hooks record what they see and the record is compared with the document.")

prop("P14", "Results do not depend on map iteration order",
 "The same sequence of API calls yields byte-for-byte the same saved JSON and YAML documents, the same errors or absence of errors and the same set of walked schemas, whatever order the runtime iterates maps in. Saving, loading, registering, converting and walking are all deterministic functions of their inputs. Where a loaded document is malformed in several ways, it is always rejected, which mistake is named first is not promised.",
 ["schedules"], "all iteration orders (up to a deviation bound) of every map the library ranges over during a program",
 "Go randomizes map iteration, so a test samples one order per run and flakes at best; the property quantifies over all orders.",
 [E3, E31, R3, R31, J3, J31, W3, W31, H3, H31], [("ranges over maps", "throughout"), ("ordered output", E31 + " MarshalJSON")],
 "stateless exploration with the runtime's map iteration order as an explored decision",
 "The map iterator of the Go runtime is overlaid at build time so that orders are decisions of the explorer: all orders at every place of the code that iterates a map, at its first iterations one by one (at every single one, and at pairs, in the thorough tier) and everywhere at once.")

prop("P15", "Operations are independent of order and of each other",
 "Adding the same set of operations in any order gives the same specification, and what an operation documents does not depend on which other operations were added before, provided they succeed. Adding an operation leaves the existing operations and components unchanged. Components are compared by content: the names given to different types of one name depend on the order, and one structure in roles with different tags is covered by P10.",
 ["histories"], "all permutations and interleavings of up to a few operations from an alphabet that shares types, paths and statuses",
 "Tests add operations in one order; leaks go through shared components, shared slices, and the reflector's mutable state.",
 [R3, R31, IJ, H3, H31], [("shared components", R31 + " collectDefinition"), ("operation assembly", R31 + " setupOC")],
 "explicit-state exploration of all orders of operation sets, differential",
 "All orders within the bounds, compared pairwise and with operations added alone.")

prop("P16", "A specification can be saved and resumed at any point",
 "Saving a specification after any prefix of a building history and continuing from the loaded copy leads to the same final JSON document (up to default parameter styles that loading OpenAPI 3.0 spells out), and to the same accepted and rejected calls, as building without interruption, and the readers of the specification (metadata, operations, forbidden unknown parameters, resolved schemas) tell the same. This holds for both JSON and YAML, for several interruptions, and for continuing with the same reflector or a new one, as long as distinct types that share a name are not spread over several reflectors.",
 ["histories", "crash_points"], "all building histories up to a depth and all interruption points",
 "Needs the combination of building and loading at each point of each history; tests do either.",
 [E3, E31, Y3, Y31, R3, R31, H3, H31], [("decoders and encoders", E31), ("registration", H31), ("component collection", R31)],
 "explicit-state exploration of histories with save/load inserted at every point, differential",
 "All histories and interruption points within the bounds, comparing final documents and per-call results.")

prop("P17", "OpenAPI 3.0 and 3.1 builders agree",
 "The same operation program is accepted or rejected by both builders alike, and the two documents agree on paths, methods, operation attributes, parameters, media types, statuses, headers, security and component names. Schemas differ only by the dialect (nullable, exclusive limits, examples, file content).",
 ["programs"], "all operation programs of the bounded grammars, in both versions",
 "The two packages are parallel copies; a fix or bug in one can be missed in the other, and the tests of each are separate.",
 [R3, R31, H3, H31], [("reflectors", R3 + ", " + R31), ("helpers", H3 + ", " + H31)],
 "bounded exhaustive enumeration of programs, differential between the two implementations",
 "All programs within the bounds on both reflectors with a dialect normalization.")

prop("P18", "A failing user hook is reported and contained",
 "If a user hook or an exposed schema method fails at any point while an operation is added, the call returns an error that wraps or mentions it, nothing panics, the operation is not registered and previously registered operations and components are unchanged. The same operation can be added afterwards once the cause is gone, with the result of a run without failure (up to names of components; a structure that has two schemas for one component, see P10, is out of scope). Walking schemas reports a failing hook as well.",
 ["fault_sequences", "histories"], "a failure at every hook invocation of every program of a bounded grammar",
 "Requires failing each of dozens of hook invocations per program in turn; tests have one such failure.",
 [R3, R31, IJ, H3, H31], [("error propagation", R31 + " joinErrors, setupOC"), ("body detection", IJ + " ReflectJSONResponse")],
 "exhaustive fault injection at every hook invocation",
 "Every invocation of every hook fails once (and in pairs in the thorough tier), compared with the fault-free run.")

prop("P19", "Builder setters set exactly their own member",
 "Every fluent setter of the document entities sets exactly the member it is named after, leaves all others alone and returns its receiver; item setters add one entry and keep the others; ensuring getters create a member once and then return the same instance. A value set this way is what the saved document shows.",
 ["programs", "histories"], "every setter of every entity, from every bounded state, in all sequences of up to two or three calls",
 "There are some 600 generated setters; tests call a small part of them.",
 [E3, E31, "openapi3/helper.go", "openapi31/helper.go"], [("generated setters", E3 + ", " + E31)],
 "exhaustive enumeration of setters and short call sequences by reflection against a record model",
 "All exported builder methods found by reflection, all sequences of the stated length per entity.")

prop("P20", "Specification metadata and security are recorded as set",
 "Title, version and description are read back as last set through the version-independent interface, in any order of calls. Security schemes registered by name describe exactly the kind, location, name, format and description that were given, the last registration of a name wins, and each security requirement added to an operation appears in order with its scopes. Tags, summary, description, identifier and deprecation of an operation are read back and saved as last set.",
 ["histories", "inputs"], "all sequences of metadata and security calls up to a depth over an alphabet, both versions",
 "Few fixed sequences are tested; setters interact through shared maps and lazily created containers.",
 [H3, H31, R3, R31], [("security and metadata helpers", H31 + " Set*"), ("operation security", R31 + " AddSecurity")],
 "explicit-state exploration of call histories against a record model",
 "All histories within the bounds; the saved document is compared with the model and reloaded.")

prop("P21", "The deprecated entry points of OpenAPI 3.0 equal the current ones",
 "Setting up a request, a JSON response or a string response through the deprecated functions gives the same operation as declaring the same structures on an operation context, for every method, structure, mapping, status and content type that both can express, and hooks that use the deprecated context accessor see the same operation state.",
 ["programs"], "all programs of the bounded grammars that both interfaces can express",
 "The deprecated tests use fixed structures and were not extended with the newer features.",
 ["openapi3/reflect_deprecated.go", R3], [("conversion of contexts", R3 + " toOpCtx, fromOpCtx"), ("deprecated functions", "openapi3/reflect_deprecated.go")],
 "bounded exhaustive enumeration of programs, differential between two interfaces",
 "All programs within the bounds.")

prop("P22", "Independent specifications do not influence each other",
 "Specifications and reflectors built, saved and loaded at the same time in several goroutines, with no shared values, give the same results as one after another under every interleaving, and access no shared memory without synchronization.",
 ["schedules"], "all interleavings of two programs at hook points up to a preemption bound, and all pairs of programs under happens-before monitoring",
 "There is no concurrent test; shared state would show only under a particular interleaving.",
 [E3, E31, R3, R31, IJ, OP, Y3, Y31], [("package-level state", E3 + " knownKeys*, regex*"), ("reflection", IJ)],
 "stateless exploration of interleavings under a controlled scheduler, plus happens-before race monitoring of every program pair",
 "All interleavings at user-visible callback points within the preemption bound; code between two callbacks is atomic for the scheduler, and is covered by the race monitor.")
