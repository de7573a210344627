import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","An event behaves as a nested map under every sequence of operations",
"For every sequence of put, put-if-absent, get and delete calls with dotted keys, made on it directly or by processors of a pipeline it runs through, an event gives the same return values, errors and resulting contents as a plain nested map: put stores the value at exactly the addressed path, creating missing parent objects, and returns the value it replaced; put-if-absent never replaces an existing value and returns it; delete removes exactly the addressed entry, leaving its siblings and parents, and returns it. A call that fails (empty key, key already exists, a parent that is not an object) changes nothing. Putting a nil value is a no-op and no call panics, whatever kinds of values the event holds.",
["histories","inputs"],"all sequences of event operations, with keys that collide, nest and pass through scalars, arrays, nulls and empty objects, starting from empty, built or JSON-decoded events",
"The tests run one or two operations on fixed keys and look at one return value; they never check siblings after a nested delete, contents after a failed put, or longer histories.",
["pkg/event/event.go","pkg/event/value.go"],[("put/get/delete path walk","pkg/event/event.go put, get, delete")],["pkg/event: Event.Put, TryPut, Get, Delete","json.Marshal(event)"],
[("event fields","root map of the event","pkg/event/event.go Event.fields")])

p("C02","Dotted keys address every path exactly, with escaped dots taken literally",
"For every non-empty sequence of non-empty field names that contain no backslash, joining the names with dots after escaping the dots inside each name gives a key that addresses exactly that path, so two different paths never reach the same entry and a name that contains dots is never split. Empty segments (leading, trailing or repeated dots) are ignored. A key that has no name in it reads the whole event and is rejected with an empty-key error for writing.",
["inputs"],"all field-name sequences over arbitrary characters (multi-byte, white space, control characters), and all spellings of a key with extra dots",
"One table of nine ASCII keys is tested; nothing relates escaping to parsing, and no multi-byte, repeated-dot or multi-escape key is tried.",
["pkg/event/event.go","pkg/eventutil/event.go"],[("key parser","pkg/event/event.go keyToPath"),("escaping","pkg/eventutil/event.go EscapeKey")],["Event.Put/Get/Delete with the key","eventutil.EscapeKey"])

p("C03","JSON encoding and decoding of events loses nothing",
"Decoding any JSON object into an event and encoding it again yields the same JSON value (numbers compared as double-precision values, the last of duplicate keys wins), including nulls, empty objects and arrays, an empty document, and keys with any characters. Encoding an event built from typed values gives the corresponding JSON: exact integers over the full signed and unsigned 64-bit ranges, floats that parse back to the same double, and timestamps as UTC RFC 3339 strings with full nanosecond precision. A number that JSON cannot represent (NaN, infinity) makes encoding fail with an error and never produces a document.",
["inputs"],"all JSON objects and all trees of typed event values, to any nesting depth",
"Two fixed objects and one timestamp are marshalled; decoding is only exercised through nine small fixture events without nulls.",
["pkg/event/event.go","pkg/event/value.go","pkg/event/time.go"],[("JSON methods","pkg/event/value.go MarshalJSON, UnmarshalJSON; pkg/event/event.go; pkg/event/time.go")],["encoding/json on event.Event and event.Value"])

p("C04","Any bytes decode to a usable event or are rejected without side effects",
"Decoding arbitrary bytes as an event never panics: every valid JSON object whose numbers lie in the double range is accepted, and anything that is neither a JSON object nor null is rejected with an error and leaves the event as it was. Decoding into an event or value that was used before replaces its content entirely and changes nothing that was read from it earlier. Every event obtained by decoding supports reads, writes and deletes at any path, appending, and conversion to JSON, Go maps and protocol buffers without panicking. A JSON null in it is readable as a null value, not as a missing field.",
["inputs"],"all byte strings, biased to JSON and near-JSON, followed by every kind of operation on the decoded event",
"No test decodes malformed input, a null, or a non-object, and none operates on the result.",
["pkg/event/event.go","pkg/event/value.go","pkg/serialization/mapinterface/mapinterface.go","pkg/serialization/protobuf/protobuf.go"],[("decoder","pkg/event/event.go UnmarshalJSON; pkg/event/value.go UnmarshalJSON")],["json.Unmarshal into event.Event, then the public API"])

p("C05","Go values convert to event values of the same kind and content",
"Booleans, integers and floats of every size, strings, times, errors, slices, arrays, maps, structs, pointers and interfaces, including named types, convert to the event value of the corresponding kind with the same content at any nesting depth, map keys and names with dots are kept as one literal name, and nil pointers and nil interfaces become null. Struct fields are named by their tag or else their lower-cased name; unexported fields and fields tagged '-' are left out, 'omitempty' leaves out zero values, and 'string' uses the value's own string form. A channel, function or complex value anywhere gives an unsupported-type error, and no acyclic input panics.",
["inputs"],"all acyclic Go values built from the supported kinds, including struct types generated at run time, with unsupported kinds placed anywhere",
"One map literal with a handful of kinds is converted; struct options, nil errors, interface-typed fields, nested dotted names and unsupported kinds are untested.",
["pkg/eventutil/reflect.go","pkg/eventutil/structtag.go","pkg/config/config.go","pkg/serialization/mapinterface/mapinterface.go"],[("conversion","pkg/eventutil/reflect.go interfaceToValue, reflectToValue"),("tags","pkg/eventutil/structtag.go")],["eventutil.ReflectValue","config.EventValue.Unpack","mapinterface.ToEvent"])

p("C06","Events and Go maps convert into each other without loss",
"Converting any event to a Go map and back yields an equal event, and converting a map of plain values to an event and back yields the same map, for every value kind and nesting depth, with numeric kinds, nanosecond timestamps, nulls and dotted names preserved, and every entry of the map reachable in the event by its escaped key. A map key that cannot name a field gives an error; no entry is ever silently dropped. (Top-level map keys follow the key syntax, so those holding a backslash are outside this property.)",
["inputs"],"all events whose top-level names are non-empty and have no backslash, and all maps of plain values with such keys",
"One event and one map, without a nested dotted key, are converted, each in one direction and never composed.",
["pkg/serialization/mapinterface/mapinterface.go","pkg/eventutil/reflect.go","pkg/eventutil/event.go"],[("conversions","pkg/serialization/mapinterface/mapinterface.go")],["mapinterface.ToEvent, FromEvent"])

p("C07","Events survive the protocol buffer wire format unchanged",
"Encoding any event as a protocol buffer message and decoding it yields an equal event: every value kind, every 64-bit integer, every double bit pattern, arbitrary string bytes, nanosecond timestamps, nulls, empty arrays and objects, the empty event, and field names with any characters at any depth. The bytes written are a valid encoding of the published message schema, so that an independent decoder reads the same content from them. The encoded size reported for a message equals the number of bytes written.",
["inputs"],"all trees of event values, to any depth and width, including sizes that cross each varint length boundary",
"One five-field event is round-tripped, without null, bool, float, unsigned, array or object-in-array values and with all lengths below 128 bytes.",
["pkg/serialization/protobuf/protobuf.go","pkg/serialization/protobuf/event.pb.go","pkg/serialization/protobuf/event.proto"],[("mapping","pkg/serialization/protobuf/protobuf.go"),("wire codec","pkg/serialization/protobuf/event.pb.go Marshal, Unmarshal, Size")],["protobuf.FromEvent, ToLogEvent","MessageWrapper.Marshal, Unmarshal, Size"])

p("C08","Protocol buffer decoding handles every byte string correctly or rejects it",
"Decoding arbitrary bytes as an event message never panics, and every message that decodes can be turned into an event, an unset value being read as null. Every valid encoding of the schema is accepted, whatever the order of its fields and however often scalar and map fields are repeated, and is read as an independent decoder reads it; unknown fields are skipped and kept when the message is written again. Input that ends inside a field or holds a length beyond its end, an illegal tag, a number of more than ten bytes or a message field of the wrong wire type is rejected with an error; any other member of a wrong wire type is rejected or passed over, never taken for a value.",
["inputs"],"all byte strings: valid encodings in every legal field order and spelling, single-point corruptions of them (inside map entries, which the generated decoder checks less strictly, only for not panicking), truncations at every length, and arbitrary bytes",
"Only the library's own canonical output is ever decoded.",
["pkg/serialization/protobuf/event.pb.go","pkg/serialization/protobuf/protobuf.go"],[("decoder","pkg/serialization/protobuf/event.pb.go Unmarshal, skipEvent"),("mapping","pkg/serialization/protobuf/protobuf.go ToLogEvent")],["MessageWrapper.Unmarshal and Marshal","protobuf.ToLogEvent"])

p("C09","Processors run in order and failures go through the configured handlers",
"For every pipeline, processors run in the configured order, each exactly once per event, and the first unrecovered failure stops the remaining processors of that list. A failing processor is passed over when the failure is a missing key and it ignores missing keys; otherwise its own failure handlers run in order up to the first that fails, and the failure counts as recovered if all of them succeed or if the processor ignores failures; an unrecovered failure runs the pipeline's own failure handlers in the same way. Processing returns the event and no error when nothing failed or everything was recovered, and otherwise no event together with the error of the processor or handler that failed last. All this holds as well for events that a processor sends through the same pipeline while it runs, and for events after one with which a processor panicked.",
["programs","configurations","fault_sequences"],"all nestings of processors, failure handlers, ignore options and pipeline-level handlers, with every choice of which processors fail and how",
"Two fixture pipelines with a fixed failure pattern are run; the space of nesting depth, handler outcome and ignore flags is not explored.",
["pkg/pipeline/pipeline.go","pkg/pipeline/processor.go","pkg/processor/error.go"],[("pipeline loop","pkg/pipeline/pipeline.go process"),("failure handling","pkg/pipeline/processor.go Process"),("ignore options","pkg/pipeline/processor.go ignores")],["pipeline.New, Pipeline.Process with registered probe processors that record their execution"])

p("C10","Dropping or cancelling an event takes effect at once",
"Once any processor or failure handler, at any depth, drops the event, no further processor or handler runs for it and processing returns neither an event nor an error, even if that processor also reports a failure. Once one that does not itself fail cancels the event, no further processor or handler runs and the event is returned as it stands, without an error. Neither affects later events.",
["programs","histories"],"all pipelines in which one or more processors or handlers, at any position and depth, drop or cancel some events of a sequence",
"No test uses drop or cancel at all.",
["pkg/pipeline/event.go","pkg/pipeline/pipeline.go","pkg/pipeline/processor.go","pkg/processor/api.go","cmd/sawmill/sawmill.go"],[("event wrapper","pkg/pipeline/event.go Drop, Cancel"),("loops","pkg/pipeline/pipeline.go, pkg/pipeline/processor.go")],["Pipeline.Process with registered processors that call Drop or Cancel"],
[("dropped, cancelled","per-event control flags","pkg/pipeline/event.go")])

p("C11","Pipeline metrics count every processor's events exactly",
"The pipeline exposes, for every processor at every level including all failure handlers, one counter each of received, sent, failed and dropped events, labelled with the processor's type and an identifier that gives its position in the pipeline, and all of them can be registered together. After any sequence of events, each processor's received count is the number of times it ran, its failed count is the number of failures that were neither ignored nor recovered, its dropped count is the number of events it dropped, and its sent count is all the rest. Counts never leak between processors or pipelines.",
["programs","histories","fault_sequences"],"all pipelines (nested handlers, ignore options, drops) and all event sequences through them",
"No test reads a metric.",
["pkg/pipeline/pipeline.go","pkg/pipeline/processor.go","pkg/metrics/metrics.go"],[("counters","pkg/pipeline/processor.go Process, newPipelineProcessor"),("enumeration","pkg/pipeline/pipeline.go Metrics, visitProcessors")],["Pipeline.Metrics gathered through a Prometheus registry"])

p("C12","Each event's result depends only on that event and the configuration",
"The result of processing an event is the same whatever events the pipeline processed before it and whatever other events it processes concurrently, and equals the result of a freshly built pipeline. Events returned earlier, and the configuration, never change because a later event is processed or because a caller modifies an event it was given. Within one event, a value set from another field or from the configuration is an independent copy: changing one later does not change the other.",
["histories","schedules","configurations"],"all pipelines of the built-in processors, all event sequences and caller modifications, and concurrent use by several goroutines",
"Every test processes each event once and never looks back at an earlier result, and none uses two goroutines.",
["pkg/processor/set/process.go","pkg/processor/append/process.go","pkg/pipeline/pipeline.go","pkg/eventutil/event.go"],[("value copying","pkg/processor/set/process.go"),("per-event wrapper","pkg/pipeline/pipeline.go Process")],["Pipeline.Process over histories; race detector"],
[("configured value","value held by a set processor and placed in events","pkg/processor/set/set.go Config.Value")])

p("C13","Pipeline definitions mean the same in YAML and JSON and survive re-encoding",
"A pipeline definition written as JSON or as the equivalent YAML decodes to the same configuration: the same identifiers, descriptions, processor order, conditions, failure handlers at every depth and processor options (JSON numbers being doubles, and an unquoted date in YAML being the text it is written as). Encoding a configuration (as JSON or YAML) and decoding it again yields the same configuration. The reserved keys (id, if, on_failure) are never mixed up with processor options, and no option is lost, renamed or moved to another processor.",
["configurations"],"all configurations with nested handlers, arbitrary option names and values, empty and null option blocks",
"One single-processor configuration is decoded and encoded, without id, if or on_failure inside a processor.",
["pkg/pipeline/config.go"],[("JSON workaround","pkg/pipeline/config.go MarshalJSON, UnmarshalJSON"),("YAML tags","pkg/pipeline/config.go")],["json and yaml.v3 on pipeline.Config"])

p("C14","Malformed pipeline definitions are rejected, well-formed ones accepted",
"Building a pipeline fails with an error, never a panic, when the definition is missing, has an empty id, or has anywhere (including failure handlers at any depth) a processor entry with no or several types, an unknown type, a missing or empty required option, or an option value of the wrong type, or a value of another kind where the definition has a list, a processor entry or a text; the error for a bad type or option names the position of that processor. Every definition without such a flaw is accepted. Nothing else about the definition, such as its description, processor ids or unknown options, decides acceptance.",
["configurations"],"all valid definitions, and each of them with one flaw injected at any position and depth",
"No test builds an invalid pipeline.",
["pkg/pipeline/pipeline.go","pkg/pipeline/processor.go","pkg/pipeline/config.go","pkg/processor/registry/registry.go"],[("construction","pkg/pipeline/pipeline.go New; pkg/pipeline/processor.go newPipelineProcessors"),("option validation","pkg/processor/registry/registry.go NewProcessor")],["pipeline.New"])

p("C15","The processor registry accepts exactly valid constructors and keeps them apart",
"Registering succeeds exactly for a new name with a function that takes one configuration struct and returns a processor pointer and an error; anything else, a nil or duplicate registration included, is refused with an error and leaves earlier registrations as they were, and no constructor is called. Creating a processor by name calls once the constructor registered under that name with the given options decoded over the configuration's defaults, returns the constructor's own error if it fails, and fails for unknown names. Processors and registries share no state: each creation gets a fresh configuration. A constructor may itself create and register processors.",
["histories","inputs"],"all sequences of register and create calls over valid and invalid constructors, names and option maps, on several registries",
"One valid constructor is registered once and called once.",
["pkg/processor/registry/registry.go"],[("constructor validation","pkg/processor/registry/registry.go validateConfig, Register"),("creation","pkg/processor/registry/registry.go NewProcessor")],["registry.Registry"])

p("C16","The set processor stores exactly the configured or copied value",
"The set processor puts the configured value, or when none is configured a copy of the field it copies from, at its target field, replacing what was there and changing nothing else in the event. A configured value arrives in the event with the kind and content it has in the pipeline definition, for strings (taken literally), booleans, numbers, lists and maps at any depth. A missing source field is a missing-key failure, and a target that cannot be written is a failure that leaves the event unchanged.",
["inputs","configurations"],"all configured values, source and target fields (existing, missing, nested, overlapping) and events",
"Only two constant string or list values are set, each on an empty path, and copying is untested.",
["pkg/processor/set/process.go","pkg/config/config.go","pkg/processor/registry/registry.go"],[("processing","pkg/processor/set/process.go"),("value decoding","pkg/config/config.go Unpack")],["a one-processor pipeline: configuration, event in, event out"])

p("C17","The append processor adds its value to the end of the field, as documented",
"The append processor adds its value at the end of an array field keeping the existing elements in order, turns a scalar field into an array of the old value followed by the new one, and creates a one-element array when the field is missing. Unless duplicates are allowed, a value already present is not added again; with missing fields ignored, a missing or null field leaves the event unchanged. An object field or a path through a non-object is a failure that leaves the event unchanged, and nothing but the field is ever changed.",
["inputs","histories"],"all fields (missing, scalar of every kind, array, object, unreachable), values, options and repeated application",
"The fixtures append distinct constants to a missing or array field only.",
["pkg/processor/append/process.go","pkg/processor/append/append.go","pkg/processor/processors.yml"],[("processing","pkg/processor/append/process.go")],["a one-processor pipeline: configuration, event in, event out"])

p("C18","Lowercase and uppercase convert strings exactly and report the rest",
"For a string field, the lowercase (uppercase) processor writes the string with every character mapped to lower (upper) case to the target field, or in place when no target is set, and changes nothing else, so a separate source field keeps its original text. A missing or null field is a missing-key failure, which leaves the event unchanged and is passed over when missing fields are ignored. Any other failure (a value that is neither a string nor a list of strings, an unwritable target) is reported and leaves the event unchanged.",
["inputs"],"all strings in any script, all source and target fields, and all value kinds; a list of strings, which the documentation says is converted member by member but an existing fixture pins as a failure, is recorded as a known finding",
"Lowercase is tested on three ASCII fixtures and uppercase not at all.",
["pkg/processor/lowercase/process.go","pkg/processor/uppercase/process.go"],[("processing","pkg/processor/lowercase/process.go; pkg/processor/uppercase/process.go")],["a one-processor pipeline: configuration, event in, event out"])

p("C19","The remove processor removes exactly the configured fields",
"The remove processor deletes each configured field from the event, nested fields included, and changes nothing else: siblings and parents of a removed field stay. If a configured field does not exist it fails with a missing-key failure, unless missing fields are ignored, in which case all other configured fields are still removed.",
["inputs","configurations"],"all lists of configured fields (existing, missing, nested, overlapping, dotted names) and events",
"The remove processor has no test.",
["pkg/processor/remove/remove.go","pkg/event/event.go","pkg/processor/processors.yml"],[("processing","pkg/processor/remove"),("delete","pkg/event/event.go delete")],["a one-processor pipeline: configuration, event in, event out"])

p("C20","The command line emits one correct result per input line, in order",
"For any input the sawmill command handles every non-blank line independently: it writes to standard output, in input order, exactly one JSON line holding the pipeline's result for an event made of that line's trimmed text and its 1-based line number, or, when processing fails, no output but one message naming the line number on standard error; a dropped event produces neither. It exits with status 0 when the input was read to its end, whatever failed for single lines. An unusable pipeline file, or input that cannot be read (a line over the 64 KiB limit), gives a message and a non-zero status, never a crash, and results already due for earlier lines are still written. A result that cannot be written is reported on standard error. Writing profiles on request changes none of this and leaves complete profile files.",
["inputs","configurations"],"all inputs (blank lines, CRLF, missing final newline, invalid UTF-8, long lines, JSON-looking text) and pipelines that succeed or fail depending on the line",
"The command has no test.",
["cmd/sawmill/sawmill.go"],[("main loop","cmd/sawmill/sawmill.go processInput"),("pipeline loading","cmd/sawmill/sawmill.go loadPipeline, main")],["the built command: standard output, standard error, exit status"])

p("C21","The metrics endpoint reports the running pipeline's true counts",
"While the sawmill command runs, an HTTP GET of /metrics on the configured address returns, for every processor of the pipeline at every level, its received, sent, failed and dropped counts, equal to those implied by the lines processed so far. Runtime metrics of the process are exposed there too. Registering collectors makes them appear, at every address that is listened on, and unregistering them makes them disappear without affecting others.",
["histories","configurations"],"all pipelines and input sequences, scraped at any point between lines; all sequences of register and unregister",
"Neither the metrics package nor the endpoint has a test.",
["pkg/metrics/metrics.go","cmd/sawmill/sawmill.go","pkg/pipeline/pipeline.go"],[("registry and endpoint","pkg/metrics/metrics.go"),("wiring","cmd/sawmill/sawmill.go main")],["HTTP /metrics of the built command and of a test program"])

p("C22","The processor generator turns every definition into correct Go code",
"For every valid processor definition file the generator writes, for each processor, one formatted, compilable Go file whose configuration struct has exactly the defined options under their configured names, with the declared types, required options marked as required and the declared default values applied, and which registers the processor under its name. Every description ends up entirely inside comments. Running it again changes nothing, and a processor whose own processing function was moved to another file does not get a second one. Without a readable definition file, or when an output cannot be written, it reports an error and exits with a non-zero status.",
["inputs","programs"],"all processor definition files: any number of processors and options, all scalar option types and defaults, descriptions with any printable text and line breaks; fresh and repeated runs",
"The generator's only test checks a helper that looks for one function in two existing files.",
["pkg/processor/generate/generate.go","pkg/processor/generate/assets/processor.go.gotmpl","internal/proctemplate/funcs.go","internal/proctemplate/schema.go"],[("template","pkg/processor/generate/assets/processor.go.gotmpl"),("template functions","internal/proctemplate/funcs.go")],["the generator run on generated definition files; go/parser and go/types on its output"])

p("C23","The documentation generator documents every processor and option",
"For every valid processor definition file the generated README lists each processor once, in alphabetical order, in the index and with a section that has its description and one table row per option, sorted by name, giving the option's name, required and optional marks, type, non-zero default and description. Definition files with unknown keys are rejected with an error and no output. The output depends only on the definition file. Without a readable definition file, or when the output cannot be written, it reports an error and exits with a non-zero status.",
["inputs"],"all processor definition files",
"The documentation generator has no test.",
["docs/generate/generate.go","docs/generate/assets/README.md.gotmpl","docs/generate/assets/processor.md.gotmpl","internal/proctemplate/schema.go","internal/proctemplate/funcs.go"],[("templates","docs/generate/assets"),("sorting and types","docs/generate/generate.go")],["the generator run on generated definition files; the README it writes"])

p("C24","Built-in processors accept exactly the options they document",
"Every processor in the published definition file can be created through the registry, and for any assignment of values to its documented options the created processor holds exactly those values, with the documented default for every option left out. Its text form is its name followed by the options it holds as JSON. Leaving out a required option is an error. The README lists the same processors and options with the same types, marks and defaults.",
["configurations"],"all assignments of in-range values to subsets of the documented options of each built-in processor",
"No test relates the definition file to the processors; options such as community_id's or remove's are never set.",
["pkg/processor/processors.yml","pkg/processor/append/append.go","pkg/processor/community_id/community_id.go","pkg/processor/lowercase/lowercase.go","pkg/processor/remove/remove.go","pkg/processor/set/set.go","pkg/processor/uppercase/uppercase.go","docs/README.md","pkg/processor/registry/registry.go"],[("configuration structs","pkg/processor/*/*.go Config, InitDefaults"),("decoding","pkg/processor/registry/registry.go NewProcessor")],["registry.NewProcessor and the created processor's Config()"])

p("C25","Appending to an event field keeps every element in order",
"Appending an item to a field through the event utilities yields an array holding the previous elements (or the previous single value) followed by the item, or by all elements of the item when it is an array; duplicates are kept, a missing field becomes a new array, and a nil item is a no-op. A field that cannot be written is reported as an error and the event is unchanged. Nothing but that field changes, and the item itself is not modified.",
["inputs","histories"],"all event contents, keys, items of every kind, and sequences of appends to the same and to overlapping fields",
"The function has no test.",
["pkg/eventutil/event.go"],[("append","pkg/eventutil/event.go Append")],["eventutil.Append"])

p("C26","The C and WebAssembly front ends give the library's results",
"For any JSON pipeline definition and JSON event object, processing through the C shared library and through the WebAssembly function gives the same result as the Go library: the same event as JSON, or the same error text when the definition, the event or processing fails. Results do not depend on what was loaded or processed before. An event sent to the C library before a definition is loaded, or a call of the WebAssembly function with a wrong number of arguments, gives an error text; nothing ends the host program.",
["inputs","histories","configurations"],"all sequences of pipeline definitions (valid and invalid) and events passed through each front end",
"Both front ends are only compiled, never run.",
["examples/c/cshared/main.go","examples/wasm/wasm.go","pkg/pipeline/config.go","pkg/pipeline/pipeline.go"],[("C entry points","examples/c/cshared/main.go Load, Process"),("wasm entry point","examples/wasm/wasm.go process")],["the built shared library called from C; the built wasm module run in node"])

p("C27","Protocol buffer messages obey the standard message operations",
"For every message of the schema (wrapper, log, value, array and object, not only whole events), whatever parts are set: the getters return exactly what the message holds, and zero values for all other members and for messages that are absent; every way of writing it (to a new slice, into a given buffer, to the end of one, through the protobuf library) gives a valid encoding of the same content with the reported size and touches nothing else; copying, merging, comparing, resetting, discarding unknown fields and the text form behave as protocol buffers define them; the embedded descriptor describes the published schema; and the protobuf library knows the types and the enumeration by the names they have there.",
["inputs"],"all messages of the five types built in memory, with any parts left out, and pairs of them",
"Only one whole event is written and read, through one function each; getters, buffers, merging and descriptors are never used.",
["pkg/serialization/protobuf/event.pb.go","pkg/serialization/protobuf/event.proto"],[("message types","pkg/serialization/protobuf/event.pb.go")],["the methods of the message types and the protobuf library's Clone, Merge, Equal, Marshal and text functions on them"])

p("C28","Concurrent work on separate or unchanging data does not interfere",
"Operations running at the same time in different goroutines on separate events, messages, definitions, processors and pipelines, and events sent through one pipeline at the same time, give exactly the results they give when run alone. An event, message, map, text or definition that nobody changes may be read (encoded, converted, cloned, measured, decoded, built from) by several goroutines at once; each reader gets the result it would get alone and what is read stays unchanged. None of this has a data race.",
["schedules","inputs"],"all interleavings of event, conversion, definition and pipeline operations in several goroutines, over all inputs of the other properties",
"No test uses the packages from two goroutines, and races show only under particular schedules and inputs.",
["pkg/event/event.go","pkg/event/value.go","pkg/eventutil/reflect.go","pkg/eventutil/event.go","pkg/serialization/mapinterface/mapinterface.go","pkg/serialization/protobuf/protobuf.go","pkg/pipeline/config.go","pkg/pipeline/pipeline.go","pkg/processor/registry/registry.go"],
[("event values and conversions","pkg/event, pkg/serialization"),("definitions and pipelines","pkg/pipeline"),("registry","pkg/processor/registry/registry.go")],["results of the public functions called from several goroutines; the race detector"])

p("C29","Conversions use the present content and share nothing with their source",
"Converting between events, values, Go maps and Go values, protocol buffer messages, encoded bytes, JSON, definitions, pipelines and processors, and cloning, gives what the content is at that moment: converting again after a change gives the changed content, and converting unchanged content again gives the same. The source is left as it was, and the result shares nothing with it: changing either one later, or reusing the buffer, map, list or definition it came from, changes nothing in the other or in results handed out earlier.",
["histories","inputs"],"all sequences of conversions and changes of source and result, over all contents and all pairs of forms",
"The tests convert once and compare; none changes a source or a result afterwards.",
["pkg/event/event.go","pkg/event/value.go","pkg/eventutil/reflect.go","pkg/serialization/mapinterface/mapinterface.go","pkg/serialization/protobuf/protobuf.go","pkg/serialization/protobuf/event.pb.go","pkg/pipeline/config.go","pkg/pipeline/pipeline.go","pkg/processor/registry/registry.go"],
[("event and value conversions","pkg/event, pkg/serialization"),("definitions, pipelines and processors","pkg/pipeline, pkg/processor/registry/registry.go")],["the public conversion functions, called repeatedly with changes between"])
p("C30","Printed values, constructors, times and errors say what they are",
"Printing a value, on its own or within others, with any verb gives the name of its kind, a colon and its content, at every depth and with the members of objects sorted, and changes nothing. The constructors give values of the kind they are named for with exactly the content they are given; times of values are Go times in UTC of the same instant and print as such, and the present time is the present time. A write that fails names the path and is the error of its cause (key exists, no object, empty key); a missing key and an unsupported type are found by errors.Is and errors.As through any wrapping, do not match other errors, and name the key or type.",
["inputs"],"all values, times, keys and wrapped errors",
"The tests print a few values and compare a few errors.",
["pkg/event/value.go","pkg/event/time.go","pkg/event/event.go","pkg/processor/error.go","pkg/eventutil/reflect.go"],
[("printing, constructors and times","pkg/event/value.go, pkg/event/time.go"),("errors","pkg/event/event.go, pkg/processor, pkg/eventutil")],["fmt verbs, constructors, errors.Is and errors.As of the public packages"])
p("C31","Long use holds no more than short use",
"However many events, values, messages, encoded texts, definitions, pipelines and processors were made, converted, processed, encoded, decoded or refused before, nothing of them is held once the caller lets go of the results: the memory in use, the goroutines and the open files do not grow with the number of operations. The same holds for the sawmill command and its endpoint with the number of lines, whatever becomes of the lines. What is registered by request stays until it is unregistered.",
["histories","inputs"],"all long sequences of operations and lines with ever new content, failing ones included",
"Tests end after a few operations; what is left over after thousands cannot be seen in them.",
["pkg/event/event.go","pkg/event/value.go","pkg/eventutil/reflect.go","pkg/serialization/mapinterface/mapinterface.go","pkg/serialization/protobuf/protobuf.go","pkg/serialization/protobuf/event.pb.go","pkg/pipeline/pipeline.go","pkg/pipeline/event.go","pkg/pipeline/processor.go","pkg/pipeline/config.go","pkg/processor/registry/registry.go","pkg/metrics/metrics.go","cmd/sawmill/sawmill.go"],
[("library","pkg"),("command and endpoint","cmd/sawmill/sawmill.go, pkg/metrics/metrics.go")],["memory in use, goroutines and open files of a process after long use of the public functions; the runtime metrics of the command's endpoint"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
