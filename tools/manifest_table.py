"""What MANIFEST.json claims: {id: (technique, level note)}."""
CLAIMED = {
    "C01": ("stateful model-based property testing (rapid): random histories of event operations against a nested-map model",
            "No counterexample in the histories generated. Trusts the model in harness/vlib/model.go; names with a backslash cannot be written as keys and are only read through other paths."),
    "C02": ("property testing (rapid): generated path pairs, key round trip through the raw event structure",
            "No counterexample among the generated path pairs. Names with backslashes are outside the property."),
    "C03": ("property testing (rapid): round trip and differential test against an independent reading of generated JSON texts and typed value trees",
            "No counterexample among the generated documents and value trees. Trusts encoding/json for reading and the model in harness/vlib."),
    "C04": ("generated and mutated byte strings decoded as events (rapid), acceptance compared with encoding/json, decoded events used at random paths",
            "No counterexample among the generated inputs. Whether bytes are valid JSON is decided by encoding/json."),
    "C05": ("property testing (rapid): Go types and values generated by reflection, conversion compared with an independent reference model",
            "No counterexample among the generated types and values. Types made by reflect.StructOf and a fixed set of named types; cyclic values are out of scope."),
    "C06": ("round-trip property testing (rapid) of generated events and Go maps in both directions",
            "No counterexample among the generated events and maps. Top-level map keys with a backslash are outside the property."),
    "C07": ("round-trip property testing (rapid) of generated events, differential against a decoder built from the published schema (dynamicpb)",
            "No counterexample among the generated events. Trusts google.golang.org/protobuf as the independent decoder."),
    "C08": ("generated valid wire encodings, mutations and arbitrary bytes (rapid), differential against a decoder built from the published schema (dynamicpb)",
            "No counterexample among the generated byte strings. Repeated message-typed oneof members, damage inside map entries and group nesting are not generated."),
    "C09": ("property testing (rapid): generated pipelines of probe processors with injected failures, differential against a reference interpreter of the failure rules",
            "No counterexample among the generated pipelines. Trusts the interpreter in harness/pipe/interp_test.go."),
    "C10": ("property testing (rapid): generated pipelines and event sequences with injected drops, cancellations and failures, differential against a reference interpreter",
            "No counterexample among the generated pipelines. Trusts the interpreter in harness/pipe/interp_test.go."),
    "C11": ("property testing (rapid): generated pipelines and event histories, gathered counters compared with a reference interpreter's counts",
            "No counterexample among the generated histories. Trusts the interpreter and the Prometheus client's registry."),
    "C12": ("stateful and concurrent property testing (rapid, race detector): generated pipelines, event histories, caller modifications and goroutines, metamorphic comparison with a freshly built pipeline and with a new process",
            "No counterexample among the generated histories and the schedules that the runtime made of them."),
    "C13": ("property testing (rapid): generated configurations rendered as JSON and as YAML and re-encoded, decoded configurations and behaviour compared",
            "No counterexample among the generated configurations. Texts that the YAML library itself does not round-trip are excluded (listed in DESIGN.md)."),
    "C14": ("property testing (rapid): generated valid definitions, and the same with one flaw injected at a random position, acceptance compared with the model",
            "No counterexample among the generated definitions, besides the listed finding."),
    "C15": ("stateful model-based property testing (rapid): histories of register and create over valid and invalid constructors on several registries, against a model",
            "No counterexample among the generated histories. Constructor types come from a fixed set."),
    "C16": ("property testing (rapid): generated configurations, fields and events against a model of the set processor",
            "No counterexample among the generated cases, besides the listed findings, which are excluded by name."),
    "C17": ("model-based property testing (rapid): generated events, options and repeated application against a model of append",
            "No counterexample among the generated cases. Trusts the model."),
    "C18": ("property testing (rapid): generated strings, fields and events against a model of lowercase and uppercase",
            "No counterexample among the generated cases, besides the listed findings (lists). Case mapping is checked character by character with package unicode."),
    "C19": ("property testing (rapid): generated field lists and events against a model of remove",
            "No counterexample among the generated cases. Trusts the model."),
    "C20": ("property testing (rapid) of the built command: generated pipelines and inputs, output, messages and exit status compared with the library's result for each line",
            "No counterexample among the generated runs. The command is built with an added file that registers probe processors; expected results come from the library in the same tree."),
    "C21": ("stateful property testing (rapid) of the built command: /metrics scraped between generated lines and compared with a reference interpreter; registration histories against a set model",
            "No counterexample among the generated histories. Trusts the interpreter and the Prometheus text parser."),
    "C22": ("property testing (rapid): generated definition files, generated code parsed, type-checked, compiled, linked and run, compared with the definitions; metamorphic reruns",
            "No counterexample among the generated files, besides the listed finding. Names are Go-compatible (see DESIGN.md); trusts go/types, go/format and the Go compiler."),
    "C23": ("property testing (rapid): generated definition files, README parsed and compared with the definitions; reruns and unknown keys",
            "No counterexample among the generated files. Descriptions whose lines look like headings or table rows are not generated."),
    "C24": ("property testing (rapid): random subsets of the documented options of every published processor, held configuration compared with processors.yml, README compared row by row",
            "No counterexample among the generated assignments. Members of required lists are non-empty."),
    "C25": ("model-based property testing (rapid): generated events, keys and items against a nested-map model of appending",
            "No counterexample among the generated cases. Trusts the model in harness/vlib."),
    "C26": ("differential property testing (rapid): the built C shared library and WebAssembly module driven with generated definitions and events, results compared with fresh pipelines of the Go library",
            "No counterexample among the generated sequences, besides the listed finding. Both are built with an added file that registers all processors and probes; needs gcc and node."),
    "C27": ("property testing (rapid): messages generated in memory, written in every way and compared with an implementation built from the published schema (dynamicpb); algebraic laws of copy, merge and equality",
            "No counterexample among the generated messages. Trusts google.golang.org/protobuf; merging of two equal message members of a oneof and the determinism of deterministic output are not checked."),
    "C28": ("property testing (rapid) of schedules: the generated cases of all event, conversion and pipeline properties run at the same time in one process under the race detector, and generated concurrent readers and builders compared with the same work done alone",
            "No counterexample and no race in the schedules the Go runtime made. Interleavings are not enumerated; the race detector extends each to all with the same synchronisation."),
    "C29": ("stateful property testing (rapid): generated contents converted to every other form, source and results changed in all parts in between, each result compared with a record of what it has to be",
            "No counterexample among the generated histories. FromFields, Put and Append keep the given values by design and are outside."),
    "C30": ("property testing (rapid): generated values printed and compared with a printer of the model; generated contents, instants, keys and error wrappings against the constructors, times and errors",
            "No counterexample among the generated values and errors. Error texts are held to name the path, key or type, not to a wording."),
    "C31": ("property testing (rapid): generated ways of use repeated thousands of times with ever new content; invariant: memory in use after garbage collection, goroutines and open files do not grow, in the library and, by its own metrics, in the built sawmill command",
            "No growth in the generated long uses. Growth of less than about 16 bytes per operation (35 per line for the command) and what is kept only up to a limit are not seen."),
}
NOT = {}
