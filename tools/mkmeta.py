#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "pkg/event/"
P = "pkg/pipeline/"
Z = "internal/zzverif/"
props = []

def prop(id, title, statement, over, text, why, files, mech, obs, pkgs, bq, bt, outside, qs=90, ts=1500, perm=(), assumptions=(), state=None, max_steps=0, weight=None):
    props.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, obs=obs, pkgs=pkgs,
                      bq=bq, bt=bt, outside=outside, qs=qs, ts=ts, perm=list(perm), assumptions=list(assumptions), state=state, max_steps=max_steps))

prop("C01", "A dotted key addresses exactly its segments, whatever the names contain",
 "A key is a dot-separated path in which a backslash makes the following dot part of a name. A value stored under the escaped path of any list of names is found at exactly that path in the event, and reading the same key gives it back. Empty segments of a key are ignored.",
 ["inputs"], "for all lists of segment names within the bounds, including names full of dots",
 "tests try a few spellings; every mix of dots, escapes and segment boundaries has to parse the same way for put, get and delete",
 [E+"event.go"], [("key parsing", E+"event.go"), ("Put/Get descent", E+"event.go")],
 "Put under an escaped key, then Get and walk the root object",
 [Z+"hevent"], "1 to 3 segments, each 1 to 3 arbitrary bytes except backslash", "1 to 4 segments, each 1 to 3 bytes (see harness)",
 "segment names with a backslash, longer names and paths", 60)

prop("C02", "Put and get behave like a tree of nested objects over any history",
 "After any sequence of put, try-put and get operations an event equals the tree those operations describe: a put replaces exactly the addressed value and returns the previous one, creates missing parents, and a get returns what was put last. Values outside the addressed path never change.",
 ["histories", "inputs"], "for all histories within the bounds over all keys and starting events",
 "defects need particular combinations of earlier keys, shared prefixes and replaced values that example tests do not reach",
 [E+"event.go"], [("Put, TryPut, Get", E+"event.go")], "Put, TryPut and Get compared after every step with a reference tree",
 [Z+"hevent", Z+"hpipe"], "2 operations on keys of up to 2 symbolic one-byte segments, 1 deep operation of up to 3 segments on a nested event", "3 operations",
 "longer histories, concurrent use of one event", 120)

prop("C03", "A refused operation reports the reason and leaves the event as it was",
 "Putting below a value that is not an object, putting under a key without segments, and try-putting onto an existing key are refused with the documented error; the event is then exactly as it was before, with no half-created parents. Putting no value does nothing.",
 ["inputs", "histories"], "for all starting events and keys within the bounds",
 "partial changes only show when the failing segment is preceded by segments that would have been created",
 [E+"event.go"], [("error paths of Put and TryPut", E+"event.go")], "the error and a deep comparison of the event before and after",
 [Z+"hevent"], "keys of up to 3 segments on events nested 2 deep, keys of up to 3 bytes that have no segment", "longer keys", "longer keys and deeper events", 120)

prop("C04", "Delete removes exactly the addressed value",
 "Deleting a key removes the value stored there and returns it; siblings, parents and every other value stay, and deleting a key that does not exist returns nothing and changes nothing.",
 ["histories", "inputs"], "for all starting events, keys and preceding operations within the bounds",
 "a delete that removes too much or too little depends on the depth of the key and on the neighbours of the value",
 [E+"event.go"], [("Delete", E+"event.go")], "Delete compared with a reference tree",
 [Z+"hevent"], "a delete between puts on keys of up to 2 segments; a delete of a key of up to 3 segments in a nested event", "longer histories", "longer keys and histories", 120)

prop("C05", "No event operation panics, whatever the event came from",
 "Decoding any text as an event either succeeds or returns an error, and put, try-put, get, delete and encoding work on every event a caller can hold: decoded from any JSON document, or built from zero values, nulls and empty containers. None of them panics.",
 ["inputs"], "for all texts up to the bound, all JSON documents of the bounded grammar, and all ways of building values",
 "panics hide in odd documents (null anywhere, empty objects, duplicate keys) that no test lists",
 [E+"event.go", E+"value.go"], [("UnmarshalJSON", E+"event.go"), ("value decoding", E+"value.go")], "a panic escaping an exported function",
 [Z+"hevent"], "every text of up to 5 bytes; documents nested 2 deep followed by one operation", "texts of up to 6 bytes", "longer texts", 120)

prop("C06", "An event survives JSON: encoding and decoding gives the same event",
 "Encoding an event as JSON and decoding it gives an equal event for strings, booleans, nulls, integers, arrays and objects with any names. Integers that fit 64 bits keep their exact value when decoded. Other numbers become the nearest float. Decoding into an event that was in use before replaces what it held.",
 ["inputs"], "for all events within the bounds",
 "exactness fails only for particular numbers (beyond 2^53), names and escapes",
 [E+"event.go", E+"value.go"], [("MarshalJSON/UnmarshalJSON", E+"event.go"), ("number decoding", E+"value.go")], "json.Marshal and json.Unmarshal of an event",
 [Z+"hevent"], "containers nested 2 deep, names and strings of 1-2 ASCII bytes and 2/3-byte characters, decimal integers of up to 19 digits decoded, 9 digits round trip", "nested 2 deep and wider, 3 bytes, 15 digits round trip",
 "decoding into a Value that was in use before, floats (text formatting is not encoded), timestamps (they decode as text by design), NaN and infinities, invalid UTF-8", 200)

prop("C07", "Timestamps and types are rendered exactly and unambiguously",
 "A timestamp is an instant in nanoseconds: its Go time is that instant in UTC, and its JSON form is an RFC 3339 time in UTC that loses no nanosecond. Every value type has its own name and undefined types have none.",
 ["inputs"], "for all instants within the bounds and all type numbers",
 "a wrong unit, zone or fraction shows only for instants with particular nanoseconds or before 1970",
 [E+"time.go", E+"value.go"], [("GoTime, JSON form", E+"time.go"), ("type names", E+"value.go")], "GoTime, JSON text, String of the type",
 [Z+"hevent"], "Go time: every 64-bit instant; JSON: every nanosecond of selected days and seconds; all 256 type numbers", "as quick, more days",
 "JSON text of arbitrary dates (selected days only)", 120)

prop("C08", "An event survives protobuf conversion and the wire",
 "Converting an event to its protobuf message and back, directly or through encoded bytes, gives an equal event for every value type, any nesting and any nested names; the conversion leaves the original alone, and later changes to one of the two, or to a field, change nothing else.",
 ["inputs"], "for all events within the bounds",
 "each value type, nesting level and key spelling has its own conversion branch; the loss appears only in particular combinations",
 ["pkg/serialization/protobuf/protobuf.go"], [("ToLogEvent/FromLogEvent", "pkg/serialization/protobuf/protobuf.go"), ("generated codec", "pkg/serialization/protobuf/event.pb.go")],
 "the event after a round trip", [Z+"hser"],
 "events nested 2 deep, width 2, strings and names of 1-2 bytes, all 64-bit numbers, string lengths around 127/128 on the wire", "wider and deeper",
 "names and strings longer than the bounds; the generated codec is executed as source, its descriptor initialisation is skipped", 150)

prop("C09", "Any protobuf message or byte string converts without a panic",
 "A protobuf message with missing, unset or null parts converts without a panic to the event it describes, and any byte string is either refused or decodes to a message that converts.",
 ["inputs"], "for all messages of the bounded grammar and all byte strings up to the bound",
 "unset oneof members and nil elements arise from foreign or truncated senders, not from the encoder the tests use",
 ["pkg/serialization/protobuf/protobuf.go"], [("FromLogEvent", "pkg/serialization/protobuf/protobuf.go")], "the resulting event, or a panic",
 [Z+"hser"], "messages nested 2 deep with every part possibly nil; byte strings of up to 7 bytes", "byte strings of up to 8 bytes", "longer byte strings", 150)

prop("C10", "An event survives conversion to plain maps, and plain maps keep every field",
 "Converting an event to plain maps and back gives an equal event; a plain map of any field names and nested maps becomes an event in which every field keeps its name, place and value. Later changes to the event, the map or the new event change only what they are made to.",
 ["inputs"], "for all events and maps within the bounds",
 "names with dots, nested maps and rare scalar types take separate paths",
 ["pkg/serialization/mapinterface/mapinterface.go", "pkg/eventutil/reflect.go"], [("ToMap/ToEvent", "pkg/serialization/mapinterface/mapinterface.go"), ("ReflectEvent", "pkg/eventutil/reflect.go")],
 "the event after a round trip", [Z+"hser"], "nested 2 deep, width 2, names of up to 2 bytes, all 64-bit numbers", "wider", "longer names", 100)

prop("C11", "Go values become event values without loss, or are refused",
 "Every Go value an event can represent - integers of every width, floats, text, times, pointers, errors, nested maps, slices and structs with field tags - becomes the event value of the same content, and values it cannot represent are refused with an unsupported-type error wherever they are nested. Nothing panics.",
 ["inputs"], "for all values of the listed Go types, tags and nestings",
 "the conversion is reflective: each kind, pointer and interface nesting, and tag is a separate case",
 ["pkg/eventutil/reflect.go", "pkg/eventutil/structtag.go"], [("ReflectValue", "pkg/eventutil/reflect.go"), ("struct tags", "pkg/eventutil/structtag.go")], "ReflectValue and ReflectEvent results",
 [Z+"hser"], "every bit pattern of every scalar type, pointers 2 deep, maps, slices, arrays and structs of scalars, 9 ways of embedding a struct, a pointer or an interface", "as quick, longer strings", "types outside the list, the ',string' tag of fields without a String method", 100)

prop("C12", "Appending adds exactly the new items and touches nothing else",
 "Appending to a field keeps its old items in order and adds the new ones at the end, turning a missing field or a scalar into an array; the appended value, other fields, and the event on refusal stay as they were. Escaping a name gives a key that addresses exactly that name.",
 ["inputs", "histories"], "for all old and new values and keys within the bounds",
 "array against scalar on both sides gives many combinations, and aliasing shows only after a second append",
 ["pkg/eventutil/event.go"], [("Append, EscapeKey", "pkg/eventutil/event.go")], "the event after the append",
 [Z+"hser"], "one append of any value nested 1 deep to any value nested 1 deep under 4 keys", "two appends of smaller values", "deeper values", 100)

SC = "component outcomes (success, failure, missing field, drop, cancel) and the ignore options are symbolic"
prop("C13", "Processors run in order and failures go to the right handlers",
 "A pipeline runs its processors in order until one fails. A failure is ignored if it is a missing field and ignore_missing is set, else handled by the processor's on_failure chain, else ignored with ignore_failure, else it stops the pipeline and the global on_failure chain runs; a failure nobody handles is returned and no event comes out. Otherwise the event comes out with exactly the changes of the components that ran.",
 ["programs", "inputs", "fault_sequences"], "for all pipelines of the bounded shapes, option settings and outcomes of every component call",
 "the interplay of nested chains and options has thousands of cases of which the tests cover five",
 [P+"pipeline.go", P+"processor.go"], [("Pipeline.process", P+"pipeline.go"), ("pipelineProcessor.Process", P+"processor.go")], "which components ran in which order, the returned event and error",
 [Z+"hpipe"], "8 shapes of up to 5 components with on_failure nested up to 3 deep; "+SC, "15 shapes of up to 6 components", "larger pipelines", 150)
prop("C14", "Dropping or cancelling an event ends its processing at once",
 "When any component, also one inside an on_failure chain, drops the event, no further component runs and the pipeline returns neither an event nor an error. When any component cancels, no further component runs and the event comes out as it is, unless that component also returns an error that is not ignored. A component that drops the event may return an error as well; the event is then dropped.",
 ["programs", "inputs", "fault_sequences"], "for all pipelines of the bounded shapes and every point at which a component drops or cancels",
 "each place (processor, nested handler, global handler, first or last) is a separate code path",
 [P+"pipeline.go", P+"processor.go", P+"event.go"], [("Pipeline.process", P+"pipeline.go"), ("pipelineProcessor.Process", P+"processor.go"), ("Drop, Cancel", P+"event.go")], "components that run after the drop or cancel, the returned event",
 [Z+"hpipe"], "as C13", "as C13", "as C13", 120)
prop("C15", "The metrics account for every event at every component",
 "Every component of a pipeline, including all on_failure handlers, has counters, and for each component received = sent + errors + discarded: received counts the events it was given, discarded those dropped at it or in its handlers, errors the failures it could neither handle nor ignore, sent all others.",
 ["programs", "inputs", "fault_sequences", "histories"], "for all pipelines of the bounded shapes, outcomes and short event sequences",
 "a counter that is off by one in a rare outcome still passes tests that look at events only",
 [P+"processor.go", P+"pipeline.go"], [("counters", P+"processor.go"), ("Pipeline.Metrics", P+"pipeline.go")], "the collectors returned by Metrics",
 [Z+"hpipe"], "7 shapes of up to 4 components, one event; 2 shapes with 2 events; "+SC, "every shape of up to 5 components, 15 of up to 6, 3 events", "larger pipelines", 200, 1800)
prop("C16", "Events, copies and configurations do not influence each other",
 "Processing one event, and whatever its owner does with the result, never changes how other events are processed, be they later ones or ones in the middle of the same pipeline, or what earlier results hold. A copied field is independent of its source, values that two events share are not changed through one of them, and changing the configuration after a pipeline was built has no effect on it. Building a pipeline and processing events leave the configuration as it was.",
 ["histories", "inputs"], "for all pairs of processors of the list and all events within the bounds",
 "shared values only show with a second event or a later in-place change",
 ["pkg/processor/set/process.go", "pkg/processor/append/process.go", P+"processor.go"], [("set stores a copy", "pkg/processor/set/process.go"), ("append", "pkg/processor/append/process.go")], "results of later events against a new pipeline, earlier results after later events",
 [Z+"hpipe"], "all 64 pairs of 8 configured processors, two events nested 1 deep; copies nested 2 deep", "as quick", "longer pipelines, concurrent use", 100)
prop("C17", "A pipeline is built exactly from valid configurations, with unique components",
 "A configuration is refused with an error if its ID is empty or any entry at any depth is empty, has several processors, an unknown type or invalid options; every other configuration is accepted. No two components have the same ID, so the metrics of pipelines with different IDs can be registered together.",
 ["configurations"], "for all configurations of the bounded shapes with one defect of any kind at any place",
 "a defect below on_failure is easily not looked at, and ID collisions need nested or long lists",
 [P+"pipeline.go", P+"processor.go", P+"config.go"], [("New", P+"pipeline.go"), ("newPipelineProcessors", P+"processor.go"), ("getProcessor", P+"config.go")], "New and the labels of Metrics",
 [Z+"hpipe"], "4 shapes of up to 6 components, 8 kinds of defect at any component; 5x5 pairs of shapes for IDs; rows of components as long as the code's numbers up to 140", "as quick, rows up to 260", "pipeline IDs that contain component paths", 100)
prop("C18", "A pipeline configuration survives JSON",
 "Encoding a pipeline configuration as JSON and decoding it gives the same configuration: IDs, conditions, option names and values of every JSON kind, and processors and nested on_failure chains in order.",
 ["configurations"], "for all configurations within the bounds",
 "the encoding merges options with reserved names by hand; loss depends on which parts are present",
 [P+"config.go"], [("MarshalJSON/UnmarshalJSON", P+"config.go")], "json.Marshal and json.Unmarshal of a configuration",
 [Z+"hpipe"], "any text of up to 2 ASCII bytes in each place, option values nested 2 deep, chains nested 2 deep with up to 2 entries", "3 bytes, chains nested 3 deep",
 "numbers other than four samples, non-ASCII text, options named like a reserved name", 120)
prop("C19", "lowercase and uppercase convert exactly the text they are pointed at",
 "The processors put the converted text into the target field, or the field itself, and change nothing else. A missing or null field is a missing-field failure that names the field, or nothing with ignore_missing; other values and targets that cannot be set are failures that change nothing.",
 ["inputs", "configurations"], "for all texts, events, fields and options within the bounds",
 "targets that overlap the source and missing, null or nested fields combine freely",
 ["pkg/processor/lowercase/process.go", "pkg/processor/uppercase/process.go"], [("Process", "pkg/processor/lowercase/process.go"), ("Process", "pkg/processor/uppercase/process.go")], "the event after a one-processor pipeline",
 [Z+"hpipe"], "every ASCII text of up to 3 bytes, 5 non-ASCII letters, 5 targets (with 6 kinds of old values), 5 fields over events nested 2 deep", "6 bytes", "arbitrary non-ASCII text", 100)
prop("C20", "append adds the value to the field as documented",
 "The append processor creates an array if the field does not exist, turns a scalar into an array, and appends to an array; a value already present is appended again only with allow_duplicates. Fields it cannot append to are failures that change nothing.",
 ["inputs", "configurations", "histories"], "for all fields, values and options within the bounds",
 "duplicates, scalars and nested fields multiply, and in-place growth shows only on reuse",
 ["pkg/processor/append/process.go"], [("Process", "pkg/processor/append/process.go")], "the event after a one- or two-processor pipeline",
 [Z+"hpipe"], "fields holding any value nested 1 deep of width 2, values of up to 1 ASCII byte, two appends in a row on a reused pipeline", "as quick", "null fields and ignore_missing (the documentation contradicts itself)", 100)
prop("C21", "set stores the configured value or a copy of a field",
 "The set processor puts the configured value, of any type, or a copy of the source field into the target, replacing what was there and changing nothing else. A missing source is a missing-field failure that names it, or nothing with ignore_missing; a target that cannot be set is a failure that changes nothing.",
 ["inputs", "configurations"], "for all values, events and options within the bounds",
 "value types pass through configuration decoding, and the targets overlap other fields",
 ["pkg/processor/set/process.go", "pkg/config/config.go"], [("Process", "pkg/processor/set/process.go"), ("EventValue.Unpack", "pkg/config/config.go")], "the event after a one-processor pipeline",
 [Z+"hpipe"], "6 kinds of configured values, 6 targets; sources of every value type nested 1 deep, 5 sources, 4 targets", "as quick", "neither value nor source configured", 100)
prop("C22", "remove deletes exactly the listed fields",
 "The remove processor deletes every listed field and nothing else. A listed field that does not exist is a missing-field failure that names it, unless ignore_missing is set, in which case the remaining fields are still removed.",
 ["inputs", "configurations"], "for all lists of fields, events and options within the bounds",
 "lists with duplicates, parents and missing fields in any order are not enumerated by tests",
 ["pkg/processor/remove/process.go"], [("Process", "pkg/processor/remove/process.go")], "the event after a one-processor pipeline",
 [Z+"hpipe"], "lists of 1-2 of 6 fields", "lists of 1-3 of 6 fields", "longer lists", 100)
prop("C23", "The registry builds each processor with its own constructor and options",
 "A name is registered once, with a constructor of the documented form; unsuitable constructors and taken names are refused and leave the registry as it was. Building a known type passes the decoded options to its constructor, leaves them as given, and returns its result or error; unknown types and missing required options are errors.",
 ["histories", "inputs"], "for all histories of registrations and lookups within the bounds",
 "the signature is checked reflectively, and later registrations must not disturb earlier ones",
 ["pkg/processor/registry/registry.go"], [("Register, validateConfig", "pkg/processor/registry/registry.go"), ("NewProcessor", "pkg/processor/registry/registry.go")], "Register and NewProcessor",
 [Z+"hpipe"], "3 operations on names of up to 1 byte, 14 kinds of unsuitable constructors", "4 operations", "longer histories", 100)
prop("C24", "The command turns each line into one event and one JSON line, in order",
 "Every input line with text becomes an event that holds the trimmed line and its line number; it goes through the pipeline and is written as one JSON line in input order. A dropped or failed line writes nothing and does not disturb the other lines; blank lines are skipped but counted; an input error is reported after the complete lines were processed.",
 ["inputs", "fault_sequences"], "for all inputs within the bounds, cut into reads anywhere, and every outcome of each line",
 "line endings, blank lines, read boundaries and failing lines interact",
 ["cmd/sawmill/sawmill.go"], [("processInput", "cmd/sawmill/sawmill.go")], "the bytes written for the bytes read",
 ["cmd/sawmill"], "every input of up to 3 ASCII bytes in up to two reads; up to 3 lines with any outcome each", "4 bytes, 4 lines", "lines over 64 KB (refused with an error), invalid UTF-8, the profiling flags and the HTTP listener of the command, its exit status after an error", 150)
prop("C25", "Generated processor code reflects the option descriptions",
 "A description becomes comment lines that hold all of its words in order and nothing outside the comment; an option name becomes an exported Go name with the same letters, where only the first letter of a word and the usual abbreviations become capitals; a default value becomes a literal of the same value; exactly the options with a default are initialised and exactly the packages of option types are imported.",
 ["inputs"], "for all descriptions, names, defaults and option lists within the bounds",
 "wrapping, blank lines and separators at the edges produce code that does not compile or says something else",
 ["internal/proctemplate/funcs.go"], [("TemplateFuncs", "internal/proctemplate/funcs.go")], "the functions given to the templates",
 [Z+"hgen"], "descriptions of up to 3 parts (symbolic bytes, a long line, blank lines), names of up to 4 characters, text defaults of up to 2 bytes, 3 options", "4 parts, 6 characters, 3 bytes, 4 options", "the templates themselves, reading the YAML file, writing files", 100)
prop("C26", "A missing field is recognised however the error is wrapped",
 "A processor that reports a missing field, directly or wrapped in other errors, is treated as a missing field: ignore_missing ignores it, and callers can recognise it in the error a pipeline returns. No other failure is taken for a missing field.",
 ["inputs", "fault_sequences"], "for all outcomes of the components of the bounded shapes",
 "wrapping is applied by third-party processors, not by the ones that are tested",
 ["pkg/processor/error.go", P+"processor.go"], [("ErrorKeyMissing.Is", "pkg/processor/error.go"), ("ignore_missing", P+"processor.go")], "the outcome of a pipeline whose components fail in either way",
 [Z+"hpipe"], "3 shapes of up to 2 components plus handlers, errors wrapped twice", "as quick", "deeper wrapping", 60)

prop("C27", "Pipelines, configurations and read-only events can be used concurrently",
 "Two calls at the same time - processing different events in one pipeline, building pipelines or processors from one configuration, encoding a configuration, reading, converting or encoding one event - never write memory the other can reach, except under a lock, and each gives the result it gives alone.",
 ["schedules", "inputs"], "for every pair of calls on every input within the bounds, in any interleaving: no call writes, outside a lock, anything reachable from what the calls share or from package variables",
 "a data race needs two goroutines in the right places at once; the tests run everything in one goroutine",
 [P+"pipeline.go", P+"processor.go", P+"event.go", "pkg/processor/registry/registry.go", "pkg/eventutil/reflect.go", E+"event.go"],
 [("Pipeline.Process", P+"pipeline.go"), ("counters", P+"processor.go"), ("registry", "pkg/processor/registry/registry.go"), ("ReflectValue", "pkg/eventutil/reflect.go")],
 "writes to shared memory, and the results against those of a call alone; a violation is confirmed by the race detector or by the changed result",
 [Z+"hpipe", Z+"hser"], "", "", "three or more calls at once, which add nothing if no call writes shared memory outside a lock; what a lock protects is not checked against what other code reads without it; lock-free publication through atomics is taken as correct; code of the standard library and of dependencies is trusted to be safe where it says so", 100, 600,
 assumptions=["absence of unlocked writes to memory reachable by both calls implies that every interleaving gives the results of a sequential run (calls under locks are run in one order)"])
prop("C28", "A pipeline file in YAML means the configuration it spells",
 "A YAML document, in block or flow style or JSON, with quoted, plain or block texts, comments, anchors and merge keys, is read as the configuration it spells: every ID, condition, description, option and its type, and processors and handlers in order; other fields of the file, such as ones that hold anchors, change nothing. A written configuration reads back the same, and the pipeline built from it does what the same pipeline from JSON does. A file that cannot be read or spells no configuration is refused with an error.",
 ["configurations", "inputs"], "for all configurations and spellings within the bounds",
 "field tags, inlined options and reserved names must fit each other for every combination of parts; tests load one file",
 [P+"config.go", "cmd/sawmill/sawmill.go"], [("yaml tags of Config", P+"config.go"), ("loadPipeline", "cmd/sawmill/sawmill.go")], "the decoded configuration and the events of a pipeline built from it",
 [Z+"hpipe", "cmd/sawmill"], "", "", "numbers other than the samples, non-ASCII text, documents beyond the listed styles, options named like a reserved name, values YAML reads as timestamps, files over 70 KB (thorough 140 KB)", 150, 840, max_steps=200000000)

prop("C29", "Each built-in processor holds exactly the options it was given",
 "Built through the registry from a configuration, a built-in processor holds exactly the given values of its documented options and the documented defaults of the others. A missing required option, a value of the wrong kind or an undocumented option is refused with an error, and nothing the documentation allows is refused. The text form of a processor is its type and its options as JSON, in which <, > and & are written as they are.",
 ["configurations", "inputs"], "for all sets of given options and their values within the bounds, for every registered processor type",
 "the tests configure a few options of each processor; a wrong tag, default or type shows only for the option, or the combination, that they leave out",
 ["pkg/processor/append/append.go", "pkg/processor/lowercase/lowercase.go", "pkg/processor/uppercase/uppercase.go", "pkg/processor/remove/remove.go", "pkg/processor/set/set.go", "pkg/processor/community_id/community_id.go", "pkg/processor/registry/registry.go"],
 [("Config, InitDefaults, New, String", "pkg/processor/community_id/community_id.go"), ("unpacking", "pkg/processor/registry/registry.go")], "Config() and String() of the built processor, or the error",
 [Z+"hpipe"], "", "", "texts with variable references, combinations of options of community_id beyond two, seeds given as anything but a number", 60, 300)

prop("C30", "A generated processor source is its definition, complete and nothing else",
 "From a definition file the generator writes one Go source per processor, which parses: the package, type and registered name are those of the processor; Config has exactly the defined options, each with its name, type, tag, required mark and description; exactly the options with a default are initialised, with that value; exactly the needed packages are imported. The Process stub is generated unless the existing file lacks one, and generating again changes nothing. A definition file is read as it is, and one with a mistake or an unknown field is refused.",
 ["inputs", "configurations"], "for all definition files within the bounds",
 "the generator is not run by the tests; a wrong template line shows only for definitions with that part",
 ["pkg/processor/generate/generate.go", "internal/proctemplate/funcs.go", "internal/proctemplate/schema.go"],
 [("main, hasProcessFunc", "pkg/processor/generate/generate.go"), ("TemplateFuncs", "internal/proctemplate/funcs.go"), ("ReadProcessorsYAMLFile", "internal/proctemplate/schema.go")], "the generated files, parsed; the result of reading a definition file",
 ["pkg/processor/generate"], "", "", "type checking of the generated source, quotes that gofmt replaces in comments, defaults that are lists or maps, types that are slices or maps of imported types, two options with the same Go name", 120, 600)

prop("C31", "The README documents every processor and option of the definition file",
 "From a definition file the document generator writes one section and one link per processor, sorted by name, with its description and one row per option, sorted by name: its name, whether it is required and optional, its type as a pipeline file knows it, its default and its description.",
 ["inputs", "configurations"], "for all definition files within the bounds",
 "the document generator is not run by the tests; a lost or swapped column shows only for options that use it",
 ["docs/generate/generate.go", "internal/proctemplate/funcs.go", "internal/proctemplate/schema.go"],
 [("main", "docs/generate/generate.go"), ("TemplateFuncs", "internal/proctemplate/funcs.go")], "the generated document",
 ["docs/generate"], "", "", "texts with a vertical bar, defaults that are lists or maps, whether a zero default is shown", 60, 300)

BOUNDS = {
"C01": ("1-3 segments of 1-3 arbitrary bytes except backslash, of which several may be dots; paths of up to 12 segments with names of many dots; every raw key of up to 8 bytes in which a backslash stands before a dot; two keys of one length of up to 260 bytes that differ in any byte at 5 places", "1-4 segments of 1-4 bytes; raw keys of up to 10 bytes"),
"C02": ("2 operations on keys of up to 3 bytes in 1-2 segments; paths of up to 8 segments of repeated names; a deep operation on a nested event; one operation in a wide event nested 12 deep; a put beside 8 fields with names alike; scalars shared by 6 keys; two operations of processors in a pipeline, compared with the event alone", "3 operations, segments of up to 4 bytes"),
"C03": ("6 events under every key of up to 3 bytes of dots and 2 letters; keys of up to 3 segments on events nested 2 deep; keys without segments; one operation in a wide event nested 12 deep", "4 segments"),
"C04": ("a delete between puts; paths of up to 8 segments of repeated names; a delete of a key of up to 3 segments in a nested event; one delete in a wide event nested 12 deep; a delete beside 8 fields with names alike; deleting all members of an object", "longer keys"),
"C05": ("every text of up to 5 bytes; documents nested 2 deep followed by one operation; documents nested up to 14 deep; events built from zero values and nil members, from Go maps and from protobuf messages; every operation on a wide event nested 12 deep", "texts of up to 6 bytes, two operations"),
"C06": ("containers nested 2 deep of width 1 and fixed ones of width 12 and depth 12; names of 1-2 and texts of 1-3 ASCII bytes; characters of 2, 3 and 4 bytes; integers around every power of two and ten, decimal integers of up to 19 digits decoded, 9 digits round trip; numbers that are no integers of up to 3 digits and at the edges", "width 2, 4 bytes, 15 digits round trip"),
"C08": ("events nested 2 deep of width 1, and larger ones with one symbolic place (depth 20, arrays and objects of 129 members, texts of 16400 and names of 16384 bytes); names of up to 2 and texts of up to 2 bytes; all 64-bit numbers; lengths around 127/128 and 16383/16384 on the wire; 3 top-level fields with names of any bytes", "width 2, 3-4 bytes, depth 4"),
"C09": ("messages nested 2 deep with every part possibly nil, and wide and deep ones; every byte string of up to 5 bytes; a valid message with one or two bytes changed, or with a part cut out; lengths and numbers of up to 10 bytes at every level", "byte strings of up to 7 bytes, longer keys"),
"C10": ("nested 2 deep of width 1, and larger ones with one symbolic place (depth 20, width 129); names of up to 3 bytes; all 64-bit numbers; maps that mix Go types", "width 2, 4 bytes"),
"C11": ("every bit pattern of every scalar type; error types of 8 kinds in 4 places; pointers 3 deep with a nil at any level; maps with keys of 32 kinds; lists of every scalar type of 17 lengths of up to 65; fields with the string option; maps, slices, arrays and structs of scalars of up to 70 members; structs nested up to 9 deep in pointers, slices and maps; tags of several options in any order; instants in three zones", "as quick"),
"C12": ("one append of any value nested 1 deep to any value nested 1 deep under 4 keys; 2 appends of smaller values; arrays of up to 40 members; names to escape of up to 3 arbitrary bytes, and of up to 13 bytes with many dots", "2-3 appends; names of 4 and 17 bytes"),
"C13": ("every shape of up to 4 components; 8 shapes of up to 5 components with on_failure nested up to 3 deep; a pipeline of 12 components and 6 nested handlers in which any 2 components do not succeed; 2 events, also in two pipelines; "+SC, "every shape of up to 6 components; 4 long shapes, any 3 components do not succeed"),
"C14": ("as C13, also with components that return an error with the event they drop or cancel, or both drop and cancel it, and with events without fields", "as C13"),
"C15": ("every shape of up to 4 components; 7 shapes of up to 4 components, one event; 2 shapes with 2 events; the long pipelines of C13; "+SC, "every shape of up to 5 components, 15 of up to 6, 3 events"),
"C16": ("all 64 pairs of 8 configured processors, two events nested 1 deep, one after the other and one in the middle of the other; copies nested 2 deep; values held by two events; two pipelines of 9 kinds that differ in one text; every value of a result changed in place", "as quick"),
"C17": ("every shape of up to 4 components with IDs, conditions and options on all of them, and every one of them with one invalid entry; 4 shapes of up to 6 components, 8 kinds of defect at any component; one of 24 entries invalid; 5x5 pairs of shapes for IDs, also with IDs that look alike", "as quick"),
"C18": ("any text of up to 2 ASCII bytes in each place; option values nested 2 deep; every combination of parts; chains nested 2 deep with up to 2 entries; fixed configurations of 20 processors and options, long texts and depth 8", "3 bytes, chains nested 3 deep"),
"C19": ("every ASCII text of up to 3 bytes, and texts of 70 bytes with 2 symbolic ones; 5 non-ASCII letters; 5 targets, 5 fields over events nested 2 deep, and fields 8 deep", "6 bytes"),
"C20": ("fields holding any value nested 1 deep of width 2, values of up to 1 ASCII byte, two appends in a row on a reused pipeline; arrays of 20 members, long texts and deep fields", "as quick"),
"C21": ("6 kinds of configured values nested up to 6 deep and 12 wide, 6 targets; numbers and texts at the edges; sources of every value type nested 1 deep, 5 sources, 4 targets; sources and targets 8 deep; two events of 18 forms after one another on one pipeline of 12 kinds", "two events of 49 forms"),
"C22": ("lists of 1-2 of 6 fields; lists of 12 with missing and repeated fields; fields that hold any value, nulls and empty containers; two events of 18 forms after one another on one pipeline of 12 kinds", "lists of 1-3 of 6 fields"),
"C24": ("every input of up to 3 ASCII bytes in up to two reads; up to 3 lines with any outcome each; 5 lines with any outcome each in one read; 12 lines of which one is symbolic and one has its own outcome; lines of 1022 to 4097 bytes; every character of up to 4 bytes; the whole command from its arguments, a pipeline file and standard input to standard output", "4 bytes, 4 lines, 8191 bytes"),
"C25": ("descriptions of up to 3 parts (printable symbolic bytes, a long line, blank lines), names of up to 4 characters, text defaults of up to 2 bytes, 3 options", "4 parts, 6 characters, 3 bytes, 4 options"),
"C26": ("3 shapes of up to 2 components plus handlers, errors wrapped twice; 20 ways of wrapping or imitating the error", "as quick"),
"C27": ("two calls; pipelines of 2 processors of 7 kinds with any ignore options and handlers; events with a field of any kind; events nested 2 deep for the readers; 5 processor types for the registry", "as quick, with any second processor"),
"C28": ("files with an entry of 8 sparse forms anywhere; any printable ASCII text of up to 2 bytes in any place of a document, in 6 styles; option values nested 1 deep; chains nested 1 deep of up to 2 entries; 6 hand-written documents with a symbolic text of up to 3 letters, with either line ending; 8 broken files; any text of up to 2 printable bytes as a document, or in one of 10 places of a file in either quotes", "3 bytes, option values and chains nested 2 deep"),
}
BOUNDS["C23"] = ("histories of up to 3 registrations and lookups over 2 names; 23 kinds of unsuitable constructors; names of the code; two processors alive at once; a taken name of up to 4 registered with any of 4 constructors each; 6 names and unknown ones that differ in up to 2 bytes", "4 operations")
BOUNDS["C29"] = ("6 processor types; each option given or not, with texts of up to 2 bytes, lists of up to 3, both booleans, all seeds; one wrong kind of value in any option", "texts of up to 3 bytes")
BOUNDS["C30"] = ("up to 3 processors in any grouping of entries; one option with any name of up to 4 characters, any of 7 types, any marks and 7 defaults or any text of up to 2 printable bytes as default; any text of up to 2 printable bytes in a description; descriptions of up to 2 lines in 5 styles; processor names of up to 4 characters; 2 processors of up to 4 options; 7 kinds of existing file; common fields merged and changed; 8 kinds of mistakes; 7 empty files", "names of 5 characters, texts of 3 bytes, 3 lines")
BOUNDS["C31"] = ("up to 3 processors in any grouping of entries; one option with any name of up to 3 characters, any marks, 7 types, any text of up to 3 printable bytes as description or 2 as default; descriptions of up to 3 lines in 5 styles; up to 3 processors of up to 4 options in any order; 3 options or processors whose names of up to 46 characters begin alike", "names of 4 characters")
LIT = "; every text of up to 32 bytes without spaces that occurs in the current code"
for i, w in {"C01": "segment", "C02": "segment or value", "C03": "segment", "C04": "segment", "C05": "name or value", "C06": "name or value", "C08": "name or value", "C10": "name or value",
             "C11": "name or value", "C12": "name", "C13": "name", "C14": "name", "C15": "name", "C17": "ID", "C18": "name or value", "C19": "text", "C20": "text", "C21": "text",
             "C22": "field", "C23": "processor type", "C24": "line", "C25": "name or word", "C30": "name or text", "C31": "name or text", "C28": "name or value"}.items():
    q, t = BOUNDS[i]
    BOUNDS[i] = (q + LIT + " (and its neighbours in case, prefix and suffix) as a " + w, t)
for i in "C02 C03 C04 C06 C08 C10 C11 C12 C13 C14 C15 C17 C18 C20 C21 C22 C23 C24 C28 C30 C31".split():
    q, t = BOUNDS[i]
    BOUNDS[i] = (q + "; sizes around every small number that occurs in the current code", t)
for p in props:
    if p["id"] in BOUNDS:
        p["bq"], p["bt"] = BOUNDS[p["id"]]

na = [
 ("N01", "The metrics endpoint serves the registered counters over HTTP",
  "Registered pipeline metrics are served in Prometheus format at the configured address until they are unregistered.",
  ["inputs"], "for all registered collectors", "the handler runs in net/http on sockets", ["pkg/metrics/metrics.go"], [("Listen", "pkg/metrics/metrics.go")], "an HTTP response",
  "the behaviour lives in net/http, goroutines and sockets, whose code is outside what the symbolic executor can encode; the repository adds only registration calls"),
 ("N02", "Foreign callers of the C and WASM wrappers get the pipeline result as JSON",
  "A caller of the shared library or the WASM module passes a configuration and an event as JSON and receives the processed event or the error, without leaks.",
  ["inputs"], "for all inputs", "the wrappers are never executed by Go tests", ["examples/c/cshared/main.go", "examples/wasm/wasm.go"], [("exports", "examples/c/cshared/main.go")], "the C and JavaScript interface",
  "the wrappers need cgo memory and the syscall/js host, for which there is no symbolic semantics; they are examples without further logic"),
 ("N03", "community_id computes the Community ID of a flow",
  "The community_id processor writes the Community ID of the flow described by the event fields.",
  ["inputs"], "for all flows", "hash inputs", ["pkg/processor/community_id/community_id.go"], [("Process", "pkg/processor/community_id/community_id.go")], "the target field",
  "the repository does not implement it: Process is a generated stub that does nothing and returns nil, so there is no behaviour to decide (its options are covered by C29)"),
]
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": [p["obs"]], "hook_needed": None}
        if p["state"]:
            a["state"] = p["state"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
    for id, title, st, over, text, why, files, mech, obs, reason in na:
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [obs], "hook_needed": None}}, ensure_ascii=False) + "\n")

checks = {}
for p in props:
    checks[p["id"]] = {"pkgs": p["pkgs"], "quick_s": max(p["qs"], 300), "thorough_s": min(max(p["ts"], 600), 780), "perm": p["perm"], "max_steps": p["max_steps"],
        "bounds": {"quick": p["bq"], "thorough": p["bt"]}, "outside": p["outside"],
        "assumptions": ["Go memory model and single-threaded execution of the encoded code", "standard library functions modelled by intrinsics behave as documented (DESIGN.md lists them)"] + p["assumptions"]}
json.dump(checks, open(os.path.join(here, "checks.json"), "w"), indent=1)

man = {"version": 1, "setup_cmd": "./check build", "checks": [], "not_applicable": [], "hooks": {"guard": "verif", "enable": "no hooks are needed: the harnesses are overlaid on /repo at load time", "source_commits": []}}
for p in props:
    man["checks"].append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
        "technique": "symbolic execution of the Go SSA of /repo with z3 deciding branches and assertions; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "All paths within the bounds: " + p["bq"] + " (quick); " + p["bt"] + " (thorough). Outside: " + p["outside"] + "."})
for n in na:
    man["not_applicable"].append({"property": n[0], "reason": n[-1]})
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
