"""Writes properties.jsonl (kept as a program so the text is easy to edit)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech, "observe_at": observe or [], "hook_needed": hook}})
def m(n, w): return {"name": n, "where": w}
def s(n, me, w): return {"name": n, "meaning": me, "where": w}

p("C01", "Go validators are history-independent and safe for concurrent callers",
  "A generated Go validator's answer depends only on the message it is given (and on the current time where a rule refers to it): any number of goroutines may validate shared or private messages in any interleaving and after any earlier calls, and every call gets exactly the violations that message has. Calls never modify the message, never race with each other, never hang, and an error that was returned never changes afterwards.",
  ["schedules", "histories"], "all interleavings of concurrent fail-fast and collect-all calls on shared and private messages, all histories of earlier calls and message mutations, from a cold or a warm process",
  "The harness validates one message per fresh process, from one goroutine, once with each method; no test makes two calls overlap or looks at a second call's answer.",
  ["templates/goshared/msg.go", "templates/goshared/known.go", "templates/goshared/repeated.go", "templates/goshared/string.go", "templates/go/message.go", "templates/go/file.go"],
  [m("all per-call state is local to the generated validate method", "templates/goshared/msg.go:msgTpl"), m("lookup tables and compiled patterns are built once at package initialisation and only read", "templates/goshared/msg.go:msgTpl"), m("values are read through getters", "templates/goshared/register.go:accessor")],
  [s("package-level lookup tables and regular expressions", "shared read-only state of all callers", "generated *.pb.validate.go"), s("uniqueness set of a repeated field", "per-call state", "templates/goshared/repeated.go")],
  ["return value of Validate and ValidateAll", "the message after the call", "the race detector"])
p("C02", "Go validation does not depend on map iteration order",
  "Whatever order a map field is walked in, a message gets the same accept/reject answer, collecting all violations reports every offending entry exactly once per broken rule and no conforming entry, and failing fast reports one of exactly those violations.",
  ["schedules", "inputs"], "all iteration orders of every map field (including nested and recursive ones) of every message",
  "Go randomises map iteration, so the test suite leaves the Go map cases out or uses maps with a single offending entry; no test fixes or enumerates orders.",
  ["templates/goshared/map.go", "templates/goshared/msg.go", "templates/go/message.go", "templates/shared/context.go"],
  [m("each entry is checked independently of the others inside the range loop", "templates/goshared/map.go:mapTpl"), m("the entry's key is put into the reported field path", "templates/goshared/register.go:errIdxCause")],
  [s("map iteration order", "chosen by the runtime at every loop", "Go runtime")], ["return value of Validate and ValidateAll"])
p("C03", "Go rules on the current time follow the clock at the moment of the call",
  "A timestamp rule relative to now (before now, after now, within a duration of now) is judged against the wall clock as it stands during that call, for every reachable instant and after every clock change, forwards or backwards, between or during calls. Equality with now satisfies neither before nor after; at exactly the limit of a within-duration either answer is acceptable.",
  ["schedules", "histories", "inputs"], "all sequences of clock advances and jumps, all instants from 1971 to 2120, all positions of a clock change inside a call",
  "The suite uses timestamps years or one hour away from a real clock that hardly moves during the single call each process makes.",
  ["templates/goshared/timestamp.go", "templates/go/timestamp.go"],
  [m("every checked field reads the clock at the time of the check", "templates/goshared/timestamp.go:timestampcmpTpl"), m("windows are computed from that reading", "templates/goshared/timestamp.go:timestampcmpTpl")],
  [s("wall clock", "read once per now-relative field per call", "time.Now")], ["return value of Validate and ValidateAll"])
p("C04", "Go fail-fast and collect-all agree, and child failures always surface",
  "For every message, failing fast returns an error exactly when collecting all violations does, the one violation it returns is among those collected, and an error wraps at least one violation. Whenever the validator of an embedded message fails - generated, hand-written with both methods or with the legacy single method, at any depth, in lists, maps and oneofs, at any moment - the parent's result contains that child's error exactly once under the field that holds it, and checking of the remaining fields continues in collect-all mode.",
  ["fault_sequences", "inputs", "histories"], "all placements of child-validator failures in the tree of embedded messages and in the sequence of child calls, all messages",
  "The suite compares both modes on hand-picked single-violation messages; children that fail on their own account, legacy children and failures in the middle of a collection are not exercised.",
  ["templates/go/message.go", "templates/goshared/msg.go", "templates/goshared/wrapper.go", "templates/goshared/map.go", "templates/goshared/repeated.go"],
  [m("type switch from the collect-all to the legacy interface", "templates/go/message.go:messageTpl"), m("each check either returns or appends", "templates/goshared/*.go")],
  [s("errors slice of one call", "violations collected so far", "generated validate method")], ["return value of Validate and ValidateAll", "Cause and AllErrors of the returned errors"])
p("C05", "C++ validators are history-independent and safe for concurrent callers",
  "A generated C++ validator's answer depends only on the message: any number of threads may validate shared or private messages at once - including the very first calls in the process and messages of types that have no validator - in any interleaving and after any earlier calls, and each gets the answer that message has alone. Calls never modify the message, race with each other, hang or crash.",
  ["schedules", "histories"], "all interleavings of concurrent calls, cold and warm, over all generated message types and types without a validator",
  "The C++ harness validates one message per process on one thread.",
  ["templates/cc/file.go", "templates/cc/msg.go", "templates/cc/message.go", "templates/cc/register.go", "validate/validate.h"],
  [m("lookup tables, patterns and thread-safe statics are only read after construction", "templates/cc/msg.go"), m("registry of validators is filled during static initialisation and only read afterwards", "validate/validate.h:Validator"), m("all per-call state is on the stack", "templates/cc/*.go")],
  [s("validator registry", "type index to validator, shared by all threads", "validate/validate.h:BaseValidator"), s("function-local statics", "compiled patterns and sets", "generated *.pb.validate.cc")],
  ["Validate(message, &error) result and error text", "thread sanitizer"])
p("C06", "C++ validation survives allocation failure and any map order",
  "If an allocation fails at any point inside a C++ validation the call either ends with an exception or returns the correct answer - never a wrong one - leaves the message and shared state intact, leaks nothing it owns, and later calls behave as if it had not happened. The accept/reject answer never depends on the order in which map fields are walked.",
  ["fault_sequences", "schedules", "inputs"], "all positions of one or more failing allocations inside any call of a history, including the first calls in the process, and all map orders",
  "Allocation never fails in the test suite and map order is left to the platform.",
  ["templates/cc/string.go", "templates/cc/map.go", "templates/cc/repeated.go", "templates/cc/msg.go", "validate/validate.h"],
  [m("error text is built before the call returns false", "templates/cc/register.go:err"), m("statics are initialised through the language's retry-on-exception rule", "templates/cc/msg.go"), m("each entry is checked independently", "templates/cc/map.go")],
  [s("function-local statics", "partially constructed on failure", "generated *.pb.validate.cc")], ["result or exception of the failed call", "results of later calls", "the message", "live allocations after the call"])
p("C07", "Generation is deterministic and does not depend on how files are handed over",
  "For every valid set of proto files and every target language, the name and content of each generated file depend only on the definitions it is made from: repeating the run, other files and messages generated in the same run or in separate runs, the order in which files are listed, and how the request arrives on standard input make no difference. Every requested file with messages gets exactly its own output.",
  ["schedules", "inputs", "configurations"], "all traversal orders of the plugin's hash tables, all partitions and orders of the requested files, all ways of chunking the request, over generated programs with many files, shared names and cross-file references",
  "The suite generates its cases in one fixed invocation per language and never compares two runs.",
  ["module/validate.go", "module/checker.go", "templates/pkg.go", "templates/goshared/register.go", "templates/cc/register.go", "templates/java/register.go", "main.go"],
  [m("templates are rendered from the file's own entity graph", "module/validate.go:Execute"), m("well-known patterns are resolved per field before rendering", "module/checker.go:checkWellKnownRegex")],
  [s("template set and function maps", "shared by all files of a run", "templates/pkg.go"), s("rule messages attached to field options", "lowered in place by the checker", "module/checker.go")],
  ["CodeGeneratorResponse on standard output"])
p("C08", "Generation is all-or-nothing",
  "A run whose files all carry consistent rules exits with status zero and one complete response; a run in which any requested file carries contradictory or ill-typed rules, or whose input or output fails, is cut short or written short, exits with a non-zero status or leaves an incomplete response, and in neither case is a complete-looking response without the offending file, or with part of the files, ever produced with status zero. The outcome does not depend on where in the request the offending file stands or on the order in which files are visited.",
  ["fault_sequences", "crash_points", "schedules"], "all positions of failing, short and interrupted reads of the request and writes of the response, kills at every write, all positions of an offending file among valid ones, all traversal orders",
  "The suite never feeds contradictory rules or failing streams to the plugin.",
  ["main.go", "module/validate.go", "module/checker.go"],
  [m("rules are checked before a file is rendered and a contradiction ends the process", "module/validate.go:Execute, module/checker.go"), m("the response is written once, after everything has been rendered", "main.go")],
  [s("artifact list of the run", "files rendered so far", "module/validate.go")], ["exit status, standard output and standard error of the plugin process"])
p("C09", "C++ dispatch finds the right validator in any initialisation or loading order",
  "However the translation units and shared objects that hold generated validators are ordered, initialised, or loaded at run time - including while other threads validate - validation of a message through the registry (CheckMessage, and so every embedded message) uses exactly that type's own rules, also for messages of equal names in different packages, from the moment its file has been loaded. A message of a type whose validator is not loaded, or that has none, is accepted; no call crashes, hangs, races or throws because of what is being loaded.",
  ["schedules", "configurations", "histories"], "all static-initialisation orders of the generated units, all moments of loading further shared objects relative to calls on other threads, all message types of a program",
  "The suite links one binary in one fixed order, loads nothing at run time and validates on one thread.",
  ["validate/validate.h", "templates/cc/file.go", "templates/cc/msg.go", "templates/cc/message.go", "templates/cc/register.go"],
  [m("validators register themselves under their type's index from static initialisers", "validate/validate.h:Validator"), m("the registry is usable before any static initialiser has run", "validate/validate.h:BaseValidator"), m("registration comes after the tables the validator uses", "templates/cc/file.go")],
  [s("validator registry", "type index to validator", "validate/validate.h")], ["result of CheckMessage and of Validate on the enclosing message"])
p("C10", "Java server interceptor guards every call, in every event order",
  "On every call through the server interceptor the service sees exactly the messages, in order, that arrived before the first invalid one; an invalid message closes that call exactly once with INVALID_ARGUMENT carrying the violation details, after which the service sees no further message or half-close of that call. Calls are independent: whatever happens on one call - validation failure, lookup failure, cancellation, any interleaving on any threads - changes nothing for another.",
  ["schedules", "histories", "fault_sequences"], "all orders and interleavings of message, half-close, cancel, complete and ready events over several concurrent calls, with failing validators, failing lookups and failing closes",
  "The Java tests run single unary calls against an in-process server and are not run at all in this build.",
  ["java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingServerInterceptor.java", "java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidationExceptions.java"],
  [m("per-call listener remembers that the call was aborted", "ValidatingServerInterceptor.interceptCall"), m("the status is derived from the validation exception", "ValidationExceptions.asStatusRuntimeException")],
  [s("aborted flag", "per call", "ValidatingServerInterceptor")], ["events seen by the service's listener", "close calls on the transport's ServerCall"])
p("C11", "Java client interceptor never lets an invalid message leave",
  "On every call through the client interceptor each message that satisfies its rules is forwarded exactly once and in order, and a message that breaks them is never forwarded: the sender gets an INVALID_ARGUMENT error with the violation details instead. Failures on one call, in its validator or in its transport, leave every other call and every other operation of the call unchanged.",
  ["schedules", "histories", "fault_sequences"], "all sequences and interleavings of start, send, request, half-close and cancel over several calls, with failing validators and transports",
  "The Java tests run single unary calls and are not run at all in this build.",
  ["java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidatingClientInterceptor.java", "java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/ValidationExceptions.java"],
  [m("sendMessage validates before it delegates", "ValidatingClientInterceptor.interceptCall")], [s("none", "the interceptor is stateless", "ValidatingClientInterceptor")],
  ["operations seen by the transport's ClientCall", "exceptions thrown to the sender"])
p("C12", "Java validator lookup is stable, enforced and thread-safe",
  "Looking up a class's validator always yields that class's own rules: for any number of threads, first or later lookups, registrations at any time, outer and nested classes, class-loading failures and classes without a validator, whatever the fallback. A looked-up validator enforces its rules on every use, a lookup that fails for one class leaves every other class unaffected, and lookups neither deadlock nor corrupt the index.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of lookups, registrations and validations on several threads, all orders of first use, all class-loading failures",
  "The Java tests look classes up once on one thread and are not run at all in this build.",
  ["java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ReflectiveValidatorIndex.java", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ExplicitValidatorIndex.java", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ValidatorIndex.java"],
  [m("concurrent map with atomic compute-if-absent", "ReflectiveValidatorIndex.validatorFor"), m("fallback index for unknown classes", "ReflectiveValidatorIndex, ExplicitValidatorIndex")],
  [s("validator index", "class to validator, shared by all threads", "ReflectiveValidatorIndex.VALIDATOR_INDEX, ExplicitValidatorIndex")], ["the validator returned", "exceptions of isValid/assertValid"])

p("C13", "Java validators are history-independent and safe for concurrent callers",
  "A generated Java validator's answer - acceptance, or the violated field, reason and value - depends only on the message: any number of threads may validate shared or private messages at once, through the same or different indexes, from the very first call on, in any interleaving and after any earlier calls. A call that dies half-way, because the stack or the memory ran out or a lookup failed, changes no later answer. Whether a message is accepted does not depend on the order in which its maps' entries are walked. Calls never modify the message, and an exception that was thrown never changes afterwards.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of concurrent calls, cold and warm, over all generated message types, all points at which a call may die, and all orders of map entries",
  "The Java harness validates one message per process on one thread, and is not run at all in this build.",
  ["templates/java/file.go", "templates/java/msg.go", "templates/java/message.go", "templates/java/register.go", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/StringValidation.java", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/RepeatedValidation.java"],
  [m("validator objects hold only constants of their rules", "templates/java/msg.go"), m("the *Validation classes are static functions of their arguments", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv")],
  [s("rule constants and compiled patterns", "fields of a validator object, shared by all threads that use it", "generated *Validator.java")],
  ["assertValid and isValid of Validator and ValidatorImpl", "the ValidationException's field, reason, value and message", "the message after the call"])
p("C14", "Java rules on the current time follow the clock at the moment of the call",
  "In generated Java validators a timestamp rule relative to now (before now, after now, within a duration of now) is judged against the wall clock, to the millisecond, as it stands during that call, for every timestamp from year 1 to 9999 and after every clock change, forwards or backwards, between or during calls. Equality with now satisfies neither before nor after; at exactly the limit of a within-duration either answer is acceptable.",
  ["schedules", "histories", "inputs"], "all sequences of clock advances and jumps, all clock instants from 1971 to 2120, all positions of a clock change inside a call, all valid timestamps",
  "The suite uses timestamps years or one hour away from a real clock that hardly moves during the single call each process makes, and its Java part is not run in this build.",
  ["templates/java/timestamp.go", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/TimestampValidation.java", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ComparativeValidation.java"],
  [m("every check reads the clock at the time of the check", "templates/java/timestamp.go, TimestampValidation.currentTimestamp"), m("distance from now is compared with the window", "TimestampValidation.within")],
  [s("wall clock", "read once per now-relative rule per call", "System.currentTimeMillis")], ["assertValid and isValid"])

p("C15", "Python rules on the current time follow the clock at the moment of the call",
  "In Python validators a timestamp rule relative to now (before now, after now, within a duration of now) is judged against the wall clock as it stands during that call, up to floating-point precision, for every timestamp from year 1 to 9999 and after every clock change, forwards or backwards, between or during calls. Equality with now satisfies neither before nor after; at exactly the limit of a within-duration either answer is acceptable.",
  ["schedules", "histories", "inputs"], "all sequences of clock advances and jumps, all clock instants from 1971 to 2118, all positions of a clock change inside a call, all valid timestamps",
  "The suite uses timestamps years or one hour away from a real clock that hardly moves during the single call each process makes, and its Python part is not run in this build.",
  ["python/protoc_gen_validate/validator.py"], [m("the generated function reads time.time() when it is called, not when it is generated", "python/protoc_gen_validate/validator.py:timestamp_template")],
  [s("wall clock", "read once per now-relative rule per call", "time.time")], ["ValidationFailed or its absence"])
p("C25", "Python validators are independent of history and thread interleaving",
  "A Python validation's answer depends only on the message: validators built on first use by several threads at once, for any number of classes, also of equal simple names in different packages or scopes, in any order of first use, enforce exactly their own class's rules. A call that is interrupted half-way, by an interrupt from the keyboard or because memory or stack ran out, ends with that exception or with the right answer, and changes no later answer. Whether a message is accepted does not depend on the order in which its maps' entries are walked. Calls never modify the message, and the code shown by print_validate includes that of every class validated so far.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of first and later validations of several classes on several threads, all points at which a call may be interrupted, more classes than the cache holds, and all orders of map entries",
  "One message per process on one thread, and not run at all in this build.",
  ["python/protoc_gen_validate/validator.py"], [m("cache of compiled validators by full name", "python/protoc_gen_validate/validator.py:_validate_inner"), m("generated functions live in the local namespace of one call", "python/protoc_gen_validate/validator.py:_validate_inner")],
  [s("validator cache and code printer", "process-wide", "python/protoc_gen_validate/validator.py")], ["ValidationFailed or its absence", "the message after the call", "print_validate"])

# Pure functions of their input: no schedule, clock, fault or history in them.
p("C20", "Every rule means the same in every target language",
  "For each rule and each message without time-dependent rules, Go, C++, Java and Python validators that support the rule give the same accept/reject answer, the one the rule's documentation states.",
  ["inputs", "programs"], "all rules, rule combinations and field values", "The suite has a fixed table of cases per rule.",
  ["templates/goshared", "templates/cc", "templates/java", "python/protoc_gen_validate/validator.py", "validate/validate.proto"], [m("one template per rule type and language", "templates/")], observe=["accept/reject per message"])
p("C21", "Contradictory or ill-typed rules are rejected at generation time",
  "Rules that cannot be met (such as an empty range or length interval, both allowed and forbidden lists, an unparsable pattern) or that do not fit the field's type are refused by the plugin with a message naming the field, and no consistent set of rules is refused.",
  ["programs"], "all rule combinations on all field types", "No test feeds the plugin contradictory rules.",
  ["module/checker.go"], [m("one check function per rule type", "module/checker.go")], observe=["exit status of the plugin"])
p("C22", "Accepted definitions generate code that compiles",
  "For every proto file the plugin accepts, the generated Go, C++ and Java sources compile against the standard protobuf runtimes.",
  ["programs"], "all accepted proto files", "The suite compiles a fixed set of cases.",
  ["templates"], [m("templates per language", "templates/")], observe=["compiler exit status"])
p("C23", "Message-level switches are honoured",
  "A message marked disabled accepts every value, a message marked ignored gets no validator, a required oneof rejects the unset state, and a skipped field is never validated, in every language.",
  ["inputs", "programs"], "all messages and nestings using those options", "A handful of cases per option.",
  ["templates/goshared/msg.go", "templates/cc/msg.go", "templates/java/message.go", "templates/shared/disabled.go"], [m("option lookups", "templates/shared/disabled.go")], observe=["accept/reject per message"])
p("C24", "Violations name the offending field and rule",
  "Every reported violation carries the path of the offending field, index or key, a reason that states the broken rule, and the cause for embedded messages.",
  ["inputs"], "all violations of all rules", "The suite compares verdicts, and reasons only for a few cases.",
  ["templates/goshared/register.go", "templates/cc/register.go", "java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/ValidationException.java"], [m("error construction", "templates/goshared/register.go:errIdxCause")], observe=["error accessors and text"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
