import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
T="transform/transformer.go"; I="transform/instance.go"; X="transform/transform.go"; O="transform/operations.go"
p("C01","Transform calls are independent of each other",
 "The answer to a transform call (the document, or that there is an error) depends only on the schema, the transform name and that call's input: it equals what a freshly built transformer gives for that input alone. Neither earlier calls on the same transformer nor calls running at the same time on it or on another transformer of the same schema change it, there is no data race between such calls, and no call changes its input bytes or a document returned before.",
 ["schedules","histories","inputs"],"every schema and transform, every sequence of documents, every number of concurrent callers and every interleaving of their steps",
 "Tests call each transformer once, from one goroutine, so state left behind by a call and state shared by two calls in flight never shows.",
 [T,I,X,O],[("transform instructions applied in order first/last/concatenate",X),("object and array defaults and copied input values as base of the output",I),("operations with arguments kept from construction",O)],
 "The transformer's tree of instance transformers, schema defaults and operation arguments, shared by all calls","documents returned by the transform calls of concurrent callers")
p("C02","Output does not depend on evaluation order",
 "For one schema and one input a transform gives the same document, or an error, every time: it does not depend on the order in which the fields of an object happen to be evaluated or on the order in which properties are written in the schema file. A field's value depends on the input and its own part of the schema: leaving out another property at the top of the schema does not change it.",
 ["schedules","inputs"],"every schema, every input document, every evaluation order of the fields at every level",
 "The order is chosen at random by the runtime at each run; a test sees one of the many orders, and a conflict between two particular fields shows only under some of them.",
 [I,T,X],[("children of an object evaluated in map order",I),("array transform result made visible to the array's children through the input tree",I+" arrayTransformJSON, "+T+" saveInTree")],
 "The parsed input tree, which the fields of one call share","the returned document")
p("C03","No unvalidated document is returned",
 "A validating transform returns a document only after the schema's validator accepted exactly those bytes during that call; when the validator reports invalid, reports an error or is slow, the caller gets an error and no document, and never another call's verdict. A transform without validation never consults the validator.",
 ["fault_sequences","schedules","inputs"],"every pattern of validator verdicts, errors and delays over every interleaving of concurrent calls, JSON and XML",
 "Tests use the real validator, which neither fails at a chosen call nor stalls while another call runs.",
 [T,"jsonschema/validator.go"],[("validation as last step of the transform",T+" jsonTransform, xmlTransform")],
 None,"the validator interface of the schema and the document returned")
p("C04","The current-time operation reads the clock of the call",
 "A field produced by the current-time operation is the wall-clock time, at some instant between the start and the end of that transform call, in the configured format and the local time zone. This holds however the clock jumps, drifts or stands still, for repeated calls on one transformer and for concurrent calls.",
 ["schedules","histories","configurations"],"every sequence of clock readings including steps backwards and jumps, every format, every interleaving of calls",
 "Tests cannot set the clock; they compare with a reading taken within the same second.",
 [O],[("current-time operation",O+" currentTime")],None,"the returned document against the log of clock readings")
p("C05","The loading cache builds each entry once",
 "Callers that ask the cache at the same time for a key that is absent share one build and its result, and once a build has succeeded every later caller gets that value without a build. A build that fails or panics is reported to those who waited for it and leaves nothing behind, so that the next caller builds again; a slow build of one key does not hold up another key, and no caller waits for ever.",
 ["schedules","fault_sequences","histories"],"every number of callers and keys, every interleaving, every pattern of builder failures, panics and delays",
 "There is no test of the cache; builds in the schema tests are sequential, quick and mostly successful.",
 ["jsonschema/cache.go"],[("single flight around lookup, build and store","jsonschema/cache.go Load")],
 "The map of built values and the set of builds in flight","values, errors and builder invocations as seen by the callers")
p("C06","Concurrent schema loads agree with sequential ones",
 "Loading schemas from files that refer to each other without a cycle gives each caller the schema a lone caller would get, whatever files and variants other callers load, walk, validate with or build transformers from at the same time. Every load ends, there is no data race, and a schema once handed out does not change.",
 ["schedules","inputs","histories"],"every acyclic graph of schema files, every set of concurrent loads of them with every one-of selection and flattening choice, every interleaving",
 "Tests load one file at a time; lock order between nested loads and sharing of cached schemas show only under particular interleavings.",
 ["jsonschema/schema.go","jsonschema/cache.go","jsonschema/reference.go","jsonschema/validator.go"],
 [("process-wide schema cache keyed by path, selection and flattening","jsonschema/schema.go schemaFromFile"),("nested loads while resolving references","jsonschema/reference.go resolveRef"),("merging of all-of and one-of properties","jsonschema/schema.go mergeProperties")],
 "The process-wide caches of schemas and validators","the schemas returned to each caller")
p("C07","A faulty source never yields a wrong schema",
 "When reading a schema file or fetching a referenced document fails, is cut short or is answered with an error status, the load reports an error; it never returns a schema made from partial or foreign content. Once the fault is gone the same load in the same process succeeds with the right schema, and no connection is left open by a load.",
 ["fault_sequences","schedules","inputs"],"every file operation and every HTTP exchange of a load as the place of a fault (open and read errors, connection failure, error status, truncated body, delay), every interleaving of concurrent loads",
 "Tests read intact files and a local server that always answers with success.",
 ["jsonschema/reference.go","jsonschema/schema.go","jsonschema/cache.go","jsonschema/validator.go"],[("HTTP references","jsonschema/reference.go resolveRef"),("file reads","jsonschema/schema.go schemaFromFile"),("only successes are cached","jsonschema/cache.go Load")],
 "The process-wide caches of schemas and validators","results of the loads, file and HTTP operations")
p("C08","Loading cyclic references ends",
 "Loading a schema whose references form a cycle, within one file or across files, ends with an error or a schema: it neither waits for itself nor expands for ever, whichever file the loads start from and however many loads run at once. Other schemas load as usual meanwhile and afterwards.",
 ["schedules","inputs"],"every cyclic graph of references, every set of concurrent starting points, every interleaving",
 "A self-wait across two concurrent loads needs both to be in flight at a particular moment, and a test that hangs cannot be told from a slow one without a bound on steps.",
 ["jsonschema/reference.go","jsonschema/schema.go","jsonschema/cache.go"],[("references resolved by nested loads and by repeated expansion","jsonschema/reference.go dereference, resolveRef"),("loads wait for each other by key","jsonschema/cache.go Load")],
 "Builds in flight","whether each load returns within a bounded number of steps")
p("C09","A walk visits every instance once, parents first",
 "A walk of a loaded schema calls the function exactly once for every instance with that instance's path and content, each parent before its children, in whatever order siblings come, and the decoded and the raw walk visit the same instances. When the function returns an error the walk makes no further call and returns an error that carries it; walks of one schema at the same time do not disturb each other.",
 ["schedules","fault_sequences","inputs"],"every schema, every sibling order, every call as the place where the function fails, every interleaving of concurrent walks",
 "Sibling order is random at each run, and the tests let the function fail at one call only.",
 ["jsonschema/walk.go"],[("recursive descent over properties and items","jsonschema/walk.go walkInstance, walkRaw")],None,"the sequence of calls made by the walk")
p("C10","Validation is repeatable",
 "Validating a document against a loaded schema gives the same verdict and the same error text each time, whatever validations of other documents run before it or at the same time and in whatever order the rules are evaluated. A document is reported valid exactly when an independently loaded copy of the schema accepts it.",
 ["schedules","inputs","histories"],"every schema and document, every rule evaluation order, every interleaving of concurrent validations with one validator",
 "Rule order is random at each run and tests validate one document at a time.",
 ["jsonschema/validator.go","jsonschema/schema.go"],[("sorted validation errors","jsonschema/validator.go Validate"),("validators cached by path","jsonschema/validator.go loadSchema")],
 "The validator shared by all users of a schema","verdict and error text")
p("C11","Generation is reproducible",
 "Generating code for a schema with the same options gives the same files with the same bytes each time: whatever was generated before in the same process, whatever stale output is in the directory, whatever the clock says and in whatever order maps are iterated.",
 ["histories","schedules","configurations"],"every schema and combination of options, every iteration order, every earlier generation in the same process",
 "Tests compare one run with a stored file; iteration order is random per run, and a dependence that shows in one run of twenty passes most of the time.",
 ["generate/generate.go","generate/struct.go","generate/graphql.go","generate/avro.go","generate/avro_helpers.go","jsonschema/walk.go"],
 [("fields gathered by walking the schema and sorted before writing","generate/struct.go"),("GraphQL types and fields gathered in maps","generate/graphql.go"),("process-wide namer of the Avro generator","generate/avro.go buildAvroSerializationFunctions")],
 "Maps of fields and structs; process-wide schema cache; process-wide namer","bytes of all files in the output directories")
p("C12","Generation reports success only for complete output",
 "When generation reports success, or the command exits with status zero, every file it announces exists with exactly the content of an undisturbed run. A failure to create, write, close or read any file on the way, or a disk that fills up, is reported as an error and a non-zero exit status.",
 ["fault_sequences","inputs","configurations"],"every file operation of a generation as the place of a failure, a short write or a full disk, every schema and combination of options",
 "Tests write to a healthy disk; an ignored error of one write or close among dozens shows only if exactly that operation fails.",
 ["generate/generate.go","generate/graphql.go","generate/avro.go","generate/avro_helpers.go","generate/struct.go","main.go"],
 [("struct files","generate/generate.go buildStructFile"),("GraphQL files","generate/graphql.go buildGraphQLFile"),("Avro schema files","generate/avro.go buildAvroSchemaFile"),("exit status","main.go")],
 None,"the error returned or the exit status, and the files on the simulated disk")
p("C13","Generation can be repeated after a crash",
 "However a generation is cut off, by a crash at any file operation with the last write torn, or by an I/O error, running it again without faults succeeds and leaves exactly the files a first undisturbed run would have left.",
 ["crash_points","fault_sequences","inputs","configurations"],"every file operation of a generation as crash point, every torn prefix of the last write, every schema and combination of options",
 "No test stops a generation half way and runs it again over what is left.",
 ["generate/generate.go","generate/graphql.go","generate/avro.go","generate/avro_helpers.go"],
 [("output files created in place","generate/generate.go buildStructFile"),("MessagePack generation parses all Go files of the output directory","generate/generate.go buildMessagePackFile"),("Avro generation parses generated Go files","generate/avro.go")],
 "Files in the output directories","result of the second run and the files on the simulated disk")
p("C14","Bulk Avro writing delivers every item once, in order",
 "A generated bulk writer puts every item it takes from its request channel into the container file once, in the order sent and with the write time it was given, and closes the error channel after the request channel is closed; when the error channel closes without an error the container is complete and readable. When writing fails, at whatever point, exactly one error is delivered before the close and the goroutine ends, whether or not anyone is receiving.",
 ["schedules","fault_sequences","inputs"],"every sequence of items including nil ones, every timing of sender and receiver, every write of the underlying writer as the place of an error or short write, every interleaving with other bulk writers",
 "The generated tests write a fixed item to a healthy buffer; a lost error or a goroutine left behind shows only for particular fault points and timings.",
 ["generate/avro_template.go","generate/avro_helpers.go","generate/avro.go"],[("bulk writer goroutine","generate/avro_template.go")],
 "Goroutine, request and error channels, container writer","records decoded from the container, error channel, goroutines left over")
p("C15","Avro container writing is all or error",
 "A generated container write reports success only if the writer received a complete container that decodes to one record with the value's fields, the write time and the deleted mark asked for; any error or short write of the writer is reported as an error. Writing leaves the value unchanged, and writing the same or different values at the same time does not interfere.",
 ["fault_sequences","schedules","inputs"],"every value, every write of the underlying writer as the place of an error or short write, every interleaving of concurrent writes",
 "The generated tests write to a healthy buffer from one goroutine.",
 ["generate/avro_template.go","generate/avro_helpers.go","generate/avro.go","generate/struct.go"],[("container writing with and without the deleted mark","generate/avro_template.go"),("field mapping from the struct to the Avro record","generate/avro_helpers.go")],
 None,"bytes given to the writer, decoded with an independent reader, and the error returned")
p("C16","Avro write time follows the clock once",
 "The write time stored in an Avro record is the time asked for, in milliseconds; when none was asked for it is the wall-clock time at some instant during the call, and for a bulk write one such instant at its start shared by all its records. This holds however the clock jumps or drifts while items arrive.",
 ["schedules","histories","inputs"],"every requested time representable in nanoseconds, every sequence of clock readings, every delay between items, every interleaving",
 "Tests cannot set the clock, and items of a test arrive within one clock tick.",
 ["generate/avro_template.go","generate/avro_helpers.go"],[("write time taken when none is given","generate/avro_template.go"),("conversion to milliseconds","generate/avro_helpers.go AvroTime")],None,"write time of the decoded records against the log of clock readings")
p("C17","Damaged input is answered, never fatal",
 "A document that was cut short or damaged in transit is answered with a document or an error: the call returns, does not panic and leaves the transformer as it was, so that calls for intact documents before, during and after it give what they would have given without it.",
 ["fault_sequences","schedules","histories"],"every document, every truncation point, flipped byte, dropped, duplicated or replaced part, every place of damaged documents in a history of calls and every interleaving",
 "Tests use intact documents of the expected shape; a failing type assumption needs a particular wrong type at a particular place.",
 [T,I,X,O],[("conversion of input values",'transform/utils.go'),("saving values into the tree by path",T+" saveInTree"),("operations on values of unexpected type",O)],
 None,"answers to the damaged and the intact documents")
# Pure functions of their input: listed, not claimed.
p("C22","Generation leaves other files alone",
 "A generation creates, changes and removes no file but those it announces: hand-written files, files of another schema's generation, the schema files and everything outside the output directories keep their content, whether the generation succeeds, fails or is cut off at any point, and however often it is repeated. Nothing new appears outside the output directories, and after generations that were not cut off nothing but the announced files is new inside them.",
 ["crash_points","fault_sequences","histories","inputs","configurations"],"every set of other files beside the output, every file operation as the place of an error or a crash, every sequence of generations, every schema and combination of options",
 "Tests generate into directories that hold nothing else, and never stop or fail a generation half way.",
 ["generate/generate.go","generate/graphql.go","generate/avro.go","generate/avro_helpers.go","main.go"],
 [("names of the outputs","generate/generate.go buildStructFile"),("MessagePack generation removes and replaces files","generate/generate.go buildMessagePackFile"),("directories of Avro code","generate/avro.go buildAvroSerializationFunctions"),("GraphQL files of interfaces","generate/graphql.go")],
 "Files in and around the output directories","the files on the simulated disk after each generation")
p("C18","Transform operations compute what the documentation says",
 "Each operation of a transform section maps its input value and arguments to the value described in the documentation, or reports an error for unsupported input.",
 ["inputs"],"every operation, argument and input value","Tests sample a few values for each operation.",[O,X,"transform/utils.go"],[("operations",O),("methods first, last, concatenate",X)])
p("C19","Merging of all-of and one-of follows the rules",
 "The loaded schema has the properties of its own level, those of the all-of references unless embedding is chosen, and those of the selected one-of reference, with the nearest definition winning.",
 ["inputs","configurations"],"every schema and selection","Tests load a handful of schemas.",["jsonschema/schema.go","jsonschema/reference.go"],[("merging","jsonschema/schema.go schemaFromFile")])
p("C20","Generated structs represent the schema",
 "A generated Go struct has a field for each property with the matching type and serialisation tag, so that a valid document decoded into it and encoded again keeps its content; the GraphQL and Avro schemas generated alongside describe the same fields.",
 ["programs","inputs"],"every schema and every valid document","Tests compare with stored files for a handful of schemas.",["generate/struct.go","generate/graphql.go","generate/avro.go"],[("field extraction","generate/struct.go")])
p("C21","Command-line options reach the generator unchanged",
 "Each option of the command sets the corresponding generator setting, repeated and comma-separated renames accumulate, and missing required options are refused.",
 ["inputs","configurations"],"every command line","There is no test of the command.",["main.go"],[("flag parsing","main.go")])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'../../properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
