prop("P01", "Identifiers are split into words without losing or mixing characters",
 "Splitting an identifier into the words of its name, by case transitions or by a separator, neither loses, invents nor reorders characters, and the name gives back the original identifier in camel case. Different identifiers of letters and digits always have different names. All the word splitting variants follow the documented rules: a word starts at a transition from lower to upper case, or at the last capital of an initialism.",
 ["inputs"], "for all identifiers within the length bound, any byte of the identifier alphabet",
 "The tests parse a dozen hand picked identifiers; the splitting depends on the case of each neighbouring pair of characters, and identifiers with digits, initialisms at any position or repeated separators aren't sampled.",
 ["pkg/names/parser.go", "pkg/names/name.go", "pkg/names/case.go", "pkg/names/words.go"],
 [("case driven and separator driven parsers", "pkg/names/parser.go"), ("rendering of names", "pkg/names/case.go")],
 "All the strings up to the stated lengths over the stated alphabets.")
prop("P02", "Names have a total order that is consistent with equality",
 "The comparison of names is a total order, lexicographic by words: antisymmetric, transitive, and two names are equivalent exactly when they have the same words. Concatenating names keeps all the words in order and doesn't change the operands, and sorting gives the same names in ascending order.",
 ["inputs"], "for all names up to the stated number of words and characters",
 "There are no tests of the comparison; order laws quantify over pairs and triples of names.",
 ["pkg/names/name.go", "pkg/names/named.go", "pkg/names/words.go"],
 [("Compare, Equals, Cat", "pkg/names/name.go"), ("sorting", "pkg/names/named.go")],
 "All the names up to the stated number of words and characters.")
prop("P03", "The model lists every concept exactly once, sorted by name, with its owner",
 "Whatever the order in which services, versions, types, resources, errors, attributes, values, methods, parameters and locators are added, each container lists all of them exactly once, sorted by name, finds each of them by its name and is their owner. Every detail of a concept (name, documentation, type, kind, element, owner, target, directions, default, code, flags, annotations and their parameters) is the last one that was given to it, whatever the history, and the predicates that classify types, resources and locators agree with those details: only the predefined types of a version are recognised as such, only the resource named root is the root, and variable and constant locators partition the locators.",
 ["inputs", "histories"], "for all the orders of additions, and all the names, within the bounds",
 "Tests add concepts in one order; the sorting code is repeated in each container and each copy can be wrong on its own, or only for some number of elements.",
 ["pkg/concepts/model.go", "pkg/concepts/service.go", "pkg/concepts/version.go", "pkg/concepts/type.go", "pkg/concepts/resource.go", "pkg/concepts/method.go", "pkg/concepts/error.go", "pkg/concepts/locator.go"],
 [("sorted insertion of each container", "pkg/concepts/*.go")],
 "Up to 4 elements with arbitrary names in every container, plus one larger container; histories of up to 4 changes of the details of every concept.")
prop("P04", "Methods are accepted exactly when they follow the rules of their kind",
 "Reading a method accepts it if, and only if, its parameters follow the documented rules of its kind (list, search, add, get, update, post, delete or action): directions of paging, ordering and items parameters, their types and defaults, and the single payload parameter of the right direction and kind. Every violation is reported as an error and the model is rejected, and methods that follow the rules are never rejected.",
 ["inputs", "programs"], "for all the methods with the stated numbers of parameters, each with arbitrary name, type, direction and default",
 "The accept and reject tests contain one example of each rule, while the rules combine names, directions, types, defaults and positions of parameters.",
 ["pkg/language/checks.go", "pkg/language/reader.go"],
 [("method checks", "pkg/language/checks.go")],
 "One or two arbitrary parameters in addition to the ones of the complete method; names from the reserved ones plus one that isn't.")
prop("P05", "Models with missing or duplicated definitions are rejected without crashing",
 "A model is accepted only if every version has a root resource, every type and resource that is used in a version is defined in that version exactly once, and all the locators have a target, regardless of the order of the definitions and of what other versions and services define. Otherwise reading it returns an error, and never a crash. The accepted model contains exactly the definitions of its sources, every use refers to the definition of its own version, and every type that is not a list has a list type, unless other type of that name is defined.",
 ["inputs", "programs"], "for all the models made of up to two versions or services with arbitrary subsets of definitions and uses, in any order",
 "The tests read a few models with everything in place; which definitions are missing, duplicated or provided by another version is a combination that isn't sampled.",
 ["pkg/language/reader.go", "pkg/language/checks.go"],
 [("tracking of undefined concepts", "pkg/language/reader.go"), ("semantic checks", "pkg/language/checks.go")],
 "Sources generated from arbitrary choices over small sets of names, in memory file system.")
prop("P06", "The paths of a version are exactly the chains of locators from its root",
 "The paths that are calculated for a version are all the chains of locators that start in its root resource, including the ones that pass several times through shared resources, each of them exactly once. The results are independent: changing or extending one of the returned paths doesn't change any other.",
 ["inputs", "programs"], "for all the acyclic graphs of locators within the stated number of resources and parallel locators",
 "The tests generate documents for one model; which paths share prefixes and memory depends on the shape of the graph.",
 ["pkg/concepts/version.go", "pkg/concepts/resource.go"],
 [("enumeration of paths", "pkg/concepts/version.go")],
 "All the acyclic graphs of 4 resources, and of 3 resources with two parallel locators (5 and 4 in the thorough tier).")
prop("P07", "Every parameter of a method travels in exactly one place of the HTTP message",
 "Every input parameter of a method travels in exactly one of the query or the body of the request, every output parameter travels in the body of the response, and nothing else does. The HTTP method, the default status and the URL segment are the ones that correspond to the kind of the method, and any method whose name isn't reserved is an action whose segment is its name in snake case.",
 ["inputs", "programs"], "for all the methods within the bounds: arbitrary kind, and arbitrary name, type, direction of each parameter",
 "The tests generate clients and documents for a fixed model; the partition depends on the combination of the kind of method and the name, type and direction of each parameter.",
 ["pkg/http/binding_calculator.go", "pkg/concepts/method.go", "pkg/concepts/parameter.go"],
 [("binding calculator", "pkg/http/binding_calculator.go")],
 "Methods with up to 3 parameters of all the kinds of types.")
prop("P08", "Loops of locators are rejected, and only loops are",
 "A model whose locators form a loop that can be reached from the root resource is rejected with an error, and reading it terminates. A model whose graph of locators has no such loop is never rejected because of loops, even if the same resource is reached by several paths.",
 ["inputs", "programs"], "for all the graphs of locators up to the stated number of resources",
 "The tests have two loops; graphs with shared targets, longer loops and loops that don't start in the root aren't sampled.",
 ["pkg/language/checks.go"],
 [("loop detection", "pkg/language/checks.go")],
 "All the directed graphs of up to the stated number of resources.")
prop("P09", "Names on the wire come from the right annotation, or from the model",
 "The name of a query parameter is the one of its HTTP annotation, or else the one of its JSON annotation, or else its name in snake case. The names of attributes, body parameters and enumerated values come from the JSON annotation or else from the name in snake case, and the URL segments of services, versions, locators and actions come from the HTTP annotation or else from the name in snake case. Other annotations, or annotations without a name, have no effect, and the OpenAPI documents use the same names.",
 ["inputs", "programs"], "for all the combinations of annotations, in any order, with and without name, and all their values and names within the bounds",
 "The tests have a few concepts with one annotation each; the precedence is about combinations, and there is one function for each kind of concept.",
 ["pkg/http/binding_calculator.go", "pkg/annotations/annotations.go", "pkg/generators/openapi/names_calculator.go", "pkg/language/reader.go"],
 [("wire names", "pkg/http/binding_calculator.go"), ("names given by annotations", "pkg/annotations"), ("names of the OpenAPI documents", "pkg/generators/openapi/names_calculator.go")],
 "Names of up to 2 words of 2 characters, annotation values up to 2 arbitrary bytes.")
prop("P10", "Go names are valid identifiers, exported as needed and never reserved words",
 "Every identifier of the modelling language is turned into valid Go identifiers that are never reserved words: an exported one that is the identifier itself, so that different identifiers have different names, and one that isn't exported. Words that aren't reserved are never changed. The types, zero values, packages and imports that represent the types of the model are the ones that correspond to their kind, version and service.",
 ["inputs"], "for all identifiers within the length bound, all the words of up to 11 letters, and all the kinds of types",
 "The tests calculate a few names; validity and distinctness are about all the identifiers, and a missing reserved word only shows up with that word.",
 ["pkg/generators/golang/names_calculator.go", "pkg/generators/golang/reserved_words.go", "pkg/generators/golang/types_calculator.go", "pkg/generators/golang/packages_calculator.go"],
 [("names", "pkg/generators/golang/names_calculator.go"), ("reserved words", "pkg/generators/golang/reserved_words.go"), ("references", "pkg/generators/golang/types_calculator.go")],
 "Identifiers up to 4 characters (pairs up to 3), words of up to 11 letters.")
prop("P11", "Comments document the declaration that they precede, and only that one",
 "The line comments that are right before a declaration of several lines, of any kind and in any file, are its documentation, line by line, without the comment marks and the common indentation, whatever the text is. Comments that are separated from the declaration, block comments, and comments of other files or declarations never are. Comments whose lines have different indentation are rejected with an error, and no comment makes the reader crash.",
 ["inputs", "programs"], "for all the texts and indentations within the bounds, and all the pairs of places",
 "There are no tests of documentation comments in the reader; the comments are kept in a map indexed by line number that is shared by all the files, so losing or mixing them depends on the positions.",
 ["pkg/language/reader.go", "pkg/language/model_lexer.go"],
 [("extraction of documentation", "pkg/language/reader.go")],
 "Texts up to 2 arbitrary characters, of the ones that are meaningful to the lexer, per line; up to 3 lines; all the pairs of the 11 kinds of declarations; fixed texts for the endings of the lines, the indentation, the characters that aren't ASCII and the literals of several lines. One shape of declaration is a recorded finding.")
prop("P12", "Errors prevent the generation: nothing is written once something is reported",
 "When an error has been reported, no generator and no output buffer writes or changes any file, and running or writing them returns an error. Without errors everything is written, replacing completely what the files contained before, and failures to write any of the files are returned. Reading a model returns either a model or an error, never both nor a crash, and it returns an error exactly when something was reported as an error, even if it was before. The commands end with a status different from zero when an option is missing, the model has errors or the output can't be written, without writing anything, and with zero otherwise.",
 ["inputs", "faults"], "for all the generators, buffers and commands, numbers of errors, existing files, files that can't be opened and files that can't be filled, and for all the pairs of the stated correct and incorrect declarations",
 "The tests only run the generators for models without errors and directories where everything can be written, and read one incorrect declaration at a time.",
 ["pkg/reporter/reporter.go", "pkg/generators", "pkg/language/reader.go", "pkg/language/errors.go", "cmd/metamodel"],
 [("error counting", "pkg/reporter/reporter.go"), ("checks before writing", "pkg/generators/golang/buffer.go"), ("exit status", "cmd/metamodel")],
 "All the generators for one fixed model, without the text of the templates; sources of two declarations out of six; messages of up to 1 character, up to 3 messages. The documentation and Go commands only when they fail before generating.")
prop("P13", "Each attribute of a type has its own presence flag, whatever their number",
 "In the code generated for a type, having a value for one attribute is independent of any other attribute, for any number of attributes that the presence flags can represent, both for classes and structs and for objects that are built or read from JSON. Types with more attributes than flags are rejected by the generator instead of generating code that mixes them.",
 ["inputs", "programs"], "for all the numbers of attributes of classes and structs, and all the pairs of attributes of types of the critical sizes",
 "The tests have types with a handful of attributes; the size of the bitmap and the masks change at 32 and 64 attributes.",
 ["pkg/generators/golang/types_calculator.go", "pkg/generators/golang/types_generator.go", "pkg/generators/golang/builders_generator.go", "pkg/generators/golang/json_generator.go"],
 [("calculation of masks and size", "pkg/generators/golang/types_calculator.go")],
 "Calculator: all the numbers of attributes up to 70. Generated code: types of 29, 30 and 61 attributes (classes) and 32, 33 and 64 (structs).")
prop("P14", "OpenAPI documents describe exactly the paths, operations and types",
 "The OpenAPI document generated for a version is valid JSON without repeated members. It contains exactly the schemas of the types of the version and the operations of the resources that can be reached from its root, at the addresses and with the HTTP methods, parameters, names, bodies and statuses that the generated clients use, and every reference is defined in the same document. Documentation appears unchanged in the descriptions.",
 ["inputs", "programs"], "for all the models within the bounds: types of all the kinds, methods of all the kinds with arbitrary parameters and annotations, all the graphs of locators up to three resources",
 "The tests check that some fragments are in the document of a fixed model; the document is a function of the complete model, and each combination of kind, direction, type, annotation and position is generated by a different piece of code.",
 ["pkg/generators/openapi/openapi_generator.go", "pkg/generators/openapi/names_calculator.go", "pkg/generators/openapi/buffer.go", "pkg/http/binding_calculator.go", "pkg/concepts/version.go"],
 [("generator", "pkg/generators/openapi/openapi_generator.go"), ("names", "pkg/generators/openapi/names_calculator.go")],
 "Methods of up to 3 parameters, one or two arbitrary attributes, graphs of 3 resources, strings up to 2 arbitrary characters, up to 2 services with 2 versions. Three shapes of model are recorded findings.")
prop("P15", "Generated builders give objects with exactly the attributes that were set",
 "After any sequence of setters, the object built by a generated builder has a value exactly for the attributes that were set, that value is the last one given, and all the other attributes report that they have no value and return the zero value. The link flag is the one that was set, objects don't change when the builder or the values given to it are changed later, and the accessors of a nil object report no values instead of crashing.",
 ["inputs", "histories"], "for all the attributes of the corpus type, of all the kinds, and all their values",
 "The generated code tests set a few attributes of a few types; presence is kept in a bitmap with one bit for each attribute, so any pair of attributes can interfere.",
 ["pkg/generators/golang/types_generator.go", "pkg/generators/golang/builders_generator.go", "pkg/generators/golang/types_calculator.go"],
 [("templates of types and builders", "pkg/generators/golang"), ("bit masks", "pkg/generators/golang/types_calculator.go")],
 "Sequences of two setters over all the pairs of attributes of the class that has attributes of all the kinds, and of the class that refers to the one of other service; code generated for the corpus by the current generators.")
prop("P16", "Copying an object into a builder keeps all of it and shares nothing",
 "Copying an object into a builder and building it again gives an object with the same attributes, values, presence flags, links, also links to lists, and nested objects, discarding everything that the builder had before, without touching the builders, slices and maps that were given to it. Changing the original object, the builder or what it builds later doesn't change the other ones, and copying nil changes nothing.",
 ["inputs", "histories"], "for all the pairs of attributes of the corpus type, of all the kinds, and all their values",
 "The tests copy a few objects; each kind of attribute is copied by its own piece of generated code, and sharing is only visible when the copy is changed later.",
 ["pkg/generators/golang/builders_generator.go"],
 [("template of the copy method", "pkg/generators/golang/builders_generator.go")],
 "All the pairs of the attributes of the corpus type; lists and maps up to 2 elements; also the pairs of the class that refers to the one of other service, and the links to lists that were read from documents.")
prop("P17", "JSON documents carry exactly the attributes of the object, and round trip",
 "Marshalling an object writes a valid JSON object that contains exactly the attributes that have a value, plus the kind, with the wire names and types given by the model. Objects with the same values give the same document. Unmarshalling it gives an object with the same attributes and values, the same links, also links to lists, and the same presence flags. Unknown members of any type, in any position, are ignored, and incomplete documents, values of the wrong type and numbers that have no representation are reported as errors instead of crashing or giving other values.",
 ["inputs"], "for all the objects of the corpus type with any pair of attributes, of all the kinds, and all their values within the bounds, and for all the documents of the stated shapes",
 "The tests marshal a handful of objects with fixed values; losing, mixing or corrupting an attribute depends on which other attributes are present, on the kind of attribute, on the number of elements and on the value.",
 ["pkg/generators/golang/json_generator.go", "pkg/generators/golang/json_support_generator.go", "pkg/http/binding_calculator.go"],
 [("readers and writers", "pkg/generators/golang/json_generator.go"), ("enumerated values", "pkg/generators/golang/types_generator.go")],
 "Code generated from the corpus by the current generators; strings up to 2 characters, lists and maps up to 2 elements; numbers are symbolic, their decimal text is abstracted by unique literals; dates have a precision of one second; documents of up to 130 elements and strings of up to 6 KiB in the stated shapes.")
prop("P18", "Generated lists give their elements in order, and lists of any type round trip",
 "The accessors and iterators of a generated list give exactly the items that were put in it, in order, for any index, including indexes out of range, and iterators stop when asked to. Marshalling lists of all the kinds of elements and unmarshalling the result gives the same elements, and documents that are incomplete or of other types are reported as errors. Nil lists behave as empty ones, and builders of lists can be reused without changing what they built before.",
 ["inputs", "histories"], "for all the lists up to the stated length, all the indexes, all the stopping points and all the values",
 "The tests use a few lists with fixed elements; boundaries are in the index and in the number of elements.",
 ["pkg/generators/golang/types_generator.go", "pkg/generators/golang/builders_generator.go", "pkg/generators/golang/json_generator.go"],
 [("list types", "pkg/generators/golang/types_generator.go"), ("list readers and writers", "pkg/generators/golang/json_generator.go")],
 "Lists up to 3 elements, any 64 bit index.")
prop("P19", "Generated clients send exactly what was asked to the right address",
 "A request sent with a generated client uses the HTTP method of the method and the path that corresponds to the locators and identifiers used to reach it, its query and body contain exactly the parameters that were set, with the last value given, encoded in the place and with the name that the model says. Additional parameters and headers are all sent, only with that request, the context is the one given by the caller, and sending the request again sends the same.",
 ["inputs", "histories"], "for all the subsets and values of the parameters, identifiers and base paths within the bounds, and all the kinds of methods",
 "The tests check some requests with fixed values; whether a parameter is sent, lost or sent twice depends on which other parameters are set and on their types.",
 ["pkg/generators/golang/clients_generator.go", "pkg/generators/golang/helpers_generator.go", "pkg/generators/golang/json_generator.go", "pkg/http/binding_calculator.go"],
 [("request templates", "pkg/generators/golang/clients_generator.go"), ("helpers for query and headers", "pkg/generators/golang/helpers_generator.go")],
 "Code generated from the corpus by the current generators, with a transport that records the request; strings up to 2 characters.")
prop("P20", "Generated clients return exactly what the response contains, or an error",
 "A response with a status of 400 or more and a body is always returned as an error that carries that status, and one with a lower status is never returned as an error if its document is valid. The values returned are exactly the ones of the document, independently of the order of its members and of how it is split when it arrives. Errors of the transport, interrupted responses and values of other types are always returned as errors, and responses without a body are responses without values.",
 ["inputs", "fault_sequences"], "for all the statuses, documents of the stated shapes, interruption points and splits",
 "The tests use complete responses with a few statuses; interruptions, splits and missing members combine with the kind of method.",
 ["pkg/generators/golang/clients_generator.go", "pkg/generators/golang/json_generator.go", "pkg/generators/golang/errors_generator.go", "pkg/generators/golang/helpers_generator.go"],
 [("response templates", "pkg/generators/golang/clients_generator.go"), ("response readers", "pkg/generators/golang/json_generator.go")],
 "Code generated from the corpus by the current generators, with a transport that returns symbolic responses.")
prop("P21", "Polling stops exactly when it should, and keeps the interval",
 "Polling sends requests, waiting exactly the interval between them, until a response has one of the accepted statuses and satisfies all the predicates, a request can't be sent, or the next one would be after the deadline, and never after that. The result is the last response, with its status, body or error, and all the requests are the same. A polling without deadline or without a positive interval is rejected without sending anything.",
 ["inputs", "fault_sequences", "histories"], "for all the intervals, deadlines and sequences of responses, failures and results of predicates within the bounds",
 "The tests poll with real time and fixed sequences; the boundary between one more request and stopping depends on the exact times, and the conditions combine.",
 ["pkg/generators/golang/clients_generator.go", "pkg/generators/golang/helpers_generator.go"],
 [("polling loop", "pkg/generators/golang/helpers_generator.go"), ("poll requests", "pkg/generators/golang/clients_generator.go")],
 "Up to 3 requests, any interval and deadline, any statuses, up to 2 accepted statuses and 2 predicates; the clock is a model that only advances when the code sleeps (natively, a fake clock).")
prop("P22", "Query values, headers and paths are encoded so that they can be read back",
 "A value of any type added to a query is read back unchanged under its name and only under it, and parameters that have several values or a value of other type are reported as errors instead of being ignored. The copies of queries and headers are equal and independent of the original, headers are added without losing others, the segments of a path are the ones between its slashes, and JSON can be read from bytes, strings and readers.",
 ["inputs"], "for all the values and names within the bounds",
 "There are few tests of the helpers; each type has its own function, and sharing is only visible when copies are changed.",
 ["pkg/generators/golang/helpers_generator.go", "pkg/generators/golang/json_generator.go"],
 [("helpers", "pkg/generators/golang/helpers_generator.go"), ("parsers of parameters", "pkg/generators/golang/json_generator.go")],
 "All the integers, floating point numbers and booleans (decimal text abstracted by unique literals), strings up to 2 characters, paths up to 7 characters, selected dates.")
prop("P23", "Generated errors keep what was set, can be written as text and JSON and read",
 "An error has exactly the attributes that were set, and keeps them when it is copied, or written as JSON and read again, with the status of the HTTP response replacing the one of the document. Its text contains its status, identifier, code, time, operation and reason when they are present, and calculating it never crashes. The functions that send errors send the status, content type and document that correspond, and invalid documents are reported as errors.",
 ["inputs", "histories"], "for all the pairs of attributes for documents, all the subsets for the text, and all their values within the bounds",
 "The tests have errors with fixed attributes; presence is a bitmap, so it depends on the combination.",
 ["pkg/generators/golang/errors_generator.go"],
 [("errors package", "pkg/generators/golang/errors_generator.go")],
 "All the pairs of the 8 attributes; strings up to 1 additional character; two shapes of details.")
prop("P24", "The model and the documents don't depend on how the sources are arranged",
 "The order of the declarations in a file, the distribution of the declarations between the files of a version, the names and order of those files, the blank space between tokens and the order in which versions and services are read, the directories where they are, and other files that aren't models don't change the model that is read. The OpenAPI document of a model is always the same text, whatever the iteration order of the maps.",
 ["inputs", "schedules", "programs"], "for all the orders of the declarations, all the distributions in files and all the iteration orders of the maps within the bounds",
 "The tests read each declaration in one order from one file, and the iteration order of maps can't be controlled by a test.",
 ["pkg/language/reader.go", "pkg/concepts", "pkg/generators/openapi"],
 [("forward references", "pkg/language/reader.go"), ("sorted output", "pkg/generators/openapi/openapi_generator.go")],
 "Models of up to five declarations with references between them; all the orders of maps of up to 4 entries, forward and reverse orders of bigger maps.")
prop("P25", "What is read is what is written: no detail of a declaration is lost or invented",
 "Names, types, lists and maps, links, directions, defaults, flags, variables, error codes, annotations and their values are read exactly as written, for every combination of them, for all the kinds of declarations. Integer and string literals have the value that they denote. Sources with syntax errors are rejected with an error, and never crash the reader.",
 ["inputs", "programs"], "for all the combinations of details within the bounds, for literals and identifiers over the stated alphabets, and for a wrong token at any position",
 "The tests check one or two details of one declaration each; the combinations, in particular of defaults, directions and annotations, aren't sampled.",
 ["pkg/language/reader.go", "pkg/language/model_parser.go", "pkg/language/model_lexer.go", "pkg/annotations"],
 [("listener of the parser", "pkg/language/reader.go")],
 "One or two members per declaration; literals of up to 3 characters; 43 positions of a wrong token.")
prop("P26", "References to classes of other services bring exactly what they need",
 "A class that refers to a class of other service has exactly the attributes of that class, with the same types, and its version contains all the types that those attributes need, each once and owned by that version. The types that are reached only through links stay in the other service, and the link attributes point to it. Nothing of this depends on the order of the declarations, and the service that is referred to isn't changed. References that can't be resolved are rejected with an error, and no reference makes the reader crash or never end.",
 ["inputs", "programs"], "for all the ways in which the classes of the other service use each other, including loops, and for all the incorrect references within the bounds",
 "The tests have one reference each, to classes with one attribute; which types are needed depends on the graph of attributes.",
 ["pkg/language/reader.go", "pkg/concepts/attribute.go"],
 [("resolution of references", "pkg/language/reader.go")],
 "Three classes with two or three attributes that use other classes, directly, as links, in lists, in lists of links or in maps.")
prop("P27", "The tree of URL paths of the metrics contains exactly the paths of the model",
 "The tree of URL paths that is generated for the metrics contains exactly the paths of the services, versions, resources and actions of the model, following all the chains of locators, with a dash in the place of each variable and with the segments that the clients use. The methods that aren't actions don't add segments.",
 ["inputs", "programs"], "for all the acyclic graphs of locators, constant or variable, and pairs of methods within the bounds",
 "There are no tests of the metrics.",
 ["pkg/generators/golang/metrics_generator.go", "pkg/http/binding_calculator.go"],
 [("construction of the tree", "pkg/generators/golang/metrics_generator.go")],
 "Four resources and five possible locators; at most one variable locator in each resource, and segments that don't collide.")
prop("P28", "The documentation pages describe all the resources and types of the model",
 "The documentation that is generated for a model contains a page for each resource, class, struct and enumerated type of each version, as long as the names of the concepts of different versions are different, and an index that links all of them and nothing else. Each page contains the complete description of its resource or type and of all its methods, parameters, attributes or values, each with its name, its own section, the first sentence of its description in a table and, for methods, the HTTP method that is used.",
 ["inputs", "programs"], "for all the models, names and texts within the bounds",
 "The only test is that the generation ends.",
 ["pkg/generators/docs/docs_generator.go", "pkg/markdown"],
 [("templates of the pages", "pkg/generators/docs/docs_generator.go"), ("names", "pkg/markdown/names_calculator.go")],
 "Models with up to 3 methods of 2 parameters, 3 types of 2 members and 2 services of 2 versions, texts of up to 5 characters and names of up to 2 words of 3 letters. The templates are executed by an interpreter of their syntax tree, which is part of the harness and is compared with the standard library on each run.")
prop("P29", "The Go code generated for any accepted model compiles",
 "For any model that is accepted by the reader, the generated Go code compiles, and running the generator again gives the same code.",
 ["inputs", "programs"], "for all the models",
 "The tests compile the code of one model.",
 ["pkg/generators/golang"],
 [("templates of the code", "pkg/generators/golang")],
 "", na="The code is produced by text/template and then formatted by the external tool goimports, and the oracle is the Go compiler: neither can be encoded. The names that the generated code uses are decided by P10 and P13, and the checks of the generated code (P13, P15 to P23) report as a violation that the code of the models of the corpus can't be generated or compiled.")
prop("P30", "Names of parameters and attributes never collide in the generated code",
 "For any name of a parameter of a method, or of an attribute of a class or struct, the fields and methods of each generated request, response, poll request, object and builder are all different, and the generated JSON code reads and writes the field of that parameter or attribute, never other members like the status, the headers, the error, the query or the path. The names of the parameters of a method are different, and the identity of the objects (id, kind and href) is reserved.",
 ["inputs", "programs"], "for all the names within the bounds",
 "The tests compile the code of one model, that has only a few names.",
 ["pkg/generators/golang/clients_generator.go", "pkg/generators/golang/json_generator.go", "pkg/generators/golang/types_generator.go", "pkg/generators/golang/builders_generator.go"],
 [("names of the members of the requests and responses", "pkg/generators/golang/clients_generator.go"), ("names of the fields in the JSON code", "pkg/generators/golang/json_generator.go"), ("names of the members of the objects", "pkg/generators/golang/types_generator.go")],
 "One parameter or attribute with an arbitrary name, besides the usual ones of each method: up to 11 letters in lower case, or two words of up to 5 and 7 letters in camel case; 5 kinds of types and 6 kinds of methods. The generators run completely, with the interpreter of templates of the harness, and the generated text is parsed by the harness.")

prop("P31", "Go constants, embedded documents and comments are the ones of the model",
 "The generated Go code has exactly one constant for each error of each version, with its code, one for each enumerated value, with the name that it has in JSON, and the ones for the kinds of the classes. The variable with the OpenAPI document of each version contains exactly the bytes of the document that is generated for that version. The declarations are preceded by the documentation of their concepts, and the documentation, whatever its text is, never changes anything else than comments.",
 ["inputs", "programs"], "for all the names, codes, texts, lists of bytes and versions within the bounds",
 "The tests use one model with simple documentation, and nothing compares the embedded documents with the generated ones.",
 ["pkg/generators/golang/errors_generator.go", "pkg/generators/golang/types_generator.go", "pkg/generators/golang/openapi_generator.go", "pkg/generators/golang/buffer.go"],
 [("constants of errors", "pkg/generators/golang/errors_generator.go"), ("constants of values", "pkg/generators/golang/types_generator.go"), ("embedded documents", "pkg/generators/golang/openapi_generator.go"), ("comments and bytes", "pkg/generators/golang/buffer.go")],
 "Up to 2 errors or values per version, codes up to 120, 2 services of 2 versions, texts of up to 3 characters, and lists of up to 34 fixed bytes followed by up to 2 arbitrary ones. The generators run completely, with the interpreter of templates of the harness; the text is checked before it is formatted by goimports.")

prop("P32", "Messages are counted, go to their stream, and name the concepts completely",
 "Each message that is reported is written exactly once, in one line with the prefix of its kind, to the stream of its kind: errors to the one of errors, information and warnings to the other. The text of a reported error is the one of the error that is returned, and the number of errors is the number of messages that are errors. The messages name the concepts with the identifiers that the user wrote: complete, from the service, for the versions, resources, methods, parameters, locators and attributes.",
 ["inputs", "histories"], "for all the histories of messages and all the names of concepts within the bounds",
 "There are no tests of the reporter.",
 ["pkg/reporter/reporter.go"],
 [("names of the concepts", "pkg/reporter/reporter.go"), ("streams and count", "pkg/reporter/reporter.go")],
 "Up to 4 messages with texts of up to 2 characters; names of one or two words.")
