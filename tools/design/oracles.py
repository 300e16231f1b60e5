O["P01"] = "The words are computed from the definition of the statement (transitions of case) by a direct specification in the harness, and the concatenation of the words is the identifier."
O["P02"] = "The laws of total orders, and the lexicographic order of the words written in the harness."
O["P03"] = "The list of what was added, and the definition of sorted."
O["P04"] = "A table of the rules of each kind of method in the harness, written from the documentation and the reject tests. The error must be there if, and only if, the table says so."
O["P05"] = "A count of the definitions and uses chosen for the source."
O["P06"] = "A recursive enumeration of the chains over the adjacency matrix chosen for the graph."
O["P07"] = "A table of the kinds of methods, and the partition laws."
O["P08"] = "Reachability computed over the adjacency matrix of the graph."
O["P09"] = "The precedence of the statement over the annotations chosen."
O["P10"] = "The grammar of Go identifiers and the list of its keywords and predeclared names; a table of kinds of types."
O["P11"] = "The text and the place chosen for the comments."
O["P12"] = "The complete content of the file system before and after, compared with what the same buffer writes to a new file, the returned errors, and the exit status."
O["P13"] = "Pairs of attributes: setting one never changes the presence of the other. The masks are distinct powers of two within the size of the field."
O["P14"] = "The document is parsed with an independent parser (`harness/jsonx`) and compared with the model, using the binding calculator that the client generator uses for the names on the wire."
O["P15"] = "The values given to the setters (`harness/gen/gx` has one entry for each attribute of the corpus type)."
O["P16"] = "The original object, attribute by attribute, before and after changing the copy; and the copy, and what the builder gives later, after changing the original. For links to lists, the document that was read."
O["P17"] = "The values given to the builder, or the document that was read; the documents are parsed with the independent parser."
O["P18"] = "The slice of elements that was given."
O["P19"] = "The request that a recording transport receives, compared with the values given and the names of the corpus model."
O["P20"] = "The document that the transport returns, made of the values that the harness chose."
O["P21"] = "A specification of the polling as a loop over the chosen sequence of responses and times."
O["P22"] = "The values given."
O["P23"] = "The values given; the documents are parsed with the independent parser."
O["P24"] = "The dump of the model (`harness/mb`) or the document, compared between two arrangements of the same declarations."
O["P25"] = "The details chosen when the source is written."
O["P26"] = "The closure over non link attributes of the graph of attributes chosen."
O["P27"] = "The set of chains of locators of the chosen graph."
O["P28"] = "The model chosen; the pages are parsed into sections, tables and links by the harness."
O["P30"] = "The generated text: the harness parses the declarations of types and methods, and the uses of the members in the JSON code."
O["P31"] = "The description of the model, and the document that the OpenAPI generator writes; the harness parses the constants, the list of bytes and the comments of the generated text."
O["P32"] = "The history of messages, and the names chosen for the concepts."
