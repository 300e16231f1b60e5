import subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s']).decode().splitlines()
def h(t):
    r=[l.split()[0] for l in log if t in l]; assert len(r)==1,(t,r); return r[0]
F=[("P01","parse each chunk","names with separators: every chunk repeated the words of the complete text, e.g. \"my-cluster\""),
("P03","hide the name of errors","adding two errors to a version or listing them crashed because the embedded name was hidden"),
("P03","variable flag of locators","Locator.SetVariable(false) left the locator variable"),
("P05","versions without root resource","version without a root resource crashed the reader"),
("P05","locators without target","locator without target crashed the reader"),
("P05","undefined concepts of different","type undefined in one version hidden by the definition in other version or service"),
("P17","import the JSON library explicitly","generated errors package depended on goimports guessing the JSON library, so the generated code didn't compile offline"),
("P17","structs without attributes","generated JSON code of a struct without attributes didn't compile"),
("P15","link setter","Link(false) of the generated builders marked the object as a link"),
("P16","empty maps when copying","copying an object with an empty map lost the map"),
("P13","as many attributes as the presence","mask of attributes from the 31st were calculated with a signed 32 bits shift: negative or zero masks, the generated code didn't compile"),
("P20","empty responses to metadata","metadata request with an empty response returned EOF, unlike all the other methods"),
("P17","maps that have an empty key","map with an empty key could be written but not read"),
("P10","import path of the metrics package","the import path of the metrics package was the one of the helpers package"),
("P10","keep the name of the references to Go types","the references to Go types lost the name given"),
("P11","documentation comments that start with a blank line","documentation comment whose first line is blank crashed the reader"),
("P11","documentation that follows a reference","the documentation of the declarations that follow a class with @ref in the same file was lost, or replaced by comments of other files"),
("P12","files that have syntax errors","files with syntax errors, like an error with a code that isn't a number, crashed the reader"),
("P26","references that can't be resolved","references with less than three components, to versions that don't exist, from services that are also referenced or with multiple inputs crashed the reader, and references to types that don't exist were accepted"),
("P26","references to types that use themselves","references to classes that use themselves, directly or indirectly, without links overflowed the stack"),
("P14","@json name of body parameters","OpenAPI documents described the body parameters of actions with the name of the model instead of the one given by the @json annotation, that is the one used on the wire"),
("P23","timestamp of errors when it is nil","errors built with Timestamp(nil) crashed when converted to text"),
("P19","request parameters that are maps","the generated client of an action with a map as input parameter didn't compile"),
("P19","parameters of type Interface","the generated client of a method with a parameter of type Interface didn't compile"),
("P28","types without pages","the index of the documentation linked scalar and list types, that don't have pages"),
("P28","summaries of the documentation","the summaries of the documentation joined the words of different lines, or broke the tables"),
("P28","write the lines of the documentation","pages with a line of more than 64 KiB of documentation were truncated without an error"),
("P30","builtin members of the clients","the generated clients of methods with parameters named like the builtin members of the requests and responses, for example path, header, query, send or interval, didn't compile, and the ones with parameters named err or status changed the error or the status"),
("P30","builtin members of the types","classes and structs with attributes named like the builtin members of the types and builders, for example link, empty, copy or build, generated code that didn't compile"),
("P25","lists and maps by other types","lists and maps, for example []Car, were replaced by a class of the same name, for example CarList, if it was declared before them"),
("P20","@json name of the items","the generated clients read the items of lists and searches from the member `items`, ignoring their @json name, that the OpenAPI documents use"),
("P17","address of the lists when writing","writing an object lost the kind and the address of the links to lists, for example {\"groups\":{\"kind\":\"GroupListLink\",\"href\":\"/groups\"}}"),
("P16","address of the lists when copying","copying an object lost the kind and the address of the links to lists"),
("P12","failures to write the header","the errors of writing the header of the generated Go files were ignored: files without other content were left empty or truncated without an error, for example in a full disk"),
]
out="# fixed: defects repaired in /repo. finding: defects that are recorded and not repaired.\n"
for p,t,d in F: out+="fixed: property=%s %s %s\n"%(p,h(t),d)
out+='finding: property=P17 harness=CheckNoName match="the members that follow a member without name are lost" documents with a member without name, like {"":1,"name":"x"}: the readers use the empty name as the end of the object, so the members that follow it are lost without an error\n'
out+='finding: property=P14 harness=CheckRoot match="the document has repeated members" root resource with methods that don\'t add a segment: the path of the version is written twice, once for the metadata and once for the method\n'
out+='finding: property=P14 harness=CheckRepeated match="a parameter is declared more than once" path with two variable locators of the same name: the template and the declaration of the path parameter are repeated, that isn\'t valid OpenAPI\n'
out+='finding: property=P11 harness=CheckOneLine match="the documentation of a declaration in one line is given to its first member" declarations written in one line, like "enum Thing { Red }": their documentation is given to the first member\n'
out+='finding: property=P28 harness=CheckVersions match="the pages of a version are replaced" models where two versions or services have resources or types of the same name: their documentation pages have the same file names, so only the last ones are kept\n'
out+='finding: property=P24 harness=CheckListNames match="accepted or rejected depending on the order" models that use the name of a list or map as the name of a type, for example CarList together with []Car: they are accepted only if the list is used before the name\n'
out+='finding: property=P14 harness=CheckReferences match="the class of other service that a link refers to has no schema" classes with @ref to a class of other service that has links: the classes linked aren\'t part of the version, so the OpenAPI document refers to schemas that it doesn\'t have\n'
open('/verif/KNOWN_FINDINGS.txt','w').write(out)
