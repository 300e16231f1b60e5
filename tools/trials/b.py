R="pkg/language/reader.go"; K="pkg/language/checks.go"; N="pkg/names/name.go"; P="pkg/names/parser.go"; T="pkg/concepts/type.go"; V="pkg/concepts/version.go"
B="pkg/http/binding_calculator.go"; O="pkg/generators/openapi/openapi_generator.go"; M="pkg/generators/golang/metrics_generator.go"; D="pkg/generators/docs/docs_generator.go"; MB="pkg/markdown/buffer.go"
A="pkg/annotations/annotations.go"
TRIALS=[
("n-plural","bug","P01",[(P,'if len(current) >= 2 && isUpper(current) && next == "s" {','if len(current) > 2 && isUpper(current) && next == "s" {')]),
("n-digit","bug","P01",[(P,'if len(current) == 1 && isUpper(current) && isLower(next) {','if len(current) == 1 && isUpper(current) && isLower(next) && len(next) > 1 {')]),
("n-equals-init","bug","P01 P02",[("pkg/names/words.go","return w.text == word.text && w.initialism == word.initialism","return strings.EqualFold(w.text, word.text) && w.initialism == word.initialism")]),
("n-parse-tail","bug","P01",[(P,"if i < size {\n\t\t\tword := parseWord(chunks[i])","if i < size {\n\t\t\tword := NewWord(strings.ToLower(chunks[i]))")]),
("n-cat-single","bug","P02",[(N,"	result := new(Name)\n	length := 0\n","	if len(names) == 1 {\n		return names[0]\n	}\n	result := new(Name)\n	length := 0\n")]),
("v-find-version","bug","P03 P05",[("pkg/concepts/service.go","return s.versions[name.String()]","return s.versions[name.Snake()]")]),
("t-scalar-iface","bug","P03 P07",[(T,"return t.kind == ScalarType || t.kind == EnumType || t.kind == InterfaceType","return t.kind == ScalarType || t.kind == EnumType || (t.kind == InterfaceType && t.owner != nil)")]),
("r-class-doc","bug","P11",[(R,"line, ok := comments[index]\n\t\tif !ok {\n\t\t\tbreak\n\t\t}","line, ok := comments[index]\n\t\tif !ok || len(lines) > 50 {\n\t\t\tbreak\n\t\t}")]),
("r-doc-delete","bug","P11",[(R,"\t\tdelete(comments, index)\n","")]),
("r-doc-prefix","bug","P11",[(R,"lines[i] = strings.TrimPrefix(line, prefix)","lines[i] = strings.TrimLeft(line, prefix)")]),
("r-doc-trim","bug","P11",[(R,'if strings.TrimSpace(line) != "" {\n\t\t\t\tfirst = line','if line != "" {\n\t\t\t\tfirst = line')]),
("r-undef-key","bug","P05",[(R,'return fmt.Sprintf("%s/%s/%s", version.Owner().Name(), version.Name(), name)','return fmt.Sprintf("%s/%s/%s", version.Owner().Name(), version.Name(), name.Snake())')]),
("r-map-name","bug","P05 P25",[(R,"mapName := names.Cat(indexName, elementName, nomenclator.Map)","mapName := names.Cat(elementName, nomenclator.Map)")]),
("r-list-map","bug","P05",[(R,"if typ.Kind() != concepts.ListType {","if typ.Kind() != concepts.ListType && typ.Kind() != concepts.MapType {")]),
("r-error-dup","bug","P05",[(R,"} else {\n\t\tr.reporter.Errorf(\"Error '%s' is already defined\", name)\n\t\treturn\n\t}","} else if err.Code() != 0 {\n\t\tr.reporter.Errorf(\"Error '%s' is already defined\", name)\n\t\treturn\n\t}")]),
("r-annot-last","bug","P25 P09",[(R,"result[name] = value\n","if _, ok := result[name]; !ok {\n\t\t\tresult[name] = value\n\t\t}\n")]),
("r-in-out","bug","P25 P04",[(R,"if directionCtx.GetIn() != nil {\n\t\t\t\tparameter.SetIn(true)\n\t\t\t}","if directionCtx.GetIn() != nil {\n\t\t\t\tparameter.SetIn(true)\n\t\t\t\tcontinue\n\t\t\t}")]),
("r-int-base","bug","P25",[(R,"value, err := strconv.Atoi(text)\n","parsed, err := strconv.ParseInt(text, 10, 32)\n\tvalue := int(parsed)\n")]),
("r-unquote","bug","P25",[(R,"text, err := strconv.Unquote(text)\n","var err error\n\tif strings.Contains(text, \"\\\\\") {\n\t\ttext, err = strconv.Unquote(text)\n\t} else {\n\t\ttext = strings.Trim(text, \"\\\"\")\n\t}\n")]),
("r-ref-prefix","bug","P26",[(R,'path = strings.TrimPrefix(path, "/")','path = strings.Trim(path, "/")')]),
("r-ref-comps","bug","P26",[(R,"if len(components) != 3 {","if len(components) < 3 {")]),
("r-ref-link-map","bug","P26",[(R,"attribute.SetLinkOwner(attribute.Type().Owner())","if !attribute.Type().IsMap() {\n\t\t\t\tattribute.SetLinkOwner(attribute.Type().Owner())\n\t\t\t}")]),
("r-ref-listadd","bug","P26",[(R,"r.version.AddType(attribute.Type())\n\t\t\tr.recursivelyAddTypeToVersion(currType, attribute.Type().Element(), inProgress)","r.recursivelyAddTypeToVersion(currType, attribute.Type().Element(), inProgress)\n\t\t\tif r.version.FindType(attribute.Type().Name()) == nil {\n\t\t\t\tr.version.AddType(attribute.Type())\n\t\t\t}")]),
("r-ref-visited","bug","P26",[(R,"	defer delete(inProgress, referencedType)\n","")]),
("r-comments-leak","bug","P11 P26",[(R,"	defer func() {\n		comments = saved\n	}()\n","	_ = saved\n")]),
("r-file-order","bug","P24",[(R,"if fileInfo.Mode().IsRegular() {","if fileInfo.Mode().IsRegular() && fileInfo.Name()[0] != '_' {")]),
("k-add-dir","bug","P04",[(K,"		if !parameter.In() || !parameter.Out() {\n			r.reporter.Errorf(\n				\"Direction of parameter '%s' should be 'in out'\",\n				parameter,\n			)\n		}\n	}\n\n	// Struct parameters should be named `body`:\n	for _, parameter := range structs {\n		if !nomenclator.Body.Equals(parameter.Name()) {\n			r.reporter.Errorf(\n				\"Name of parameter '%s' should be '%s'\",\n				parameter, nomenclator.Body,\n			)\n		}\n	}\n}\n\nfunc (r *Reader) checkDelete","		if parameter.In() != parameter.Out() {\n			r.reporter.Errorf(\n				\"Direction of parameter '%s' should be 'in out'\",\n				parameter,\n			)\n		}\n	}\n\n	// Struct parameters should be named `body`:\n	for _, parameter := range structs[:len(structs)/2] {\n		if !nomenclator.Body.Equals(parameter.Name()) {\n			r.reporter.Errorf(\n				\"Name of parameter '%s' should be '%s'\",\n				parameter, nomenclator.Body,\n			)\n		}\n	}\n}\n\nfunc (r *Reader) checkDelete")]),
("k-dflt-nil","bug","P04",[(K,"if param.Default() != dflt {","if param.Default() != nil && param.Default() != dflt {")]),
("k-param-last","bug","P04",[(K,"	for _, parameter := range method.Parameters() {\n		r.checkParameter(parameter)","	for i, parameter := range method.Parameters() {\n		if i > 1 {\n			break\n		}\n		r.checkParameter(parameter)")]),
("k-loop-reach","bug","P08",[(K,"for i := last; i >= 0; i-- {","for i := last; i > 0 || i == last; i-- {")]),
("k-loop-append","bug","P08",[(K,"r.checkLocatorPathLoops(append(path, next))","if len(path) < 3 {\n\t\t\tr.checkLocatorPathLoops(append(path, next))\n\t\t}")]),
("b-action-in","bug","P07",[(B,"if parameter.In() && !parameter.Type().IsScalar() {","if parameter.In() && !parameter.Type().IsScalar() && !parameter.Type().IsMap() {")]),
("o-index","bug","P14",[(O,"prefix := g.absolutePath(version, path)\n\t\tindex[prefix] = path","prefix := g.absolutePath(version, path)\n\t\tif len(path) > 3 {\n\t\t\tcontinue\n\t\t}\n\t\tindex[prefix] = path")]),
("o-path-params","bug","P14",[(O,"if len(locators)+len(parameters) > 0 {","if len(locators) > 0 || len(parameters) > 1 {")]),
("o-single-action","bug","P14",[(O,"if len(parameters) > 1 || method.IsAction() {\n			g.buffer.Field(\"type\", \"object\")\n			g.buffer.StartObject(\"properties\")\n			for _, parameter := range parameters {\n				g.genrateParameterProperty(parameter)\n			}\n			g.buffer.EndObject()\n		} else {\n			g.generateSchemaReference(parameters[0].Type())\n		}\n		g.buffer.EndObject()\n		g.buffer.EndObject()\n		g.buffer.EndObject()\n	}\n	g.buffer.EndObject()","if len(parameters) > 1 {\n			g.buffer.Field(\"type\", \"object\")\n			g.buffer.StartObject(\"properties\")\n			for _, parameter := range parameters {\n				g.genrateParameterProperty(parameter)\n			}\n			g.buffer.EndObject()\n		} else {\n			g.generateSchemaReference(parameters[0].Type())\n		}\n		g.buffer.EndObject()\n		g.buffer.EndObject()\n		g.buffer.EndObject()\n	}\n	g.buffer.EndObject()")]),
("o-desc","bug","P14",[(O,'if doc != "" {','if doc = strings.TrimRight(doc, "\\n "); doc != "" {')]),
("o-map-elem","bug","P14",[(O,'g.buffer.StartObject("additionalProperties")\n\t\tg.generateSchemaReference(typ.Element())','g.buffer.StartObject("additionalProperties")\n\t\tif !typ.Element().IsInterface() {\n\t\t\tg.generateSchemaReference(typ.Element())\n\t\t}')]),
("m-branch-nil","bug","P27",[(M,"if len(locators) == 0 && len(actions) == 0 {","if len(locators) == 0 {")]),
("m-order","bug","P27",[(M,"	for _, action := range actions {\n		actionLabel := g.binding.MethodSegment(action)\n		branch[actionLabel] = nil\n	}\n","	defer func() {\n		for _, action := range actions {\n			actionLabel := g.binding.MethodSegment(action)\n			if _, ok := branch[actionLabel]; !ok || len(locators) == 0 {\n				branch[actionLabel] = nil\n			}\n		}\n	}()\n")]),
("m-root","bug","P27",[(M,"versionBranch := g.resourceBranch(version.Root())","var versionBranch interface{}\n\t\t\tif len(version.Root().Locators()) > 0 {\n\t\t\t\tversionBranch = g.resourceBranch(version.Root())\n\t\t\t}")]),
("m-dup-dash","bug","P27",[(M,"locatorBranch := g.resourceBranch(locator.Target())\n","locatorBranch := g.resourceBranch(locator.Target())\n\t\tif _, ok := branch[locatorLabel]; ok && locatorBranch == nil {\n\t\t\tcontinue\n\t\t}\n")]),
("d-summary","bug","P28",[(D,"doc = doc[0 : index+1]","doc = doc[0:index]")]),
("d-async","bug","P28",[(D,'if name.Equals(nomenclator.Delete) || name.Equals(nomenclator.AsyncDelete) {','if name.Equals(nomenclator.Delete) {')]),
("d-trim","bug","P28",[(MB,"line := strings.TrimRightFunc(scanner.Text(), unicode.IsSpace)","line := strings.TrimRightFunc(scanner.Text(), unicode.IsPunct)")]),
("d-empty-type","bug","P28",[(D,"case typ.IsEnum() || typ.IsStruct():\n\t\t\t\t\terr = g.generateType(typ)","case typ.IsEnum() && len(typ.Values()) > 0 || typ.IsStruct():\n\t\t\t\t\terr = g.generateType(typ)")]),
("cmd-golang-err","bug","P12",[("pkg/language/reader.go","	if errors > 0 {\n		if errors > 1 {\n			err = fmt.Errorf(\"there were %d errors\", errors)","	if errors > 0 {\n		if errors > 2 {\n			err = fmt.Errorf(\"there were %d errors\", errors)")]),
]
