J="pkg/generators/golang/json_generator.go"; C="pkg/generators/golang/clients_generator.go"; H="pkg/generators/golang/helpers_generator.go"
E="pkg/generators/golang/errors_generator.go"; T="pkg/generators/golang/types_generator.go"; B="pkg/generators/golang/builders_generator.go"; K="pkg/generators/golang/types_calculator.go"
TRIALS=[
("j-empty-list","bug","P17",[(J,"object.{{ $fieldName }} != nil\n\t\t\t\t\t{{ end }}\n\t\t\t\t\tif present_","object.{{ $fieldName }} != nil\n\t\t\t\t\t\t{{ if and .Type.IsMap (not .Link) }}present_ = present_ && len(object.{{ $fieldName }}) > 0{{ end }}\n\t\t\t\t\t{{ end }}\n\t\t\t\t\tif present_")]),
("j-count","bug","P17 P13",[(J,"{{ if lt $i (sub $n 1) }}","{{ if lt $i (sub $n 2) }}")]),
("j-null-list","bug","P17 P18",[(J,"list := {{ valueReference .Type }}{}","var list {{ valueReference .Type }}")]),
("j-default-any","bug","P17",[(J,"\t\t\t\t{{ end }}\n\t\t\t\tdefault:\n\t\t\t\t\titerator.ReadAny()\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn object","\t\t\t\t{{ end }}\n\t\t\t\tdefault:\n\t\t\t\t\tif iterator.WhatIsNext() == jsoniter.ObjectValue {\n\t\t\t\t\t\titerator.ReadObject()\n\t\t\t\t\t} else {\n\t\t\t\t\t\titerator.ReadAny()\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t\treturn object")]),
("j-kind-link","bug","P17",[(J,"if value == {{ $structName }}LinkKind {","if len(value) > 4 && value[len(value)-4:] == \"Link\" {")]),
("j-list-link-false","bug","P17",[(J,"{{ .Variable }}.SetLink(text == {{ $selectorFromLinkOwner }}{{ $structName }}LinkKind)","{{ .Variable }}.SetLink(text != {{ $selectorFromLinkOwner }}{{ $structName }}Kind)")]),
("j-date-nano","bug","P17",[(J,"stream.WriteString(({{ .Value }}).Format(time.RFC3339))","stream.WriteString(({{ .Value }}).Format(\"2006-01-02T15:04:05Z\"))")]),
("j-int32","bug","P17",[(J,"{{ .Variable }} := iterator.ReadInt64()","{{ .Variable }} := int64(iterator.ReadFloat64())")]),
("j-map-item","bug","P17 P18",[(J,"item := {{ .Value }}[key]\n\t\t\t\t\tstream.WriteObjectField(key)","item := {{ .Value }}[key]\n\t\t\t\t\tstream.WriteObjectField(strings.TrimSpace(key))"),(J,"g.buffer.Import(\"sort\", \"\")","g.buffer.Import(\"sort\", \"\")\n\tg.buffer.Import(\"strings\", \"\")")]),
("j-body-null","bug","P19 P17",[(J,"if {{ .Object }}.{{ .Field }} != nil {\n\t\t\tif count > 0 {","if {{ .Object }}.{{ .Field }} != nil {\n\t\t\tif count > 1 {")]),
("j-search-total","bug","P20",[(J,"\t\tcase parameter.Name().Equals(nomenclator.Total):\n\t\t\ttotal = parameter\n\t\tcase parameter.Name().Equals(nomenclator.Body):","\t\tcase parameter.Name().Equals(nomenclator.Total) && parameter.In():\n\t\t\ttotal = parameter\n\t\tcase parameter.Name().Equals(nomenclator.Body):")]),
("c-query-alias","bug","P19",[(H,"if query == nil {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\tresult := make(url.Values)\n","if query == nil {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\tif len(query) > 1 {\n\t\t\t\treturn query\n\t\t\t}\n\t\t\tresult := make(url.Values)\n")]),
("c-status-600","bug","P20",[(C,"if result.status >= 400 {\n\t\t\t\tresult.err, err = errors.UnmarshalErrorStatus(reader, result.status)\n\t\t\t\tif err != nil {\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t\terr = result.err\n\t\t\t\treturn\n\t\t\t}\n\t\t\t{{ if $responseParameters }}","if result.status >= 400 && result.status < 600 {\n\t\t\t\tresult.err, err = errors.UnmarshalErrorStatus(reader, result.status)\n\t\t\t\tif err != nil {\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t\terr = result.err\n\t\t\t\treturn\n\t\t\t}\n\t\t\t{{ if $responseParameters }}")]),
("c-eof","bug","P20",[(C,"if err == io.EOF {\n\t\t\t\terr = nil\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif result.status >= 400 {\n\t\t\t\tresult.err, err = errors.UnmarshalErrorStatus(reader, result.status)\n\t\t\t\tif err != nil {\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t\terr = result.err\n\t\t\t\treturn\n\t\t\t}\n\t\t\t{{ if $responseParameters }}","if err != nil {\n\t\t\t\terr = nil\n\t\t\t\treturn\n\t\t\t}\n\t\t\tif result.status >= 400 {\n\t\t\t\tresult.err, err = errors.UnmarshalErrorStatus(reader, result.status)\n\t\t\t\tif err != nil {\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t\terr = result.err\n\t\t\t\treturn\n\t\t\t}\n\t\t\t{{ if $responseParameters }}")]),
("c-meta-status","bug","P20",[(C,"err = result.err\n\t\t\t\treturn\n\t\t\t}\n\t\t\tresult.body, err = UnmarshalMetadata(reader)","if result.status != 404 {\n\t\t\t\t\terr = result.err\n\t\t\t\t}\n\t\t\t\treturn\n\t\t\t}\n\t\t\tresult.body, err = UnmarshalMetadata(reader)")]),
("c-impersonate","bug","P19",[(H,"AddHeader(header, impersonateUserHeader, user)","if header == nil || len(*header) == 0 {\n\t\t\t\tAddHeader(header, impersonateUserHeader, user)\n\t\t\t} else {\n\t\t\t\theader.Set(impersonateUserHeader, user)\n\t\t\t}")]),
("c-poll-after","bug","P21",[(H,"if time.Now().Add(interval).After(deadline) {","if !time.Now().Add(interval).Before(deadline) {")]),
("c-poll-error","bug","P21",[(H,"if err != nil && status == 0 {","if err != nil && status < 400 {")]),
("c-poll-sleep","bug","P21",[(H,"time.Sleep(interval)\n","time.Sleep(interval)\n\t\t\t\tif interval > time.Hour { interval = time.Hour }\n")]),
("c-poll-pred","bug","P21",[(H,"if len(predicates) > 0 && object == nil {","if object == nil {")]),
("h-header-canon","bug","P22 P19",[(H,"header.Add(name, fmt.Sprintf(\"%v\", value))","(*header)[name] = append((*header)[name], fmt.Sprintf(\"%v\", value))")]),
("h-segments","bug","P22",[(H,"for strings.HasSuffix(path, \"/\") {","if strings.HasSuffix(path, \"/\") {")]),
("h-values-utc","bug","P22",[(H,"text = typed.UTC().Format(time.RFC3339)","text = typed.Format(\"2006-01-02T15:04:05Z\")")]),
("h-parse-count","bug","P22",[(J,"parsedBool, err := strconv.ParseBool(value)","parsedBool, err := value == \"true\", error(nil)")]),
("h-parse-base","bug","P22",[(J,"parsedInt64, err := strconv.ParseInt(value, 10, 64)","parsedInt64, err := strconv.ParseInt(value, 0, 64)")]),
("h-parse-32","bug","P22",[(J,"parsedFloat, err := strconv.ParseFloat(value, 64)","parsedFloat, err := strconv.ParseFloat(value, 32)")]),
("e-copy-details","bug","P23",[(E,"\t\t\tb.details = object.details\n","\t\t\tif object.details != nil {\n\t\t\t\tb.details = object.details\n\t\t\t}\n")]),
("e-status-zero","bug","P23",[(E,"if e.bitmap_&1 != 0 {\n\t\t\t\tstream.WriteMore()","if e.bitmap_&1 != 0 && e.status != 0 {\n\t\t\t\tstream.WriteMore()")]),
("e-reason-empty","bug","P23",[(E,"if result != \"\" {\n\t\t\t\t\tresult = result + \": \"","if size > 0 && e.reason != \"\" {\n\t\t\t\t\tresult = result + \": \"")]),
("e-join","bug","P23",[(E,"strings.Join(chunks[0:size-1], \", \")","strings.Join(chunks[0:size-1:3], \", \")")]),
("e-ts-time","bug","P23",[(E,"stream.WriteVal(e.timestamp)","stream.WriteString(e.timestamp.UTC().Format(time.Kitchen))")]),
("e-status-doc","bug","P20 P23",[(E,"\t\t\tobject.status = status\n\t\t\tobject.bitmap_ |= 1\n\t\t\treturn","\t\t\tif object.bitmap_&1 == 0 {\n\t\t\t\tobject.status = status\n\t\t\t\tobject.bitmap_ |= 1\n\t\t\t}\n\t\t\treturn")]),
("e-ts-nil","bug","P23",[(E,"\t\t\t} else {\n\t\t\t\tb.bitmap_ &^= 128\n\t\t\t}\n","\t\t\t}\n")]),
("t-get-range","bug","P18",[(T,"if l == nil || i < 0 || i >= len(l.items) {","if l == nil || i < 0 || i > len(l.items)-1 && i > 0 {")]),
("t-slice-nil","bug","P18",[(T,"slice = make([]*{{ $objectName}}, len(l.items))\n\t\t\t\tcopy(slice, l.items)","slice = l.items[:len(l.items):len(l.items)]")]),
("t-range-break","bug","P18",[(T,"if !f(index, item) {\n\t\t\t\t\tbreak","if item != nil && !f(index, item) {\n\t\t\t\t\tbreak")]),
("t-empty","bug","P15 P13",[(T,"return o == nil || o.bitmap_&^1 == 0","return o == nil || o.bitmap_&0xfffffffe == 0")]),
("k-max","bug","P13",[(K,"max -= 3","max -= 2")]),
("k-bits","bug","P13",[(K,"if count <= 32 {","if count <= 33 {")]),
("b-copy-nil","bug","P16",[(B,"b.{{ $fieldName }} = {{ selectorType . }}{{ builderCtor .Type }}().Copy(object.{{ $fieldName }})\n\t\t\t\t\t} else {\n\t\t\t\t\t\tb.{{ $fieldName }} = nil\n\t\t\t\t\t}\n\t\t\t\t{{ else if .Type.IsList }}","b.{{ $fieldName }} = {{ selectorType . }}{{ builderCtor .Type }}().Copy(object.{{ $fieldName }})\n\t\t\t\t\t}\n\t\t\t\t{{ else if .Type.IsList }}")]),
("b-map-share","bug","P15 P16",[(B,"object.{{ $fieldName }} = make({{ $fieldType }})\n\t\t\t\t\t\t\tfor k, v := range b.{{ $fieldName }} {\n\t\t\t\t\t\t\t\tobject.{{ $fieldName }}[k] = v\n\t\t\t\t\t\t\t}","object.{{ $fieldName }} = b.{{ $fieldName }}")]),
("b-set-list","bug","P15",[(B,"b.{{ $fieldName }} = make([]{{ $elementType }}, len(values))\n\t\t\t\t\t\t\tcopy(b.{{ $fieldName }}, values)","b.{{ $fieldName }} = append(b.{{ $fieldName }}[:0], values...)")]),
("b-items-share","bug","P18 P16",[(B,"b.items = make([]*{{ $elementBuilderName }}, len(list.items))\n","if cap(b.items) >= len(list.items) {\n\t\t\t\t\tb.items = b.items[:len(list.items)]\n\t\t\t\t} else {\n\t\t\t\t\tb.items = make([]*{{ $elementBuilderName }}, len(list.items))\n\t\t\t\t}\n")]),
("b-link-keep","bug","P16 P15",[(B,"\t\t\tb.bitmap_ = object.bitmap_\n","\t\t\tb.bitmap_ = object.bitmap_{{ if .Type.IsClass }} | b.bitmap_&1{{ end }}\n")]),
("b-nil-set","bug","P15",[(B,"} else {\n\t\t\t\t\t\t\tb.bitmap_ &^= {{ $fieldMask }}\n\t\t\t\t\t\t}","} else if b.{{ $fieldName }} != nil {\n\t\t\t\t\t\t\tb.bitmap_ &^= {{ $fieldMask }}\n\t\t\t\t\t\t}")]),
]
