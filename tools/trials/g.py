HG="pkg/generators/golang/helpers_generator.go"; JG="pkg/generators/golang/json_generator.go"; GB="pkg/generators/golang/buffer.go"; MB="pkg/markdown/buffer.go"; OB="pkg/generators/openapi/buffer.go"
BG="pkg/generators/golang/builders_generator.go"; CG="pkg/generators/golang/clients_generator.go"; TG="pkg/generators/golang/types_generator.go"; TC="pkg/generators/golang/types_calculator.go"
OG="pkg/generators/openapi/openapi_generator.go"; DG="pkg/generators/docs/docs_generator.go"; R="pkg/language/reader.go"; K="pkg/language/checks.go"; MG="pkg/generators/golang/metrics_generator.go"; EG="pkg/generators/golang/errors_generator.go"
TRIALS=[
("date-zone","bug","P17",[(JG,"""stream.WriteString(({{ .Value }}).Format(time.RFC3339))
		{{ else if .Type.IsEnum }}""","""stream.WriteString(({{ .Value }}).Format("2006-01-02T15:04:05Z"))
		{{ else if .Type.IsEnum }}""")]),
("map-sort","bug","P17",[(JG,"""				sort.Strings(keys)
				for i, key := range keys {
					if i > 0 {""","""				for i, key := range keys {
					if i > 0 {""")]),
("iface-number","bug","P17",[(JG,"""			var {{ .Variable }} interface{}
			iterator.ReadVal(&{{ .Variable }})""","""			{{ .Variable }} := iterator.Read()
			if text, ok := {{ .Variable }}.(string); ok && text == "null" {
				{{ .Variable }} = nil
			}""")]),
("list-items-null","bug","P17 P18",[(JG,"""			{{ if .Link }}
				stream.WriteObjectStart()
""","""			{{ if .Link }}
				if {{ .Value }}.Empty() {
					stream.WriteEmptyObject()
				} else {
				}
				stream.WriteObjectStart()
""")]),
("err-unmarshal","bug","P23",[(EG,"""					object.href = iterator.ReadString()""","""					object.href = strings.TrimSpace(iterator.ReadString())""")]),
("trunc-openapi","bug","P12",[(OB,"err = ioutil.WriteFile(b.output, jsonData, 0666)","""var file *os.File
	file, err = os.OpenFile(b.output, os.O_CREATE|os.O_WRONLY, 0666)
	if err != nil {
		return err
	}
	_, err = file.Write(jsonData)"""),(OB,"""	"io/ioutil"
""","")]),
]
