HG="pkg/generators/golang/helpers_generator.go"; JG="pkg/generators/golang/json_generator.go"; GB="pkg/generators/golang/buffer.go"; MB="pkg/markdown/buffer.go"; OB="pkg/generators/openapi/buffer.go"
BG="pkg/generators/golang/builders_generator.go"; CG="pkg/generators/golang/clients_generator.go"; TG="pkg/generators/golang/types_generator.go"; TC="pkg/generators/golang/types_calculator.go"
OPEN="os.OpenFile(b.file, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)"; OPEN2="os.OpenFile(b.file, os.O_CREATE|os.O_WRONLY, 0666)"
TRIALS=[
("trunc-go","bug","P12",[(GB,OPEN,OPEN2)]),
("trunc-md","bug","P12 P28",[(MB,OPEN,OPEN2)]),
("append-md","bug","P12 P28",[(MB,OPEN,OPEN.replace("O_TRUNC","O_APPEND"))]),
("buf4096","bug","P22 P17 P20",[(JG,"iterator = jsoniter.Parse(api, typed, 4096)","iterator = jsoniter.Parse(api, io.LimitReader(typed, 4096), 4096)")]),
("copyvalues","bug","P22 P19",[(HG,"""			result := make([]string, len(values))
			copy(result, values)
			return result""","""			return values[:len(values)]""")]),
("copyheader","bug","P22 P19",[(HG,"""			result := make(http.Header)
			for name, values := range header {
				result[name] = CopyValues(values)""","""			result := make(http.Header)
			for name, values := range header {
				result[name] = values""")]),
("seg-one","bug","P22",[(HG,"""			for strings.HasSuffix(path, "/") {""","""			if strings.HasSuffix(path, "/") {""")]),
("count","bug","P17",[(JG,"lt $i (sub $n 1)","lt $i (sub $n 2)")]),
("flush","bug","P17",[(JG,"""			{{ $writeTypeFunc }}(object, stream)
			err := stream.Flush()
			if err != nil {
				return err
			}
			return stream.Error
		}

		// {{ $writeTypeFunc }} writes a value of the '{{ .Type.Name }}' type to the given stream.""","""			{{ $writeTypeFunc }}(object, stream)
			stream.Flush()
			return nil
		}

		// {{ $writeTypeFunc }} writes a value of the '{{ .Type.Name }}' type to the given stream.""")]),
("openapi-write","bug","P12",[(OB,"""	if err != nil {
		return err
	}

	return nil
}""","""	if os.IsNotExist(err) {
		return err
	}

	return nil
}""")]),
("parse-int32","bug","P22",[(JG,"strconv.ParseInt(value, 10, 64)","strconv.ParseInt(value, 10, 32)")]),
("meta-peek","bug","P20",[(CG,"""			if result.status >= 400 {
				result.err, err = errors.UnmarshalErrorStatus(reader, result.status)
				if err != nil {
					return
				}
				err = result.err
				return
			}
			result.body, err = UnmarshalMetadata(reader)""","""			if result.status > 400 {
				result.err, err = errors.UnmarshalErrorStatus(reader, result.status)
				if err != nil {
					return
				}
				err = result.err
				return
			}
			result.body, err = UnmarshalMetadata(reader)""")]),
("empty-lists","bug","P17",[(JG,"""object.bitmap_&{{ $fieldMask }} != 0 && object.{{ $fieldName }} != nil""","""object.bitmap_&{{ $fieldMask }} != 0 && {{ if .Type.IsMap }}len(object.{{ $fieldName }}) > 0{{ else }}object.{{ $fieldName }} != nil{{ end }}""")]),
("map-shared","bug","P16",[(BG,"""							b.{{ $fieldName }} = {{ $fieldType }}{}
							for k, v := range object.{{ $fieldName }} {
								b.{{ $fieldName }}[k] = v
							}""","""							b.{{ $fieldName }} = object.{{ $fieldName }}""")]),
("build-shared","bug","P15 P16",[(BG,"""							object.{{ $fieldName }} = make({{ $fieldType }})
							for k, v := range b.{{ $fieldName }} {
								object.{{ $fieldName }}[k] = v
							}""","""							object.{{ $fieldName }} = b.{{ $fieldName }}""")]),
("link-struct-sel","bug","P15 P16 P17",[(JG,"""{{ .Variable }}.SetHREF(iterator.ReadString())""","""{{ .Variable }}.SetHREF(iterator.ReadString())
						{{ .Variable }}.SetLink(true)""")]),
("long-float","bug","P17",[(JG,"""			{{ .Variable }} := iterator.ReadInt64()""","""			{{ .Variable }} := int64(iterator.ReadFloat64())""")]),
("date-nano","bug","P17",[(JG,"""stream.WriteString(({{ .Value }}).Format(time.RFC3339))
		{{ else if .Type.IsEnum }}""","""stream.WriteString(({{ .Value }}).Local().Format("2006-01-02T15:04:05Z"))
		{{ else if .Type.IsEnum }}""")]),
("copy-href","bug","P16",[(BG,"""				b.id = object.id
				b.href = object.href""","""				b.id = object.id
				if object.href != "" {
					b.href = object.href
				}""")]),
("list-copy-append","bug","P16 P18",[(BG,"""				b.items = make([]*{{ $elementBuilderName }}, len(list.items))
				for i, v := range list.items {""","""				if len(b.items) != len(list.items) {
					b.items = make([]*{{ $elementBuilderName }}, len(list.items))
				}
				for i, v := range list.items {""")]),
]
