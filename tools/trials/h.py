HG="pkg/generators/golang/helpers_generator.go"; JG="pkg/generators/golang/json_generator.go"; GB="pkg/generators/golang/buffer.go"; MB="pkg/markdown/buffer.go"
CG="pkg/generators/golang/clients_generator.go"; TC="pkg/generators/golang/types_calculator.go"; NC="pkg/generators/golang/names_calculator.go"
DG="pkg/generators/docs/docs_generator.go"; MG="pkg/generators/golang/metrics_generator.go"; PC="pkg/generators/golang/packages_calculator.go"
TRIALS=[
("close-missing","bug","P20",[(CG,"""			defer response.Body.Close()
			result = &{{ $responseName }}{}""","""			if response.StatusCode < 400 {
				defer response.Body.Close()
			}
			result = &{{ $responseName }}{}""")]),
("header-shared","bug","P19",[(CG,"""			{{ end }}
			header := helpers.CopyHeader(r.header)""","""			{{ end }}
			header := r.header
			if header == nil {
				header = http.Header{}
			}""")]),
("query-set","bug","P22 P19",[(HG,"query.Add(name, text)","""if typed, ok := value.(string); ok && typed == query.Get(name) && query.Has(name) {
				return
			}
			query.Add(name, text)""")]),
("ctx-lost","bug","P19",[(CG,"""				{{ end }}
			}
			if ctx != nil {
				request = request.WithContext(ctx)
			}""","""				{{ end }}
			}
			if _, ok := ctx.Deadline(); ok {
				request = request.WithContext(ctx)
			}""")]),
("locator-trim","bug","P19",[(CG,"""path.Join(c.path, id),
					)""","""path.Join(c.path, strings.TrimSpace(id)),
					)"""),(CG,"""	g.buffer.Import("path", "")
	g.buffer.Emit(`
		{{ $clientName := clientName .Resource }}""","""	g.buffer.Import("path", "")
	g.buffer.Import("strings", "")
	g.buffer.Emit(`
		{{ $clientName := clientName .Resource }}""")]),
("poll-ctx","bug","P21",[(CG,"response, err := r.request.SendContext(ctx)\n			if response != nil {","response, err := r.request.SendContext(ctx)\n			if response != nil && err == nil {")]),
("poll-statuses","bug","P21",[(HG,"if len(statuses) == 0 {\n				statuses = []int{http.StatusOK}","if len(statuses) < 2 {\n				statuses = append(statuses, http.StatusOK)\n")]),
("poll-interval","bug","P21",[(HG,"time.Sleep(interval)\n","time.Sleep(interval)\n				interval += interval / 2\n")]),
("sel-alias","bug","P15",[(TC,"""selector = path.Base(imprt)
		return
	default""","""selector = path.Base(imprt)
		if typ.IsList() {
			imprt, selector = c.Package(typ.Element())
		}
		return
	default""")]),
("value-selector","bug","P15 P16",[(GB,"if imprt == b.pkg {","if strings.HasSuffix(imprt, \"/\"+selector) && strings.HasSuffix(b.pkg, \"/\"+selector) {")]),
("docs-tag","bug","P28",[(DG,"return g.names.Tag(object.Name())","return g.names.Tag(names.Cat(object.Name()))")]),
("docs-methods","bug","P28",[(DG,"if name.Equals(nomenclator.Add) {\n		return \"POST\"","if name.Equals(nomenclator.AsyncAdd) {\n		return \"PUT\"")]),
("metrics-var","bug","P27",[(MG,"""		locatorBranch := g.resourceBranch(locator.Target())
		branch[locatorLabel] = locatorBranch""","""		locatorBranch := g.resourceBranch(locator.Target())
		if _, ok := branch[locatorLabel]; !ok {
			branch[locatorLabel] = locatorBranch
		}""")]),
("bit-order","bug","P13",[(TC,"if count <= 32 {\n		return 32","if len(typ.Attributes()) <= 32 {\n		return 32")]),
("ok-shift","bug","P20",[(CG,"ok = r != nil && r.{{ $fieldName }} != nil","ok = r != nil && r.err == nil && r.{{ $fieldName }} != nil")]),
("getter-zero","bug","P19",[(CG,"if r.{{ $fieldName }} != nil {\n					helpers.AddValue","if r.{{ $fieldName }} != nil {{ if .Type.IsInterface }}&& r.{{ $fieldName }} != \"\" {{ end }}{\n					helpers.AddValue")]),
("peek-err","bug","P20",[(CG,"""			result = &{{ $responseName }}{}
			result.status = response.StatusCode
			result.header = response.Header
			reader := bufio.NewReader(response.Body)
			_, err = reader.Peek(1)
			if err == io.EOF {""","""			result = &{{ $responseName }}{}
			result.status = response.StatusCode
			result.header = response.Header
			reader := bufio.NewReader(response.Body)
			_, err = reader.Peek(1)
			if err == io.EOF || result.status == http.StatusAccepted && response.ContentLength == 0 {""")]),
("header-late","bug","P20",[(CG,"""			result = &{{ $responseName }}{}
			result.status = response.StatusCode
			result.header = response.Header
			reader := bufio.NewReader(response.Body)
			_, err = reader.Peek(1)
			if err == io.EOF {
				err = nil
				return
			}
""","""			result = &{{ $responseName }}{}
			result.status = response.StatusCode
			reader := bufio.NewReader(response.Body)
			_, err = reader.Peek(1)
			if err == io.EOF {
				err = nil
				return
			}
			result.header = response.Header
""")]),
("send-twice","bug","P19",[(CG,"""			uri := &url.URL{
				Path: r.path,
				RawQuery: query.Encode(),
			}
			request := &http.Request{
				Method: "{{ httpMethod .Method }}",""","""			r.query = query
			uri := &url.URL{
				Path: r.path,
				RawQuery: query.Encode(),
			}
			request := &http.Request{
				Method: "{{ httpMethod .Method }}",""")]),
]
