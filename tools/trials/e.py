R="pkg/language/reader.go"; K="pkg/language/checks.go"; N="pkg/names/name.go"; P="pkg/names/parser.go"; T="pkg/concepts/type.go"; V="pkg/concepts/version.go"
B="pkg/http/binding_calculator.go"; O="pkg/generators/openapi/openapi_generator.go"; M="pkg/generators/golang/metrics_generator.go"; D="pkg/generators/docs/docs_generator.go"; MB="pkg/markdown/buffer.go"
TG="pkg/generators/golang/types_generator.go"; BG="pkg/generators/golang/builders_generator.go"; JG="pkg/generators/golang/json_generator.go"
W="pkg/names/words.go"; C="pkg/names/case.go"
TRIALS=[
# names
("x-joined","edit","P02 P01 P10",[(N,"""	chunks := make([]string, len(n.words))
	for i, word := range n.words {
		chunks[i] = strings.ToLower(word.String())
	}
	return strings.Join(chunks, separator)""","""	var builder strings.Builder
	for i, word := range n.words {
		if i > 0 {
			builder.WriteString(separator)
		}
		builder.WriteString(strings.ToLower(word.String()))
	}
	return builder.String()"""),(N,"""	texts := make([]string, len(n.words))
	for i, word := range n.words {
		texts[i] = word.String()
	}
	return strings.Join(texts, "_")""","""	return n.join("_", (*Word).String)"""),(N,"""// Snake""","""func (n *Name) join(separator string, convert func(*Word) string) string {
	var texts []string
	for _, word := range n.words {
		texts = append(texts, convert(word))
	}
	return strings.Join(texts, separator)
}

// Snake""")]),
("x-compare","edit","P02 P03",[(N,"""	minLen := aLen
	if bLen < minLen {
		minLen = bLen
	}
	for i := 0; i < minLen; i++ {
		aText := a.words[i].String()
		bText := b.words[i].String()
		result = strings.Compare(aText, bText)
		if result != 0 {
			break
		}
	}
	if result == 0 {
		if aLen < bLen {
			result = -1
		} else if aLen > bLen {
			result = +1
		}
	}
	return result""","""	for i := 0; i < aLen && i < bLen; i++ {
		switch {
		case a.words[i].text < b.words[i].text:
			return -1
		case a.words[i].text > b.words[i].text:
			return 1
		}
	}
	if result = aLen - bLen; result < 0 {
		return -1
	} else if result > 0 {
		return 1
	}
	return 0""")]),
("x-cat","edit","P02 P05",[(N,"""	length := 0
	for _, name := range names {
		length = length + len(name.words)
	}
	result.words = make([]*Word, length)
	i := 0
	for _, name := range names {
		for _, word := range name.words {
			result.words[i] = word
			i++
		}
	}
	return result""","""	result.words = []*Word{}
	for _, name := range names {
		result.words = append(result.words, name.words...)
	}
	return result""")]),
("x-parse-runes","edit","P01 P25",[(P,"""	var runes []rune
	for _, r := range text {
		runes = append(runes, r)
	}
""","""	runes := []rune(text)
"""),(P,"""		buffer := new(bytes.Buffer)
		for i := 0; i < size-1; i++ {
			current := runes[i]
			next := runes[i+1]
			buffer.WriteRune(current)
			if unicode.IsLower(current) != unicode.IsLower(next) {
				chunk := buffer.String()
				chunks = append(chunks, chunk)
				buffer.Reset()
			}
		}
		buffer.WriteRune(runes[size-1])
		chunk := buffer.String()
		chunks = append(chunks, chunk)""","""		start := 0
		for i := 1; i < size; i++ {
			if unicode.IsLower(runes[i-1]) == unicode.IsLower(runes[i]) {
				continue
			}
			chunks = append(chunks, string(runes[start:i]))
			start = i
		}
		chunks = append(chunks, string(runes[start:]))"""),(P,"""	"bytes"
""","")]),
("x-parse-loop","edit","P01",[(P,"""		i := 0
		for i < size-1 {
			current := chunks[i]
			next := chunks[i+1]
""","""		i := 0
		for ; i+1 < size; i++ {
			current, next := chunks[i], chunks[i+1]
"""),(P,"""				word := NewWord(strings.ToLower(current) + next)
				words = append(words, word)
				i = i + 2
				continue""","""				words = append(words, NewWord(strings.ToLower(current)+next))
				i++
				continue"""),(P,"""				words = append(words, word)
				i = i + 2
				continue
			}

			// An upper""","""				words = append(words, word)
				i++
				continue
			}

			// An upper"""),(P,"""				words = append(words, first)
				words = append(words, second)
				i = i + 2
				continue""","""				words = append(words, first, second)
				i++
				continue"""),(P,"""			words = append(words, word)
			i++
		}""","""			words = append(words, word)
		}""")]),
("x-case","edit","P01 P10",[(C,"""	for _, r := range s {
		if !unicode.IsLower(r) {
			return false
		}
	}
	return true""","""	return strings.IndexFunc(s, func(r rune) bool { return !unicode.IsLower(r) }) < 0"""),(C,"""import (
""","""import (
	"strings"
""")]),
# concepts
("x-types-sort","edit","P03 P05 P26",[(V,"""	count := len(v.types)
	types := make(TypeSlice, count)
	index := 0
	for _, typ := range v.types {
		types[index] = typ
		index++
	}
	sort.Sort(types)
	return types""","""	types := make(TypeSlice, 0, len(v.types))
	for name := range v.types {
		types = append(types, v.types[name])
	}
	sort.Slice(types, types.Less)
	return types""")]),
("x-attr-insert","edit","P03 P13",[(T,"""		t.attributes = append(t.attributes, attribute)
		sort.Sort(t.attributes)
		attribute.SetOwner(t)""","""		index := sort.Search(len(t.attributes), func(i int) bool {
			return names.Compare(t.attributes[i].Name(), attribute.Name()) > 0
		})
		t.attributes = append(t.attributes, nil)
		copy(t.attributes[index+1:], t.attributes[index:])
		t.attributes[index] = attribute
		attribute.SetOwner(t)""")]),
("x-types-stable","edit","P03",[(T,"""		t.values = append(t.values, value)
		sort.Sort(t.values)
		value.SetType(t)""","""		value.SetType(t)
		values := append(EnumValueSlice{value}, t.values...)
		sort.Stable(sort.Reverse(sort.Reverse(values)))
		t.values = values""")]),
("x-paths-rec","edit","P06 P27 P14",[(V,"""	var results [][]*Locator
	var pending [][]*Locator
	for _, locator := range v.Root().Locators() {
		path := []*Locator{locator}
		pending = append(pending, path)
	}
""","""	var results [][]*Locator
	pending := v.extend(nil, v.Root())
"""),(V,"""		last := current[size-1]
		for _, locator := range last.Target().Locators() {
			path := make([]*Locator, size+1)
			copy(path, current)
			path[size] = locator
			pending = append(pending, path)
		}
""","""		pending = append(pending, v.extend(current, current[size-1].Target())...)
"""),(V,"""func (v *Version) addScalarType(""","""func (v *Version) extend(path []*Locator, resource *Resource) (result [][]*Locator) {
	for _, locator := range resource.Locators() {
		result = append(result, append(append([]*Locator{}, path...), locator))
	}
	return
}

func (v *Version) addScalarType(""")]),
("x-builtin","edit","P03 P05 P13",[(V,"""	version.addScalarType(nomenclator.Boolean)
	version.addScalarType(nomenclator.Integer)
	version.addScalarType(nomenclator.Long)
	version.addScalarType(nomenclator.Float)
	version.addScalarType(nomenclator.String)
	version.addScalarType(nomenclator.Date)
""","""	for _, name := range []*names.Name{
		nomenclator.Date, nomenclator.String, nomenclator.Float,
		nomenclator.Long, nomenclator.Integer, nomenclator.Boolean,
	} {
		version.addScalarType(name)
	}
""")]),
# reader
("x-lists","edit","P05 P24",[(R,"""	for _, service := range r.model.Services() {
		for _, version := range service.Versions() {
			for _, typ := range version.Types() {
				if typ.Kind() != concepts.ListType {
					listName := names.Cat(typ.Name(), nomenclator.List)
					listType := version.FindType(listName)
					if listType == nil {
						listType = concepts.NewType()
						listType.SetKind(concepts.ListType)
						listType.SetName(listName)
						listType.SetElement(typ)
						version.AddType(listType)
					}
				}
			}
		}
	}
""","""	for _, service := range r.model.Services() {
		for _, version := range service.Versions() {
			r.addListTypes(version)
		}
	}
"""),(R,"""func (r *Reader) loadModel(dir""","""func (r *Reader) addListTypes(version *concepts.Version) {
	for _, typ := range version.Types() {
		if typ.IsList() {
			continue
		}
		name := typ.Name().Append(nomenclator.List.Words()...)
		if version.FindType(name) != nil {
			continue
		}
		list := concepts.NewType()
		list.SetName(name)
		list.SetElement(typ)
		list.SetKind(concepts.ListType)
		version.AddType(list)
	}
}

func (r *Reader) loadModel(dir""")]),
("x-undefined-order","edit","P05 P12",[(R,"""	for _, undefinedType := range r.undefinedTypes {
		r.reporter.Errorf("Type '%s' isn't completely defined", undefinedType.Name())
	}
""","""	var undefined []string
	for key := range r.undefinedTypes {
		undefined = append(undefined, key)
	}
	sort.Strings(undefined)
	for _, key := range undefined {
		r.reporter.Errorf("Type '%s' isn't completely defined", r.undefinedTypes[key].Name())
	}
"""),(R,"""	"path/filepath"
""","""	"path/filepath"
	"sort"
""")]),
("x-errors-plural","edit","P05 P12",[(R,"""	errors := r.reporter.Errors()
	if errors > 0 {
		if errors > 1 {
			err = fmt.Errorf("there were %d errors", errors)
		} else {
			err = fmt.Errorf("there was 1 error")
		}
		return
	}
""","""	switch count := r.reporter.Errors(); count {
	case 0:
	case 1:
		return nil, errors.New("there was 1 error")
	default:
		return nil, fmt.Errorf("there were %d errors", count)
	}
"""),(R,"""import (
""","""import (
	"errors"
""")]),
("x-walk","edit","P24 P25 P26",[(R,"""	fileInfos, err := ioutil.ReadDir(dir)
	if err != nil {
		r.reporter.Errorf("Can't list version directory '%s': %v", dir, err)
		return
	}
""","""	fileInfos, err := os.ReadDir(dir)
	if err != nil {
		r.reporter.Errorf("Can't list version directory '%s': %v", dir, err)
		return
	}
"""),(R,"if fileInfo.Mode().IsRegular() {","if fileInfo.Type().IsRegular() {"),(R,"""	"io/ioutil"
""","")]),
("x-stat","edit","P24 P05",[(R,"""	dirInfo, err := os.Stat(dir)
	if os.IsNotExist(err) {
		r.reporter.Errorf("Version directory '%s' doesn't exist", dir)""","""	dirInfo, err := os.Stat(dir)
	if errors.Is(err, os.ErrNotExist) {
		r.reporter.Errorf("Version directory '%s' doesn't exist", dir)"""),(R,"""import (
""","""import (
	"errors"
"""),(R,"""	errors := r.reporter.Errors()
	if errors > 0 {
		if errors > 1 {
			err = fmt.Errorf("there were %d errors", errors)
""","""	count := r.reporter.Errors()
	if count > 0 {
		if count > 1 {
			err = fmt.Errorf("there were %d errors", count)
"""),(R,"""	errors := r.reporter.Errors()
	tree := parser.File()""","""	before := r.reporter.Errors()
	tree := parser.File()"""),(R,"if r.reporter.Errors() > errors {","if r.reporter.Errors() != before {")]),
("x-define","edit","P05 P25 P11",[(R,"""	typ := r.version.FindType(name)
	if typ == nil {
		typ = concepts.NewType()
		typ.SetKind(concepts.StructType)
		typ.SetName(name)
		r.version.AddType(typ)
	} else if r.isUndefinedType(typ) {
		typ.SetKind(concepts.StructType)
		r.removeUndefinedType(typ)
	} else {
		r.reporter.Errorf("Type '%s' is already defined", name)
		return
	}
""","""	typ := r.define(name, concepts.StructType)
	if typ == nil {
		return
	}
"""),(R,"""	typ := r.version.FindType(name)
	if typ == nil {
		typ = concepts.NewType()
		typ.SetKind(concepts.EnumType)
		typ.SetName(name)
		r.version.AddType(typ)
	} else if r.isUndefinedType(typ) {
		typ.SetKind(concepts.EnumType)
		r.removeUndefinedType(typ)
	} else {
		r.reporter.Errorf("Type '%s' is already defined", name)
		return
	}
""","""	typ := r.define(name, concepts.EnumType)
	if typ == nil {
		return
	}
"""),(R,"""func (r *Reader) removeLinkedAttributes(""","""func (r *Reader) define(name *names.Name, kind concepts.TypeKind) (typ *concepts.Type) {
	typ = r.version.FindType(name)
	switch {
	case typ == nil:
		typ = concepts.NewType()
		typ.SetName(name)
		defer r.version.AddType(typ)
	case !r.isUndefinedType(typ):
		r.reporter.Errorf("Type '%s' is already defined", name)
		return nil
	default:
		r.removeUndefinedType(typ)
	}
	typ.SetKind(kind)
	return typ
}

func (r *Reader) removeLinkedAttributes(""")]),
("x-ref-split","edit","P26",[(R,"""	path = strings.TrimPrefix(path, "/")
	components := strings.Split(path, "/")
""","""	if strings.HasPrefix(path, "/") {
		path = path[1:]
	}
	components := strings.SplitN(path, "/", -1)
""")]),
# checks
("x-filter","edit","P04",[(K,"""func (r *Reader) checkAdd(""","""func (r *Reader) filter(method *concepts.Method, match func(*concepts.Parameter) bool) (result []*concepts.Parameter) {
	for _, parameter := range method.Parameters() {
		if match(parameter) {
			result = append(result, parameter)
		}
	}
	return
}

func (r *Reader) checkAdd("""),(K,"""	// Get the input and output parameters:
	var in []*concepts.Parameter
	var out []*concepts.Parameter
	for _, parameter := range method.Parameters() {
		if parameter.In() {
			in = append(in, parameter)
		}
		if parameter.Out() {
			out = append(out, parameter)
		}
	}

	// At most""","""	in := r.filter(method, (*concepts.Parameter).In)
	out := r.filter(method, func(p *concepts.Parameter) bool { return p.Out() })

	// At most""")]),
("x-check-order","edit","P04 P07",[(K,"""	// Run specific checks according tot he type of method:
	switch {
	case method.IsAdd():
		r.checkAdd(method)
	case method.IsDelete() || method.IsAsyncDelete():
		r.checkDelete(method)
	case method.IsGet():
		r.checkGet(method)
	case method.IsList():
		r.checkList(method)
	case method.IsPost():
		r.checkPost(method)
	case method.IsSearch():
		r.checkSearch(method)
	case method.IsUpdate() || method.IsAsyncUpdate():
		r.checkUpdate(method)
""","""	checks := []struct {
		applies bool
		run     func(*concepts.Method)
	}{
		{method.IsUpdate(), r.checkUpdate},
		{method.IsAsyncUpdate(), r.checkUpdate},
		{method.IsSearch(), r.checkSearch},
		{method.IsPost(), r.checkPost},
		{method.IsList(), r.checkList},
		{method.IsGet(), r.checkGet},
		{method.IsDelete(), r.checkDelete},
		{method.IsAsyncDelete(), r.checkDelete},
		{method.IsAdd(), r.checkAdd},
	}
	matched := false
	for _, check := range checks {
		if check.applies {
			check.run(method)
			matched = true
		}
	}
	switch {
	case matched:
""")]),
("x-dflt","edit","P04",[(K,"""		switch value.(type) {
		case bool:
			typ = version.Boolean()
		case int:
			typ = version.IntegerType()
		case string:
			typ = version.StringType()
		default:""","""		if _, ok := value.(bool); ok {
			typ = version.Boolean()
		} else if _, ok := value.(int); ok {
			typ = version.IntegerType()
		} else if reflect.ValueOf(value).Kind() == reflect.String {
			typ = version.StringType()
		} else {"""),(K,"""import (
""","""import (
	"reflect"

""")]),
("x-loop-set","edit","P08",[(K,"""	last := len(path) - 1
	first := -1
	for i := last; i >= 0; i-- {
		if path[i].Owner() == path[last].Target() {
			first = i
			break
		}
	}
	if first >= 0 {""","""	last := len(path) - 1
	owners := map[*concepts.Resource]int{}
	for i, locator := range path {
		owners[locator.Owner()] = i
	}
	if first, ok := owners[path[last].Target()]; ok {""")]),
# http
("x-http-table","edit","P07 P14",[(B,"""	name := method.Name()
	switch {
	case name.Equals(nomenclator.Add):
		return http.MethodPost
	case name.Equals(nomenclator.Delete) || name.Equals(nomenclator.AsyncDelete):
		return http.MethodDelete
	case name.Equals(nomenclator.Get):
		return http.MethodGet
	case name.Equals(nomenclator.List):
		return http.MethodGet
	case name.Equals(nomenclator.Post):
		return http.MethodPost
	case name.Equals(nomenclator.Update) || name.Equals(nomenclator.AsyncUpdate):
		return http.MethodPatch
	default:
		return http.MethodPost
	}""","""	for verb, names := range verbs {
		for _, name := range names {
			if method.Name().Equals(name) {
				return verb
			}
		}
	}
	return http.MethodPost"""),(B,"""// Default status""","""var verbs = map[string][]*names.Name{
	http.MethodDelete: {nomenclator.Delete, nomenclator.AsyncDelete},
	http.MethodGet:    {nomenclator.Get, nomenclator.List},
	http.MethodPatch:  {nomenclator.Update, nomenclator.AsyncUpdate},
}

// Default status"""),(B,"""	"github.com/openshift-online/ocm-api-metamodel/pkg/nomenclator"
""","""	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/pkg/nomenclator"
""")]),
("x-http-body","edit","P07 P09",[(B,"""	if method.IsAction() {
		for _, parameter := range method.Parameters() {
			if parameter.In() {
				result = append(result, parameter)
			}
		}
	} else {
		for _, parameter := range method.Parameters() {
			if parameter.In() && !parameter.Type().IsScalar() {
				result = append(result, parameter)
			}
		}
	}
	return result""","""	query := map[*concepts.Parameter]struct{}{}
	for _, parameter := range c.RequestQueryParameters(method) {
		query[parameter] = struct{}{}
	}
	for _, parameter := range c.RequestParameters(method) {
		if _, ok := query[parameter]; !ok {
			result = append(result, parameter)
		}
	}
	return result""")]),
# openapi
("x-oa-sort","edit","P14 P24",[(O,"""	prefixes := make([]string, len(index))
	i := 0
	for prefix := range index {
		prefixes[i] = prefix
		i++
	}
	sort.Strings(prefixes)
""","""	var prefixes []string
	for prefix := range index {
		prefixes = append(prefixes, prefix)
	}
	sort.Slice(prefixes, func(i, j int) bool { return prefixes[i] < prefixes[j] })
"""),(O,"""	var parameters []*concepts.Parameter
	for _, parameter := range g.binding.RequestQueryParameters(method) {
		parameters = append(parameters, parameter)
	}
""","""	parameters := g.binding.RequestQueryParameters(method)
""")]),
# types generator
("x-ty-get","edit","P15 P17 P18",[(TG,"""				ok = o != nil && o.bitmap_&{{ $fieldMask }} != 0
				if ok {
					value = o.{{ $fieldName }}
				}
				return
			}
		{{ end }}
""","""				if o == nil {
					return
				}
				if o.bitmap_&{{ $fieldMask }} == 0 {
					return
				}
				return o.{{ $fieldName }}, true
			}
		{{ end }}
"""),(TG,"""			var slice []*{{ $objectName }}
			if l == nil {
				slice = make([]*{{ $objectName}}, 0)
			} else {
				slice = make([]*{{ $objectName}}, len(l.items))
				copy(slice, l.items)
			}
			return slice""","""			slice := []*{{ $objectName }}{}
			l.Each(func(item *{{ $objectName }}) bool {
				slice = append(slice, item)
				return true
			})
			return slice"""),(TG,"""			for index, item := range l.items {
				if !f(index, item) {
					break
				}
			}
""","""			for i := 0; i < len(l.items) && f(i, l.items[i]); i++ {
			}
""")]),
("x-ty-name","edit","P15 P25",[(TG,"""	typeName := annotations.GoName(value.Type())
	if typeName == "" {
		typeName = g.names.Public(value.Type().Name())
	}
	valueName := annotations.GoName(value)
	if valueName == "" {
		valueName = g.names.Public(value.Name())
	}
	return typeName + valueName""","""	valueName := annotations.GoName(value)
	if len(valueName) == 0 {
		valueName = g.names.Public(value.Name())
	}
	return strings.Join([]string{g.objectName(value.Type()), valueName}, "")"""),(TG,"""import (
""","""import (
	"strings"
""")]),
# builders
("x-bu-copy","edit","P15 P16",[(BG,"""								b.{{ $fieldName }} = make([]*{{ selectorType . }}{{ builderName .Type.Element }}, len(object.{{ $fieldName }}))
								for i, v := range object.{{ $fieldName }} {
									b.{{ $fieldName }}[i] = {{ selectorType . }}{{ builderCtor .Type.Element }}().Copy(v)
								}""","""								{{ $items := print $fieldName "Items_" }}
								{{ $items }} := make([]*{{ selectorType . }}{{ builderName .Type.Element }}, 0, len(object.{{ $fieldName }}))
								for _, v := range object.{{ $fieldName }} {
									{{ $items }} = append({{ $items }}, {{ selectorType . }}{{ builderCtor .Type.Element }}().Copy(v))
								}
								b.{{ $fieldName }} = {{ $items }}"""),(BG,"""			if object == nil {
				return b
			}
			b.bitmap_ = object.bitmap_
			{{ if .Type.IsClass }}
				b.id = object.id
				b.href = object.href
			{{ end }}
""","""			if object == nil {
				return b
			}
			{{ if .Type.IsClass }}
				b.id, b.href = object.id, object.href
			{{ end }}
			defer func() {
				b.bitmap_ = object.bitmap_
			}()
""")]),
("x-bu-copy2","edit","P15 P16",[(BG,"""			b.bitmap_ = object.bitmap_
			{{ if .Type.IsClass }}
				b.id = object.id""","""			*b = {{ $builderName }}{}
			b.bitmap_ = object.bitmap_
			{{ if .Type.IsClass }}
				b.id = object.id"""),(BG,"""								b.{{ $fieldName }} = make({{ $fieldType }}, len(object.{{ $fieldName }}))
								copy(b.{{ $fieldName }}, object.{{ $fieldName }})""","""								b.{{ $fieldName }} = append({{ $fieldType }}{}, object.{{ $fieldName }}...)""")]),
("x-bu-build","edit","P15",[(BG,"""			object = new({{ $objectName }})
			{{ if .Type.IsClass }}
				object.id = b.id
				object.href = b.href
			{{ end }}
			object.bitmap_ = b.bitmap_
""","""			object = &{{ $objectName }}{
				bitmap_: b.bitmap_,
				{{ if .Type.IsClass }}
					id: b.id,
					href: b.href,
				{{ end }}
			}
"""),(BG,"""						if value != nil {
							b.bitmap_ |= {{ $fieldMask }}
						} else {
							b.bitmap_ &^= {{ $fieldMask }}
						}""","""						b.bitmap_ |= {{ $fieldMask }}
						if value == nil {
							b.bitmap_ ^= {{ $fieldMask }}
						}""")]),
# json
("x-js-write","edit","P17 P18",[(JG,"""						if count > 0 {
							stream.WriteMore()
						}
						stream.WriteObjectField("{{ $fieldTag }}")
""","""						switch {
						case count != 0:
							stream.WriteMore()
						}
						stream.WriteObjectField("{{ $fieldTag }}")
"""),(JG,"""			for i, value := range list {
				if i > 0 {
					stream.WriteMore()
				}
				{{ generateWriteValue "value" .Type.Element false .linkOwner }}
			}
			stream.WriteArrayEnd()
""","""			for i := 0; i < len(list); i++ {
				value := list[i]
				{{ generateWriteValue "value" .Type.Element false .linkOwner }}
				if i+1 < len(list) {
					stream.WriteMore()
				}
			}
			stream.WriteArrayEnd()
""")]),
("x-js-read","edit","P17 P20",[(JG,"""			object := &{{ $structName }}{}
			for {
				field := iterator.ReadObject()
				if field == "" {
					break
				}
				switch field {
				{{ if .Type.IsClass }}""","""			object := new({{ $structName }})
			for field := iterator.ReadObject(); field != ""; field = iterator.ReadObject() {
				switch field {
				{{ if .Type.IsClass }}"""),(JG,"""						value := iterator.ReadString()
						if value == {{ $structName }}LinkKind {
							object.bitmap_ |= 1
						}""","""						switch iterator.ReadString() {
						case {{ $structName }}LinkKind:
							object.bitmap_ |= 1
						}""")]),
("x-js-marshal","edit","P17 P19",[(JG,"""			stream := helpers.NewStream(writer)
			{{ $writeTypeFunc }}(object, stream)
			err := stream.Flush()
			if err != nil {
				return err
			}
			return stream.Error""","""			stream := helpers.NewStream(writer)
			{{ $writeTypeFunc }}(object, stream)
			if err := stream.Flush(); err != nil {
				return err
			}
			return stream.Error""")]),
]
CG="pkg/generators/golang/clients_generator.go"; EG="pkg/generators/golang/errors_generator.go"; HG="pkg/generators/golang/helpers_generator.go"; TC="pkg/generators/golang/types_calculator.go"
TRIALS+=[
("x-cl-send","edit","P19 P20 P21 P22",[(CG,"""			uri := &url.URL{
				Path: r.path,
				RawQuery: query.Encode(),
			}
			request := &http.Request{
				Method: "{{ httpMethod .Method }}",
				URL:    uri,
				Header: header,
				{{ if $requestBodyParameters }}
					Body: io.NopCloser(buffer),
				{{ end }}
			}
			if ctx != nil {
				request = request.WithContext(ctx)
			}
			response, err := r.transport.RoundTrip(request)
			if err != nil {
				return
			}
			defer response.Body.Close()
			result = &{{ $responseName }}{}
			result.status = response.StatusCode
			result.header = response.Header
""","""			var uri url.URL
			uri.Path = r.path
			uri.RawQuery = query.Encode()
			request := new(http.Request)
			request.Header = header
			request.Method = "{{ httpMethod .Method }}"
			request.URL = &uri
			{{ if $requestBodyParameters }}
				request.Body = io.NopCloser(bytes.NewReader(buffer.Bytes()))
			{{ end }}
			if ctx != nil {
				request = request.WithContext(ctx)
			}
			response, err := r.transport.RoundTrip(request)
			if err != nil {
				return
			}
			defer func() {
				_ = response.Body.Close()
			}()
			result = &{{ $responseName }}{
				status: response.StatusCode,
				header: response.Header,
			}
"""),(CG,"""				result.err, err = errors.UnmarshalErrorStatus(reader, result.status)
				if err != nil {
					return
				}
				err = result.err
				return
			}
			{{ if $responseParameters }}
				err = {{ readResponseFunc .Method }}(result, reader)
				if err != nil {
					return
				}
			{{ end }}
			return
		}
		`,
		"Method", method,
		"Main", main,""","""				if result.err, err = errors.UnmarshalErrorStatus(reader, result.status); err == nil {
					err = result.err
				}
				return
			}
			{{ if $responseParameters }}
				return result, {{ readResponseFunc .Method }}(result, reader)
			{{ else }}
				return result, nil
			{{ end }}
		}
		`,
		"Method", method,
		"Main", main,""")]),
("x-cl-name","edit","P10 P19",[(CG,"""		name = resourceName + methodName
	}
	name += "Request"
	return name""","""		name = fmt.Sprintf("%s%s", resourceName, methodName)
	}
	return name + "Request\""""),(CG,"""	name := g.names.Private(parameter.Name())
	name = avoidBuiltin(name, builtinFields)
	return name""","""	return avoidBuiltin(g.names.Private(parameter.Name()), builtinFields)""")]),
("x-cl-get","edit","P20",[(CG,"""				ok = r != nil && r.{{ $fieldName }} != nil
				if ok {
					{{ if .Type.IsScalar }}
						value = {{ if not .Type.IsInterface }}*{{ end }}r.{{ $fieldName }}
					{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap }}
						value = r.{{ $fieldName }}
					{{ end }}
				}
				return""","""				if r == nil || r.{{ $fieldName }} == nil {
					return
				}
				{{ if .Type.IsInterface }}
					value = r.{{ $fieldName }}
				{{ else if .Type.IsScalar }}
					value = *r.{{ $fieldName }}
				{{ else }}
					value = r.{{ $fieldName }}
				{{ end }}
				return value, true""")]),
("x-er-chunks","edit","P23",[(EG,"""			chunks := make([]string, 0, 3)
			if e.bitmap_&1 != 0 {
				chunks = append(chunks, fmt.Sprintf("status is %d", e.status))
			}""","""			var chunks []string
			if status, ok := e.GetStatus(); ok {
				chunks = append(chunks, "status is " + strconv.Itoa(status))
			}"""),(EG,"""			if size == 1 {
				result = chunks[0]
			} else if size > 1 {
				result = strings.Join(chunks[0:size-1], ", ") + " and " + chunks[size-1]
			}""","""			for i, chunk := range chunks {
				switch {
				case i == 0:
				case i == size - 1:
					result += " and "
				default:
					result += ", "
				}
				result += chunk
			}""")]),
("x-er-write","edit","P23 P20",[(EG,"""			result = &Error{
				status:      b.status,
				id:          b.id,
				href:        b.href,
				code:        b.code,
				reason:      b.reason,
				details:     b.details,
				operationID: b.operationID,
				timestamp:   b.timestamp,
				bitmap_:     b.bitmap_,
			}
			return""","""			object := Error(*b)
			return &object, nil"""),(EG,"""			object, err = UnmarshalError(source)
			if err != nil {
				return
			}
			object.status = status
			object.bitmap_ |= 1
			return""","""			object, err = UnmarshalError(source)
			if err == nil {
				object.bitmap_ |= 1
				object.status = status
			}
			return""")]),
("x-he-poll","edit","P21",[(HG,"""			for {
				// Execute the task.""","""			for attempt := 0; ; attempt++ {
				if attempt > 0 {
					time.Sleep(interval)
				}

				// Execute the task."""),(HG,"""				if time.Now().Add(interval).After(deadline) {
					cancel()
					break
				}
				time.Sleep(interval)
			}
""","""				if deadline.Before(time.Now().Add(interval)) {
					break
				}
			}
"""),(HG,"""				statusOK := evalStatus(statuses, status)
				predicatesOK := evalPredicates(predicates, result)
				if statusOK && predicatesOK {
					break
				}""","""				if evalStatus(statuses, status) && evalPredicates(predicates, result) {
					break
				}""")]),
("x-he-copy","edit","P22 P19",[(HG,"""			result := make([]string, len(values))
			copy(result, values)
			return result""","""			return append([]string{}, values...)"""),(HG,"""			for strings.HasPrefix(path, "/") {
				path = path[1:]
			}
			for strings.HasSuffix(path, "/") {
				path = path[0:len(path)-1]
			}
			return strings.Split(path, "/")""","""			return strings.Split(strings.Trim(path, "/"), "/")"""),(HG,"""			var text string
			switch typed := value.(type) {
			case time.Time:
				text = typed.UTC().Format(time.RFC3339)
			default:
				text = fmt.Sprintf("%v", value)
			}
			query.Add(name, text)""","""			text := fmt.Sprint(value)
			if moment, ok := value.(time.Time); ok {
				text = moment.In(time.UTC).Format("2006-01-02T15:04:05Z07:00")
			}
			(*query)[name] = append((*query)[name], text)""")]),
("x-me-rec","edit","P27",[(M,"""	locators := resource.Locators()
	var actions []*concepts.Method
	for _, method := range resource.Methods() {
		if method.IsAction() {
			actions = append(actions, method)
		}
	}
	if len(locators) == 0 && len(actions) == 0 {
		return nil
	}

	// If the target has locators or action methods then populate the branch:
	branch := map[string]interface{}{}
	for _, action := range actions {
		actionLabel := g.binding.MethodSegment(action)
		branch[actionLabel] = nil
	}
	for _, locator := range locators {""","""	branch := map[string]interface{}{}
	defer func() {
		if len(branch) == 0 {
			result = nil
		}
	}()
	for _, method := range resource.Methods() {
		if segment := g.binding.MethodSegment(method); segment != "" {
			branch[segment] = nil
		}
	}
	for _, locator := range resource.Locators() {"""),(M,"resource *concepts.Resource) interface{} {","resource *concepts.Resource) (result interface{}) {"),(M,"""	var buffer bytes.Buffer
	encoder := json.NewEncoder(&buffer)
	encoder.SetIndent("", "  ")
	err = encoder.Encode(mainBranch)
	if err != nil {
		return err
	}
	data := buffer.String()
""","""	text, err := json.MarshalIndent(mainBranch, "", "  ")
	if err != nil {
		return err
	}
	data := string(text) + "\\n"
"""),(M,"""	"bytes"
""","")]),
("x-do-index","edit","P28",[(D,"""	index := strings.IndexRune(doc, '.')
	if index != -1 {
		doc = doc[0 : index+1]
	}

	// The summary is used in the rows of tables, so it can't contain line breaks:
	return strings.ReplaceAll(doc, "\\n", " ")""","""	if index := strings.Index(doc, "."); index >= 0 {
		doc = doc[:index] + "."
	}

	// The summary is used in the rows of tables, so it can't contain line breaks:
	return strings.Join(strings.Split(doc, "\\n"), " ")"""),(D,"""				{{ range .Resources }}
					[{{ displayName . }}]({{ resourceFile . }}.md)
				{{ end }}""","""				{{ range $resource := .Resources }}
					{{ $name := displayName $resource }}
					{{ printf "[%s](%s.md)" $name (resourceFile $resource) }}
				{{ end }}""")]),
("x-do-tabs","edit","P28 P12",[(MB,"""	// Remove the leading tabs from each line:
	for i := range lines {
		lines[i] = strings.TrimLeftFunc(lines[i], func(r rune) bool {
			return r == '\\t'
		})
	}

	// Save the modified lines to the buffer:
	b.code.Reset()
	for _, line := range lines {
		fmt.Fprintln(b.code, line)
	}
""","""	// Remove the leading tabs from each line and save the result to the buffer:
	b.code.Reset()
	for _, line := range lines {
		b.code.WriteString(strings.TrimLeft(line, "\\t"))
		b.code.WriteByte('\\n')
	}
"""),(MB,"""	data := make(map[string]interface{})
	for i := 0; i < count; i = i + 2 {
		name := args[i].(string)
		value := args[i+1]
		data[name] = value
	}
""","""	data := make(map[string]interface{}, count/2)
	for len(args) > 0 {
		data[fmt.Sprint(args[0])] = args[1]
		args = args[2:]
	}
""")]),
]
