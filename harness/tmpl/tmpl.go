// Package tmpl contains simple models of the template and JSON libraries.
package tmpl

// These functions replace, only when the code is executed by the engine, the ones of the standard library that use reflection.

import (
	"encoding/json"
	"errors"
	"io"
	"sort"

	"github.com/openshift-online/ocm-api-metamodel/zzverif/nd"
)

func unsupported() { nd.Assume(false) }

type encoder struct {
	encoder *json.Encoder
	writer  io.Writer
}

var encoders []encoder

//override encoding/json.NewEncoder
func newEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	encoders = append(encoders, encoder{e, w})
	return e
}

//override (*encoding/json.Encoder).Encode
func encode(e *json.Encoder, v interface{}) error {
	text, err := render(v)
	if err != nil {
		return err
	}
	for _, x := range encoders {
		if x.encoder == e {
			_, err := io.WriteString(x.writer, text+"\n")
			return err
		}
	}
	return errors.New("unknown encoder")
}

//override encoding/json.Marshal
func marshal(v interface{}) ([]byte, error) {
	text, err := render(v)
	return []byte(text), err
}

//override encoding/json.MarshalIndent
func marshalIndent(v interface{}, prefix, indent string) ([]byte, error) { return marshal(v) }

func render(v interface{}) (string, error) {
	switch v := v.(type) {
	case nil:
		return "null", nil
	case bool:
		if v {
			return "true", nil
		}
		return "false", nil
	case string:
		// The names used by the harnesses don't need to be escaped.
		return "\"" + v + "\"", nil
	case map[string]interface{}:
		if v == nil {
			return "null", nil
		}
		var keys []string
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		text := "{"
		for i, k := range keys {
			if i > 0 {
				text += ","
			}
			x, err := render(v[k])
			if err != nil {
				return "", err
			}
			text += "\"" + k + "\":" + x
		}
		return text + "}", nil
	case []interface{}:
		text := "["
		for i, item := range v {
			if i > 0 {
				text += ","
			}
			x, err := render(item)
			if err != nil {
				return "", err
			}
			text += x
		}
		return text + "]", nil
	}
	unsupported()
	return "", nil
}
