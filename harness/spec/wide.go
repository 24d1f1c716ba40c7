package spec

import (
	"strconv"
	"strings"

	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

// Documents and schemas whose lists and objects have 2, 9, 17 or 40 members, in one of 10 places, with a symbolic text in one member at either end or in the middle: none is lost, changed or moved.
func C22_wide_documents() {
	n := []int{2, 9, 17, 40}[nd.Choose("members", 4)]
	at := []int{0, n / 2, n - 1}[nd.Choose("at", 3)]
	text := func(i int) string {
		if i == at {
			return nd.String("text", 1, 1, "aZ /~\"<")
		}
		return "t" + strconv.Itoa(i)
	}
	l, m, q := arr{}, obj{}, arr{}
	each := func(f func(i int, t string) interface{}) {
		for i := 0; i < n; i++ {
			v := f(i, text(i))
			l = append(l, v)
			m["k"+strconv.Itoa(i)] = v
			q = append(q, "r"+strconv.Itoa(i))
		}
	}
	schema := func(i int, t string) interface{} { return obj{"type": "string", "description": t} }
	switch nd.Choose("place", 10) {
	case 0:
		each(schema)
		roundTrip("Schema", obj{"type": "object", "properties": m, "required": q})
	case 1:
		each(schema)
		roundTrip("Schema", obj{nd.OneOf("of", "allOf", "oneOf", "anyOf"): l})
	case 2:
		each(func(i int, t string) interface{} { return t })
		roundTrip("Schema", obj{"type": "string", "enum": l})
	case 3:
		each(schema)
		roundTrip("Components", obj{"schemas": m})
	case 4:
		each(func(i int, t string) interface{} {
			return obj{"name": "p" + strconv.Itoa(i), "in": "query", "description": t}
		})
		roundTrip("Operation", obj{"parameters": l, "responses": obj{"200": obj{"description": "d"}}})
	case 5:
		each(func(i int, t string) interface{} { return obj{"description": t, "content": obj{"a/b": obj{}}} })
		r := obj{}
		for i, v := range l {
			r[strconv.Itoa(200+i)] = v
		}
		roundTrip("Operation", obj{"responses": r, "tags": q})
	case 6:
		each(func(i int, t string) interface{} { return obj{"url": "u", "description": t} })
		roundTrip("OpenAPI", obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "1"}, "paths": obj{"/": obj{"summary": "s"}}, "servers": l})
	case 7:
		each(func(i int, t string) interface{} {
			return obj{"get": obj{"summary": t, "responses": obj{"200": obj{"description": "d"}}}}
		})
		p := obj{}
		for i, v := range l {
			p["/p/{x}/"+strconv.Itoa(i)] = v
		}
		roundTrip("OpenAPI", obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "1"}, "paths": p})
	case 8:
		each(func(i int, t string) interface{} { return obj{"name": "n" + strconv.Itoa(i), "description": t} })
		roundTrip("OpenAPI", obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "1"}, "paths": obj{"/": obj{"summary": "s"}}, "tags": l})
	case 9:
		each(schema)
		roundTrip("Schema", obj{"type": "string", "description": strings.Repeat(text(0), n*n)})
	}
}
