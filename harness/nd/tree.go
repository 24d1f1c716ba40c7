package nd

// Tree helpers: bounded JSON-like values whose shape the engine forks on.

// Leaf is a symbolic scalar, null or a one-element array.
func Leaf(label string, charset string) interface{} {
	switch Choose(label+".leaf", 3) {
	case 0:
		return String(label+".s", 1, 1, charset)
	case 1:
		return nil
	default:
		return []interface{}{String(label+".e", 1, 1, charset)}
	}
}

// Obj is an object over the given keys: every key is absent, a leaf or (depth > 1) an object over the first sub keys.
func Obj(label string, depth int, keys []string, sub int, charset string) map[string]interface{} {
	m := map[string]interface{}{}
	for _, k := range keys {
		n := 2
		if depth > 1 {
			n = 3
		}
		switch Choose(label+"."+k, n) {
		case 0:
		case 1:
			m[k] = Leaf(label+"."+k, charset)
		case 2:
			m[k] = Obj(label+"."+k, depth-1, keys[:sub], sub, charset)
		}
	}
	return m
}

// Equal is structural equality of JSON-like values.
func Equal(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case int:
		y, ok := b.(int)
		return ok && x == y
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			w, ok := y[k]
			if !ok || !Equal(x[k], w) {
				return false
			}
		}
		return true
	}
	return false
}

// Copy is a deep copy of a JSON-like value.
func Copy(a interface{}) interface{} {
	switch x := a.(type) {
	case []interface{}:
		y := make([]interface{}, len(x))
		for i := range x {
			y[i] = Copy(x[i])
		}
		return y
	case map[string]interface{}:
		y := map[string]interface{}{}
		for k, v := range x {
			y[k] = Copy(v)
		}
		return y
	}
	return a
}

// Scramble changes every object and array inside a JSON-like value in place.
func Scramble(a interface{}) {
	switch x := a.(type) {
	case []interface{}:
		for i := range x {
			Scramble(x[i])
			x[i] = "scrambled"
		}
	case map[string]interface{}:
		var ks []string
		for k, v := range x {
			Scramble(v)
			ks = append(ks, k)
		}
		for _, k := range ks {
			x[k] = "scrambled"
		}
		x["scrambled"] = 1.0
	}
}
