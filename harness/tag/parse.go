package tag

import (
	"github.com/buypal/oapi-go/internal/zzverif/nd"
	"github.com/buypal/oapi-go/tag"
)

func fp(f float64) *float64 { return &f }
func ip(i int64) *int64     { return &i }
func bp(b bool) *bool       { return &b }

// same compares two tags field by field.
func same(a, b tag.Tag) bool {
	eqF := func(x, y *float64) bool { return (x == nil) == (y == nil) && (x == nil || *x == *y) }
	eqI := func(x, y *int64) bool { return (x == nil) == (y == nil) && (x == nil || *x == *y) }
	eqB := func(x, y *bool) bool { return (x == nil) == (y == nil) && (x == nil || *x == *y) }
	return a.Ignore == b.Ignore && eqB(a.Inline, b.Inline) && a.OmitEmpty == b.OmitEmpty && eqB(a.Nullable, b.Nullable) &&
		a.ReadOnly == b.ReadOnly && a.WriteOnly == b.WriteOnly && a.Deprecated == b.Deprecated && a.Required == b.Required &&
		a.Name == b.Name && a.Pattern == b.Pattern && a.Format == b.Format && a.Type == b.Type &&
		eqF(a.Min, b.Min) && eqF(a.Max, b.Max) && eqF(a.EMin, b.EMin) && eqF(a.EMax, b.EMax) && eqF(a.MulOf, b.MulOf) &&
		eqI(a.MinLen, b.MinLen) && eqI(a.MaxLen, b.MaxLen) && eqI(a.MinItems, b.MinItems) && eqI(a.MaxItems, b.MaxItems) &&
		a.UniqItems == b.UniqItems && eqI(a.MinProps, b.MinProps) && eqI(a.MaxProps, b.MaxProps)
}

var boolOpts = []string{"omitempty", "readonly", "writeonly", "deprecated", "unique", "required", "inline", "nullable"}
var intOpts = []string{"maxlen", "minlen", "maxitems", "minitems", "maxprops", "minprops"}
var floatOpts = []string{"max", "min", "emax", "emin", "mulof"}
var strOpts = []string{"pattern", "format", "type"}

func setBool(t *tag.Tag, name string, v bool) {
	switch name {
	case "omitempty":
		t.OmitEmpty = v
	case "readonly":
		t.ReadOnly = v
	case "writeonly":
		t.WriteOnly = v
	case "deprecated":
		t.Deprecated = v
	case "unique":
		t.UniqItems = v
	case "required":
		t.Required = v
	case "inline":
		t.Inline = bp(v)
	case "nullable":
		t.Nullable = bp(v)
	}
}

func setInt(t *tag.Tag, name string, v int64) {
	switch name {
	case "maxlen":
		t.MaxLen = ip(v)
	case "minlen":
		t.MinLen = ip(v)
	case "maxitems":
		t.MaxItems = ip(v)
	case "minitems":
		t.MinItems = ip(v)
	case "maxprops":
		t.MaxProps = ip(v)
	case "minprops":
		t.MinProps = ip(v)
	}
}

func setFloat(t *tag.Tag, name string, v float64) {
	switch name {
	case "max":
		t.Max = fp(v)
	case "min":
		t.Min = fp(v)
	case "emax":
		t.EMax = fp(v)
	case "emin":
		t.EMin = fp(v)
	case "mulof":
		t.MulOf = fp(v)
	}
}

func setStr(t *tag.Tag, name string, v string) {
	switch name {
	case "pattern":
		t.Pattern = v
	case "format":
		t.Format = v
	case "type":
		t.Type = v
	}
}

var options = append(append(append(append([]string{}, boolOpts...), intOpts...), floatOpts...), strOpts...)

// option returns the text of option k with a symbolic value and records its meaning.
func option(k int, t *tag.Tag) string {
	name := options[k]
	switch {
	case k < len(boolOpts):
		switch nd.Choose(name, 4) {
		case 0:
			setBool(t, name, true)
			return name
		case 1:
			setBool(t, name, true)
			return name + ":true"
		case 2:
			setBool(t, name, false)
			return name + ":false"
		default:
			setBool(t, name, false)
			return name + ":0"
		}
	case k < len(boolOpts)+len(intOpts):
		d := nd.String(name, 1, nd.Bound(1, 2), "0123456789") + "8"
		n := int64(0)
		for i := 0; i < len(d); i++ {
			n = n*10 + int64(d[i]-'0')
		}
		setInt(t, name, n)
		return name + ":" + d
	case k < len(boolOpts)+len(intOpts)+len(floatOpts):
		i := nd.Choose(name, 4)
		setFloat(t, name, []float64{0, -1.5, 1e3, 250}[i])
		return name + ":" + []string{"0", "-1.5", "1e3", "250"}[i]
	default:
		v := nd.String(name, 1, nd.Bound(1, 3), "az09^$.[]{}+*-_/|")
		setStr(t, name, v)
		return name + ":" + v
	}
}

// Every ordered pair of the 22 options with symbolic values (presence or truth value, numbers of 2 (quick) / 2..3 (thorough) digits, four
// decimal numbers, text of 1 / 1..3 characters), with or without a name: exactly the stated constraints are reported with exactly these values.
func C16_options_set_exactly_their_fields() {
	var want tag.Tag
	a := nd.Choose("first", len(options))
	b := nd.Choose("second", len(options))
	nd.Assume(a != b)
	text := ""
	if nd.Choose("named", 2) == 1 {
		text = "n"
		want.Name = "n"
	}
	text += "," + option(a, &want) + "," + option(b, &want)
	got, err := tag.Parse("x:\"y,required\" oapi:\"" + text + "\"")
	nd.Assert(err == nil, "valid options are rejected")
	nd.Assert(same(got, want), "options do not set exactly the constraints they name")
	nd.Cover("ok")
}

// All 22 options at once.
func C16_all_options_together() {
	var want tag.Tag
	text := "n"
	want.Name = "n"
	for i, o := range options {
		text += ","
		switch {
		case i < len(boolOpts):
			text += o
			setBool(&want, o, true)
		case i < len(boolOpts)+len(intOpts):
			text += o + ":" + string([]byte{byte('1' + i - len(boolOpts))})
			setInt(&want, o, int64(1+i-len(boolOpts)))
		case i < len(boolOpts)+len(intOpts)+len(floatOpts):
			text += o + ":" + string([]byte{byte('1' + i - len(boolOpts) - len(intOpts))}) + ".5"
			setFloat(&want, o, float64(1+i-len(boolOpts)-len(intOpts))+0.5)
		default:
			text += o + ":" + o
			setStr(&want, o, o)
		}
	}
	got, err := tag.Parse("oapi:\"" + text + "\"")
	nd.Assert(err == nil, "valid options are rejected")
	nd.Assert(same(got, want), "options do not set exactly the constraints they name")
	nd.Cover("ok")
}

// Numbers and truth values that are not: every numeric and boolean option with 17 texts (integers, decimals, truth values and malformed ones) is rejected exactly when it is no number or truth value.
func C16_malformed_values_are_errors() {
	k := nd.Choose("option", len(boolOpts)+len(intOpts)+len(floatOpts))
	v := nd.OneOf("value", "1a", "a", "--1", "1.", ".", "yes", "e", "1,5x", "0x", "1 1", "-", "1", "t", "-1", "1.5", "true")
	isInt := v == "1" || v == "-1"
	isFloat := isInt || v == "1." || v == "1.5"
	isBool := v == "1" || v == "t" || v == "true"
	if v == "1,5x" { // a value and a separate unknown option
		isInt, isFloat, isBool = true, true, true
	}
	ok := isFloat
	if k < len(boolOpts) {
		ok = isBool
	} else if k < len(boolOpts)+len(intOpts) {
		ok = isInt
	}
	_, err := tag.Parse("oapi:\"," + options[k] + ":" + v + "\"")
	nd.Assert((err == nil) == ok, "malformed value accepted or valid value rejected")
	if err != nil {
		nd.Cover("error")
	} else {
		nd.Cover("ok")
	}
}

// JSON and oapi tags side by side, each absent or one of eight forms (name, omitempty, inline, both, "-", empty): the oapi name wins over the JSON one, options of both
// apply, an oapi option overrules the JSON one, and "-" in either drops the field.
func C16_json_and_oapi_tags_combine() {
	forms := []string{"", "%", ",omitempty", ",inline", "%,omitempty", "%,omitempty,inline", "-", ",string", "%,omitempty:false", ",inline:false"}
	j := nd.Choose("json", len(forms)+1)
	o := nd.Choose("oapi", len(forms)+1)
	swap := nd.Choose("swap", 2) == 1
	var want tag.Tag
	jt, ot := "", ""
	apply := func(k int, name string) string {
		if k == 0 {
			return ""
		}
		f := forms[k-1]
		if f == "-" {
			want.Ignore = true
			return f
		}
		out := ""
		for i := 0; i < len(f); i++ {
			if f[i] == '%' {
				out += name
				want.Name = name
			} else {
				out += f[i : i+1]
			}
		}
		switch k - 1 {
		case 2, 4:
			want.OmitEmpty = true
		case 3:
			want.Inline = bp(true)
		case 5:
			want.OmitEmpty = true
			want.Inline = bp(true)
		case 8:
			want.OmitEmpty = false
		case 9:
			want.Inline = bp(false)
		}
		return out
	}
	if j > 0 {
		jt = "json:\"" + apply(j, "jn") + "\""
	}
	if o > 0 {
		ot = "oapi:\"" + apply(o, "on") + "\""
	}
	text := jt + " " + ot
	if swap {
		text = ot + " " + jt
	}
	got, err := tag.Parse(text)
	nd.Assert(err == nil, "valid tags are rejected")
	if want.Ignore {
		nd.Assert(got.Ignore, "a field excluded from JSON is not excluded from the schema")
		nd.Cover("ignored")
		return
	}
	nd.Assert(same(got, want), "JSON and oapi tags do not combine")
	nd.Cover("ok")
}

// Any of the options that take numbers with whole numbers up to the greatest and least of 64 bits and 16 decimal numbers that need all digits of a double: the constraint has exactly that value, whole numbers beyond 64 bits are errors.
func C16_exact_numbers() {
	var want tag.Tag
	k := len(boolOpts) + nd.Choose("option", len(intOpts)+len(floatOpts))
	name, text, ok := options[k], "", true
	if k < len(boolOpts)+len(intOpts) {
		texts := []string{"127", "128", "255", "256", "32768", "65536", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551616"}
		values := []int64{127, 128, 255, 256, 32768, 65536, 2147483647, 2147483648, -2147483649, 4294967295, 4294967296, 9007199254740993, 9223372036854775807, -9223372036854775808, 0, 0}
		i := nd.Choose("number", len(texts))
		text, ok = texts[i], i < 14
		setInt(&want, name, values[i])
	} else {
		texts := []string{"0.1", "123456.789", "1e300", "-1e-300", "3.141592653589793", "16777217", "9007199254740993", "2147483648", "1e22", "5e-324", "1.7976931348623157e308", "-0.3333333333333333", "1E5", "+2.5", ".5", "100000000000000000000"}
		values := []float64{0.1, 123456.789, 1e300, -1e-300, 3.141592653589793, 16777217, 9007199254740993, 2147483648, 1e22, 5e-324, 1.7976931348623157e308, -0.3333333333333333, 1e5, 2.5, .5, 1e20}
		i := nd.Choose("number", len(texts))
		text = texts[i]
		setFloat(&want, name, values[i])
	}
	got, err := tag.Parse("oapi:\"," + name + ":" + text + "\"")
	nd.Assert((err == nil) == ok, "malformed value accepted or valid value rejected")
	if err != nil {
		nd.Cover("error")
		return
	}
	nd.Assert(same(got, want), "a number is not exactly the one of the tag")
	nd.Cover("ok")
}

// 0, 1, 5, 8, 9, 16, 17 or 40 tags of other packages before, behind or around the oapi and JSON ones, and that many options the parser does not know among the ones it does: what the tag asks for is the same as without them.
func C16_among_many_tags() {
	n := []int{0, 1, 5, 8, 9, 16, 17, 40}[nd.Choose("tags", 8)]
	m := []int{0, 1, 8, 9, 20}[nd.Choose("options", 5)]
	at := nd.Choose("place", 3)
	other := func(i int) string {
		return "x" + string([]byte{byte('a' + i/10), byte('a' + i%10)}) + ":\"v,required,min:1\" "
	}
	opts := ""
	for i := 0; i < m; i++ {
		opts += ",z" + string([]byte{byte('a' + i/10), byte('a' + i%10)}) + ":7"
	}
	own := "json:\"j,omitempty\" oapi:\",min:3" + opts + ",deprecated\" "
	text := ""
	for i := 0; i < n; i++ {
		if at == 0 && i == 0 || at == 1 && i == n/2 {
			text += own
		}
		text += other(i)
	}
	if at == 2 || n == 0 {
		text += own
	}
	got, err := tag.Parse(text[:len(text)-1])
	nd.Assert(err == nil, "valid tags are rejected")
	nd.Assert(same(got, tag.Tag{Name: "j", OmitEmpty: true, Deprecated: true, Min: fp(3)}), "tags of other packages matter")
	nd.Cover("ok")
}

// Quoted option values with text of 0..3 (quick) / 0..4 (thorough) characters over "a , : ( ) space ^ $": the value is exactly the text between the quotes, and options after it are still seen.
func C16_quoted_values() {
	v := nd.String("value", 0, nd.Bound(3, 4), "a,:() ^$")
	k := nd.Choose("option", len(strOpts))
	var want tag.Tag
	setStr(&want, strOpts[k], v)
	want.Required = true
	text := "," + strOpts[k] + ":'" + v + "',required"
	if nd.Choose("first", 2) == 1 {
		text = ",required," + strOpts[k] + ":'" + v + "'"
	}
	got, err := tag.Parse("oapi:\"" + text + "\"")
	nd.Assert(err == nil, "quoted value rejected")
	nd.Assert(same(got, want), "quoted option value is not the text between its quotes")
	nd.Cover("ok")
}

// Any tag text of 0..4 (quick) / 0..5 (thorough) characters, bare or inside an oapi tag: parsing never panics, and a tag without an oapi or json key means nothing.
func C16_any_text_is_safe() {
	v := nd.String("text", 0, nd.Bound(4, 5), "a-:,'(\\\" ")
	if nd.Choose("bare", 2) == 1 {
		got, err := tag.Parse(v)
		if err == nil {
			nd.Assert(same(got, tag.Tag{}), "a tag of other packages sets constraints")
			nd.Cover("bare")
		}
		return
	}
	_, err := tag.Parse("oapi:\"" + v + "\"")
	if err == nil {
		nd.Cover("ok")
	} else {
		nd.Cover("error")
	}
}

// Two tags in sequence, each with a name, one of the 22 options with a symbolic value and, for the first, text that is rejected or not; then the first again: every one is what it states, whatever was parsed before.
func C16_parsing_has_no_memory() {
	var wa, wb tag.Tag
	wa.Name, wb.Name = "n", "n"
	a := `oapi:"n,` + option(nd.Choose("first", len(options)), &wa) + `"`
	b := `oapi:"n,` + option(nd.Choose("second", len(options)), &wb) + `"`
	if nd.Choose("rejected", 2) == 1 {
		_, err := tag.Parse(`oapi:"n,maxlen:x"`)
		nd.Assert(err != nil, "a number which cannot be read is accepted")
	}
	ga, err := tag.Parse(a)
	nd.Assert(err == nil && same(ga, wa), "options do not set exactly the constraints they name")
	gb, err := tag.Parse(b)
	nd.Assert(err == nil && same(gb, wb), "what a tag states depends on those parsed before")
	nd.Assert(same(ga, wa), "what a tag states changes with those parsed afterwards")
	gc, err := tag.Parse(a)
	nd.Assert(err == nil && same(gc, wa), "what a tag states depends on those parsed before")
	nd.Cover("ok")
}
