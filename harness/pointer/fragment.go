package pointer

import (
	"github.com/buypal/oapi-go/internal/pointer"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

// refEscape is an independent RFC 6901 token encoder.
func refEscape(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '~':
			b = append(b, '~', '0')
		case '/':
			b = append(b, '~', '1')
		default:
			b = append(b, s[i])
		}
	}
	return string(b)
}

// refParse is an independent RFC 6901 parser (left to right, one pass).
func refParse(s string) (toks []string, ok bool) {
	if len(s) == 0 {
		return nil, true
	}
	if s[0] != '/' {
		return nil, false
	}
	var cur []byte
	for i := 1; i < len(s); i++ {
		switch {
		case s[i] == '/':
			toks = append(toks, string(cur))
			cur = nil
		case s[i] == '~' && i+1 < len(s) && s[i+1] == '0':
			cur = append(cur, '~')
			i++
		case s[i] == '~' && i+1 < len(s) && s[i+1] == '1':
			cur = append(cur, '/')
			i++
		case s[i] == '~':
			return nil, false
		default:
			cur = append(cur, s[i])
		}
	}
	return append(toks, string(cur)), true
}

func eqToks(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func symTokens(maxTok, maxLen int, charset string) []string {
	n := nd.Choose("ntok", maxTok+1)
	var toks []string
	for i := 0; i < n; i++ {
		toks = append(toks, nd.String("tok", 0, maxLen, charset))
	}
	return toks
}

// Fragments of 0..2 tokens, every token any byte string of 0..2 bytes (quick) / 0..3 bytes (thorough).
func C01_print_then_parse() {
	toks := symTokens(2, nd.Bound(2, 3), "")
	f := pointer.Fragment(toks)
	s := f.String()
	want := ""
	for _, t := range toks {
		want += "/" + refEscape(t)
	}
	nd.Assert(s == want, "printed fragment is not the RFC 6901 encoding of its tokens")
	g, err := pointer.NewFragment(s)
	nd.Assert(err == nil, "printed fragment does not parse")
	nd.Assert(eqToks(g, toks), "parsing the printed fragment changes its tokens")
	nd.Observe("s", s)
	nd.Cover("round trip")
}

// Every text of 0..4 bytes (quick) / 0..6 bytes (thorough), any bytes.
func C01_parse_agrees_with_rfc() {
	s := nd.String("text", 0, nd.Bound(4, 6), "")
	want, ok := refParse(s)
	f, err := pointer.NewFragment(s)
	nd.Assert((err == nil) == ok, "fragment text accepted or rejected although RFC 6901 says otherwise")
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Assert(eqToks(f, want), "parsed tokens differ from RFC 6901")
	nd.Observe("toks", []string(f))
	nd.Cover("accepted")
}

// Every text over "/ ~ 0 1 a" of 0..6 bytes (quick) / 0..8 bytes (thorough).
func C01_parse_then_print() {
	s := nd.String("text", 0, nd.Bound(6, 8), "/~01a")
	f, err := pointer.NewFragment(s)
	want, ok := refParse(s)
	nd.Assert((err == nil) == ok, "fragment text accepted or rejected although RFC 6901 says otherwise")
	if err != nil {
		nd.Cover("rejected")
		return
	}
	nd.Assert(f.String() == s, "printing a parsed fragment does not give the text back")
	nd.Assert(eqToks(f, want), "parsed tokens differ from RFC 6901")
	nd.Observe("s", f.String())
	nd.Cover("ok")
}

// Base of 0..2 tokens and an extension path of 0..4 bytes (any byte), with and without a leading slash.
func C01_descendant() {
	base := symTokens(2, 1, "")
	path := nd.String("path", 0, nd.Bound(3, 4), "")
	full := path
	if len(path) == 0 || path[0] != '/' {
		full = "/" + path
	}
	ext, ok := refParse(full)
	d, err := pointer.Fragment(base).Descendant(path)
	if !ok {
		nd.Assert(err != nil, "extending a fragment with an invalid path is not an error")
		nd.Cover("invalid")
		return
	}
	nd.Assert(err == nil, "descendant of a valid path rejected")
	want := append(append([]string{}, base...), ext...)
	if len(base) == 1 && base[0] == "" {
		// "/" is documented to act as the root when extended
		want = ext
	}
	nd.Assert(eqToks(d, want), "descendant is not base followed by the parsed path")
	nd.Assert(d.Len() == len(want), "length differs")
	nd.Cover("ok")
}

// Fragments of 0..3 tokens of 0..1 bytes: accessors agree with the token list.
func C01_accessors() {
	toks := symTokens(3, 1, "")
	f := pointer.Fragment(toks)
	h, okh := f.Head()
	l, okl := f.Last()
	nd.Assert(okh == (len(toks) > 0) && okl == (len(toks) > 0), "presence flag wrong")
	nd.Assert(f.IsEmpty() == (len(toks) == 0) && f.Len() == len(toks), "length wrong")
	if len(toks) > 0 {
		nd.Assert(h == toks[0], "head is not the first token")
		nd.Assert(l == toks[len(toks)-1], "last is not the last token")
		nd.Cover("non-empty")
	}
}
