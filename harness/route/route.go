package route

import (
	"strings"

	"github.com/buypal/oapi-go/internal/route"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

// A pattern piece: literal text, a variable "{id}" (one or more characters other than '/') or "*" (anything).
type piece struct {
	kind int // 0 literal, 1 variable, 2 star
	text string
}

func match(ps []piece, s string) bool {
	if len(ps) == 0 {
		return s == ""
	}
	p := ps[0]
	switch p.kind {
	case 0:
		return strings.HasPrefix(s, p.text) && match(ps[1:], s[len(p.text):])
	case 1:
		for i := 0; i < len(s) && s[i] != '/'; i++ {
			if match(ps[1:], s[i+1:]) {
				return true
			}
		}
		return false
	default:
		for i := 0; i <= len(s); i++ {
			if match(ps[1:], s[i:]) {
				return true
			}
		}
		return false
	}
}

func text(ps []piece) string {
	out := ""
	for _, p := range ps {
		out += p.text
	}
	return out
}

func symPieces(max int, lits string) []piece {
	n := nd.Choose("npieces", max+1)
	ps := []piece{{0, "/"}}
	for i := 0; i < n; i++ {
		switch nd.Choose("piece", 4) {
		case 0:
			ps = append(ps, piece{0, nd.String("lit", 1, 1, lits)})
		case 1:
			ps = append(ps, piece{0, "/"})
		case 2:
			ps = append(ps, piece{1, nd.OneOf("var", "{id}", "{userId}", "{_id}", "{user_id-}", "{I-D2}")})
		case 3:
			ps = append(ps, piece{2, "*"})
		}
	}
	return ps
}

// Patterns "/" followed by 0..2 (quick) / 0..3 (thorough) pieces (a literal character over "a . + $ ( [ ^ | ? - ~ space", "/", a variable or "*") against every path "/" plus 0..3 characters over "a b / . + $ ( [".
func C08_pattern_matches_path() {
	ps := symPieces(nd.Bound(2, 3), "a.+$([^|?-~ ")
	p := "/" + nd.String("path", 0, 3, "ab/.+$([")
	got, err := route.Match(text(ps), "get", p)
	nd.Assert(err == nil, "valid pattern rejected")
	nd.Assert(got == match(ps, p), "match differs from literal/variable/wildcard semantics")
	if got {
		nd.Cover("match")
	} else {
		nd.Cover("no match")
	}
}

// Patterns "/" followed by 0..2 pieces (a literal "a", "/", a variable or "*") against every path "/" plus 0..2 (quick) / 0..3 (thorough) arbitrary bytes, line breaks, zero bytes and invalid UTF-8 included.
func C08_any_path() {
	ps := symPieces(2, "a")
	p := "/" + nd.String("path", 0, nd.Bound(2, 3), "")
	got, err := route.Match(text(ps), "", p)
	nd.Assert(err == nil, "valid pattern rejected")
	variables := 0
	for _, x := range ps {
		variables += x.kind & 1
	}
	// a variable may take a whole character only
	nd.Assume(variables == 0 || ascii(p))
	nd.Assert(got == match(ps, p), "match differs from literal/variable/wildcard semantics")
	nd.Cover("ok")
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// Patterns with a method prefix (8 methods of OpenAPI operations in lower, upper and mixed case, or none) against these 8 operation methods in lower or upper case or an empty one.
func C08_method_prefix() {
	methods := []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}
	pm := nd.Choose("pmethod", len(methods)+1)
	om := nd.Choose("omethod", len(methods)+1)
	pattern, method := "/a", ""
	if pm > 0 {
		m := methods[pm-1]
		switch nd.Choose("case", 3) {
		case 1:
			m = strings.ToUpper(m)
		case 2:
			m = strings.ToUpper(m[:1]) + m[1:]
		}
		pattern = m + ":/a"
	}
	if om > 0 {
		method = methods[om-1]
		if nd.Choose("upper", 2) == 1 {
			method = strings.ToUpper(method)
		}
	}
	p := nd.OneOf("path", "/a", "/b", "/a/", "a", "")
	got, err := route.Match(pattern, method, p)
	nd.Assert(err == nil, "valid pattern rejected")
	want := p == "/a" && (pm == 0 || om == 0 || pm == om)
	nd.Assert(got == want, "method prefix does not restrict matching to operations of that method")
	nd.Cover("ok")
}

// A pattern with two method prefixes, or with a prefix in the middle, is the method of the first one and a literal: it matches exactly the paths that begin with the second prefix.
func C08_only_the_first_prefix() {
	first := nd.OneOf("first", "get:", "POST:", "", "/")
	second := nd.OneOf("second", "get:", "put:", "trace:", "UPDATE:", "acl:", "get")
	tail := nd.OneOf("tail", "/a", "*")
	path := nd.OneOf("path", "/a", "get:/a", "put:/a", "trace:/a", "UPDATE:/a", "/get:/a", "/UPDATE:/a", "acl:/a", "get/a")
	pattern := first + second + tail
	lit, method := second, strings.TrimSuffix(strings.ToLower(first), ":")
	switch first {
	case "/":
		lit, method = "/"+second, ""
	case "":
		method = strings.ToLower(strings.TrimSuffix(second, ":"))
		lit = ""
		if second == "get" {
			lit, method = second, ""
		}
	}
	om := nd.OneOf("method", "", "get", "put", "post", "trace")
	got, err := route.Match(pattern, om, path)
	nd.Assert(err == nil, "valid pattern rejected")
	want := om == "" || method == "" || om == method
	if tail == "*" {
		want = want && strings.HasPrefix(path, lit)
	} else {
		want = want && path == lit+tail
	}
	nd.Assert(got == want, "only the first prefix is a method")
	nd.Cover("ok")
}

// A match of one of 3 patterns (a symbolic literal, a variable, a wildcard) against a path of one symbolic character, before and after 1, 70, 130 or (thorough) 300 other patterns: the results are those of the match on its own.
func C08_after_many_matches() {
	pat := nd.OneOf("pattern", "/"+nd.String("literal", 1, 1, "ab."), "/{id}", "*")
	path := "/" + nd.String("path", 1, 1, "ab./")
	want := pat == "*" || pat == path || pat == "/{id}" && path != "//"
	before := nd.Choose("before", 2) == 1
	if before {
		got, err := route.Match(pat, "get", path)
		nd.Assert(err == nil && got == want, "match differs from literal/variable/wildcard semantics")
	}
	n := []int{1, 70, 130, 300}[nd.Choose("n", nd.Bound(3, 4))]
	for i := 0; i < n; i++ {
		other := "/x" + string([]byte{byte('a' + i/26%26), byte('a' + i%26)})
		if i >= 26*26 {
			other += "{id}"
		}
		got, err := route.Match(other, "get", other)
		nd.Assert(err == nil && got, "an earlier match influences a later one")
	}
	got, err := route.Match(pat, "get", path)
	nd.Assert(err == nil && got == want, "an earlier match influences a later one")
	nd.Cover("ok")
}

// A prefix naming one of 31 methods that OpenAPI operations cannot have (CONNECT and those of WebDAV and its extensions) never matches an operation of the 8 OpenAPI methods, and matches the
// path when the method is left open.
func C08_foreign_method_prefix() {
	m := nd.OneOf("prefix", "ACL", "BASELINE-CONTROL", "BIND", "CHECKIN", "CHECKOUT", "CONNECT", "COPY", "LABEL", "LINK", "LOCK", "MERGE", "MKACTIVITY", "MKCALENDAR", "MKCOL", "MKREDIRECTREF",
		"MKWORKSPACE", "MOVE", "ORDERPATCH", "PRI", "PROPFIND", "PROPPATCH", "REBIND", "REPORT", "SEARCH", "UNBIND", "UNCHECKOUT", "UNLINK", "UNLOCK", "UPDATE", "UPDATEREDIRECTREF", "VERSION-CONTROL")
	if nd.Choose("lower", 2) == 1 {
		m = strings.ToLower(m)
	}
	om := nd.OneOf("method", "", "get", "put", "post", "delete", "options", "head", "patch", "trace")
	got, err := route.Match(m+":/a", om, "/a")
	nd.Assert(err == nil, "valid pattern rejected")
	nd.Assert(got == (om == ""), "method prefix does not restrict matching to operations of that method")
	got, err = route.Match(m+":/a", "", "/b")
	nd.Assert(err == nil && !got, "pattern with a method prefix matches another path")
	nd.Cover("ok")
}

// A pattern of 1..2 (quick) / 1..3 (thorough) arbitrary bytes after "/" against the paths "/" and "/é": matching never crashes, an error comes with no match, and the same call again, after matching another pattern, gives the same.
func C08_arbitrary_bytes() {
	pat := "/" + nd.String("pattern", 1, nd.Bound(2, 3), "")
	path := []string{"/", "/é"}[nd.Choose("path", 2)]
	got, err := route.Match(pat, "get", path)
	nd.Assert(err == nil || !got, "an unreadable pattern matches")
	other, oerr := route.Match("/{id}", "get", path)
	nd.Assert(oerr == nil && other == (len(path) > 1), "an earlier match influences a later one")
	again, aerr := route.Match(pat, "get", path)
	nd.Assert(again == got && (aerr == nil) == (err == nil), "an earlier match influences a later one")
	if err != nil {
		nd.Cover("error")
	} else {
		nd.Cover("valid")
	}
}

// Three matches in sequence of two patterns (symbolic literal over "a A b .", variable or wildcard, method or none) against a symbolic path of 1..2 characters: earlier matches never influence later ones.
func C08_history_independent() {
	mk := func(label string) (string, []piece) {
		ps := []piece{{0, "/" + nd.String(label, 1, 1, "aAb.")}}
		switch nd.Choose(label+".tail", 3) {
		case 1:
			ps = append(ps, piece{1, "{id}"})
		case 2:
			ps = append(ps, piece{2, "*"})
		}
		return nd.OneOf(label+".method", "", "get:", "POST:"), ps
	}
	m1, p1 := mk("p1")
	m2, p2 := mk("p2")
	path := "/" + nd.String("path", 1, 2, "aAb./")
	want := func(m string, ps []piece) bool { return m != "POST:" && match(ps, path) }
	got, err := route.Match(m1+text(p1), "get", path)
	nd.Assert(err == nil, "valid pattern rejected")
	nd.Assert(got == want(m1, p1), "match differs from literal/variable/wildcard semantics")
	got, err = route.Match(m2+text(p2), "get", path)
	nd.Assert(err == nil, "valid pattern rejected")
	nd.Assert(got == want(m2, p2), "an earlier match influences a later one")
	got, err = route.Match(m1+text(p1), "get", path)
	nd.Assert(err == nil, "valid pattern rejected")
	nd.Assert(got == want(m1, p1), "an earlier match influences a later one")
	nd.Cover("ok")
}

// A literal pattern "/" plus 0..2 (quick) / 0..3 (thorough) characters (letters, digits, regular expression metacharacters; no braces or '*') matches exactly the equal path, for any
// path of 0..4 of these characters.
func C08_literals_match_only_themselves() {
	const chars = "ab1./+?$^()[]|\\-_~"
	lit := "/" + nd.String("lit", 0, nd.Bound(2, 3), chars)
	p := "/" + nd.String("path", 0, nd.Bound(2, 3), chars)
	got, err := route.Match(lit, "", p)
	nd.Assert(err == nil, "literal pattern rejected")
	nd.Assert(got == (lit == p), "literal pattern matches something else or misses itself")
	nd.Cover("ok")
}

// Two (quick) or three (thorough) goroutines that match at the same time, each one of 5 patterns (equal or different ones, a literal with a symbolic character, a variable, a wildcard, one with a method, one that cannot be read) against a path of one symbolic character, after none or one of the patterns was
// matched before, in all schedules with at most 2 (quick) or 3 (thorough) preemptions at synchronisation operations: all of them end with the results they have on their own, as do the same matches afterwards, and no two accesses race.
func C08_matching_at_the_same_time() {
	nd.Schedules(nd.Bound(2, 3))
	n := nd.Bound(2, 3)
	type call struct {
		pat, path string
		want, bad bool
		got       bool
		err       error
	}
	calls := make([]*call, n)
	path := "/" + nd.String("path", 1, 1, "ab./")
	for i := range calls {
		c := &call{path: path}
		switch nd.Choose("pattern", 5) {
		case 0:
			c.pat = "/" + nd.String("literal", 1, 1, "ab.")
			c.want = c.pat == c.path
		case 1:
			c.pat, c.want = "/{id}", c.path != "//"
		case 2:
			c.pat, c.want = "*", true
		case 3:
			c.pat = "post:*"
		case 4:
			c.pat, c.bad = "/\xff", true
		}
		calls[i] = c
	}
	check := func(msg string) {
		for _, c := range calls {
			nd.Assert((c.err != nil) == c.bad && c.got == c.want, msg)
		}
	}
	if nd.Choose("before", 2) == 1 {
		got, err := route.Match(calls[0].pat, "get", calls[0].path)
		nd.Assert((err != nil) == calls[0].bad && got == calls[0].want, "match differs from literal/variable/wildcard semantics")
	}
	var fs []func()
	for _, c := range calls {
		c := c
		fs = append(fs, func() { c.got, c.err = route.Match(c.pat, "get", c.path) })
	}
	nd.Parallel(fs...)
	check("matching at the same time gives another result")
	for _, c := range calls {
		c.got, c.err = route.Match(c.pat, "get", c.path)
	}
	check("an earlier match influences a later one")
	nd.Cover("ok")
}

// Patterns of 3..8 (quick) / 3..12 (thorough) segments — all variables, a literal at any one place among variables, variables at every other place among literals, a wildcard at any one place — against every path of as many segments, the first, the last and that one being any character over "ab./", and the same without the last segment.
func C08_many_segments() {
	n := 3 + nd.Choose("segments", nd.Bound(6, 10))
	at := nd.Choose("at", n)
	scheme := nd.Choose("scheme", 4)
	var ps []piece
	p := ""
	for i := 0; i < n; i++ {
		x := piece{1, "{v" + string(rune('a'+i)) + "}"}
		switch {
		case scheme == 1 && i == at, scheme == 2 && i%2 == at%2:
			x = piece{0, "a"}
		case scheme == 3 && i == at:
			x = piece{2, "*"}
		}
		ps = append(ps, piece{0, "/"}, x)
		y := "a"
		if i == at || i == 0 || i == n-1 {
			y = nd.String("segment", 1, 1, "ab./")
		}
		p += "/" + y
	}
	if nd.Choose("shorter", 2) == 1 {
		p = p[:len(p)-2]
	}
	got, err := route.Match(text(ps), "get", p)
	nd.Assert(err == nil, "valid pattern rejected")
	nd.Assert(got == match(ps, p), "match differs from literal/variable/wildcard semantics")
	nd.Cover("ok")
}
