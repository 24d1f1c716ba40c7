package pointer

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/buypal/oapi-go/internal/pointer"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

// manyTokens has n tokens, each with something to escape, one of them (at either end or in the middle) with a symbolic byte after so many escapes.
func manyTokens(n int) []string {
	var toks []string
	for i := 0; i < n; i++ {
		toks = append(toks, "t/~"+strconv.Itoa(i))
	}
	if n > 0 {
		at := []int{0, n / 2, n - 1}[nd.Choose("at", 3)]
		toks[at] = strings.Repeat("~/a", []int{0, 1, 5, 33}[nd.Choose("escapes", 4)]) + nd.String("byte", 1, 1, "")
	}
	return toks
}

// Fragments of 3..12 or 40 tokens, one of them with 0, 1, 5 or 33 escapes of each kind and any byte: printing and parsing keeps every token, as does extending a fragment by another one.
func C01_many_tokens() {
	n := 3 + nd.Choose("ntok", 11)
	if n == 13 {
		n = 40
	}
	toks := manyTokens(n)
	f := pointer.Fragment(toks)
	s := f.String()
	want := ""
	for _, t := range toks {
		want += "/" + refEscape(t)
	}
	nd.Assert(s == want, "printed fragment is not the RFC 6901 encoding of its tokens")
	g, err := pointer.NewFragment(s)
	nd.Assert(err == nil, "printed fragment does not parse")
	nd.Assert(eqToks(g, toks), "parsing the printed fragment changes its tokens")
	k := []int{0, 1, n / 2, n}[nd.Choose("base", 4)]
	d, err := pointer.Fragment(toks[:k]).Descendant(pointer.Fragment(toks[k:]).String())
	nd.Assert(err == nil, "descendant of a valid path rejected")
	if k < n {
		nd.Assert(eqToks(d, toks), "descendant is not the base followed by the path")
	}
	nd.Assert(eqToks(pointer.Fragment(toks[:k]).RawDescendant(toks[k:]...), toks), "raw descendant is not the base followed by the tokens")
	nd.Cover("ok")
}

// Pointers to packages of 2..8 or 30 path segments, of names of 20 or 200 letters, or with fragments of 2..12 or 40 tokens, one with 0, 1, 5 or 33 escapes of each kind and any ASCII byte: the package, the tokens and the text survive, as text and as JSON.
func C02_long_pointers() {
	pkg := "x.io"
	segs, name, n := 1, 1, 1
	switch nd.Choose("long", 3) {
	case 0:
		segs = []int{2, 3, 4, 5, 6, 7, 8, 30}[nd.Choose("segments", 8)]
	case 1:
		name = []int{20, 200}[nd.Choose("name", 2)]
	case 2:
		n = []int{2, 3, 5, 8, 9, 12, 40}[nd.Choose("ntok", 7)]
	}
	for i := 1; i < segs; i++ {
		pkg += "/s" + strconv.Itoa(i)
	}
	pkg += strings.Repeat("q", name)
	toks := manyTokens(n)
	for _, t := range toks { // JSON carries text only
		for k := 0; k < len(t); k++ {
			nd.Assume(t[k] < 0x80)
		}
	}
	p, err := pointer.NewGoPointer(pkg, "")
	nd.Assert(err == nil, "go pointer to a valid package rejected")
	p.Fragment = pointer.Fragment(toks)
	for _, asJSON := range []bool{false, true} {
		q, err := pointer.Parse(p.String())
		if asJSON {
			b, err2 := json.Marshal(&p)
			nd.Assert(err2 == nil, "pointer has no JSON form")
			q = pointer.Pointer{}
			err = json.Unmarshal(b, &q)
		}
		nd.Assert(err == nil, "printed go pointer does not parse")
		nd.Assert(q.PkgPath() == pkg && eqToks(q.Fragment, toks) && q.Scheme == "go", "printing and parsing a go pointer changes it")
		nd.Assert(q.String() == p.String(), "text of a reparsed pointer differs")
	}
	nd.Cover("ok")
}

// A base fragment of 3..9 or 17 tokens, built token by token or at once, and every pair of derivations from it: neither changes the base nor the other one.
func C03_derivations_of_long_fragments() {
	n := 3 + nd.Choose("ntok", 8)
	if n == 10 {
		n = 17
	}
	var base pointer.Fragment
	if nd.Choose("built", 2) == 1 {
		base = make(pointer.Fragment, 0, 2*n)
	}
	for i := 0; i < n; i++ {
		base = append(base, "t"+strconv.Itoa(i))
	}
	was := snap(base)
	all := []pointer.Fragment{base}
	wants := [][]string{was}
	for i := 0; i < 2; i++ {
		w := nd.OneOf("tok", "p", "q")
		src := all[nd.Choose("src", len(all))]
		var out pointer.Fragment
		var want []string
		switch nd.Choose("op", 4) {
		case 0:
			d, err := src.Descendant(w + "/" + w)
			nd.Assert(err == nil, "descendant failed")
			out, want = d, append(snap(src), w, w)
		case 1:
			out, want = src.RawDescendant(w), append(snap(src), w)
		case 2:
			k := []int{0, 1, len(src) / 2, len(src) - 1}[nd.Choose("k", 4)]
			r, err := src.Replace(k, w)
			nd.Assert(err == nil, "replacing a token in range failed")
			want = snap(src)
			want[k] = w
			out = r
		case 3:
			out, want = src.Clone(), snap(src)
			out[len(out)-1] = w
			want[len(want)-1] = w
		}
		all, wants = append(all, out), append(wants, want)
		for j := range all {
			nd.Assert(eqToks(all[j], wants[j]), "deriving a fragment changed another one, or gave the wrong tokens")
		}
	}
	nd.Cover("ok")
}
