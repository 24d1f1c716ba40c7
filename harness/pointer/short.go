package pointer

import (
	"net/url"

	"github.com/buypal/oapi-go/internal/pointer"
	"github.com/buypal/oapi-go/internal/zzverif/nd"
)

// Every text of 0..2 (quick) / 0..3 (thorough) bytes of any value, alone or after "#", "#/", "go://a.b/c", "go://a.b/c#/" or "x.yaml#/": it is a pointer exactly when it is a URI reference whose fragment is one of RFC 6901
// (the reference being net/url and an independent splitter), and then names that document and those tokens.
func C02_parse_is_uri_and_rfc6901() {
	pre := nd.OneOf("pre", "", "#", "#/", "go://a.b/c", "go://a.b/c#/", "x.yaml#/")
	s := pre + nd.String("text", 0, nd.Bound(2, 3), "")
	p, err := pointer.Parse(s)
	u, uerr := url.Parse(s)
	if uerr != nil {
		nd.Assert(err != nil, "text that is not a URI is accepted as pointer")
		nd.Cover("not a URI")
		return
	}
	toks, ok := refParse(u.Fragment)
	nd.Assert((err == nil) == ok, "pointer accepted or rejected although RFC 6901 says otherwise")
	if !ok {
		nd.Cover("rejected")
		return
	}
	nd.Assert(eqToks(p.Fragment, toks), "tokens of a pointer differ from RFC 6901")
	nd.Assert(p.Scheme == u.Scheme && p.Host == u.Host && p.Path == u.Path && p.RawQuery == u.RawQuery, "pointer designates another document")
	nd.Assert(p.IsExternal() == (u.Scheme != ""), "pointer to another place not recognised")
	nd.Cover("accepted")
}
