From 94740e43ce23d107f91723e05ea2b0823ec4101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 01/60] fix: Fragment.Replace rejects index equal to length
 instead of panicking

---
 internal/pointer/fragment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pointer/fragment.go b/internal/pointer/fragment.go
index 13d854d..0f05685 100644
--- a/internal/pointer/fragment.go
+++ b/internal/pointer/fragment.go
@@ -65,7 +65,7 @@ func (p Fragment) Clone() Fragment {
 
 // Replace will replace element in fragment
 func (p Fragment) Replace(n int, element string) (Fragment, error) {
-	if n > len(p) || n < 0 {
+	if n >= len(p) || n < 0 {
 		return Fragment{}, errors.New("n out of range")
 	}
 	x := p.Clone()
-- 
2.43.0


From 8cbf0d19fba3befccc7f63f31482e669c5a7ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 02/60] fix: deriving a fragment must not share storage with
 its base

---
 internal/pointer/fragment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pointer/fragment.go b/internal/pointer/fragment.go
index 0f05685..3d28424 100644
--- a/internal/pointer/fragment.go
+++ b/internal/pointer/fragment.go
@@ -97,7 +97,7 @@ func (p Fragment) Descendant(path string) (Fragment, error) {
 		return dpath, nil
 	}
 
-	return append(p, dpath...), nil
+	return append(p.Clone(), dpath...), nil
 }
 
 // RawDescendant extends the pointer with 1 or more path tokens
@@ -105,7 +105,7 @@ func (p Fragment) Descendant(path string) (Fragment, error) {
 // and assumes the user is directly managing the pointer
 // This allows for much faster pointer management
 func (p Fragment) RawDescendant(path ...string) Fragment {
-	return append(p, path...)
+	return append(p.Clone(), path...)
 }
 
 func unescapeToken(tok string) string {
-- 
2.43.0


From 22494c6ff0176c9f4b6f331442658b4646919f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 03/60] fix: percent-encode fragment bytes that pointer parsing
 decodes or rejects

---
 internal/pointer/pointer.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index fcf0656..9bb5180 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 	"net/url"
 	"strconv"
+	"strings"
 )
 
 const defaultPointerAllocationSize = 32
@@ -90,7 +91,22 @@ func (p *Pointer) MarshalJSON() ([]byte, error) {
 
 func (p Pointer) String() string {
 	p.URL.Fragment = ""
-	return fmt.Sprintf("%s#%s", p.URL.String(), p.Fragment.String())
+	return fmt.Sprintf("%s#%s", p.URL.String(), escapeURI(p.Fragment.String()))
+}
+
+// escapeURI percent-encodes bytes which Parse would reject or decode
+// if left as they are in fragment component of URI.
+func escapeURI(s string) string {
+	var b strings.Builder
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; {
+		case c == '%', c < 0x20, c == 0x7f:
+			fmt.Fprintf(&b, "%%%02X", c)
+		default:
+			b.WriteByte(c)
+		}
+	}
+	return b.String()
 }
 
 func (p Pointer) PkgPath() string {
-- 
2.43.0


From 42846b649836cfeecd767dc76442ab4dd35109d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 04/60] fix: encode and decode pointers as JSON strings, not Go
 string literals

---
 internal/pointer/pointer.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index 9bb5180..4c7e66c 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -11,9 +11,9 @@
 package pointer
 
 import (
+	"encoding/json"
 	"fmt"
 	"net/url"
-	"strconv"
 	"strings"
 )
 
@@ -72,8 +72,8 @@ func (p *Pointer) UnmarshalJSON(data []byte) error {
 	if data == nil {
 		return nil
 	}
-	t, err := strconv.Unquote(string(data))
-	if err != nil {
+	var t string
+	if err := json.Unmarshal(data, &t); err != nil {
 		t = string(data)
 	}
 	x, err := Parse(t)
@@ -85,8 +85,7 @@ func (p *Pointer) UnmarshalJSON(data []byte) error {
 }
 
 func (p *Pointer) MarshalJSON() ([]byte, error) {
-	x := fmt.Sprintf("%q", p.String())
-	return []byte(x), nil
+	return json.Marshal(p.String())
 }
 
 func (p Pointer) String() string {
-- 
2.43.0


From b69b9c6f513d0a679d956fabb471f35020b39e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 05/60] fix: escape '~' before '.' when building dot paths

---
 internal/container/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index aa46e0c..85bc911 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -38,8 +38,8 @@ func ExtractKey(c Container, key string) (pp MapSlice, err error) {
 func SliceToDotPath(path []string) string {
 	hierarchy := make([]string, len(path))
 	for i, v := range path {
-		v = strings.Replace(v, ".", "~1", -1)
 		v = strings.Replace(v, "~", "~0", -1)
+		v = strings.Replace(v, ".", "~1", -1)
 		hierarchy[i] = v
 	}
 	return strings.Join(hierarchy, ".")
-- 
2.43.0


From 7c7e79c8765b56d4a51e86187df9120a2aacd8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 06/60] fix: IsNil must not panic on scalar values

---
 internal/container/container.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index c0f28b7..458d0c3 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -134,7 +134,14 @@ func (c Container) Data() interface{} {
 
 // IsNil reports if underlying value of container is nil.
 func (c Container) IsNil() bool {
-	return c.Data() == nil || reflect.ValueOf(c.Data()).IsNil()
+	v := reflect.ValueOf(c.Data())
+	switch v.Kind() {
+	case reflect.Invalid:
+		return true
+	case reflect.Map, reflect.Slice, reflect.Ptr, reflect.Interface:
+		return v.IsNil()
+	}
+	return false
 }
 
 // FilePath returns file path of given container if was ReadFile was used.
-- 
2.43.0


From 59f0667fb0579cd75f695d3e0f99955299bb1367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 07/60] fix: collect keys below object keys that contain dots

---
 internal/container/utils.go | 45 ++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index 85bc911..e69cf36 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -3,6 +3,7 @@ package container
 import (
 	"encoding/json"
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/Jeffail/gabs/v2"
@@ -11,27 +12,41 @@ import (
 
 // ExtractKey will extract keys from container
 func ExtractKey(c Container, key string) (pp MapSlice, err error) {
-	ff, err := c.Flatten()
+	// Flatten rejects anything but object or array
+	_, err = c.Flatten()
 	if err != nil {
 		return nil, err
 	}
-	var ii int
-	for k, v := range ff {
-		x := strings.Split(k, ".")
-		if len(x) == 0 {
-			continue
+	extractKey(c.Data(), nil, key, &pp)
+	return pp, nil
+}
+
+// extractKey walks objects and arrays and collects scalars stored under the key,
+// flattened keys can't be used as they are ambiguous for keys which contain dot.
+func extractKey(v interface{}, path []string, key string, pp *MapSlice) {
+	switch x := v.(type) {
+	case map[string]interface{}:
+		for k, e := range x {
+			p := append(path[:len(path):len(path)], k)
+			switch e.(type) {
+			case map[string]interface{}, []interface{}:
+				extractKey(e, p, key, pp)
+				continue
+			}
+			if k != key {
+				continue
+			}
+			*pp = append(*pp, MapItem{
+				Key:   SliceToDotPath(p),
+				Val:   e,
+				Index: len(*pp),
+			})
 		}
-		if x[len(x)-1] != key {
-			continue
+	case []interface{}:
+		for i, e := range x {
+			extractKey(e, append(path[:len(path):len(path)], strconv.Itoa(i)), key, pp)
 		}
-		pp = append(pp, MapItem{
-			Key:   k,
-			Val:   v,
-			Index: ii,
-		})
-		ii++
 	}
-	return pp, nil
 }
 
 // SliceToDotPath converts slice into dot path
-- 
2.43.0


From 3706ecdc321ed8180802c2cc1b305c60bd49a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 08/60] fix: keys without a fixed position are sorted by name,
 not at random

---
 internal/container/sort.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index e6eb170..2a48f3b 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -111,9 +111,14 @@ func (ms MapSlice) Values() (vx []interface{}) {
 
 // sort interface support
 
-func (ms MapSlice) Len() int           { return len(ms) }
-func (ms MapSlice) Less(i, j int) bool { return ms[i].Index < ms[j].Index }
-func (ms MapSlice) Swap(i, j int)      { ms[i], ms[j] = ms[j], ms[i] }
+func (ms MapSlice) Len() int      { return len(ms) }
+func (ms MapSlice) Swap(i, j int) { ms[i], ms[j] = ms[j], ms[i] }
+func (ms MapSlice) Less(i, j int) bool {
+	if ms[i].Index == ms[j].Index {
+		return ms[i].Key < ms[j].Key
+	}
+	return ms[i].Index < ms[j].Index
+}
 
 // Sort will sort items by index and return copy
 func (ms MapSlice) Sort() MapSlice {
-- 
2.43.0


From 70dab4c645cfd28b1807840a594a0226a1672df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 09/60] fix: top level keys are encoded as JSON strings

---
 internal/container/sort.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index 2a48f3b..a307677 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -3,7 +3,6 @@ package container
 import (
 	"bytes"
 	"encoding/json"
-	"fmt"
 	"sort"
 
 	"gopkg.in/yaml.v2"
@@ -137,7 +136,12 @@ func (ms MapSlice) MarshalJSON() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		buf.WriteString(fmt.Sprintf("%q:", fmt.Sprintf("%v", mi.Key)))
+		k, err := json.Marshal(mi.Key)
+		if err != nil {
+			return nil, err
+		}
+		buf.Write(k)
+		buf.WriteByte(':')
 		buf.Write(b)
 		if i < len(ms)-1 {
 			buf.Write([]byte{','})
-- 
2.43.0


From 9dcd482c8e38b6ebd0ee918529496e72c2d2cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 10/60] fix: generated Go file must compile for documents
 containing backquotes

---
 temp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/temp.go b/temp.go
index a38f436..2d43d9a 100644
--- a/temp.go
+++ b/temp.go
@@ -2,6 +2,7 @@ package oapi
 
 import (
 	"bytes"
+	"strings"
 	"text/template"
 )
 
@@ -19,7 +20,12 @@ type tpldata struct {
 	OpenAPIJson string
 }
 
+// rawStringEscaper escapes characters which are valid inside of json strings
+// but can't be part of go raw string literal.
+var rawStringEscaper = strings.NewReplacer("`", "\\u0060", "\ufeff", "\\ufeff")
+
 func produceGoFile(pkg tpldata) ([]byte, error) {
+	pkg.OpenAPIJson = rawStringEscaper.Replace(pkg.OpenAPIJson)
 	bx := bytes.NewBuffer([]byte{})
 	err := tpl.Execute(bx, pkg)
 	if err != nil {
-- 
2.43.0


From d27c39472911b40214983fc75a098beca0db3ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 11/60] fix: literal text after the last variable of a route
 pattern is matched literally

---
 internal/route/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/route/route.go b/internal/route/route.go
index 7b12c59..fe28757 100644
--- a/internal/route/route.go
+++ b/internal/route/route.go
@@ -87,7 +87,7 @@ func Match(pattern, method, path string) (bool, error) {
 		}
 		last = j
 	}
-	pettern := strings.Join(append(parts, pattern[last:]), "")
+	pettern := strings.Join(append(parts, regexp.QuoteMeta(pattern[last:])), "")
 	reg, err := compileCached(pettern)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 4fe37aa813f92f86e3b0b93e1ee092aad8e21a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 12/60] fix: only operations of a path item receive default
 operations

---
 internal/oapi/oapi.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 9ed7df7..758b078 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -1,6 +1,8 @@
 package oapi
 
 import (
+	"strings"
+
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/route"
@@ -33,6 +35,16 @@ func (fp FlattenPaths) Match(pattern string) (xx FlattenPaths, err error) {
 	return
 }
 
+// isMethod reports if given field of path item holds operation,
+// other fields are e.g. parameters, servers or extensions.
+func isMethod(field string) bool {
+	switch strings.ToLower(field) {
+	case "get", "put", "post", "delete", "options", "head", "patch", "trace":
+		return true
+	}
+	return false
+}
+
 // Paths will parse paths in oapi container and return array of paths.
 func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 	paths, err := cnt.Path("paths").ChildrenMap()
@@ -47,6 +59,9 @@ func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 			return
 		}
 		for m, obj := range mx {
+			if !isMethod(m) {
+				continue
+			}
 			ff = append(ff, FlattenPath{
 				Method:    m,
 				Path:      path,
-- 
2.43.0


From 61927dbbbec77cec6f8ce72fc3adc83317e904e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 13/60] fix: overlapping default operation patterns apply in a
 fixed order

---
 internal/oapi/oapi.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 758b078..85adde2 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -1,6 +1,7 @@
 package oapi
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/buypal/oapi-go/internal/container"
@@ -84,7 +85,15 @@ func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation)
 		return
 	}
 
-	for pattern, override := range defops {
+	patterns := make([]string, 0, len(defops))
+	for pattern := range defops {
+		patterns = append(patterns, pattern)
+	}
+	sort.Strings(patterns) // patterns might overlap, first one wins
+
+	for _, pattern := range patterns {
+		override := defops[pattern]
+
 		var ff FlattenPaths
 		ff, err = paths.Match(pattern)
 		if err != nil {
-- 
2.43.0


From 7c9d0bd7f3f1ec79fa0a374a4eda35bc3353d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 14/60] fix: merging the root document keeps array valued
 sections

---
 internal/oapi/oapi.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 85adde2..ffdcccc 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -151,22 +151,26 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 			continue
 		}
 
-		s := container.New()
+		// sections are merged as values of their key, as some of them
+		// are arrays and only objects can be merged on its own.
+		p := container.New()
 
-		err := s.Merge(z, x.merge)
-		if err != nil {
-			return err
-		}
-
-		err = s.Merge(y, x.merge)
-		if err != nil {
-			return err
+		for _, v := range []container.Container{z, y} {
+			if v.IsNil() {
+				continue
+			}
+			m, err := container.Make(map[string]interface{}{
+				x.key: v.Data(),
+			})
+			if err != nil {
+				return err
+			}
+			err = p.Merge(m, x.merge)
+			if err != nil {
+				return err
+			}
 		}
 
-		p, _ := container.Make(map[string]interface{}{
-			x.key: s.Data(),
-		})
-
 		err = c.Merge(p, container.MergeOverride)
 		if err != nil {
 			return err
-- 
2.43.0


From fadb425da0241e8616d81ac92abd75eda257f230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 15/60] fix: exports whose name contains dots are stored under
 their name

---
 internal/oapi/resolver/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index f95e3bc..bc889b9 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -18,7 +18,7 @@ type Entity struct {
 
 // Path returns dot path.
 func (pe Entity) Path() string {
-	return fmt.Sprintf("%s.%s", pe.Entity.Path(), pe.Name)
+	return fmt.Sprintf("%s.%s", pe.Entity.Path(), container.SliceToDotPath([]string{pe.Name}))
 }
 
 // Fragment return fragment path
-- 
2.43.0


From 663c5976d6e21a2489fd023d287d9771b60a05cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 16/60] fix: replace entity which is nothing but pointer

---
 internal/container/container.go | 10 ++++++++++
 internal/oapi/resolver/utils.go |  9 ++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index 458d0c3..8ebe977 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -173,6 +173,16 @@ func (c Container) SetP(path string, value interface{}) (err error) {
 	return
 }
 
+// Set replaces whole content of container by copy of given value.
+func (c Container) Set(value interface{}) (err error) {
+	val, err := clone(value)
+	if err != nil {
+		return
+	}
+	_, err = c.c.Set(val)
+	return
+}
+
 // Bytes marshals an element to a JSON []byte blob.
 func (c Container) Bytes() []byte {
 	return c.c.Bytes()
diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index bc889b9..9f57a79 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -44,6 +44,9 @@ func SetEntity(cx container.Container, key string, entity EntityValue) (err erro
 	return
 }
 
+// refKey is key of pointer in its object
+const refKey = "$ref"
+
 // ReplacePtr will check if key is path to pointer (aka ends .$ref),
 // if so it will replace given pointer object with value.
 func ReplacePtr(cx container.Container, key string, value interface{}) (err error) {
@@ -51,6 +54,10 @@ func ReplacePtr(cx container.Container, key string, value interface{}) (err erro
 	if !ok {
 		return errors.New("not a pointer")
 	}
+	if key == refKey {
+		// pointer is the container itself
+		return cx.Set(value)
+	}
 	err = cx.SetP(path, value)
 	return
 }
@@ -86,7 +93,7 @@ func isref(s string) (string, bool) {
 		return s, false
 	}
 	last := ss[len(ss)-1]
-	if last != "$ref" {
+	if last != refKey {
 		return s, false
 	}
 	return strings.Join(ss[:len(ss)-1], "."), true
-- 
2.43.0


From 75938e9224bddbe4d1087fb763bf8b625f15f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 17/60] fix: component of an exported pointer does not depend
 on where it was referred from

---
 internal/oapi/resolver/resolver.go | 56 ++++++++++++++++++------------
 internal/oapi/resolver/utils.go    |  7 +---
 2 files changed, 35 insertions(+), 28 deletions(-)

diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index aa43203..dd460b2 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -44,6 +44,7 @@ func Resolve(c container.Container, exp Exports, fn Fn) (container.Container, er
 		con: c.Clone(),
 		exp: exp,
 		res: fn,
+		set: make(map[string]bool),
 	}
 	return r.resolve()
 }
@@ -52,13 +53,14 @@ type resolver struct {
 	con container.Container
 	exp Exports
 	res Fn
+	set map[string]bool // exports which are already components
 }
 
-func (r resolver) resolve() (container.Container, error) {
+func (r *resolver) resolve() (container.Container, error) {
 	return r.iterator(r.con, path{}, 0)
 }
 
-func (r resolver) iterator(cx container.Container, pp path, dept int) (container.Container, error) {
+func (r *resolver) iterator(cx container.Container, pp path, dept int) (container.Container, error) {
 	refs, err := container.ExtractKey(cx, "$ref")
 	if err != nil {
 		return cx, err
@@ -77,8 +79,20 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 			continue
 		}
 
+		if ep, ok := r.exp.Get(p); ok {
+			err = r.export(ep, dept)
+			if err != nil {
+				return zero, err
+			}
+			err = UpdatePtrToLocal(cx, v.Key, ep.Entity.Fragment())
+			if err != nil {
+				return zero, err
+			}
+			continue
+		}
+
 		if pp.has(p) {
-			err = r.setRecursive(cx, p, v.Key)
+			err = ReplacePtrWithEmptyObject(cx, v.Key)
 			if err != nil {
 				return zero, err
 			}
@@ -95,7 +109,7 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 			return zero, err
 		}
 
-		err = r.set(cx, p, v.Key, nc)
+		err = ReplacePtr(cx, v.Key, nc)
 		if err != nil {
 			return zero, err
 		}
@@ -103,30 +117,28 @@ func (r resolver) iterator(cx container.Container, pp path, dept int) (container
 	return cx, nil
 }
 
-// set will set in container key to be a value, if
-// exported sets as global value
-func (r *resolver) set(cx container.Container, ptr pointer.Pointer, key string, value container.Container) (err error) {
-	ep, ok := r.exp.Get(ptr)
-	if !ok {
-		return ReplacePtr(cx, key, value)
+// export will set exported pointer as component of the document. It is resolved
+// on its own, so component does not depend on where the pointer was found.
+func (r *resolver) export(ep Pointer, dept int) (err error) {
+	if r.set[ep.String()] {
+		return nil
 	}
-	e := EntityValue{
-		Entity: ep.Entity,
-		Value:  value,
-	}
-	err = SetEntity(r.con, key, e)
+	r.set[ep.String()] = true
+
+	nc, err := r.res.call(ep.Pointer)
 	if err != nil {
 		return
 	}
-	return UpdatePtrToLocal(cx, key, e.Fragment())
-}
 
-func (r *resolver) setRecursive(cx container.Container, ptr pointer.Pointer, key string) (err error) {
-	ep, ok := r.exp.Get(ptr)
-	if ok && ep.IsScheme() {
-		return UpdatePtrToLocal(cx, key, ep.Entity.Fragment())
+	nc, err = r.iterator(nc, path{ep.Pointer}, dept+1)
+	if err != nil {
+		return
 	}
-	return ReplacePtrWithEmptyObject(cx, key)
+
+	return SetEntity(r.con, EntityValue{
+		Entity: ep.Entity,
+		Value:  nc,
+	})
 }
 
 type path []pointer.Pointer
diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index 9f57a79..3d81de3 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -27,11 +27,6 @@ func (pe Entity) Fragment() pointer.Fragment {
 	return f
 }
 
-// IsScheme reports if entitiy is scheme
-func (pe Pointer) IsScheme() bool {
-	return pe.Entity.Entity == spec.SchemaKind
-}
-
 // EntityValue represent entity with value.
 type EntityValue struct {
 	Entity
@@ -39,7 +34,7 @@ type EntityValue struct {
 }
 
 // SetEntity sets at path the entity.
-func SetEntity(cx container.Container, key string, entity EntityValue) (err error) {
+func SetEntity(cx container.Container, entity EntityValue) (err error) {
 	err = cx.SetP(entity.Path(), entity.Value)
 	return
 }
-- 
2.43.0


From fc98c5350b4a72ece7c69b72026c34a5f3e7999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 18/60] fix: mulof tag option sets multiple of, not exclusive
 minimum

---
 tag/tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag/tag.go b/tag/tag.go
index af4b782..1fa3b36 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -89,7 +89,7 @@ func parseOAPITag(tags *structtag.Tags, meta *Tag) (err error) {
 		parseTagFloatPtr(tag, "min", &meta.Min),
 		parseTagFloatPtr(tag, "emax", &meta.EMax),
 		parseTagFloatPtr(tag, "emin", &meta.EMin),
-		parseTagFloatPtr(tag, "mulof", &meta.EMin),
+		parseTagFloatPtr(tag, "mulof", &meta.MulOf),
 	}
 	for _, err := range errs {
 		if err != nil {
-- 
2.43.0


From 35539e51b3cbcc5c71661487ee39b761cd29542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 19/60] fix: boolean tag options which are absent keep their
 value, malformed ones are errors

---
 tag/tag.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tag/tag.go b/tag/tag.go
index 1fa3b36..ea402e6 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -195,11 +195,17 @@ func parseTagString(m *tagparser.Tag, tag string, val *string) error {
 
 func parseTagBool(m *tagparser.Tag, tag string, val *bool) (err error) {
 	x, ok := m.Options[tag]
-	if x == "" {
-		*val = ok
-	} else {
-		*val, err = strconv.ParseBool(x)
+	if !ok {
+		return nil
+	}
+	y := true
+	if x != "" {
+		y, err = strconv.ParseBool(x)
+		if err != nil {
+			return err
+		}
 	}
+	*val = y
 	return nil
 }
 
-- 
2.43.0


From cb765bd05d4b9f5ab3b8eaabafb7a48b59b404d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 20/60] fix: blank struct tag must not panic

---
 tag/tag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tag/tag.go b/tag/tag.go
index ea402e6..ffbdfa8 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -46,6 +46,10 @@ func Parse(rawtags string) (meta Tag, err error) {
 	if err != nil {
 		return
 	}
+	if tags == nil {
+		// nothing but spaces
+		return
+	}
 	if err = parseJSONTag(tags, &meta); err != nil {
 		return
 	}
-- 
2.43.0


From fd3f58d2e447ac976879d450a71345ff8280ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 21/60] fix: quotes around a tag option are not part of its
 value

---
 tag/tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag/tag.go b/tag/tag.go
index ffbdfa8..d049115 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -193,6 +193,9 @@ func parseTagString(m *tagparser.Tag, tag string, val *string) error {
 	if !ok {
 		return nil
 	}
+	if uv, ok := tagparser.Unquote(v); ok {
+		v = uv
+	}
 	*val = v
 	return nil
 }
-- 
2.43.0


From 956ce42f8da84f2bcbe7c74e80056f3e6f26177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 22/60] fix: pointer to unknown type is an error, not a crash

---
 internal/oapi/scan/types/scan.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index 417bdf6..20ee8b3 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -24,11 +24,10 @@ func NewScanner(ptrs pointer.Pointers) *Scanner {
 // Resolve will return new pointer and scheme, new pointer might be returned in cases
 // where original pointer is not fully resolved.
 func (r *Scanner) Resolve(ptr pointer.Pointer) (*spec.Schema, error) {
-	tp, _ := r.points.findType(ptr)
-	// pp, ok := r.points.pick(tp)
-	// if !ok {
-	// 	return nil, errors.Errorf("failed to resolve %q", ptr.String())
-	// }
+	tp, ok := r.points.findType(ptr)
+	if !ok {
+		return nil, errors.Errorf("failed to resolve %q", ptr.String())
+	}
 	sch, err := type2schema(tp, r.points, path{}, tag.Tag{})
 	return sch, err
 }
-- 
2.43.0


From b705ebbaf356f7359e9937fdbc8337375f35ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 23/60] fix: collecting fields of type error must not panic

---
 internal/oapi/scan/types/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index faf4a11..5d96cac 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -85,7 +85,7 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 			return
 		}
 		named, ok := e.t.(*types.Named)
-		if ok {
+		if ok && named.Obj().Pkg() != nil { // error has no package
 			np := newPoint(named.Obj())
 			err = walk(np, e.t, p, m)
 		}
-- 
2.43.0


From 328e2477168630795a2dfb869763b7a37879f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 24/60] fix: format of a field type is kept when its tag has no
 format

---
 internal/oapi/scan/types/types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 5d96cac..d346e2b 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -224,8 +224,9 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		pschema.Deprecated = x.tag.Deprecated
 		pschema.ReadOnly = x.tag.ReadOnly
 		pschema.WriteOnly = x.tag.WriteOnly
-		pschema.Format = x.tag.Format
-
+		if len(x.tag.Format) != 0 {
+			pschema.Format = x.tag.Format
+		}
 		if x.tag.Nullable != nil {
 			pschema.Nullable = *x.tag.Nullable
 		}
-- 
2.43.0


From 18efde302fa454502ea3aa492873a38f039b44ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 25/60] fix: required fields of struct type are required

---
 internal/oapi/scan/types/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index d346e2b..8de8d8b 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -217,6 +217,10 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 
 		s.Properties[name] = pschema
 
+		if x.tag.Required {
+			s.Required = append(s.Required, name)
+		}
+
 		if pschema.Ref != nil {
 			continue
 		}
@@ -230,10 +234,6 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		if x.tag.Nullable != nil {
 			pschema.Nullable = *x.tag.Nullable
 		}
-
-		if x.tag.Required {
-			s.Required = append(s.Required, name)
-		}
 	}
 
 	return
-- 
2.43.0


From 9f4c39d6a0d1aa7e785db6c98cad2e616d6e7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 26/60] fix: field of outer struct hides embedded field of same
 name

---
 internal/oapi/scan/types/types.go | 32 ++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 8de8d8b..687e47d 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -189,6 +189,7 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 	if err != nil {
 		return
 	}
+	fields = dominantFields(fields)
 
 	for _, x := range fields {
 		var pschema *spec.Schema
@@ -210,11 +211,7 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 			return
 		}
 
-		name := x.field.Name()
-		if len(x.tag.Name) > 0 {
-			name = x.tag.Name
-		}
-
+		name := x.name()
 		s.Properties[name] = pschema
 
 		if x.tag.Required {
@@ -510,6 +507,30 @@ func castInlineStruct(t *types.Var, tg tag.Tag) (*types.Struct, bool) {
 type structField struct {
 	field *types.Var
 	tag   tag.Tag
+	depth int // number of structs the field is embedded in
+}
+
+func (f structField) name() string {
+	if len(f.tag.Name) > 0 {
+		return f.tag.Name
+	}
+	return f.field.Name()
+}
+
+// dominantFields drops fields which are hidden by field of same name in outer struct.
+func dominantFields(fields []structField) (arr []structField) {
+	depth := make(map[string]int)
+	for _, x := range fields {
+		if d, ok := depth[x.name()]; !ok || x.depth < d {
+			depth[x.name()] = x.depth
+		}
+	}
+	for _, x := range fields {
+		if x.depth == depth[x.name()] {
+			arr = append(arr, x)
+		}
+	}
+	return
 }
 
 func collectStructFields(t *types.Struct, p path) (arr []structField, err error) {
@@ -540,6 +561,7 @@ func collectStructFields(t *types.Struct, p path) (arr []structField, err error)
 			arr = append(arr, structField{
 				field: x,
 				tag:   tx,
+				depth: len(p) - 1,
 			})
 		}
 	}
-- 
2.43.0


From 24b3b67c541416c8309522af7aa238243585daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 27/60] fix: reference to a named type keeps its name among
 types of same structure

---
 internal/oapi/scan/types/point.go |  5 ++++-
 internal/oapi/scan/types/types.go | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index 74579ff..b5aa868 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -67,7 +67,10 @@ func (s points) Swap(i, j int) {
 
 // Less is part of sort.Interface. It is implemented by calling the "by" closure in the sorter.
 func (s points) Less(i, j int) bool {
-	return s[i].Fragment.Len() < s[j].Fragment.Len()
+	if s[i].Fragment.Len() != s[j].Fragment.Len() {
+		return s[i].Fragment.Len() < s[j].Fragment.Len()
+	}
+	return s[i].String() < s[j].String()
 }
 
 func (s points) filter(compare func(p1 point) bool) (pp points) {
diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 687e47d..83d917b 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -130,11 +130,11 @@ func (tp path) visit(t types.Type) (p path, visited bool) {
 }
 
 // type2schema will conver type to spec.Scheme
-func type2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (*spec.Schema, error) {
-	t = t.Underlying()
+func type2schema(tx types.Type, m pointmap, tp path, tg tag.Tag) (*spec.Schema, error) {
+	t := tx.Underlying()
 
 	if tp.has(t) {
-		return reference2schema(t, m, tp, tg)
+		return reference2schema(tx, m, tp, tg)
 	}
 	tp = append(tp, t)
 
@@ -145,7 +145,7 @@ func type2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (*spec.Schema, e
 		if len(tp) == 1 {
 			return struct2schema(u, m, tp)
 		}
-		return reference2schema(u, m, tp, tg)
+		return reference2schema(tx, m, tp, tg)
 
 	case *types.Array:
 		return array2schema(u, m, tp, tg)
@@ -197,7 +197,7 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		if len(x.tag.Type) != 0 {
 			pschema, err = basicString2schema(x.tag.Type, x.tag)
 		} else {
-			switch z := x.field.Type().Underlying().(type) {
+			switch z := x.field.Type(); z.Underlying().(type) {
 			// struct
 			case *types.Struct:
 				pschema, err = reference2schema(z, m, tp, x.tag)
@@ -344,7 +344,13 @@ func AddRefOverride(p pointer.Pointer, s spec.Schema) {
 }
 
 func reference2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (s *spec.Schema, err error) {
-	ptr, ok := m.pick(t)
+	ptr, ok := m.pick(t.Underlying())
+	if named, isNamed := t.(*types.Named); isNamed && named.Obj().Pkg() != nil {
+		// types of same structure share points, name tells which one it is
+		if np := newPoint(named.Obj()); m.at(t.Underlying()).has(np) {
+			ptr, ok = np, true
+		}
+	}
 	if !ok {
 		return nil, errors.New("failed to resolve sturct")
 	}
-- 
2.43.0


From 047a93f039b118cef8ba46879205f1869f6dfce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 28/60] fix: constraints apply to fields of overridden type
 number or object

---
 internal/oapi/scan/types/types.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 83d917b..2c126c0 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -407,6 +407,11 @@ func basic2schema(t types.BasicKind, tg tag.Tag) (s *spec.Schema, err error) {
 		return nil, errors.New("invalid basic kind")
 	}
 
+	return constraint(s, tg), nil
+}
+
+// constraint applies constraints of tag which are supported by type of scheme.
+func constraint(s *spec.Schema, tg tag.Tag) *spec.Schema {
 	switch s.Type {
 	case spec.TypeNumber, spec.TypeInteger:
 		if tg.Min != nil {
@@ -434,9 +439,12 @@ func basic2schema(t types.BasicKind, tg tag.Tag) (s *spec.Schema, err error) {
 			s.MinLength = tg.MinLen
 		}
 		s.Pattern = tg.Pattern
+	case spec.TypeObject:
+		s.MinProperties = tg.MinProps
+		s.MaxProperties = tg.MaxProps
 	}
 
-	return s, nil
+	return s
 }
 
 func basicString2schema(t string, tg tag.Tag) (s *spec.Schema, err error) {
@@ -484,10 +492,10 @@ func basicString2schema(t string, tg tag.Tag) (s *spec.Schema, err error) {
 		return s, err
 	case "number":
 		s = &spec.Schema{Type: spec.TypeNumber}
-		return s, nil
+		return constraint(s, tg), nil
 	case "object":
 		s = &spec.Schema{Type: spec.TypeObject}
-		return s, nil
+		return constraint(s, tg), nil
 	default:
 		return nil, errors.Errorf("invalid type %q", t)
 	}
-- 
2.43.0


From 03e88b0d07eb8fe60272034a6b0fb7515804853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 29/60] fix: scan decodes resulting document, not its version

---
 oapi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oapi.go b/oapi.go
index 50ef4bd..a756679 100644
--- a/oapi.go
+++ b/oapi.go
@@ -37,7 +37,7 @@ type OAPI struct {
 // newOAPI creates new specs from container
 func newOAPI(c container.Container) (x OAPI, err error) {
 	x = OAPI{c: c}
-	err = json.Unmarshal(c.Bytes(), &x.o.OpenAPI)
+	err = json.Unmarshal(c.Bytes(), &x.o)
 	return x, err
 }
 
-- 
2.43.0


From 96b213f99b0b6a211a8d05e7adfb38d62825ce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 30/60] fix: unexported embedded structs contribute their
 fields

---
 internal/oapi/scan/types/types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 2c126c0..d9e85ff 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -56,7 +56,8 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 		for i := 0; i < u.NumFields(); i++ {
 			field := u.Field(i)
 
-			if !field.Exported() {
+			// embedded structs contribute their fields even if unexported
+			if !field.Exported() && !field.Embedded() {
 				continue
 			}
 
@@ -560,10 +561,13 @@ func collectStructFields(t *types.Struct, p path) (arr []structField, err error)
 		if err != nil {
 			return
 		}
-		if tx.Ignore || !x.Exported() {
+		if tx.Ignore || !x.Exported() && !x.Embedded() {
 			continue
 		}
 		st, ok := castInlineStruct(x, tx)
+		if !ok && !x.Exported() {
+			continue
+		}
 		if ok {
 			var z []structField
 			z, err = collectStructFields(st, p)
-- 
2.43.0


From 0f98ad472df9fe02318a14ba2c2b14099988fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 31/60] fix: single letter variables and underscores in
 variables of route patterns

---
 internal/route/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/route/route.go b/internal/route/route.go
index fe28757..0fd9f5f 100644
--- a/internal/route/route.go
+++ b/internal/route/route.go
@@ -8,7 +8,7 @@ import (
 
 var (
 	regexen   = make(map[string]*regexp.Regexp)
-	variables = regexp.MustCompile(`(\{[a-z][a-zA-Z0-9]+?\}|\*)`)
+	variables = regexp.MustCompile(`(\{[a-zA-Z_][a-zA-Z0-9_-]*\}|\*)`)
 
 	methods = []string{
 		"ACL",
-- 
2.43.0


From 02582fe52ee254af7c92978474d753cd1a87893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 32/60] fix: reference to a component escapes its name

---
 internal/oapi/resolver/utils.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index 3d81de3..c3b2ac5 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -23,8 +23,7 @@ func (pe Entity) Path() string {
 
 // Fragment return fragment path
 func (pe Entity) Fragment() pointer.Fragment {
-	f, _ := pe.Entity.Fragment().Descendant(pe.Name)
-	return f
+	return pe.Entity.Fragment().RawDescendant(pe.Name)
 }
 
 // EntityValue represent entity with value.
-- 
2.43.0


From c1d3179e66244261405eb250d0cafc06fd70e9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 33/60] fix: schema command with malformed pointer is an error

---
 internal/oapi/scan/cmds/schema.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/oapi/scan/cmds/schema.go b/internal/oapi/scan/cmds/schema.go
index 114083f..7d65841 100644
--- a/internal/oapi/scan/cmds/schema.go
+++ b/internal/oapi/scan/cmds/schema.go
@@ -43,6 +43,9 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		}
 		sx.Name = name
 		sx.Ptr, err = makePtr(name)
+		if err != nil {
+			return nil, errors.Wrap(err, rerr.Error())
+		}
 		return sx, nil
 	case 2:
 		if invalid(nok, name) {
@@ -53,6 +56,9 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		}
 		sx.Name = name
 		sx.Ptr, err = makePtr(ptr)
+		if err != nil {
+			return nil, errors.Wrap(err, rerr.Error())
+		}
 		return sx, nil
 	default:
 		return nil, errors.New("invalid number of arguments")
-- 
2.43.0


From 70bf57eadc434fbe80ee899cda32f17251aa6f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 34/60] fix: schema command with nothing but full pointer is
 named after its fragment

---
 internal/oapi/scan/cmds/schema.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/cmds/schema.go b/internal/oapi/scan/cmds/schema.go
index 7d65841..067ef2a 100644
--- a/internal/oapi/scan/cmds/schema.go
+++ b/internal/oapi/scan/cmds/schema.go
@@ -29,8 +29,12 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		return !a || len(s) == 0
 	}
 
+	isURI := func(a string) bool {
+		return strings.Contains(a, "://") || strings.Contains(a, "#")
+	}
+
 	makePtr := func(a string) (pointer.Pointer, error) {
-		if strings.Contains(a, "://") || strings.Contains(a, "#") {
+		if isURI(a) {
 			return pointer.Parse(a)
 		}
 		return pointer.NewGoPointer(cmd.pkg.Types.Path(), a)
@@ -46,6 +50,10 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		if err != nil {
 			return nil, errors.Wrap(err, rerr.Error())
 		}
+		if isURI(name) {
+			// full pointer works the same as its fragment
+			sx.Name = strings.Join(sx.Ptr.Fragment, "/")
+		}
 		return sx, nil
 	case 2:
 		if invalid(nok, name) {
-- 
2.43.0


From 048a22c187b8b6b81ff93a6d14bc4a947620ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 35/60] fix: local pointer of schema command refers to package
 of the comment

---
 internal/oapi/scan/cmds/schema.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/cmds/schema.go b/internal/oapi/scan/cmds/schema.go
index 067ef2a..91e71e9 100644
--- a/internal/oapi/scan/cmds/schema.go
+++ b/internal/oapi/scan/cmds/schema.go
@@ -35,7 +35,15 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 
 	makePtr := func(a string) (pointer.Pointer, error) {
 		if isURI(a) {
-			return pointer.Parse(a)
+			p, err := pointer.Parse(a)
+			if err != nil || p.Scheme != "go" || p.PkgPath() != "" {
+				return p, err
+			}
+			// local pointer of go://#/Struct
+			f := p.Fragment
+			p, err = pointer.NewGoPointer(cmd.pkg.Types.Path(), "")
+			p.Fragment = f
+			return p, err
 		}
 		return pointer.NewGoPointer(cmd.pkg.Types.Path(), a)
 	}
-- 
2.43.0


From 60be95606a199f27b01d5bc1e0124ffc5813ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 36/60] fix: two exports under one name are an error

---
 internal/oapi/scan/cmds/scan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/oapi/scan/cmds/scan.go b/internal/oapi/scan/cmds/scan.go
index c3b1b2c..c5a8421 100644
--- a/internal/oapi/scan/cmds/scan.go
+++ b/internal/oapi/scan/cmds/scan.go
@@ -53,9 +53,15 @@ func (r *Scanner) ExportedComponents() (exports resolver.Exports, err error) {
 		cc = append(cc, cmd...)
 	}
 
+	names := make(map[string]struct{})
 	for _, cmd := range cc {
 		switch x := cmd.(type) {
 		case CmdSchema:
+			if _, ok := names[x.Name]; ok {
+				err = errors.Errorf("schema of name %q already registered", x.Name)
+				return
+			}
+			names[x.Name] = struct{}{}
 			if _, ok := exports.Get(x.Ptr); ok {
 				err = errors.Errorf("schema of type %q already registered", x.Name)
 				return
-- 
2.43.0


From b6b4b20b0aeb9210c47775d0df9f2eb0b6b83a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 37/60] fix: visiting a missing package must not panic

---
 internal/pkgutil/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pkgutil/util.go b/internal/pkgutil/util.go
index 56eb6d9..e41f124 100644
--- a/internal/pkgutil/util.go
+++ b/internal/pkgutil/util.go
@@ -33,7 +33,7 @@ func Scan(pkgs []*packages.Package, fn Scanner) (err error) {
 	seen := make(map[*packages.Package]bool)
 	var visit func(*packages.Package)
 	visit = func(pkg *packages.Package) {
-		if seen[pkg] || IsStdLibPkg(pkg) || pkg == nil {
+		if pkg == nil || seen[pkg] || IsStdLibPkg(pkg) {
 			return
 		}
 		seen[pkg] = true
-- 
2.43.0


From 977b323f1405e2a714f4cc1f64acdd1e9180a715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 38/60] fix: packages without module are below src of GOPATH

---
 internal/pkgutil/info.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/pkgutil/info.go b/internal/pkgutil/info.go
index 85e333b..434f389 100644
--- a/internal/pkgutil/info.go
+++ b/internal/pkgutil/info.go
@@ -20,11 +20,13 @@ func getGoPath() string {
 
 func getPkgPath(pkg *packages.Package) (string, bool) {
 	if pkg.Module == nil {
-		p := filepath.Join(getGoPath(), pkg.PkgPath)
-		if _, err := os.Stat(p); os.IsNotExist(err) {
-			return p, false
+		for _, gopath := range filepath.SplitList(getGoPath()) {
+			p := filepath.Join(gopath, "src", pkg.PkgPath)
+			if _, err := os.Stat(p); err == nil {
+				return p, true
+			}
 		}
-		return p, true
+		return "", false
 	}
 	if len(pkg.Module.Dir) == 0 {
 		return "", false
-- 
2.43.0


From 7cff0b113655a96963c0f8cdff60fa0eab65c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 39/60] fix: standard streams can be selected as output

---
 cmd/oapi/config.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/cmd/oapi/config.go b/cmd/oapi/config.go
index ef1e76e..683a4eb 100644
--- a/cmd/oapi/config.go
+++ b/cmd/oapi/config.go
@@ -96,18 +96,10 @@ func (ff Config) full() (cfg config.Config, err error) {
 	// output destination
 	output := "stdout"
 	if len(cfg.Output) > 0 {
-		switch cfg.Output {
-		case "stderr", "stdout":
-		default:
-			output = toAbsPath(cfg.Output, cfg.Dir)
-		}
+		output = toOutput(cfg.Output, cfg.Dir)
 	}
 	if len(ff.Output) > 0 {
-		switch ff.Output {
-		case "stderr", "stdout":
-		default:
-			output = toAbsPath(ff.Output, wd)
-		}
+		output = toOutput(ff.Output, wd)
 	}
 	cfg.Output = output
 
@@ -124,3 +116,12 @@ func toAbsPath(path string, fallback string) string {
 	}
 	return filepath.Join(fallback, path)
 }
+
+// toOutput reports destination of output, which is either standard stream or absolute path of file.
+func toOutput(output string, fallback string) string {
+	switch output {
+	case "stderr", "stdout":
+		return output
+	}
+	return toAbsPath(output, fallback)
+}
-- 
2.43.0


From 821b029e1be9c5d79ca02acc41d1811797a744b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 40/60] fix: oapi terminates with an error when it fails

---
 cmd/oapi/main.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index 5f28553..a2a8659 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"bytes"
 	"context"
+	"fmt"
 	"io"
 	"os"
 	"os/signal"
@@ -13,6 +14,13 @@ import (
 	"github.com/sirupsen/logrus"
 )
 
+// fatal reports error and terminates, nothing that follows may run or produce output.
+func fatal(log logging.Printer, msg string, args ...interface{}) {
+	logging.Fatal(log, msg, args...)
+	fmt.Fprintf(os.Stderr, msg+"\n", args...)
+	os.Exit(1)
+}
+
 func main() {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
@@ -40,7 +48,7 @@ func main() {
 
 	config, err := cfg.full()
 	if err != nil {
-		logging.Fatal(log, "err config: %s", err.Error())
+		fatal(log, "err config: %s", err.Error())
 	}
 
 	go func() {
@@ -51,12 +59,12 @@ func main() {
 
 	spec, err := scan(ctx, log, config)
 	if err != nil {
-		logging.Fatal(log, "err during scan: %s", err.Error())
+		fatal(log, "err during scan: %s", err.Error())
 	}
 
 	data, err := oapi.Format(config.Format, spec)
 	if err != nil {
-		logging.Fatal(log, "err during format: %s", err.Error())
+		fatal(log, "err during format: %s", err.Error())
 	}
 
 	var w io.Writer
@@ -69,16 +77,16 @@ func main() {
 	default:
 		err = os.Remove(config.Output)
 		if err != nil {
-			logging.Fatal(log, err.Error())
+			fatal(log, "%s", err.Error())
 		}
 		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE, 0755)
 		if err != nil {
-			logging.Fatal(log, err.Error())
+			fatal(log, "%s", err.Error())
 		}
 	}
 
 	_, err = io.Copy(w, bytes.NewBuffer(data))
 	if err != nil {
-		logging.Fatal(log, err.Error())
+		fatal(log, "%s", err.Error())
 	}
 }
-- 
2.43.0


From 4990f0070eebcc2b56a120ff31b3e74359fa5648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:09 +0000
Subject: [PATCH 41/60] fix: output file does not have to exist

---
 cmd/oapi/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index a2a8659..923472f 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -76,7 +76,7 @@ func main() {
 		w = os.Stderr
 	default:
 		err = os.Remove(config.Output)
-		if err != nil {
+		if err != nil && !os.IsNotExist(err) {
 			fatal(log, "%s", err.Error())
 		}
 		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE, 0755)
-- 
2.43.0


From 238557634604379dabae3830ecb09f1f97d085d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 42/60] fix: specifications of several packages can be merged

---
 internal/container/merge.go | 14 +++++++++++++-
 oapi.go                     |  3 ++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/container/merge.go b/internal/container/merge.go
index 5de0eb1..c4f11ac 100644
--- a/internal/container/merge.go
+++ b/internal/container/merge.go
@@ -1,6 +1,10 @@
 package container
 
-import "github.com/pkg/errors"
+import (
+	"reflect"
+
+	"github.com/pkg/errors"
+)
 
 // Merger is function signature allowing merging
 type Merger func(destination, source interface{}) (interface{}, error)
@@ -10,6 +14,14 @@ func MergeStrict(dest, source interface{}) (interface{}, error) {
 	return nil, errors.Errorf("%v collied with %v", dest, source)
 }
 
+// MergeSame will merge what both sides state the same way, no other collisions
+func MergeSame(dest, source interface{}) (interface{}, error) {
+	if reflect.DeepEqual(dest, source) {
+		return dest, nil
+	}
+	return MergeStrict(dest, source)
+}
+
 // MergeDefault will merge default
 func MergeDefault(dest, source interface{}) (interface{}, error) {
 	return dest, nil
diff --git a/oapi.go b/oapi.go
index a756679..db47bd7 100644
--- a/oapi.go
+++ b/oapi.go
@@ -159,7 +159,8 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
-	c, err := specsScanner.Merge()
+	// every specification states at least its version, so that must not collide
+	c, err := specsScanner.Containers.Sort().Merge(container.MergeSame)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 47cdbf6522fb5f5d9e9b363571bb051ce05a680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:32 +0000
Subject: [PATCH 43/60] fix: pointer to a place of type time.Time gives a
 string like a field of that type

Schema of a struct gives fields of type time.Time as strings, but a pointer
to such a field (or element) gave an empty object.
---
 internal/oapi/scan/types/point.go | 23 +++++++++++++++++++++++
 internal/oapi/scan/types/scan.go  |  3 +++
 internal/oapi/scan/types/types.go |  3 +++
 3 files changed, 29 insertions(+)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index b5aa868..2f9ac31 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"github.com/buypal/oapi-go/internal/logging"
+	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/pointer"
 	"golang.org/x/tools/go/types/typeutil"
 )
@@ -96,6 +97,28 @@ func (s points) String() string {
 
 type pointmap struct {
 	m typeutil.Map
+	s map[string]point // points at types of standard mapping
+}
+
+// mark remembers that p1 points at named type p2 if there is standard mapping of it.
+func (tp *pointmap) mark(p1, p2 point) {
+	if _, ok := refStdMapping[p2.String()]; !ok {
+		return
+	}
+	if tp.s == nil {
+		tp.s = make(map[string]point)
+	}
+	tp.s[p1.String()] = p2
+}
+
+// mapped returns standard mapping of type at which given pointer points.
+func (tp pointmap) mapped(p1 pointer.Pointer) (s spec.Schema, ok bool) {
+	p2, ok := tp.s[p1.String()]
+	if !ok {
+		return
+	}
+	s, ok = refStdMapping[p2.String()]
+	return
 }
 
 func (tp pointmap) len(t types.Type, r point) bool {
diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index 20ee8b3..ed17a12 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -28,6 +28,9 @@ func (r *Scanner) Resolve(ptr pointer.Pointer) (*spec.Schema, error) {
 	if !ok {
 		return nil, errors.Errorf("failed to resolve %q", ptr.String())
 	}
+	if std, ok := r.points.mapped(ptr); ok {
+		return &std, nil
+	}
 	sch, err := type2schema(tp, r.points, path{}, tag.Tag{})
 	return sch, err
 }
diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index d9e85ff..fd03209 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -36,6 +36,9 @@ type elementer interface {
 // Later it is save to PtrType (last arg).
 // First argument is pointer to be saved, type and map.
 func walk(r point, t types.Type, p path, m *pointmap) (err error) {
+	if named, ok := t.(*types.Named); ok && named.Obj().Pkg() != nil {
+		m.mark(r, newPoint(named.Obj()))
+	}
 	t = t.Underlying()
 	m.append(t, r)
 
-- 
2.43.0


From 0e8fc73cf48867db22a6757b4a081e2287127f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 44/60] fix: pointers to types in overrides, default operations
 and the root document are resolved

Types they point to were found only if something else pointed to them as well,
and those of default operations were left in the document.
---
 oapi.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/oapi.go b/oapi.go
index db47bd7..66de727 100644
--- a/oapi.go
+++ b/oapi.go
@@ -63,6 +63,37 @@ func (opts *Options) path() (dir string, err error) {
 	return
 }
 
+// pointers returns all pointers which are given by options.
+func (opts *Options) pointers() (pp pointer.Pointers, err error) {
+	c, err := container.Make(map[string]interface{}{
+		"root":     opts.root,
+		"override": opts.override,
+		"defops":   opts.defops,
+	})
+	if err != nil {
+		return
+	}
+
+	refs, err := container.ExtractKey(c, "$ref")
+	if err != nil {
+		return
+	}
+
+	pp = make(pointer.Pointers)
+	for _, v := range refs {
+		s, ok := v.Val.(string)
+		if !ok {
+			continue
+		}
+		p, err := pointer.Parse(s)
+		if err != nil {
+			return nil, err
+		}
+		pp[p.String()] = p
+	}
+	return
+}
+
 // Option for .Scan() method
 type Option func(*Options) error
 
@@ -169,6 +200,13 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 	pp = pp.Merge(cmdsScanner.Commands.Pointers())
 	pp = pp.Merge(specsScanner.Pointers)
 
+	// options might point to types as well
+	optsPointers, err := opts.pointers()
+	if err != nil {
+		return
+	}
+	pp = pp.Merge(optsPointers)
+
 	// collect and handle types
 	tps := types.NewScanner(pp)
 	err = pkgutil.Scan(pkgs, tps)
@@ -181,7 +219,7 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
-	cnt, err := resolver.Resolve(c, exports, func(ptr pointer.Pointer) (e spec.Entiter, err error) {
+	resolve := func(ptr pointer.Pointer) (e spec.Entiter, err error) {
 		if ovrd, ok := opts.override[ptr.String()]; ok {
 			return ovrd, nil
 		}
@@ -192,7 +230,9 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 			err = errors.New("unknown protocol to resolve")
 		}
 		return
-	})
+	}
+
+	cnt, err := resolver.Resolve(c, exports, resolve)
 	if err != nil {
 		return
 	}
@@ -202,6 +242,12 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
+	// defaults might bring pointers in
+	cnt, err = resolver.Resolve(cnt, exports, resolve)
+	if err != nil {
+		return
+	}
+
 	return newOAPI(cnt)
 }
 
-- 
2.43.0


From 3bae2f3ba26466d58cc752015d455a31a49cf8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 45/60] fix: override of time.Time replaces its standard
 mapping

Fields of type time.Time are mapped without a pointer, so an override of that
type had no effect.
---
 internal/oapi/scan/types/point.go | 18 +++++++++++++++---
 internal/oapi/scan/types/scan.go  |  6 ++++++
 internal/oapi/scan/types/types.go |  2 +-
 oapi.go                           |  1 +
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index 2f9ac31..80e4536 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -97,7 +97,20 @@ func (s points) String() string {
 
 type pointmap struct {
 	m typeutil.Map
-	s map[string]point // points at types of standard mapping
+	s map[string]point       // points at types of standard mapping
+	o map[string]spec.Schema // overrides by pointer
+}
+
+// standard returns standard mapping of named type, which might be overridden.
+func (tp pointmap) standard(p point) (s spec.Schema, ok bool) {
+	s, ok = refStdMapping[p.String()]
+	if !ok {
+		return
+	}
+	if o, overridden := tp.o[p.String()]; overridden {
+		s = o
+	}
+	return
 }
 
 // mark remembers that p1 points at named type p2 if there is standard mapping of it.
@@ -117,8 +130,7 @@ func (tp pointmap) mapped(p1 pointer.Pointer) (s spec.Schema, ok bool) {
 	if !ok {
 		return
 	}
-	s, ok = refStdMapping[p2.String()]
-	return
+	return tp.standard(p2)
 }
 
 func (tp pointmap) len(t types.Type, r point) bool {
diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index ed17a12..f05702c 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -15,6 +15,12 @@ type Scanner struct {
 	points   pointmap
 }
 
+// Override sets overrides of types, those which have standard mapping
+// are never pointed at by schemas, so they have to be known here.
+func (r *Scanner) Override(overrides map[string]spec.Schema) {
+	r.points.o = overrides
+}
+
 func NewScanner(ptrs pointer.Pointers) *Scanner {
 	return &Scanner{
 		Pointers: ptrs,
diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index fd03209..641b59b 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -358,7 +358,7 @@ func reference2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (s *spec.Sc
 	if !ok {
 		return nil, errors.New("failed to resolve sturct")
 	}
-	if sch, ok := refStdMapping[ptr.String()]; ok {
+	if sch, ok := m.standard(ptr); ok {
 		return &sch, nil
 	}
 	s = &spec.Schema{}
diff --git a/oapi.go b/oapi.go
index 66de727..1e141f3 100644
--- a/oapi.go
+++ b/oapi.go
@@ -209,6 +209,7 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 
 	// collect and handle types
 	tps := types.NewScanner(pp)
+	tps.Override(opts.override)
 	err = pkgutil.Scan(pkgs, tps)
 	if err != nil {
 		return
-- 
2.43.0


From e872cc4532a8ed34bef079ef467af905f10b129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:26 +0000
Subject: [PATCH 46/60] fix: fragments with an invalid escape sequence are
 rejected

---
 internal/pointer/fragment.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/pointer/fragment.go b/internal/pointer/fragment.go
index 3d28424..ade6823 100644
--- a/internal/pointer/fragment.go
+++ b/internal/pointer/fragment.go
@@ -137,6 +137,10 @@ func parseFragment(str string) ([]string, error) {
 
 	toks := strings.Split(str, separator)
 	for i, t := range toks {
+		// '~' has to be followed by either '0' or '1'
+		if strings.Count(t, tilde) != strings.Count(t, escapedTilde)+strings.Count(t, escapedSeparator) {
+			return nil, fmt.Errorf("invalid escape sequence in reference token %q", t)
+		}
 		toks[i] = unescapeToken(t)
 	}
 	return toks, nil
-- 
2.43.0


From bba379e1f33b78a2c815625938f55ceef143c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:53 +0000
Subject: [PATCH 47/60] fix: references next to references are resolved the
 same for every map order

---
 internal/container/utils.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index e69cf36..aff17c5 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -27,21 +27,26 @@ func extractKey(v interface{}, path []string, key string, pp *MapSlice) {
 	switch x := v.(type) {
 	case map[string]interface{}:
 		for k, e := range x {
-			p := append(path[:len(path):len(path)], k)
 			switch e.(type) {
 			case map[string]interface{}, []interface{}:
-				extractKey(e, p, key, pp)
-				continue
+				extractKey(e, append(path[:len(path):len(path)], k), key, pp)
 			}
-			if k != key {
-				continue
-			}
-			*pp = append(*pp, MapItem{
-				Key:   SliceToDotPath(p),
-				Val:   e,
-				Index: len(*pp),
-			})
 		}
+		// own scalar follows those of nested values, as whoever replaces
+		// the object found here replaces nested values with it
+		e, ok := x[key]
+		if !ok {
+			return
+		}
+		switch e.(type) {
+		case map[string]interface{}, []interface{}:
+			return
+		}
+		*pp = append(*pp, MapItem{
+			Key:   SliceToDotPath(append(path[:len(path):len(path)], key)),
+			Val:   e,
+			Index: len(*pp),
+		})
 	case []interface{}:
 		for i, e := range x {
 			extractKey(e, append(path[:len(path):len(path)], strconv.Itoa(i)), key, pp)
-- 
2.43.0


From 1a5870845844fbccec245ef75b31e8994fab46bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:46 +0000
Subject: [PATCH 48/60] fix: exported schemas replace components stated under
 their name once everything is resolved

---
 internal/oapi/resolver/resolver.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index dd460b2..36a0e0f 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -54,10 +54,23 @@ type resolver struct {
 	exp Exports
 	res Fn
 	set map[string]bool // exports which are already components
+	cmp []EntityValue   // resolved exports
 }
 
 func (r *resolver) resolve() (container.Container, error) {
-	return r.iterator(r.con, path{}, 0)
+	cx, err := r.iterator(r.con, path{}, 0)
+	if err != nil {
+		return cx, err
+	}
+	// components are set once whole document is resolved, it might state
+	// references or components of its own at the same place
+	for _, ev := range r.cmp {
+		err = SetEntity(cx, ev)
+		if err != nil {
+			return zero, err
+		}
+	}
+	return cx, nil
 }
 
 func (r *resolver) iterator(cx container.Container, pp path, dept int) (container.Container, error) {
@@ -135,10 +148,11 @@ func (r *resolver) export(ep Pointer, dept int) (err error) {
 		return
 	}
 
-	return SetEntity(r.con, EntityValue{
+	r.cmp = append(r.cmp, EntityValue{
 		Entity: ep.Entity,
 		Value:  nc,
 	})
+	return nil
 }
 
 type path []pointer.Pointer
-- 
2.43.0


From 396442de2b2da30a6c9206b15cf6eed094552524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:45 +0000
Subject: [PATCH 49/60] fix: types of equal structure keep their own places

---
 internal/oapi/scan/types/point.go | 38 ++++++++++++-------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index 80e4536..a08a02d 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -97,6 +97,8 @@ func (s points) String() string {
 
 type pointmap struct {
 	m typeutil.Map
+	d map[types.Type]points  // points by declared type, unlike m it tells identical types apart
+	t map[string]types.Type  // declared type at the point
 	s map[string]point       // points at types of standard mapping
 	o map[string]spec.Schema // overrides by pointer
 }
@@ -138,6 +140,14 @@ func (tp pointmap) len(t types.Type, r point) bool {
 }
 
 func (tp *pointmap) append(t types.Type, p1 point) points {
+	if tp.t == nil {
+		tp.d = make(map[types.Type]points)
+		tp.t = make(map[string]types.Type)
+	}
+	if _, ok := tp.t[p1.String()]; !ok {
+		tp.d[t] = append(tp.d[t], p1)
+		tp.t[p1.String()] = t
+	}
 	pp, _ := tp.m.At(t).(points)
 	if pp.has(p1) {
 		return pp
@@ -174,27 +184,11 @@ func (tp pointmap) each(fn func(types.Type, point)) {
 	})
 }
 
-func (tp pointmap) find(fn func(types.Type, point) bool) (point, types.Type, bool) {
-	var pp *point
-	var tt *types.Type
-	tp.each(func(key types.Type, p2 point) {
-		if pp != nil {
-			return
-		}
-		if !fn(key, p2) {
-			return
-		}
-		pp = &p2
-		tt = &key
-	})
-	if pp != nil && tt != nil {
-		return *pp, *tt, true
-	}
-	return point{}, nil, false
-}
-
 func (tp pointmap) pick(t types.Type) (point, bool) {
-	pp := tp.at(t)
+	pp := tp.d[t]
+	if len(pp) == 0 {
+		pp = tp.at(t)
+	}
 	if len(pp) == 0 {
 		return point{}, false
 	}
@@ -203,9 +197,7 @@ func (tp pointmap) pick(t types.Type) (point, bool) {
 }
 
 func (tp pointmap) findType(p1 pointer.Pointer) (types.Type, bool) {
-	_, t, ok := tp.find(func(key types.Type, p2 point) bool {
-		return p1.String() == p2.Pointer.String()
-	})
+	t, ok := tp.t[p1.String()]
 	return t, ok
 }
 
-- 
2.43.0


From 2ad991b42e9dca009e3fdb2f708917e5e3b846c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:03 +0000
Subject: [PATCH 50/60] fix: output file is replaced as a whole or stays as it
 was

---
 cmd/oapi/main.go | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index 923472f..26593e6 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -5,8 +5,10 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"os/signal"
+	"path/filepath"
 	"syscall"
 
 	"github.com/buypal/oapi-go"
@@ -21,6 +23,40 @@ func fatal(log logging.Printer, msg string, args ...interface{}) {
 	os.Exit(1)
 }
 
+// writeFile replaces file as a whole, it stays as it was unless all the data are written.
+func writeFile(name string, data []byte) (err error) {
+	if fi, serr := os.Stat(name); serr == nil && !fi.Mode().IsRegular() {
+		// devices, pipes and the like cannot be replaced
+		f, err := os.OpenFile(name, os.O_WRONLY, 0)
+		if err != nil {
+			return err
+		}
+		defer f.Close()
+		_, err = f.Write(data)
+		return err
+	}
+	f, err := ioutil.TempFile(filepath.Dir(name), ".oapi-")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			os.Remove(f.Name())
+		}
+	}()
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Chmod(0755)
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), name)
+	}
+	return err
+}
+
 func main() {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
@@ -75,14 +111,11 @@ func main() {
 	case "stderr":
 		w = os.Stderr
 	default:
-		err = os.Remove(config.Output)
-		if err != nil && !os.IsNotExist(err) {
-			fatal(log, "%s", err.Error())
-		}
-		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE, 0755)
+		err = writeFile(config.Output, data)
 		if err != nil {
 			fatal(log, "%s", err.Error())
 		}
+		return
 	}
 
 	_, err = io.Copy(w, bytes.NewBuffer(data))
-- 
2.43.0


From 88ed4542dc747815131a615168bc4688b9eb301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:57 +0000
Subject: [PATCH 51/60] fix: directories may have special characters of
 patterns in their names

---
 internal/container/container.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index 8ebe977..92d187e 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -3,6 +3,7 @@ package container
 import (
 	"encoding/json"
 	"io/ioutil"
+	"os"
 	"path/filepath"
 	"reflect"
 	"sort"
@@ -235,12 +236,25 @@ func ReadDir(dir string, patterns ...string) (cc Containers, err error) {
 		patterns = defaultSearchPatterns
 	}
 
+	// patterns are of files, dir itself might have special characters
+	infos, err := ioutil.ReadDir(dir)
+	if os.IsNotExist(err) {
+		return nil, nil
+	}
+	if err != nil {
+		return nil, errors.Wrapf(err, "failed to read dir")
+	}
+
 	for _, s := range patterns {
-		xs, err := filepath.Glob(filepath.Join(dir, s))
-		if err != nil {
-			return nil, err
+		for _, info := range infos {
+			ok, err := filepath.Match(s, info.Name())
+			if err != nil {
+				return nil, err
+			}
+			if ok {
+				ff = append(ff, filepath.Join(dir, info.Name()))
+			}
 		}
-		ff = append(ff, xs...)
 	}
 
 	if len(ff) == 0 {
-- 
2.43.0


From 79f9f3a00d294f053bbe6adfa1c26071e368ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:05 +0000
Subject: [PATCH 52/60] fix: packages of vendor directory are where their files
 are

---
 internal/pkgutil/info.go | 12 ++++++++++--
 oapi.go                  |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/pkgutil/info.go b/internal/pkgutil/info.go
index 434f389..192f8be 100644
--- a/internal/pkgutil/info.go
+++ b/internal/pkgutil/info.go
@@ -18,6 +18,14 @@ func getGoPath() string {
 	return gopath
 }
 
+// getFilesPath reports directory of go files of given package.
+func getFilesPath(pkg *packages.Package) (string, bool) {
+	if len(pkg.GoFiles) == 0 {
+		return "", false
+	}
+	return filepath.Dir(pkg.GoFiles[0]), true
+}
+
 func getPkgPath(pkg *packages.Package) (string, bool) {
 	if pkg.Module == nil {
 		for _, gopath := range filepath.SplitList(getGoPath()) {
@@ -26,10 +34,10 @@ func getPkgPath(pkg *packages.Package) (string, bool) {
 				return p, true
 			}
 		}
-		return "", false
+		return getFilesPath(pkg)
 	}
 	if len(pkg.Module.Dir) == 0 {
-		return "", false
+		return getFilesPath(pkg) // e.g. module of vendor directory
 	}
 	return filepath.Join(pkg.Module.Dir, strings.Replace(pkg.PkgPath, pkg.Module.Path, "", 1)), true
 }
diff --git a/oapi.go b/oapi.go
index 1e141f3..7802178 100644
--- a/oapi.go
+++ b/oapi.go
@@ -19,7 +19,7 @@ import (
 	"golang.org/x/tools/go/packages"
 )
 
-const pkgMode = packages.NeedSyntax | packages.NeedTypes | packages.NeedImports | packages.NeedDeps | packages.NeedName | packages.NeedModule
+const pkgMode = packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedImports | packages.NeedDeps | packages.NeedName | packages.NeedModule
 
 var order = []string{
 	"openapi",
-- 
2.43.0


From c56f3641b95b1908887826577bb17d8d0c39314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:30 +0000
Subject: [PATCH 53/60] fix: instances of generic types do not share schema,
 generic types have none

---
 internal/oapi/scan/types/scan.go  |  2 +-
 internal/oapi/scan/types/types.go | 45 ++++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index f05702c..a0d1191 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -62,7 +62,7 @@ func (r *Scanner) Scan(pkg *packages.Package) (errs error) {
 			continue
 		}
 		obj := scope.Lookup(head)
-		if obj == nil {
+		if obj == nil || !hasSchema(obj) {
 			continue
 		}
 		err := collectTypes(obj, &r.points)
diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 641b59b..92716f5 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -36,8 +36,8 @@ type elementer interface {
 // Later it is save to PtrType (last arg).
 // First argument is pointer to be saved, type and map.
 func walk(r point, t types.Type, p path, m *pointmap) (err error) {
-	if named, ok := t.(*types.Named); ok && named.Obj().Pkg() != nil {
-		m.mark(r, newPoint(named.Obj()))
+	if np, ok := declared(t); ok {
+		m.mark(r, np)
 	}
 	t = t.Underlying()
 	m.append(t, r)
@@ -88,9 +88,7 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 		if err != nil {
 			return
 		}
-		named, ok := e.t.(*types.Named)
-		if ok && named.Obj().Pkg() != nil { // error has no package
-			np := newPoint(named.Obj())
+		if np, ok := declared(e.t); ok {
 			err = walk(np, e.t, p, m)
 		}
 		if err != nil {
@@ -101,6 +99,35 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 	return
 }
 
+// declared reports point of declaration of named type.
+func declared(t types.Type) (p point, ok bool) {
+	named, ok := t.(*types.Named)
+	if !ok || named.Obj().Pkg() == nil { // error has no package
+		return point{}, false
+	}
+	if parametrized(named) { // instances of generic type share its name
+		return point{}, false
+	}
+	return newPoint(named.Obj()), true
+}
+
+// parametrized reports if type is either generic or instance of generic type.
+func parametrized(t *types.Named) bool {
+	return strings.HasSuffix(t.String(), "]")
+}
+
+// hasSchema reports if object might have schema. Functions and generic types
+// without arguments do not.
+func hasSchema(obj types.Object) bool {
+	switch t := obj.Type().(type) {
+	case *types.Signature:
+		return false
+	case *types.Named:
+		return t.Obj() != obj || !parametrized(t)
+	}
+	return true
+}
+
 // path represents list of types going in direction.
 // this is very much handy for cycle detection
 type path []types.Type
@@ -349,11 +376,9 @@ func AddRefOverride(p pointer.Pointer, s spec.Schema) {
 
 func reference2schema(t types.Type, m pointmap, tp path, tg tag.Tag) (s *spec.Schema, err error) {
 	ptr, ok := m.pick(t.Underlying())
-	if named, isNamed := t.(*types.Named); isNamed && named.Obj().Pkg() != nil {
-		// types of same structure share points, name tells which one it is
-		if np := newPoint(named.Obj()); m.at(t.Underlying()).has(np) {
-			ptr, ok = np, true
-		}
+	// types of same structure share points, name tells which one it is
+	if np, named := declared(t); named && m.at(t.Underlying()).has(np) {
+		ptr, ok = np, true
 	}
 	if !ok {
 		return nil, errors.New("failed to resolve sturct")
-- 
2.43.0


From 24748d0d83791edd052039672a38f47379f26829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:08 +0000
Subject: [PATCH 54/60] fix: info fields which root does not state keep their
 value

---
 internal/oapi/oapi.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index ffdcccc..67fe4a5 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -123,6 +123,15 @@ func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation)
 	return
 }
 
+// mergeStated will merge with override what source states, fields which
+// are required are rendered even if they are not stated and so empty.
+func mergeStated(dest, source interface{}) (interface{}, error) {
+	if s, ok := source.(string); ok && len(s) == 0 {
+		return dest, nil
+	}
+	return container.MergeOverride(dest, source)
+}
+
 // MergeWithRoot will merge container with root document.
 func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 	r, err := container.Make(root)
@@ -136,7 +145,7 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 	}
 
 	for _, x := range []mx{
-		{merge: container.MergeOverride, key: "info"},
+		{merge: mergeStated, key: "info"},
 		{merge: container.MergeStrict, key: "components"},
 		{merge: container.MergeDefault, key: "paths"},
 		{merge: container.MergeDefault, key: "externalDocs"},
-- 
2.43.0


From 70669f65c947a6ec1cabfcd4b8d4e1edc221a3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:08 +0000
Subject: [PATCH 55/60] fix: block comments are not commands

---
 internal/oapi/scan/cmds/cmds.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/oapi/scan/cmds/cmds.go b/internal/oapi/scan/cmds/cmds.go
index d1aa69a..cf581d7 100644
--- a/internal/oapi/scan/cmds/cmds.go
+++ b/internal/oapi/scan/cmds/cmds.go
@@ -34,6 +34,9 @@ type Commander interface {
 func ParseCommentGroup(gg *ast.CommentGroup) []string {
 	cc := []string{}
 	for _, cmt := range gg.List {
+		if !strings.HasPrefix(cmt.Text, "//") {
+			continue // only line comments are commands
+		}
 		c := cmt.Text[2:]
 		hasPrefix := strings.HasPrefix(c, prefix)
 		if !hasPrefix {
-- 
2.43.0


From 36f7cc7d90a7e213d283ae6b62767f031070c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:08 +0000
Subject: [PATCH 56/60] fix: wildcard of route pattern matches line breaks

---
 internal/route/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/route/route.go b/internal/route/route.go
index 0fd9f5f..c26b01b 100644
--- a/internal/route/route.go
+++ b/internal/route/route.go
@@ -81,7 +81,7 @@ func Match(pattern, method, path string) (bool, error) {
 		case pattern[i] == '{' && pattern[j-1] == '}':
 			parts = append(parts, "([^/]+)")
 		case pattern[i] == '*':
-			parts = append(parts, "(.*)")
+			parts = append(parts, "((?s).*)") // line breaks as well
 		default:
 			parts = append(parts, pattern[i:j])
 		}
-- 
2.43.0


From fe71a650443cd7fd980f2ee144fc1ef90ea35513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:02 +0000
Subject: [PATCH 57/60] fix: output file keeps its mode, links to it stay

---
 cmd/oapi/main.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index 26593e6..7390983 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -25,15 +25,30 @@ func fatal(log logging.Printer, msg string, args ...interface{}) {
 
 // writeFile replaces file as a whole, it stays as it was unless all the data are written.
 func writeFile(name string, data []byte) (err error) {
-	if fi, serr := os.Stat(name); serr == nil && !fi.Mode().IsRegular() {
-		// devices, pipes and the like cannot be replaced
-		f, err := os.OpenFile(name, os.O_WRONLY, 0)
-		if err != nil {
+	// links stay, it is the file they lead to which is replaced
+	for i := 0; i < 255; i++ {
+		link, lerr := os.Readlink(name)
+		if lerr != nil {
+			break
+		}
+		if !filepath.IsAbs(link) {
+			link = filepath.Dir(name) + string(filepath.Separator) + link
+		}
+		name = link
+	}
+	mode := os.FileMode(0755)
+	if fi, serr := os.Stat(name); serr == nil {
+		if !fi.Mode().IsRegular() {
+			// devices, pipes and the like cannot be replaced
+			f, err := os.OpenFile(name, os.O_WRONLY, 0)
+			if err != nil {
+				return err
+			}
+			defer f.Close()
+			_, err = f.Write(data)
 			return err
 		}
-		defer f.Close()
-		_, err = f.Write(data)
-		return err
+		mode = fi.Mode().Perm()
 	}
 	f, err := ioutil.TempFile(filepath.Dir(name), ".oapi-")
 	if err != nil {
@@ -46,7 +61,7 @@ func writeFile(name string, data []byte) (err error) {
 	}()
 	_, err = f.Write(data)
 	if err == nil {
-		err = f.Chmod(0755)
+		err = f.Chmod(mode)
 	}
 	if cerr := f.Close(); err == nil {
 		err = cerr
-- 
2.43.0


From 86f3f879bf9896f38ebb8b77f8821673d7b6cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:15 +0000
Subject: [PATCH 58/60] fix: types are collected once, not once per way which
 leads to them

---
 internal/oapi/scan/types/point.go | 36 +++++++++++++++++++++++++++++--
 internal/oapi/scan/types/types.go | 20 ++++++++++++-----
 2 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index a08a02d..9185420 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -100,6 +100,8 @@ type pointmap struct {
 	d map[types.Type]points  // points by declared type, unlike m it tells identical types apart
 	t map[string]types.Type  // declared type at the point
 	s map[string]point       // points at types of standard mapping
+	r map[string]point       // points at declared types, which are places referring to them
+	k map[string]bool        // declared types which are referred to
 	o map[string]spec.Schema // overrides by pointer
 }
 
@@ -126,9 +128,39 @@ func (tp *pointmap) mark(p1, p2 point) {
 	tp.s[p1.String()] = p2
 }
 
+// refer remembers that place p1 is of declared type p2 and reports if there is
+// another place of it.
+func (tp *pointmap) refer(p1, p2 point) (known bool) {
+	if tp.r == nil {
+		tp.r = make(map[string]point)
+		tp.k = make(map[string]bool)
+	}
+	tp.r[p1.String()] = p2
+	known = tp.k[p2.String()]
+	tp.k[p2.String()] = true
+	return
+}
+
+// place returns point of given pointer, pointers which lead through places of
+// declared types are those inside of the declared type.
+func (tp pointmap) place(p1 pointer.Pointer) pointer.Pointer {
+	for i := 1; i < p1.Fragment.Len(); i++ {
+		px := p1.Clone()
+		px.Fragment = px.Fragment[:i]
+		p2, ok := tp.r[px.String()]
+		if !ok {
+			continue
+		}
+		px = p2.Pointer.Clone()
+		px.Fragment = px.Fragment.RawDescendant(p1.Fragment[i:]...)
+		return tp.place(px)
+	}
+	return p1
+}
+
 // mapped returns standard mapping of type at which given pointer points.
 func (tp pointmap) mapped(p1 pointer.Pointer) (s spec.Schema, ok bool) {
-	p2, ok := tp.s[p1.String()]
+	p2, ok := tp.s[tp.place(p1).String()]
 	if !ok {
 		return
 	}
@@ -197,7 +229,7 @@ func (tp pointmap) pick(t types.Type) (point, bool) {
 }
 
 func (tp pointmap) findType(p1 pointer.Pointer) (types.Type, bool) {
-	t, ok := tp.t[p1.String()]
+	t, ok := tp.t[tp.place(p1).String()]
 	return t, ok
 }
 
diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 92716f5..55f490f 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -84,13 +84,23 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 	}
 
 	for _, e := range next {
-		err = walk(e.p, e.t, p, m)
-		if err != nil {
-			return
+		np, ok := declared(e.t)
+		if !ok {
+			err = walk(e.p, e.t, p, m)
+			if err != nil {
+				return
+			}
+			continue
 		}
-		if np, ok := declared(e.t); ok {
-			err = walk(np, e.t, p, m)
+		// what is inside of declared type is collected only once, there might be
+		// too many ways which lead to it
+		known := m.refer(e.p, np)
+		m.mark(e.p, np)
+		m.append(e.t.Underlying(), e.p)
+		if known {
+			continue
 		}
+		err = walk(np, e.t, path{}, m)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 5defaad91212fbf1df5b600e2a97ed70ea1597d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:33 +0000
Subject: [PATCH 59/60] fix: YAML without a JSON form is an error, not an empty
 specification

---
 internal/container/container.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/container/container.go b/internal/container/container.go
index 92d187e..e8f2a0f 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -65,6 +65,11 @@ func ReadYAML(data []byte) (c Container, err error) {
 		return
 	}
 	c = wrap(mmap(i))
+	_, err = c.MarshalJSON()
+	if err != nil {
+		// e.g. .inf or .nan, which would be lost with first copy
+		return Container{}, errors.Wrapf(err, "failed to represent yaml as json")
+	}
 	return
 }
 
-- 
2.43.0


From 6b47bc1f95743b7c9db4ac3bb5c8f7718338be78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:26 +0000
Subject: [PATCH 60/60] fix: YAML keys which are the same in JSON are an error,
 not a random choice

---
 internal/container/container.go |  4 ++++
 internal/container/utils.go     | 35 +++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/internal/container/container.go b/internal/container/container.go
index e8f2a0f..f65d517 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -64,6 +64,10 @@ func ReadYAML(data []byte) (c Container, err error) {
 		err = errors.Wrapf(err, "failed to unmarshal yaml")
 		return
 	}
+	err = uniqueKeys(i)
+	if err != nil {
+		return Container{}, errors.Wrapf(err, "failed to represent yaml as json")
+	}
 	c = wrap(mmap(i))
 	_, err = c.MarshalJSON()
 	if err != nil {
diff --git a/internal/container/utils.go b/internal/container/utils.go
index aff17c5..8f8bd05 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -102,6 +102,41 @@ func wrap(c interface{}) Container {
 	}
 }
 
+// uniqueKeys makes sure that keys of every map differ as strings, e.g. 200 and "200"
+// are two keys of YAML but just one of JSON, so one of values would be lost.
+func uniqueKeys(v interface{}) (err error) {
+	switch x := v.(type) {
+	case map[interface{}]interface{}:
+		known := make(map[string]bool, len(x))
+		for k, v2 := range x {
+			key := fmt.Sprint(k)
+			if known[key] {
+				return errors.Errorf("key %q is there more than once", key)
+			}
+			known[key] = true
+			err = uniqueKeys(v2)
+			if err != nil {
+				return
+			}
+		}
+	case map[string]interface{}:
+		for _, v2 := range x {
+			err = uniqueKeys(v2)
+			if err != nil {
+				return
+			}
+		}
+	case []interface{}:
+		for _, v2 := range x {
+			err = uniqueKeys(v2)
+			if err != nil {
+				return
+			}
+		}
+	}
+	return
+}
+
 // mmap walks the given dynamic object recursively, and
 // converts maps with interface{} key type to maps with string key type.
 // This function comes handy if you want to marshal a dynamic object into
-- 
2.43.0

