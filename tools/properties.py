#!/usr/bin/env python3
"""Source of properties.jsonl (one entry per property)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})

prop("C01", "JSON pointer fragments round-trip and parse as RFC 6901",
     "Printing a list of reference tokens as a fragment and parsing the text gives the same tokens back, for any token content, and every fragment text is accepted or rejected and split into tokens exactly as RFC 6901 says. Parsing then printing a valid text gives the text back. Extending a fragment with a path yields the old tokens followed by the tokens of the path.",
     ["inputs"], "all token lists and all fragment texts",
     "The one existing test parses one pointer without any escape; escaping order errors show only on tokens mixing '~', '/', '0' and '1'.",
     ["internal/pointer/fragment.go"], [("token escaping", "escapeToken/unescapeToken"), ("parser", "parseFragment"), ("extension", "Fragment.Descendant")])
prop("C02", "Pointers survive printing, parsing and JSON encoding",
     "A pointer printed as text and parsed again designates the same document and the same fragment, and so does a pointer encoded as a JSON string and decoded. A pointer built for a Go package and a type name reports exactly that package and that name. Merging sets of pointers keeps every pointer of both sets and changes neither.",
     ["inputs"], "all packages, names and fragment tokens, all byte values",
     "The existing test parses one fixed pointer and looks at scheme and path; it never prints, re-parses or encodes one, so characters that need quoting are never reached.",
     ["internal/pointer/pointer.go"], [("parse/print", "Parse, Pointer.String"), ("JSON form", "Pointer.MarshalJSON/UnmarshalJSON"), ("package path", "NewGoPointer, PkgPath"), ("sets", "Pointers.Merge")])
prop("C03", "Pointer values are persistent",
     "Deriving a pointer fragment from another one (extending, replacing a token, cloning) never changes any fragment obtained before, whatever the order of derivations. Replacing a token outside the fragment is an error, never a crash.",
     ["histories", "inputs"], "all sequences of derivations over shared fragments, all indices",
     "Aliasing shows only when two derivations start from one fragment with spare capacity; no test derives twice from the same value.",
     ["internal/pointer/fragment.go", "internal/pointer/pointer.go"], [("derivation", "Fragment.Descendant, RawDescendant, Replace, Clone"), ("clone", "Pointer.Clone")])
prop("C04", "Dot paths address exactly one key chain of a document",
     "The path built from a list of keys, whatever characters the keys contain, reads, tests and writes exactly the value under that chain of keys and nothing else. Collecting a key returns every scalar stored under it exactly once, at any depth, with a path that leads back to it. Asking for children or presence of any kind of value never crashes and tells objects from other values.",
     ["inputs"], "all key lists and documents",
     "Tests use keys without dots or tildes and documents of one level.",
     ["internal/container/utils.go", "internal/container/container.go"], [("dot path escaping", "SliceToDotPath"), ("key collection", "ExtractKey"), ("navigation", "Container.Path, SetP, ExistsP, ChildrenMap, IsNil")])
prop("C05", "Documents are isolated copies",
     "Making a document from a value, cloning it, setting a value in it or merging into it copies: the copy equals the original as JSON and no later change to either side is visible on the other. Scalars of any content (numbers within double precision) survive copying, rendering and reading back unchanged, and a value without a JSON form is an error that changes nothing.",
     ["inputs", "histories"], "all JSON-like values and later changes to either side",
     "Tests compare values after copying but never modify one side afterwards.",
     ["internal/container/container.go", "internal/container/utils.go"], [("copying", "Make, Clone, SetP, clone"), ("merge source copy", "Container.Merge")])
prop("C06", "Merging documents is a lawful recursive union",
     "Merging unites objects recursively: keys of only one side are kept, and where both sides hold something other than two objects the chosen rule decides - strict merging fails, default merging keeps the destination, override merging takes the source, merging of the same keeps equal values and fails on others. Merging a list of documents is folding it from left to right, and documents without common leaves merge to the same result in any order.",
     ["inputs"], "all pairs and lists of documents, all four rules, all map iteration orders",
     "Tests merge a handful of flat documents per rule.",
     ["internal/container/merge.go", "internal/container/container.go"], [("merge", "Container.Merge, MergeStrict, MergeDefault, MergeOverride"), ("list merge", "Containers.Merge")])
prop("C07", "Every output format carries the document, in fixed order, deterministically",
     "Formatting a document as JSON, indented JSON, YAML or Go source yields text that reads back as exactly that document, with every top-level key once the known sections in their fixed order (openapi, info, components, paths) and any other keys ahead of them, sorted by name. Formatting never changes the document, and formatting it again, in between or at the same time gives the same bytes. The Go output is a valid source file whose constant is the JSON document; an unknown format name is an error.",
     ["inputs"], "all documents, all text content, all map iteration orders",
     "The existing tests format documents with two fixed keys and plain text; quoting errors need special characters and ordering errors need several unlisted keys.",
     ["oapi.go", "temp.go", "internal/container/sort.go"], [("format switch", "Format"), ("ordering", "SortMapMarhsaler, MapSlice"), ("Go output", "produceGoFile")])

exec(open(os.path.join(root, "tools", "properties_more.py")).read()) if os.path.exists(os.path.join(root, "tools", "properties_more.py")) else None
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
