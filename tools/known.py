import subprocess,re,sys
cur="""C01: fragments with an invalid escape sequence
C03: Fragment.Replace rejects index|deriving a fragment must not share storage
C02: percent-encode fragment bytes|encode and decode pointers as JSON strings
C04: escape '~' before '.'|IsNil must not panic|collect keys below object keys that contain dots
C07: keys without a fixed position are sorted|top level keys are encoded as JSON strings|generated Go file must compile
C08: literal text after the last variable|single letter variables|wildcard of route
C09: only operations of a path item|overlapping default operation patterns
C10: merging the root document keeps array valued sections|info fields which root
C12: references next to references|exported schemas replace components stated|exports whose name contains dots|component of an exported pointer|reference to a component escapes
C11: replace entity which is nothing but pointer
C16: mulof tag option|boolean tag options which are absent|blank struct tag must not panic|quotes around a tag option
C15: pointer to a place of type time.Time|pointer to unknown type is an error|collecting fields of type error|instances of generic types|types are collected once
C14: format of a field type is kept|required fields of struct type|constraints apply to fields of overridden type
C13: types of equal structure keep|field of outer struct hides|unexported embedded structs|reference to a named type keeps its name
C17: schema command with malformed pointer|schema command with nothing but|local pointer of schema command|two exports under one name|block comments are not
C18: specifications of several packages can be merged|packages without module are below src|directories may have special characters|YAML without a JSON form|YAML keys which are the same|packages of vendor directory
C19: visiting a missing package
C21: standard streams can be selected
C25: oapi terminates with an error|output file does not have to exist|output file is replaced as a whole|output file keeps its mode
C24: pointers to types in overrides|override of time.Time|scan decodes resulting document""".splitlines()
W=dict(l.split(": ",1) for l in cur)
V=sys.argv[1]
log=subprocess.check_output(["git","-C","/repo","log","--format=%h %s","--reverse"],text=True).splitlines()
out=["# fixed: property=<id> <commit> <what failed>   repaired defects, suppress nothing",
"# finding: property=<id> id=<id> <text>         defects recorded, not repaired"]
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    ps=[p for p,v in W.items() if any(x in s for x in v.split("|"))]
    assert len(ps)==1,(s,ps)
    out.append(f"fixed: property={ps[0]} {h} {s[5:]}")
f=V+"/known-findings.txt"
out+=[l for l in open(f).read().splitlines() if l.startswith("finding:")]
open(f,"w").write("\n".join(out)+"\n")
