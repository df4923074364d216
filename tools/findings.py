"""Writes known_findings.jsonl: defects that are recorded rather than repaired (with a history that reproduces each), and repairs."""
import json, os, subprocess
R=lambda fs,v=0: ["st","Root",fs,v,[]]
N=lambda n,t: [n,t,"no",["none"]]
D=lambda n,t,d: [n,t,"fac",d]
S=lambda n,*fs: ["st",n,list(fs),-1,[]]
INT=["int"]; STR=["str"]
OPT=lambda t:["opt",t]
T=lambda *ps: ["dict",[["version",["int",0]],*[list(p) for p in ps]]]
X=lambda c,*ps: ["obj",c,[list(p) for p in ps]]
i=lambda n:["int",n]
A=S("A",N("i",INT),N("j",INT))
out=[]
def chain(id,prop,clauses,what,t,u,*trees):
    out.append(dict(kind="known",id=id,property=prop,clauses=clauses,what=what,case=dict(k="chain",text=False,ts=[t,u],trees=[list(trees)])))
def pair(id,prop,clauses,what,t,u,*trees):
    out.append(dict(kind="known",id=id,property=prop,clauses=clauses,what=what,case=dict(k="pair",t=t,u=u,trees=list(trees))))
out.append(dict(kind="known",id="K01",property="C15",clauses=["mapped-type-not-resolved"],match={},what="registering the proposed MapFieldValue (a value that becomes a list of it, float to int) leaves the type change reported: rules do not say to which type they map",
  case=dict(k="chain",text=False,ts=[R([N("k",INT)]),R([N("k",["list",INT])])],trees=[[T(("k",i(3)))]])))
chain("K02","C15",["mitigated-but-rejected","mitigated-but-changed"],"rules proposed for fields of dataclasses inside of lists do not apply to configs (field s.k of class S in List[S] removed)",
  R([N("s",["list",S("S",N("a",INT),N("k",INT))])]),R([N("s",["list",S("S",N("a",INT))])]),T(("s",["list",[X("S",("a",i(1)),("k",i(2)))]])))
chain("K03","C15",["mitigated-but-changed","mitigated-but-rejected","not-resolved"],"rules proposed for enum variants that swap their values undo each other",
  R([N("k",["enum","E",[["P",["str","p"]],["Q",["str","q"]]]])]),R([N("k",["enum","E",[["P",["str","q"]],["Q",["str","p"]]]])]),T(("k",["str","p"])),T(("k",["str","q"])))
chain("K04","C15",["not-resolved","mitigated-but-changed","mitigated-but-rejected"],"rules proposed for enum variants inside of lists map the whole list (List[Enum] with a changed value)",
  R([N("k",["list",["enum","E",[["P",["str","p"]]]]])]),R([N("k",["list",["enum","E",[["P",["str","pp"]]]]])]),T(("k",["list",[["str","p"]]])))
chain("K05","C15",["mitigated-but-changed","mitigated-but-rejected","not-resolved"],"rules proposed for a section that becomes optional delete its fields (A to Optional[A])",
  R([N("k",A)]),R([D("k",OPT(A),["none"])]),T(("k",X("A",("i",i(1)),("j",i(2))))))
chain("K06","C15",["mitigated-but-changed","mitigated-but-rejected","not-resolved"],"rules proposed for a section that becomes a dictionary leave its emptied section or default behind",
  R([D("k",A,X("A",("i",i(1)),("j",i(2))))]),R([D("k",["dict",INT],["dict",[]])]),T(("k",X("A",("i",i(3)),("j",i(4))))),T())
chain("K07","C15",["mapped-type-not-resolved","mitigated-but-changed","mitigated-but-rejected"],"the rule proposed for Optional[T] that becomes Optional[List[T]] maps None to [None]",
  R([N("k",OPT(INT))]),R([N("k",OPT(["list",INT]))]),T(("k",["none"])))
pair("K08","C13",["section-gained-default"],"a required section that gets a default of its own which differs from the defaults of its fields is reported as compatible; configs that leave the section out change",
  R([N("s",S("S",D("a",INT,i(1))))]),R([D("s",S("S",D("a",INT,i(1))),X("S",("a",i(5))))]),T())
pair("K09","C13",["compatible-but-rejected","compatible-but-changed"],"a required field moved (RenameField) out of a section that configs may leave out is reported as compatible; configs without the section lose its value",
  R([D("s",OPT(S("S",N("a",INT),D("b",INT,i(2)))),["none"])]),["st","Root",[N("a",INT),D("s",OPT(S("S",D("b",INT,i(2)))),["none"])],1,[[0,[["rename",["s","a"],["a"]]]]]],T(),T(("s",["none"])))
chain("K10","C15",["mitigated-but-changed","mitigated-but-rejected"],"the default of a section that is renamed is not restored by the proposed rules: configs that leave the section out change",
  R([D("s",S("S",D("a",INT,i(1))),X("S",("a",i(3))))]),R([D("s2",S("S",D("a",INT,i(1))),X("S",("a",i(5))))]),T())
out[[o["id"] for o in out].index("K08")]["match"] = {}

FIXED = """
C05 e04260a|C04 eadee5d|C06 787a2dc|C06 2a11b80|C06 c680bab|C08 723dc0c|C08 3f28c9b|C08 14a8b51|C09 9b36c04|C09 5125b7f|C10 efdd428
C12 7acfebe|C10 5f0b822|C10 07f78d5|C12 026378d|C12 d4426b8|C12 c8987ba|C12 8efa15a|C15 afebdcb|C12 fcbfd78|C15 37d55ac|C09 1f88c70|C14 a0477d1|C13 84d070d
C14 97199ae|C14 2091f3f|C15 58b613d|C15 c713f8d|C18 1d2076a|C16 802cdd6|C14 08eabe7|C12 5276b0f|C15 c6234b1|C17 9ed75ca|C17 9ff5ef8|C09 23b7175
C08 25287bf|C08 ef6d85e|C12 f198e53|C10 5f59509|C10 ef8187d|C10 aab7a52|C06 86be4d9|C06 66f6d19|C17 85ec2b0|C06 7c99c52|C06 8af9e29|C14 f110601|C13 03ec1c6
C04 c93f490|C12 5b33239|C13 b42ec6a|C12 c742669|C12 1dd5890|C15 1ac89df|C15 7ed6041|C12 21e5aa9|C12 144e24a|C12 08b74bf|C15 c593961|C12 d17805f|C12 8f76952|C16 cf17228|C12 917ddf0|C20 01e5fcc|C20 af899cd|C21 929d3c0|C21 62f109f|C21 30b6bd8
""".replace("\n", "|").split("|")

log = dict(l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines())
out.sort(key=lambda o: o["id"])
for x in FIXED:
    if x:
        pid, h = x.split()
        out.append({"kind": "fixed", "property": pid, "commit": h, "line": f"fixed: property={pid} {h} {log[h].replace('fix: ', '')}"})
missing = [h for h, m in log.items() if m.startswith("fix:") and not any(o.get("commit") == h for o in out)]
assert not missing, missing
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.jsonl"), "w").write("".join(json.dumps(o) + "\n" for o in out))
