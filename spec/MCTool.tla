------------------------------- MODULE MCTool -------------------------------
(* Every use of the schema evolution tool on a directory with two configs   *)
(* and a schema file, up to a number of commands.                           *)
EXTENDS Tool, Json

CONSTANT Depth

VARIABLES files, schema, ops, start, meaning
vars == <<files, schema, ops, start, meaning>>

S == <<"st", "S", <<<<"b", <<"float">>, "no", None>>, <<"c", <<"opt", <<"int">>>>, "val", I(3)>>>>, -1, <<>>>>
T == <<"st", "R", <<<<"a", <<"int">>, "val", I(2)>>, <<"s", S, "no", None>>, <<"n", <<"str">>, "val", Str("x")>>>>, 2,
       <<<<0, <<<<"rename", <<"b">>, <<"s", "b">>>>>>>>, <<1, <<<<"chdef", <<"a">>, I(1), I(2)>>>>>>>>>>
Wider == <<"st", "R", <<<<"a", <<"opt", <<"int">>>>, "val", I(2)>>, <<"s", S, "no", None>>, <<"n", <<"str">>, "val", Str("x")>>>>, 2, <<>>>>
Narrower == <<"st", "R", <<<<"a", <<"bool">>, "no", None>>, <<"s", S, "no", None>>, <<"n", <<"str">>, "val", Str("x")>>>>, 2, <<>>>>

Contents0 == {
  <<"tree", <<"dict", <<<<"version", I(0)>>, <<"b", Flt(4)>>>>>>>>,
  <<"tree", <<"obj", "R", <<<<"version", I(1)>>, <<"s", <<"obj", "S", <<<<"b", Flt(12)>>>>>>>>, <<"n", Str("y")>>>>>>>>,
  <<"tree", <<"dict", <<<<"version", I(2)>>, <<"s", <<"dict", <<<<"c", None>>, <<"b", Flt(8)>>>>>>>>, <<"a", I(2)>>>>>>>>,
  <<"tree", <<"dict", <<<<"version", I(1)>>, <<"s", <<"dict", <<<<"c", Str("no")>>, <<"b", Flt(8)>>>>>>>>>>>>>>,
  <<"text", "R(">>}
Schemas0 == {<<"type", [T EXCEPT ![5] = <<>>]>>, <<"type", [T EXCEPT ![4] = 0, ![5] = <<>>, ![3] = <<<<"a", <<"int">>, "val", I(1)>>, <<"b", <<"float">>, "no", None>>, T[3][3]>>]>>,
             <<"type", Wider>>, <<"type", Narrower>>, <<"gone">>, <<"text", "Struct(">>}
Names == <<"a.ron", "b.ron">>

Mean(fs) == [i \in DOMAIN fs |-> Contents(T, fs[i][2])]
Init == /\ \E x \in Contents0, y \in Contents0 : files = <<<<"a.ron", x>>, <<"b.ron", y>>>>
        /\ schema \in Schemas0 /\ start = <<files, schema>> /\ ops = <<>> /\ meaning = Mean(files)

Quiet == << >>
Do(o) == Len(ops) < Depth /\ ops' = Append(ops, o) /\ UNCHANGED start
UpgradeSome ==
  \E tg \in {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>}, inc \in BOOLEAN, dry \in BOOLEAN :
    LET nms == [j \in DOMAIN tg |-> Names[tg[j]]] IN
    /\ Do([op |-> "upgrade", files |-> nms, inc |-> inc, dry |-> dry, fault |-> <<>>])
    /\ files' = IF dry THEN files ELSE Upgraded(T, files, Prefix(T, files, nms), inc)
    /\ UNCHANGED <<schema, meaning>>
CheckIt == Do([op |-> "check"]) /\ UNCHANGED <<files, schema, meaning>>
\* What the checker will say is the subject of C13 and C14, here both are possible
UpSchema == Do([op |-> "upschema", fault |-> <<>>]) /\ (schema' = schema \/ (schema[1] = "type" /\ schema' = <<"type", [T EXCEPT ![5] = <<>>]>>)) /\ UNCHANGED <<files, meaning>>
Dump == Do([op |-> "dump", fault |-> <<>>]) /\ schema' = <<"type", [T EXCEPT ![5] = <<>>]>> /\ UNCHANGED <<files, meaning>>
Edit == \E i \in {1, 2}, x \in {<<"text", "R(">>, CHOOSE y \in Contents0 : y[1] = "tree" /\ y[2][1] = "obj"} :
          /\ Do([op |-> "edit", file |-> Names[i], content |-> x]) /\ files' = [files EXCEPT ![i][2] = x]
          /\ meaning' = Mean(files') /\ UNCHANGED schema
Next == UpgradeSome \/ CheckIt \/ UpSchema \/ Dump \/ Edit

\* No command changes what a config means, and what fails to load stays as it is
Kept == Mean(files) = meaning /\ \A i \in DOMAIN files : ~IsOk(meaning[i]) => files[i][2][1] # "value"
\* Upgraded files state the current version only
Emit == ops # <<>> /\ Len(ops) = Depth =>
  PrintT("@" \o ToJson([k |-> "tool", t |-> T, sched |-> FALSE, files |-> start[1], schema |-> start[2], ops |-> ops]))
=============================================================================
