------------------------------- MODULE MCHelp -------------------------------
(* All config classes that are made of a few kinds of fields and sections.  *)
EXTENDS Help, Json

CONSTANT Size     \* number of fields of the outermost class
VARIABLE t

E1 == <<"enum", "E", <<<<"UP", <<"str", "up">>>>, <<"DOWN", <<"int", 2>>>>>>>>
Leaves == {<<<<"int">>, "no", None>>, <<<<"opt", <<"float">>>>, "val", None>>, <<E1, "val", <<"enum", "E", "UP">>>>,
           <<<<"list", <<"str">>>>, "fac", <<"list", <<Str("a = b  # c")>>>>>>}
Sec(nm, fs) == <<"st", nm, fs, -1, <<>>>>
Inner(nm) == {Sec(nm, <<<<"lr", x[1], x[2], x[3]>>>>) : x \in Leaves}
Wrap(S) == {<<S, "no", None>>, <<<<"opt", S>>, "val", None>>, <<<<"list", S>>, "fac", <<"list", <<>>>>>>, <<<<"opt", <<"list", S>>>>, "no", None>>}
Middle(nm) == UNION {Wrap(S) : S \in Inner(nm)}
Outer(nm) == UNION {UNION {Wrap(Sec(nm, <<<<"lr", x[1], x[2], x[3]>>, <<"net", m[1], m[2], m[3]>>>>)) : x \in Leaves} : m \in Middle(nm \o "I")}
Kinds(k) == Leaves \union (IF k = "net" THEN Outer("N") ELSE Middle("A"))
Names == <<"net", "a_lr">>

Init == t \in {Sec("R", <<<<"net", x[1], x[2], x[3]>>>>) : x \in Kinds("net")}
Next == /\ Len(t[3]) < Size
        /\ \E x \in Kinds(Names[Len(t[3]) + 1]) : t' = [t EXCEPT ![3] = Append(@, <<Names[Len(t[3]) + 1], x[1], x[2], x[3]>>)]

L == Listing(t, <<>>, <<>>)
\* No field is listed twice, or before the section it belongs to
Once == \A i, j \in DOMAIN L : L[i].path = L[j].path => i = j
Placed == \A i \in DOMAIN L : Len(L[i].path) > 1 =>
           LET p == SubSeq(L[i].path, 1, Len(L[i].path) - 1) IN \E j \in DOMAIN L : j < i /\ L[j].path = p /\ IsSection(L[j].t)
\* What is listed is what can be overridden, except for what is in lists
InList(p) == \E i \in DOMAIN L : Len(L[i].path) < Len(p) /\ SubSeq(p, 1, Len(L[i].path)) = L[i].path /\ L[i].t # Holds(L[i].t) /\ Unopt(L[i].t) # Holds(L[i].t)
Settable == \A i \in DOMAIN L : LET f == FindField(t, L[i].path) IN
              IF InList(L[i].path) THEN f = <<>> ELSE f # <<>> /\ FType(f) = L[i].t
D(c, f) == <<c, <<<<f, "inherited text", "own text">>>>>>
Emit == \A s \in 0..1 : PrintT("@" \o ToJson([k |-> "help", t |-> t, style |-> s, docs |-> <<D("R", "net"), D("N", "lr"), <<"NI", <<<<"lr", "inherited text", "">>>>>>>>,
                                              inherit |-> <<<<"R", s>>, <<"N", 1>>, <<"NI", 1>>>>]))
=============================================================================
