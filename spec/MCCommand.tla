----------------------------- MODULE MCCommand -----------------------------
(* Every start of a few programs.                                           *)
EXTENDS Command, Json

CONSTANT Size
Mode == <<"enum", "E", <<<<"UP", <<"str", "up">>>>, <<"DOWN", <<"int", 2>>>>>>>>
Net == <<"st", "Net", <<<<"width", <<"int">>, "no", None>>, <<"mode", Mode, "val", <<"enum", "E", "UP">>>>>>, -1, <<>>>>
R == <<"st", "R", <<<<"lr", <<"float">>, "val", Flt(8)>>, <<"net", Net, "no", None>>, <<"aux", <<"opt", Net>>, "no", None>>>>, -1, <<>>>>
Q == <<"st", "Q", <<<<"n", <<"int">>, "val", I(3)>>, <<"tag", <<"str">>, "val", Str("a b")>>, <<"on", <<"bool">>, "val", <<"bool", TRUE>>>>>>, 0, <<>>>>

NetT(w) == <<"dict", <<<<"width", w>>>>>>
Dict(ps) == <<"tree", <<"dict", ps>>>>
Now(ps) == Dict(<<<<"version", I(0)>>>> \o ps)
Files == [R |-> {<<"none">>, <<"missing">>, <<"text", "R(lr: ">>, Dict(<<>>), Dict(<<<<"net", NetT(I(4))>>>>), Dict(<<<<"net", NetT(Str("x"))>>, <<"lr", Flt(4)>>>>),
                 Dict(<<<<"net", NetT(I(4))>>, <<"rate", Flt(4)>>>>), Dict(<<<<"lr", Str("big")>>, <<"net", NetT(I(4))>>, <<"aux", NetT(I(5))>>>>)},
          Q |-> {<<"none">>, <<"missing">>, <<"text", "[1, 2">>, Now(<<>>), Now(<<<<"n", I(4)>>>>), Now(<<<<"on", I(4)>>>>)}]
O(p, x) == <<p, x>>
Ovs == [R |-> <<O(<<"lr">>, Flt(20)), O(<<"lr">>, <<"bad", "fast">>), O(<<"net", "width">>, I(7)), O(<<"net", "width">>, Flt(4)), O(<<"net", "mode">>, <<"txt", "up">>),
                O(<<"aux", "width">>, I(9)), O(<<"net", "depth">>, I(1)), O(<<"lr">>, <<"noval">>), O(<<"net">>, NetT(I(2))), O(<<"aux">>, None)>>,
        Q |-> <<O(<<"n">>, I(7)), O(<<"n">>, <<"bad", "a(">>), O(<<"tag">>, <<"txt", "x=y">>), O(<<"on">>, <<"txt", "F">>), O(<<"on">>, <<"bad", "maybe">>), O(<<"m">>, I(1)), O(<<"tag">>, <<"noval">>)>>]
Infos == {<<"none">>, <<"all">>, <<"query", "lr">>}

VARIABLE a
Class == [R |-> R, Q |-> Q]
Init == \E c \in DOMAIN Class :
  /\ a \in [k : {"cmd"}, t : {Class[c]}, stateful : BOOLEAN, verbose : BOOLEAN, file : Files[c], resume : BOOLEAN, style : {0}, ovs : {<<>>}, info : Infos]
  /\ a.resume => a.stateful
  /\ a.verbose => a.info[1] = "none"
Next == /\ Len(a.ovs) < Size /\ a.info[1] = "none"
        /\ \E i \in DOMAIN Ovs[a.t[2]] : a' = [a EXCEPT !.ovs = Append(@, Ovs[a.t[2]][i]), !.style = (@ + i) % 4]

\* Programs run only with configs that are valid, and only when nothing else was asked for
Sound == Ends(a) = "run" => /\ IsOk(Config(a, a.ovs)) /\ Conforms(a.t, Config(a, a.ovs)[2])
                            /\ a.info[1] = "none" /\ ~a.resume /\ a.file[1] \notin {"missing", "text"}
\* Overrides that are fine by themselves are fine together
Compose == LET c == Config(a, <<>>) IN
           IsOk(c) /\ ~a.resume /\ Culprits(a) = {} /\ Bad(a) = {} => IsOk(Config(a, a.ovs)) \/ Config(a, a.ovs) = Open
\* What was not overridden is as in the file
Untouched == Ends(a) = "run" /\ a.file[1] = "tree" /\ (\A i \in DOMAIN a.ovs : a.ovs[i][1][1] # a.t[3][1][1]) /\ IsOk(Config(a, <<>>))
             => Get(Config(a, a.ovs)[2][3], a.t[3][1][1]) = Get(Config(a, <<>>)[2][3], a.t[3][1][1])
Emit == PrintT("@" \o ToJson(a))
=============================================================================
