------------------------------- MODULE GenLazy ------------------------------
(* Prints random histories of states with stored objects.                   *)
EXTENDS Gen, Json

CONSTANT Mode   \* "lazy" | "payload" | "pickle"

---------------------------------------------------------------------------
(* Payloads *)
Dtypes == <<"<f4", "<f8", "<f2", ">f4", ">i2", "<i4", "<i8", "|i1", "|u1", "<u2", "<u4", "<u8", "|b1", "<c8", "<c16", ">f8">>
Shapes == <<<<3>>, <<>>, <<0>>, <<2, 3>>, <<0, 4>>, <<1>>, <<2, 1, 2>>, <<4, 0, 2>>, <<5, 2>>, <<1, 1, 1, 1>>, <<16>>, <<2, 2, 2, 2>>>>
Layouts == <<"C", "C", "F", "T", "stride", "neg", "ro", "bcast">>
Bytes == <<<<>>, <<0>>, <<255, 128, 0, 10>>, <<104, 105>>, <<226, 130>>, <<128, 4, 149>>>>
Ints == <<I(0), I(-1), I(127), I(128), I(-32), I(-33), I(-129), I(65536), <<"ilit", "4294967296">>, <<"ilit", "18446744073709551615">>,
          <<"ilit", "-9223372036854775808">>, <<"ilit", "9007199254740993">>>>
Floats2 == <<Flt(0), Flt(-4), <<"flit", "0.1">>, <<"flit", "1e300">>, <<"flit", "5e-324">>, <<"flit", "nan">>, <<"flit", "-inf">>, <<"flit", "-0.0">>,
             <<"flit", "16777217.0">>, <<"flit", "3.0000000000000004">>>>
KeyKinds == <<Str("k"), Str("w"), I(3), I(-1), Str(""), <<"bytes", <<107>>>>, Str("__tensor__"), Str("data"), Str("U+e9;"), <<"bool", TRUE>>, <<"none">>, Flt(4), <<"bytes", <<>>>>, Str("3"), Str("id")>>

RECURSIVE GenPayload(_)
GenPayload(d) ==
  LET k == TLCEval(IF d = 0 THEN Pick(<<"none", "bool", "int", "float", "str", "bytes", "arr", "arr">>)
                   ELSE Pick(<<"int", "float", "str", "bytes", "arr", "arr", "arr", "list", "list", "dict", "dict", "dict", "long">>)) IN
  CASE k = "none" -> None
    [] k = "bool" -> Bool(Chance(1, 2))
    [] k = "int" -> Pick(Ints)
    [] k = "float" -> Pick(Floats2)
    [] k = "str" -> Str(Pick(Strings))
    [] k = "bytes" -> <<"bytes", Pick(Bytes)>>
    [] k = "arr" -> <<"arr", Pick(Dtypes), Pick(Shapes), RandomElement(0..40), Pick(Layouts)>>
    [] k = "long" -> <<"long", Pick(<<"str", "bytes", "list", "dict">>), Pick(<<1, 8, 17, 40, 300>>)>>
    [] k = "list" -> <<"list", Seq1(LAMBDA i : GenPayload(d - 1), RandomElement(0..4))>>
    [] k = "dict" -> LET o == TLCEval(RandomElement(0..20)) IN
                     <<"dict", Seq1(LAMBDA i : <<KeyKinds[((o + i) % Len(KeyKinds)) + 1], TLCEval(GenPayload(d - 1))>>, RandomElement(0..4))>>

Payload(i) == TLCEval(IF Mode = "payload" THEN GenPayload(RandomElement(0..3)) ELSE Pick(<<I(5), <<"arr", "<f4", <<2>>, 1, "C">>, <<"dict", <<<<Str("a"), I(1)>>>>>>, None>>))

---------------------------------------------------------------------------
(* Slots *)
TopNames == <<"net", "net2", "parts_0", "sub_a", "named_k", "net_0", "opt", "n", "pair_0", "state", "Net">>
SubNames == <<"a", "net", "b_0", "k">>

\* n slots of one kind
Group(k, n) == LET o == TLCEval(RandomElement(0..27)) IN
  CASE k \in {"top", "opt"} -> Seq1(LAMBDA i : <<k, TopNames[((o + i) % Len(TopNames)) + 1]>>, n)
    [] k = "sub" -> Seq1(LAMBDA i : <<"sub", SubNames[i]>>, IF n > 4 THEN 4 ELSE n)
    [] k \in {"list", "tup"} -> Seq1(LAMBDA i : <<k, i - 1>>, n)
    [] k = "dict" -> Seq1(LAMBDA i : <<"dict", DictKeys[((o + i) % Len(DictKeys)) + 1]>>, n)
    [] k = "deep" -> Seq1(LAMBDA i : <<"deep", DictKeys[((o + 5 + i) % Len(DictKeys)) + 1]>>, n)

RECURSIVE Groups(_)
Groups(ks) == IF ks = <<>> THEN <<>> ELSE (IF Chance(1, 2) THEN Group(ks[1], IF ks[1] = "list" /\ Chance(1, 6) THEN 12 ELSE RandomElement(1..2)) ELSE <<>>) \o TLCEval(Groups(Tail(ks)))

GenSlots(i) ==
  LET o == TLCEval(RandomElement(0..10))
      nt == TLCEval(RandomElement(2..4))
      tops == Seq1(LAMBDA j : <<IF Chance(1, 4) THEN "opt" ELSE "top", TopNames[((o + j) % Len(TopNames)) + 1]>>, nt)
      ats == tops \o TLCEval(Groups(<<"sub", "list", "dict", "tup", "deep">>))
  IN <<ats, nt>>

\* Dependencies only from one field of the state to an earlier or a later one
GenDeps(ats, nt, lazy) ==
  LET down == TLCEval(Chance(1, 2)) IN
  Seq1(LAMBDA i : IF ~lazy \/ i > nt \/ ~Chance(1, 3) THEN ""
                  ELSE LET js == {j \in 1..nt : (IF down THEN j < i ELSE j > i) /\ ats[j][1] = "top"} IN
                       IF js = {} THEN "" ELSE ats[RandomElement(js)][2], Len(ats))

---------------------------------------------------------------------------
(* Operations *)
Ctxs == << <<>>, <<<<"k", 1>>>>, <<<<"k", 2>>, <<"q", 3>>>> >>
StartOp(saved) == [op |-> "start", dir |-> Chance(2, 3), init |-> IF saved # <<>> /\ Chance(1, 2) THEN Pick(saved) ELSE "none", ctx |-> Pick(Ctxs)]

Menu == IF Mode = "payload" THEN <<"get", "step", "restart", "restart", "poke", "poke", "set", "save", "all">>
        ELSE IF Mode = "lazy" THEN <<"get", "get", "get", "set", "set", "poke", "step", "again", "restart", "restart", "restart", "undo", "rm", "rm", "unrm", "save", "dump", "ctx", "all", "other", "hasattr">>
        ELSE <<"get", "get", "get", "set", "poke", "step", "step", "again", "restart", "restart", "legacyrun", "legacyrun", "env", "save", "dump", "all", "other", "hasattr", "rm">>

Names == <<"keep1", "keep2", "keep3">>
Anywhere(saved) == IF saved # <<>> /\ Chance(1, 3) THEN Pick(saved) ELSE "latest"

RECURSIVE GenOps(_, _, _, _)
GenOps(ats, lazy, n, saved) ==
  IF n = 0 THEN <<>>
  ELSE LET c == TLCEval(Pick(Menu))
           i == TLCEval(RandomElement(1..Len(ats)))
           \* a slot that may be None
           pay == TLCEval(IF ats[i][1] = "opt" /\ Chance(1, 4) THEN <<"nothing">> ELSE Payload(0))
           nm == TLCEval(Pick(Names))
           os == CASE c = "get" -> <<[op |-> "get", slot |-> i, way |-> "attr"]>>
                   [] c = "hasattr" -> IF ats[i][1] \in {"top", "opt"} THEN <<[op |-> "get", slot |-> i, way |-> "hasattr"]>> ELSE <<[op |-> "get", slot |-> i, way |-> "attr"]>>
                   [] c = "all" -> <<[op |-> "get", slot |-> 1, way |-> Pick(<<"repr", "all">>)]>>
                   [] c = "other" -> <<[op |-> "get", slot |-> 1, way |-> "other"]>>
                   [] c = "set" -> <<[op |-> "set", slot |-> i, payload |-> pay]>>
                   [] c = "poke" -> <<[op |-> "poke", slot |-> i]>>
                   [] c = "step" -> <<[op |-> "step", d |-> 1]>>
                   [] c = "again" -> <<[op |-> "step", d |-> 0]>>
                   \* a change that is not saved
                   [] c = "undo" -> <<[op |-> "poke", slot |-> i], [op |-> "stop"], StartOp(saved), [op |-> "get", slot |-> i, way |-> "attr"]>>
                   [] c = "restart" -> <<[op |-> "stop"], StartOp(saved)>>
                   [] c = "rm" -> <<[op |-> "rm", name |-> Anywhere(saved), slot |-> i]>>
                   [] c = "unrm" -> <<[op |-> "unrm", name |-> Anywhere(saved), slot |-> i]>>
                   [] c \in {"save", "dump"} -> <<[op |-> c, name |-> nm]>>
                   [] c = "ctx" -> IF ~lazy THEN <<>> ELSE <<[op |-> "ctx", k |-> Pick(<<"k", "z">>), v |-> RandomElement(1..5)]>>
                   [] c = "env" -> <<[op |-> "env", on |-> Chance(1, 2)]>>
                   [] c = "legacyrun" -> LET w == Anywhere(saved) IN
                        <<[op |-> "stop"]>> \o Seq1(LAMBDA k : [op |-> "legacy", name |-> w, slot |-> RandomElement(1..Len(ats)), how |-> Pick(<<"BLOB", "pickle", "pickle", "fake">>)], RandomElement(1..3))
                          \o (IF Chance(1, 3) THEN <<[op |-> "env", on |-> Chance(1, 2)]>> ELSE <<>>)
                          \o <<[op |-> "start", dir |-> w = "latest", init |-> IF w = "latest" THEN "none" ELSE w, ctx |-> <<>>]>>
       IN TLCEval(os) \o GenOps(ats, lazy, n - 1, IF c \in {"save", "dump"} THEN Append(saved, nm) ELSE saved)

VARIABLE n
Init == n = 0
Case(j) ==
  LET g == TLCEval(GenSlots(0))  ats == g[1]
      lazy == TLCEval(Chance(2, 3))
      deps == TLCEval(GenDeps(ats, g[2], lazy))
      pays == Seq1(LAMBDA i : IF ats[i][1] = "opt" /\ deps[i] = "" /\ Chance(1, 4) THEN <<"nothing">> ELSE Payload(0), Len(ats))
      cls == Seq1(LAMBDA i : IF ats[i][1] \in {"top", "opt", "sub"} THEN Pick(<<"Net", "Net", "Net2", "Net3">>) ELSE "Net", Len(ats))
  IN [k |-> "lazy", lazy |-> lazy, sublazy |-> Chance(1, 3),
      slots |-> [i \in DOMAIN ats |-> [at |-> ats[i], dep |-> deps[i], cls |-> cls[i], payload |-> pays[i]]],
      ops |-> <<[op |-> "start", dir |-> TRUE, init |-> "none", ctx |-> Pick(Ctxs)], [op |-> "step", d |-> 1]>> \o
              (IF Mode = "pickle" THEN <<>> ELSE <<[op |-> "stop"], [op |-> "start", dir |-> TRUE, init |-> "none", ctx |-> Pick(Ctxs)]>>)
              \o TLCEval(GenOps(ats, lazy, RandomElement(3..9), <<>>))]
Next == n' = n + 1 /\ PrintT("@" \o ToJson(Case(n)))
=============================================================================
