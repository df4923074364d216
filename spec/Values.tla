------------------------------ MODULE Values ------------------------------
(* Values, parsed config trees and types, shared by all serialization       *)
(* specifications. Everything is a tagged tuple, tag first, so that TLC can *)
(* compare any two of them.                                                 *)
(*                                                                          *)
(*  value/tree  <<"int",n>>  <<"float",n>> (n eighths)  <<"inf",s>>         *)
(*              <<"flit",t>> / <<"ilit",t>> (opaque numerals)               *)
(*              <<"bool",b>>  <<"str",s>>  <<"none">>                       *)
(*              <<"list",seq>>  <<"tup",seq>>  <<"dict",pairs>>             *)
(*              <<"obj",name,pairs>>   name "" in trees: anonymous          *)
(*              <<"enum",class,variant>>   only in values                   *)
(*              <<"unit",name>>  bare word, only in overrides               *)
(*              <<"weak",pairs>> section which is omitted but whose fields  *)
(*                               have other defaults than the class says    *)
(*              <<"absent">>     no node                                    *)
(*  type        <<"int">> <<"float">> <<"bool">> <<"str">> <<"opt",T>>      *)
(*              <<"list",T>> <<"tup",Ts>> <<"dict",T>>                      *)
(*              <<"enum",class,variants>> <<"lit",values>> <<"union",Ts>>   *)
(*              <<"st",class,fields,version,rules>>                         *)
(*  field       <<name,type,kind,default>>  kind: "no" | "val" | "fac"      *)
(*  version     -1 for classes that are not versioned                       *)
(*  rules       <<version,<<rule,...>>>>, ...                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None   == <<"none">>
Absent == <<"absent">>
I(n) == <<"int", n>>
Flt(n) == <<"float", n>>
Str(s) == <<"str", s>>
Bool(b) == <<"bool", b>>

Ok(v) == <<"ok", v>>
Err   == <<"err">>
Open  == <<"open">>     \* the specification leaves the outcome open
IsOk(r) == r[1] = "ok"

Range(s) == {s[i] : i \in DOMAIN s}

---------------------------------------------------------------------------
(* Sequences of pairs as ordered maps *)

Has(ps, k) == \E i \in DOMAIN ps : ps[i][1] = k
Get(ps, k) == IF Has(ps, k) THEN ps[CHOOSE i \in DOMAIN ps : ps[i][1] = k][2] ELSE Absent
Del(ps, k) == SelectSeq(ps, LAMBDA p : p[1] # k)
Put(ps, k, v) == IF Has(ps, k)
                 THEN [i \in DOMAIN ps |-> IF ps[i][1] = k THEN <<k, v>> ELSE ps[i]]
                 ELSE Append(ps, <<k, v>>)
Keys(ps) == {ps[i][1] : i \in DOMAIN ps}

IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

---------------------------------------------------------------------------
(* Types *)

Fields(T) == T[3]
ClassName(T) == T[2]
Version(T) == T[4]
Rules(T) == T[5]
IsStruct(T) == T[1] = "st"
RECURSIVE Unopt(_)
Unopt(T) == IF T[1] = "opt" THEN Unopt(T[2]) ELSE T

HasField(T, f) == \E i \in DOMAIN Fields(T) : Fields(T)[i][1] = f
Field(T, f) == Fields(T)[CHOOSE i \in DOMAIN Fields(T) : Fields(T)[i][1] = f]
FType(fld) == fld[2]
HasDefault(fld) == fld[3] # "no"
Default(fld) == fld[4]

\* The field at a path; sections may be optional. <<>> if there is none.
RECURSIVE FindField(_, _)
FindField(T, p) ==
  IF ~IsStruct(T) \/ ~HasField(T, p[1]) THEN <<>>
  ELSE IF Len(p) = 1 THEN Field(T, p[1])
  ELSE FindField(Unopt(FType(Field(T, p[1]))), Tail(p))

\* Strings that spell numbers, and the number they spell
Spelled(s) ==
  CASE s = "3" -> I(3) [] s = "-2" -> I(-2) [] s = "0" -> I(0)
    [] s = "1.5" -> Flt(12) [] s = "4.0" -> Flt(32) [] s = "1e2" -> Flt(800)
    [] s = "-0.25" -> Flt(-2) [] s = "inf" -> <<"inf", 1>> [] s = "-inf" -> <<"inf", -1>>
    [] s \in {"9007199254740993", "18446744073709551616", "-9223372036854775808"} -> <<"ilit", s>>
    [] s \in {"5e-324", "1e-300", "0.1"} -> <<"flit", s>>
    [] OTHER -> Absent

---------------------------------------------------------------------------
(* Values of a type *)

RECURSIVE Conforms(_, _)
Conforms(T, v) ==
  CASE T[1] = "opt"   -> v = None \/ Conforms(T[2], v)
    [] T[1] = "int"   -> v[1] \in {"int", "ilit"}
    [] T[1] = "float" -> v[1] \in {"float", "inf", "flit"}
    [] T[1] = "bool"  -> v[1] = "bool"
    [] T[1] = "str"   -> v[1] = "str"
    [] T[1] = "enum"  -> v[1] = "enum" /\ v[2] = T[2] /\ \E i \in DOMAIN T[3] : T[3][i][1] = v[3]
    [] T[1] = "lit"   -> \E i \in DOMAIN T[2] : T[2][i] = v
    [] T[1] = "list"  -> v[1] = "list" /\ \A i \in DOMAIN v[2] : Conforms(T[2], v[2][i])
    [] T[1] = "tup"   -> v[1] = "tup" /\ Len(v[2]) = Len(T[2]) /\ \A i \in DOMAIN v[2] : Conforms(T[2][i], v[2][i])
    [] T[1] = "dict"  -> v[1] = "dict" /\ \A i \in DOMAIN v[2] : Conforms(T[2], v[2][i][2])
    [] T[1] = "union" -> \E i \in DOMAIN T[2] : Conforms(T[2][i], v)
    [] T[1] = "st"    -> /\ v[1] = "obj"
                         /\ v[2] = T[2]
                         /\ Len(v[3]) = Len(T[3])
                         /\ \A i \in DOMAIN v[3] : v[3][i][1] = T[3][i][1] /\ Conforms(T[3][i][2], v[3][i][2])
    [] OTHER -> FALSE

\* Equality of values; dictionaries are unordered.
RECURSIVE Same(_, _)
Same(a, b) ==
  IF a[1] # b[1] THEN FALSE
  ELSE CASE a[1] \in {"list", "tup"} -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : Same(a[2][i], b[2][i])
         [] a[1] = "dict" -> Len(a[2]) = Len(b[2]) /\ \A i \in DOMAIN a[2] : Has(b[2], a[2][i][1]) /\ Same(a[2][i][2], Get(b[2], a[2][i][1]))
         [] a[1] = "obj" -> a[2] = b[2] /\ Len(a[3]) = Len(b[3]) /\ \A i \in DOMAIN a[3] : Has(b[3], a[3][i][1]) /\ Same(a[3][i][2], Get(b[3], a[3][i][1]))
         [] OTHER -> a = b

\* The object at a path of field names inside a value, Absent if some section is.
RECURSIVE At(_, _)
At(v, p) == IF p = <<>> THEN v
            ELSE IF v[1] # "obj" \/ ~Has(v[3], p[1]) THEN Absent
            ELSE At(Get(v[3], p[1]), Tail(p))
=============================================================================
