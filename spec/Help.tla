-------------------------------- MODULE Help --------------------------------
(* What help tells about a config class.                                    *)
(* Docs: a sequence of <<class, <<<<field, text of the base class, text of  *)
(* the class>>, ...>>>>, where "" stands for no text.                       *)
EXTENDS Serde

DocOf(docs, cls, f) ==
  LET c == SelectSeq(docs, LAMBDA d : d[1] = cls)
      e == IF c = <<>> THEN <<>> ELSE SelectSeq(c[1][2], LAMBDA x : x[1] = f)
  IN IF e = <<>> THEN "" ELSE IF e[1][3] # "" THEN e[1][3] ELSE e[1][2]

\* The section that a field holds, directly, optionally or in a list
RECURSIVE Holds(_)
Holds(T) == IF T[1] \in {"opt", "list"} THEN Holds(T[2]) ELSE T
IsSection(T) == Holds(T)[1] = "st"

\* Fields in order of declaration: those without a default come first
Ordered(T) == SelectSeq(T[3], LAMBDA f : f[3] = "no") \o SelectSeq(T[3], LAMBDA f : f[3] # "no")

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* Everything there is to tell, in order
RECURSIVE Listing(_, _, _)
Listing(T, path, docs) ==
  LET fs == Ordered(T)
      one(f) == <<[path |-> Append(path, f[1]), t |-> f[2], default |-> IF f[3] = "no" THEN <<>> ELSE <<f[4]>>, doc |-> DocOf(docs, T[2], f[1])]>>
                \o (IF IsSection(f[2]) THEN Listing(Holds(f[2]), Append(path, f[1]), docs) ELSE <<>>)
  IN Concat([i \in DOMAIN fs |-> one(fs[i])])

Last1(p) == p[Len(p)]
FieldNames(T) == LET ls == Listing(T, <<>>, <<>>) IN {Last1(ls[i].path) : i \in DOMAIN ls}

\* The words that the name of a type is made of, in order
RECURSIVE Words(_)
Words(T) ==
  CASE T[1] \in {"int", "float", "bool", "str"} -> <<T[1]>>
    [] T[1] = "opt" -> <<"Optional">> \o Words(T[2])
    [] T[1] = "list" -> <<"List">> \o Words(T[2])
    [] T[1] = "tup" -> <<"Tuple">> \o Concat([i \in DOMAIN T[2] |-> Words(T[2][i])])
    [] T[1] = "dict" -> <<"Dict", "str">> \o Words(T[2])
    [] T[1] = "union" -> <<"Union">> \o Concat([i \in DOMAIN T[2] |-> Words(T[2][i])])
    [] T[1] = "lit" -> <<>>
    [] OTHER -> <<T[2]>>      \* classes of enums and sections
RECURSIVE Literals(_)
Literals(T) ==
  CASE T[1] = "lit" -> {T[2][i] : i \in DOMAIN T[2]}
    [] T[1] \in {"opt", "list", "dict"} -> Literals(T[2])
    [] T[1] = "tup" -> UNION {Literals(T[2][i]) : i \in DOMAIN T[2]}
    [] OTHER -> {}
=============================================================================
