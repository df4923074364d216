-------------------------------- MODULE Tool --------------------------------
(* The schema evolution tool: a directory with config files and a schema    *)
(* file, and the commands that read and rewrite them.                       *)
(*                                                                          *)
(* Model state                                                              *)
(*   files   name -> what the file says:                                    *)
(*             <<"tree", t>>       a config, of any version                 *)
(*             <<"value", v, inc>> a config that the tool has written       *)
(*             <<"text", s>>       something that is no config              *)
(*   schema  what the schema file says: <<"type", T>>, <<"text", s>>, <<"gone">> *)
EXTENDS Evolve, Schedule, Runs

Contents(T, c) ==
  CASE c[1] = "tree" -> Load(T, c[2], <<>>, Env(FALSE, FALSE))
    [] c[1] = "value" -> Ok(c[2])
    [] OTHER -> Err

\* Every versioned object in a file says that it is of the current version of its class
RECURSIVE Current(_, _)
Current(T, n) ==
  CASE T[1] = "opt" -> n = None \/ Current(T[2], n)
    [] T[1] = "list" /\ n[1] = "list" -> \A i \in DOMAIN n[2] : Current(T[2], n[2][i])
    [] T[1] = "tup" /\ n[1] = "tup" /\ Len(n[2]) = Len(T[2]) -> \A i \in DOMAIN n[2] : Current(T[2][i], n[2][i])
    [] T[1] = "dict" /\ IsSec(n) -> \A i \in DOMAIN SecPairs(n) : Current(T[2], SecPairs(n)[i][2])
    [] T[1] = "union" /\ n[1] = "obj" -> \A i \in DOMAIN T[2] : T[2][i][2] = n[2] => Current(T[2][i], n)
    [] T[1] = "st" /\ IsSec(n) ->
         /\ Version(T) >= 0 => Get(SecPairs(n), "version") = I(Version(T))
         /\ \A i \in DOMAIN Fields(T) : Has(SecPairs(n), Fields(T)[i][1]) => Current(FType(Fields(T)[i]), Get(SecPairs(n), Fields(T)[i][1]))
    [] OTHER -> TRUE

\* The files that an upgrade of `names` rewrites: all those before the first that cannot be loaded
RECURSIVE Prefix(_, _, _)
Prefix(T, files, names) ==
  IF names = <<>> THEN <<>>
  ELSE IF ~Has(files, names[1]) \/ ~IsOk(Contents(T, Get(files, names[1]))) THEN <<>>
  ELSE <<names[1]>> \o Prefix(T, files, Tail(names))
Undecided(T, files, names) == \E i \in DOMAIN names : Has(files, names[i]) /\ Contents(T, Get(files, names[i])) = Open

Upgraded(T, files, done, inc) ==
  [i \in DOMAIN files |-> IF files[i][1] \in Range(done) THEN <<files[i][1], <<"value", Contents(T, files[i][2])[2], inc>>>> ELSE files[i]]
=============================================================================
