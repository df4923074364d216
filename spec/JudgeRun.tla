------------------------------ MODULE JudgeRun ------------------------------
(* Verdicts on observed histories of training runs.                         *)
EXTENDS History, Json, IOUtils

VARIABLE l
INSTANCE Judge
=============================================================================
