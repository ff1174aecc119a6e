------------------------------- MODULE Logger -------------------------------
(* Messages: what the helpers return and what they print.                  *)
EXTENDS Integers, Sequences
Prefix(fn) == CASE fn = "msg" -> "" [] fn = "warn" -> "WARNING: " [] fn = "error" -> "ERROR: "
RECURSIVE Tabs(_)
Tabs(k) == IF k <= 0 THEN "" ELSE "\t" \o Tabs(k - 1)
Returned(fn, text) == Prefix(fn) \o text
Printed(fn, text, level, silent) == IF silent THEN "" ELSE Tabs(level) \o Returned(fn, text) \o "\n"
=============================================================================
