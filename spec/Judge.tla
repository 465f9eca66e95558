------------------------------- MODULE Judge ------------------------------
(* Trace validation: the shared part. The recorded events are consumed one by *)
(* one; what an event has against it is printed and the next one is consumed,  *)
(* so that one violation does not hide another. A verdict is <<property, what>>. *)
EXTENDS Node, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
If(cond, prop, what) == IF cond THEN {<<prop, what>>} ELSE {}
IfNot(cond, prop, what) == IF cond THEN {} ELSE {<<prop, what>>}
Report(e, bad) == IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([no |-> e.no, bad |-> bad]))
============================================================================
