------------------------------ MODULE GenUtil ------------------------------
(* Export of behaviours found by TLC.                                       *)
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
Emit(tag, v) == PrintT(tag \o " " \o ToJson(v))
=============================================================================
