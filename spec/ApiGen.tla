-------------------------------- MODULE ApiGen --------------------------------
(* Writes the grid of requests to the file $GRID. *)
EXTENDS ApiGrid, Json, IOUtils
GLe(a, b) == a[1] <= b[1]
GAdd(a, d) == <<a[1] + d[1]>>
GRound(a) == a
GMilli == <<2>>
GSecond == <<2000>>
GTen == <<1200000>>
ASSUME JsonSerialize(IOEnv.GRID, [mid |-> Mid, cfg |-> Cfg, stores |-> Stores, kinds |-> Kinds])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
===============================================================================
