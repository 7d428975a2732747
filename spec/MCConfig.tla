------------------------------ MODULE MCConfig ------------------------------
(* Enumerates configurations (all combinations of lists and selections,    *)
(* random values for the scalars), checks the meaning of boards, and emits *)
(* the configurations for replay.                                          *)
EXTENDS Config, TLC, Json, Randomization
VARIABLES cfg, phase
Shapes == {<<5, 5>>, <<6, 4>>, <<3, 7>>, <<10, 3>>, <<4, 5>>}
Max4(s) == (CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] <= m) + 1
Scalars ==
  [ refine |-> RandomElement(0..1), minperc |-> RandomElement({0, 100, 250, 400, 501, 999}),
    quat |-> RandomElement(0..1), ransac |-> RandomElement({500, 1000, 3500, 10000, 64000}),
    iters |-> RandomElement({1, 50, 1000, 12345}), he |-> RandomElement(0..1),
    fix |-> RandomElement(0..1), repro |-> RandomElement(0..1), detect |-> RandomElement(0..1),
    root |-> RandomElement({"/data/x", "rel/y", "z"}), prefix |-> RandomElement({"Cam_", "kam", "c-"}),
    params |-> RandomElement({"None", "/p/q.yml", ""}), keys |-> RandomElement({"None", "/k/l.yml", ""}),
    outname |-> RandomElement({"", "cams.yml", "o.yml"}) ]
Init ==
  /\ phase = "choose"
  /\ \E nb \in 1..4, idx \in {<<>>, <<0>>, <<1>>, <<2, 0>>, <<1, 3>>, <<0, 1, 2>>, <<3, 1, 0, 2>>, <<0, 2>>},
        counts \in BOOLEAN, sz \in BOOLEAN, md \in BOOLEAN, nc \in 1..4 :
     LET need == IF idx = <<>> THEN nb ELSE Max4(idx)
         sh == RandomElement(Shapes)
         shapes == [i \in 1..need |-> RandomElement(Shapes)]
     IN cfg = [ nboard |-> nb, index |-> idx, ncam |-> nc,
                nx |-> sh[1], ny |-> sh[2], size |-> RandomElement({20, 192, 1000, 37500}),
                nxs |-> IF counts THEN [i \in 1..need |-> shapes[i][1]] ELSE <<>>,
                nys |-> IF counts THEN [i \in 1..need |-> shapes[i][2]] ELSE <<>>,
                sizes |-> IF sz THEN [i \in 1..need |-> RandomElement({140, 138, 163, 2500})] ELSE <<>>,
                model |-> RandomElement(0..1),
                models |-> IF md THEN [i \in 1..nc |-> RandomElement(0..1)] ELSE <<>>,
                opts |-> Scalars ]
Next == phase = "choose" /\ phase' = "done" /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<<cfg, phase>>

Printed == 0..(IF cfg.index = <<>> THEN cfg.nboard ELSE Max4(cfg.index)) - 1
MarkersDisjoint == \A p, q \in Printed : p # q =>
  {Markers(cfg, p)[i] : i \in 1..NbMarkers(cfg, p)} \cap {Markers(cfg, q)[i] : i \in 1..NbMarkers(cfg, q)} = {}
SelectionIrrelevant == \* a board means the same whatever else is selected
  \A i \in 1..Len(Selected(cfg)) :
    LET p == Selected(cfg)[i]
        alone == [cfg EXCEPT !.index = <<p>>]
    IN [Board(alone, 1) EXCEPT !.id = i - 1] = Board(cfg, i)
Grid == \A i \in 1..Len(Selected(cfg)) :
  LET b == Board(cfg, i) IN
    /\ Len(b.corners) = Cardinality({b.corners[k] : k \in 1..Len(b.corners)})
    /\ \A k \in 1..Len(b.corners) :
         /\ b.corners[k][1] \in {x * b.size : x \in 0..b.nx - 2}
         /\ b.corners[k][2] \in {y * b.size : y \in 0..b.ny - 2}
Out == phase = "done" => PrintT(<<"CFG", ToJson(cfg)>>)
=============================================================================
