------------------------------- MODULE Detect -------------------------------
(***************************************************************************)
(* Detection threads.  A pool of Threads takes the images of one camera    *)
(* after the other; a thread reads its image, looks for one board after    *)
(* the other, and stores what it accepted: it takes the next number, puts  *)
(* the observation into the database, then into the lists of its board,    *)
(* its camera, its frame and its image.  Each of these is a read of a      *)
(* shared container followed by a write of it, and only a lock keeps       *)
(* others out in between (Locked = FALSE shows what it is good for).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NC, NI, NB, Threads, Locked,
          Accepted      \* the set of <<camera, image, board>> to be accepted
VARIABLES cam,          \* the camera whose images are being worked on
          queue,        \* images of it nobody took
          work,         \* thread -> [img, b, step, copy]
          lock, db, lists
dvars == <<cam, queue, work, lock, db, lists>>
Idle == [img |-> -1, b |-> 0, step |-> "idle", id |-> -1, copy |-> {}]
Kinds == <<"board", "cam", "frame", "image">>
KeyOf(k, c, i, b) == CASE k = "board" -> <<k, b>> [] k = "cam" -> <<k, c>> [] k = "frame" -> <<k, i>> [] OTHER -> <<k, c, i>>
KeysAll == {<<"board", b>> : b \in 0..NB - 1} \cup {<<"cam", c>> : c \in 0..NC - 1} \cup
           {<<"frame", i>> : i \in 0..NI - 1} \cup {<<"image", c, i>> : c \in 0..NC - 1, i \in 0..NI - 1}
DInit == /\ cam = 0 /\ queue = 0..NI - 1 /\ work = [t \in Threads |-> Idle] /\ lock = "free"
         /\ db = {} /\ lists = [k \in KeysAll |-> {}]
Take(t) == /\ work[t].step = "idle" /\ queue # {}
           /\ LET i == CHOOSE x \in queue : \A y \in queue : x <= y IN
                queue' = queue \ {i} /\ work' = [work EXCEPT ![t] = [Idle EXCEPT !.img = i, !.step = "look"]]
           /\ UNCHANGED <<cam, lock, db, lists>>
Look(t) == /\ work[t].step = "look"
           /\ work' = [work EXCEPT ![t] = IF @.b = NB THEN Idle
                         ELSE IF <<cam, @.img, @.b>> \in Accepted THEN [@ EXCEPT !.step = "enter"] ELSE [@ EXCEPT !.b = @ + 1]]
           /\ UNCHANGED <<cam, queue, lock, db, lists>>
Enter(t) == /\ work[t].step = "enter" /\ (Locked => lock = "free")
            /\ lock' = (IF Locked THEN t ELSE lock)
            /\ work' = [work EXCEPT ![t].step = "number", ![t].id = Cardinality(db)]
            /\ UNCHANGED <<cam, queue, db, lists>>
Number(t) == /\ work[t].step = "number"    \* the observation is stored under its number, whoever was there is gone
             /\ db' = {x \in db : x.id # work[t].id} \cup {[id |-> work[t].id, c |-> cam, i |-> work[t].img, b |-> work[t].b]}
             /\ work' = [work EXCEPT ![t].step = "read1"]
             /\ UNCHANGED <<cam, queue, lock, lists>>
Read(t, n) == LET w == work[t] k == KeyOf(Kinds[n], cam, w.img, w.b) IN
  /\ w.step = "read" \o ToString(n)
  /\ work' = [work EXCEPT ![t].step = "write" \o ToString(n), ![t].copy = lists[k]]
  /\ UNCHANGED <<cam, queue, lock, db, lists>>
Store(t, n) == LET w == work[t] k == KeyOf(Kinds[n], cam, w.img, w.b) IN
  /\ w.step = "write" \o ToString(n)
  /\ lists' = [lists EXCEPT ![k] = w.copy \cup {w.id}]
  /\ work' = [work EXCEPT ![t].step = IF n = 4 THEN "leave" ELSE "read" \o ToString(n + 1)]
  /\ UNCHANGED <<cam, queue, lock, db>>
Leave(t) == /\ work[t].step = "leave"
            /\ lock' = (IF Locked THEN "free" ELSE lock)
            /\ work' = [work EXCEPT ![t] = [@ EXCEPT !.step = "look", !.b = @ + 1, !.id = -1, !.copy = {}]]
            /\ UNCHANGED <<cam, queue, db, lists>>
\* all threads are joined before the next camera
Joined == queue = {} /\ \A t \in Threads : work[t].step = "idle"
NextCamera == Joined /\ cam < NC - 1 /\ cam' = cam + 1 /\ queue' = 0..NI - 1 /\ UNCHANGED <<work, lock, db, lists>>
DNext == NextCamera \/ \E t \in Threads : Take(t) \/ Look(t) \/ Enter(t) \/ Number(t) \/ Leave(t) \/ \E n \in 1..4 : Read(t, n) \/ Store(t, n)
Finished == Joined /\ cam = NC - 1
DSpec == DInit /\ [][DNext]_dvars /\ WF_dvars(DNext)
(* ---------------------------------------------------------- guarantees *)
Complete == Finished => {<<x.c, x.i, x.b>> : x \in db} = Accepted /\ Cardinality(db) = Cardinality(Accepted)
Numbered == Finished => {x.id : x \in db} = 0..Cardinality(Accepted) - 1
Consistent == Finished => \A k \in KeysAll : lists[k] =
  {x.id : x \in {y \in db : CASE k[1] = "board" -> y.b = k[2] [] k[1] = "cam" -> y.c = k[2] [] k[1] = "frame" -> y.i = k[2]
                              [] OTHER -> y.c = k[2] /\ y.i = k[3]}}
Exclusive == Cardinality({t \in Threads : work[t].step \notin {"idle", "look", "enter"}}) <= (IF Locked THEN 1 ELSE Cardinality(Threads))
Terminates == <>Finished
=============================================================================
