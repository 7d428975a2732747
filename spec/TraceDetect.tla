---------------------------- MODULE TraceDetect ----------------------------
(***************************************************************************)
(* Judges real detections.  A line holds a set of printed boards, the      *)
(* image files with what they show, what OpenCV found in them (events) and *)
(* the observations the program was left with (db).                        *)
(*   files:  [c, name (bytes), ext, readable, w, h, shows (printed boards)]*)
(*   events: [file, p (printed board), k (corners)]                        *)
(*   db:     [c, f, b, k, file (its path), shown (whether file shows the   *)
(*            board it is said to be with each corner in its place), event *)
(*            (the event with this file, board and points, or 0)]          *)
(***************************************************************************)
EXTENDS Boards, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Ev == Trace[l]
Elems(q) == {q[i] : i \in DOMAIN q}
Ensure(p, what, cond) == IF cond THEN {} ELSE {<<p, what>>}
Allowed == {"jpg", "png", "bmp", "jpeg", "jp2", "tiff"}
RECURSIVE Before(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Before(Tail(a), Tail(b))
Images(e) == {i \in DOMAIN e.files : e.files[i].ext \in Allowed}
Position(e, i) == Cardinality({j \in Images(e) : e.files[j].c = e.files[i].c /\ Before(e.files[j].name, e.files[i].name)})
Index(e) == IF e.sel = <<>> THEN [i \in DOMAIN e.sq |-> i - 1] ELSE e.sel
Logical(e, p) == {b \in 0..Len(Index(e)) - 1 : Index(e)[b + 1] = p}
Cam(e, i) == e.files[i].c

(* -------------------------------------------------------------- markers *)
PrintedMarkers(e) ==
  Ensure("C02", "number of boards generated", Len(e.printed) = Len(e.sq)) \cup
  Ensure("C02", "size of a generated image", \A i \in DOMAIN e.printed : e.printed[i].size = e.res[i]) \cup
  Ensure("C02", "generated boards share a marker", \A i, j \in DOMAIN e.printed : i # j =>
                 Elems(e.printed[i].ids) \cap Elems(e.printed[j].ids) = {}) \cup
  Ensure("C02", "markers of a generated board", \A i \in DOMAIN e.printed :
                 Elems(e.printed[i].ids) = Markers(e.sq, i - 1) /\ Len(e.printed[i].ids) = NMarkers(e.sq[i])) \cup
  Ensure("C02", "markers the detector looks for", Len(e.boards) = Len(Index(e)) /\ \A b \in DOMAIN e.boards :
                 Elems(e.boards[b]) = Elems(e.printed[Index(e)[b] + 1].ids))

(* -------------------------------------------------------------- identity *)
Identity(e) ==
  Ensure("C02", "an observation of a board that is not in the image, or with corners in wrong places",
         \A i \in DOMAIN e.db : e.db[i].shown) \cup
  Ensure("C02", "a board in an image is not found", \A i \in Images(e) : e.files[i].readable => \A p \in Elems(e.files[i].shows) :
         \A b \in Logical(e, p) : \E x \in Elems(e.db) : x.file = i /\ x.b = b /\ 2 * Cardinality(Elems(x.k)) > NCorners(e.sq[p + 1]))

(* ------------------------------------------------------------ the database *)
Sure(e) == {i \in DOMAIN e.events : Elems(e.events[i].k) = AllCorners(e.sq[e.events[i].p + 1]) /\ e.perc <= 900}
Never(e) == {i \in DOMAIN e.events : Len(e.events[i].k) <= 2}
Key(e, v, b) == <<Cam(e, v.file), Position(e, v.file), b>>
Database(e) ==
  LET must == UNION {{Key(e, e.events[i], b) : b \in Logical(e, e.events[i].p)} : i \in Sure(e)}
      may == UNION {{Key(e, e.events[i], b) : b \in Logical(e, e.events[i].p)} : i \in DOMAIN e.events \ Never(e)}
      is == {<<x.c, x.f, x.b>> : x \in Elems(e.db)}
  IN Ensure("C03", "a board that was found in an image was lost", must \subseteq is) \cup
     Ensure("C03", "an observation of something that was not found", is \subseteq may) \cup
     Ensure("C03", "an observation twice", Cardinality(is) = Len(e.db)) \cup
     Ensure("C03", "an observation belongs to another image", \A x \in Elems(e.db) : x.file \in Images(e) /\ x.c = Cam(e, x.file) /\ x.f = Position(e, x.file)) \cup
     Ensure("C03", "an image is not looked at, or looked at twice",
            \A i \in Images(e) : e.files[i].readable => \A p \in Elems(Index(e)) :
                p \in Elems(e.files[i].shows) => Cardinality({j \in DOMAIN e.events : e.events[j].file = i /\ e.events[j].p = p}) = 1) \cup
     Ensure("C03", "image size of a camera", \A c \in DOMAIN e.sizes : \A i \in Images(e) :
            Cam(e, i) = c - 1 /\ Position(e, i) = 0 => e.sizes[c] = <<e.files[i].w, e.files[i].h>>) \cup
     Ensure("C03", "numbers of the observations", Elems(e.ids) = 0..Len(e.db) - 1) \cup
     UNION {LET mine == {<<x.c, x.f, x.b>> : x \in {y \in Elems(e.db) :
                  CASE v.kind = "cam" -> y.c = v.key[1] [] v.kind = "board" -> y.b = v.key[1] [] v.kind = "frame" -> y.f = v.key[1]
                    [] v.kind = "image" -> <<y.c, y.f>> = v.key}}
            IN Ensure("C03", "list of observations of a " \o v.kind, Elems(v.items) = mine /\ Len(v.items) = Cardinality(mine))
            : v \in Elems(e.views)} \cup
     Ensure("C03", "a camera, frame or image has no list",
            /\ {<<x.c, x.f>> : x \in Elems(e.db)} = {v.key : v \in {w \in Elems(e.views) : w.kind = "image"}}
            /\ {<<x.f>> : x \in Elems(e.db)} = {v.key : v \in {w \in Elems(e.views) : w.kind = "frame"}})

(* -------------------------------------------------------- acceptance rule *)
\* flat, spread: measured distance of the corners from their line, beyond doubt
Rule(e) ==
  UNION {LET v == e.events[i]
             q == e.sq[v.p + 1]
             K == Elems(v.k)
             n == Len(v.k)
             hits == {j \in DOMAIN e.db : e.db[j].event = i}
         IN IF Logical(e, v.p) = {} THEN {} ELSE
            Ensure("C04", "a board with too few corners was accepted", (n <= 4 \/ TooFew(q, e.perc, n)) => hits = {}) \cup
            Ensure("C04", "a board with corners on a line was accepted", (Collinear(q, K) \/ v.flat) => hits = {}) \cup
            Ensure("C04", "a board that should be accepted is missing, or its points are others",
                   (n > 4 /\ Enough(q, e.perc, n) /\ v.spread /\ ~Collinear(q, K)) => Cardinality(hits) = Cardinality(Logical(e, v.p)))
         : i \in DOMAIN e.events} \cup
  Ensure("C04", "an observation without a finding, or with other points", \A j \in DOMAIN e.db : e.db[j].event > 0) \cup
  Ensure("C04", "points are not refined", \A j \in DOMAIN e.db : e.db[j].event > 0 => e.db[j].precise)

Judge(e) == IF ~e.ok THEN {<<p, "the run ended abnormally">> : p \in Elems(e.props)}
            ELSE (IF "C02" \in Elems(e.props) THEN PrintedMarkers(e) \cup Identity(e) ELSE {}) \cup
                 (IF "C03" \in Elems(e.props) THEN Database(e) ELSE {}) \cup
                 (IF "C04" \in Elems(e.props) THEN Rule(e) ELSE {})
TInit == l = 1 /\ bad = {}
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ bad' = bad \cup {[id |-> Ev.id, prop |-> q[1], what |-> q[2]] : q \in Judge(Ev)}
TSpec == TInit /\ [][TNext]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT(<<"DONE", ToJson([n |-> l - 1, bad |-> bad])>>)
=============================================================================
