----------------------------- MODULE MCAverage -----------------------------
(* All sequences of measurements: all multisets in all orders.             *)
EXTENDS Average, TLC, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
\* generic values and, for the symmetric cases, angles about one axis
Generic == {<<1, 4, -3, 0, 5, 2>>, <<-6, 2, 5, 3, 1, 9>>, <<4, -7, 1, 7, 2, -4>>}
Axial == {<<a, 0, 0, a, -a, 2 * a>> : a \in {-8, -2, 4, 10}}
\* half turns and around: the quaternions change sign in between
Wide == {<<a, 0, 0, a, -a, 2 * a>> : a \in {28, 31, 34, 37}}
VARIABLES s, kind

Init == s = <<>> /\ kind \in {"generic", "axial", "wide"}
Vals == CASE kind = "generic" -> Generic [] kind = "axial" -> Axial [] OTHER -> Wide
Next == Len(s) < MaxLen /\ \E v \in Vals : s' = Append(s, v) /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<s, kind>>
Mids(k) == {v[k] + w[k] : v \in Vals, w \in Vals} \cup -16..16
(* a majority value is the only median; medians do not depend on the order *)
MajorityIsMedian == Len(s) > 0 => \A m \in Vals : Majority(s, m) =>
  \A k \in 1..6 : \A x2 \in Mids(k) : MedianOf(s, k, x2) => x2 = 2 * m[k]
MedianExists == Len(s) > 0 => \A k \in 1..6 : \E x2 \in Mids(k) : MedianOf(s, k, x2)
Out == Len(s) > 0 => PrintT(<<"SEQ", ToJson([s |-> s, kind |-> kind])>>)
=============================================================================
