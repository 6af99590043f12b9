----------------------------- MODULE FinderTrace ----------------------------
(* Trace specification of spacegroups/finder.rs.                             *)
EXTENDS Finder, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Got(ok, clause) == IF e.r # "ok" THEN Ret(FALSE, "call did not return: " \o e.r) ELSE Ret(ok, clause)
AxisOk(M, d) == IF HasAxis(M) THEN Len(d.axis) = 1 /\ Len(d.axis[1]) = Len(M) /\ OnAxis(M, d.axis[1]) /\ Directed(d.axis[1]) ELSE d.axis = <<>>
One(M, d) == /\ Ret(d.order = Order(M), "order")
             /\ Ret(d.op = Proper(M), "handedness")
             /\ Ret(AxisOk(M, d), "axis")
             /\ Ret((Order(M) > 2 /\ (Len(M) = 3 \/ (Len(M) = 2 /\ Proper(M))) /\ AxisOk(M, d)) =>
                       d.cw = Clockwise(M, IF d.axis = <<>> THEN <<>> ELSE d.axis[1]), "sense of rotation")
(* e.v of e.a, e.i of its inverse                                            *)
Details == IsEvent("details") /\
    Got(LET M == e.a
            J == QInverse(M)
        IN /\ One(M, e.v) /\ One(J, e.i)
           /\ Ret((Len(M) > 1 /\ Order(M) > 2) => e.v.cw # e.i.cw, "inverse operators with the same sense of rotation"), "")
Systems == IsEvent("system") /\
    Got(LET G == {e.ms[i] : i \in 1..Len(e.ms)}
            b == e.v.basis
        IN /\ Ret(e.v.system = System(G), "crystal system")
           /\ Ret(/\ Len(b) = 2
                  /\ \A i \in 1..2 : b[i].nr = 2 /\ b[i].nc = 1
                  /\ LET c(i) == <<b[i].rows[1][1], b[i].rows[2][1]>> IN Adapted(G, c(1), c(2)), "the basis is not adapted"), "")
Next == Details \/ Systems
Spec == Init /\ [][Next]_l
=============================================================================
