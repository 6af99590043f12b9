----------------------------- MODULE FrameTrace -----------------------------
(* One net, two descriptions: other vertex names, other representatives of   *)
(* the vertices, another basis of the lattice (skewed as far as one likes).   *)
(* What the code says about symmetries, orbits, translations and minimal      *)
(* images describes the net and not its frame, so the two answers must        *)
(* correspond.  This needs no enumeration, hence works for nets of any size;  *)
(* that every symmetry claimed is one is checked as well, by harmonic         *)
(* positions.                                                                 *)
EXTENDS PGraph, QMat, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1

AsMap(s) == [v \in {s[i][1] : i \in DOMAIN s} |-> (CHOOSE i \in DOMAIN s : s[i][1] = v)]
(* the frame: name, gauge (cells) and basis matrix U                          *)
FrameOf == LET at == TLCEval(AsMap(e.names))
           IN [name  |-> TLCEval([v \in DOMAIN at |-> e.names[at[v]][2]]),
               gauge |-> TLCEval([v \in DOMAIN at |-> e.names[at[v]][3]])]
EdgeTo(F, f) == <<F.name[f[1]], F.name[f[2]],
                  MatVec(e.U, VSub(VAdd(F.gauge[f[1]], f[3]), F.gauge[f[2]]))>>
Texts(M) == [i \in DOMAIN M |-> [j \in DOMAIN M[i] |-> QInt(M[i][j])]]

(* a claimed symmetry as a record of vertex map, edge map and matrix          *)
Sym(a) == [vm |-> {<<a.vm[i][1], a.vm[i][2]>> : i \in DOMAIN a.vm},
           em |-> {<<a.em[i][1], a.em[i][2]>> : i \in DOMAIN a.em}, m |-> a.m]
SymTo(F, U, V, a) == [vm |-> {<<F.name[p[1]], F.name[p[2]]>> : p \in a.vm},
                      em |-> {<<EdgeTo(F, p[1]), EdgeTo(F, p[2])>> : p \in a.em},
                      m  |-> QMM(QMM(U, a.m, e.d), V, e.d)]
QVector(p, f) == [i \in 1..e.d |-> QAdd(QSub(p[f[2]][i], p[f[1]][i]), QInt(f[3][i]))]
RECURSIVE QSumOf(_, _)
QSumOf(s, i) == IF i > Len(s) THEN QZeroV(e.d) ELSE QVAdd(s[i], QSumOf(s, i + 1))
Symmetry(E, vec, a) ==
    LET vmap == [p \in {x[1] : x \in a.vm} |-> (CHOOSE x \in a.vm : x[1] = p)[2]]
    IN /\ Cardinality(a.vm) = Cardinality(Verts(E)) /\ DOMAIN vmap = Verts(E)
       /\ {vmap[v] : v \in Verts(E)} = Verts(E)
       /\ {p[1] : p \in a.em} = DOMAIN vec /\ {p[2] : p \in a.em} = DOMAIN vec
       /\ Cardinality(a.em) = Cardinality(DOMAIN vec)
       /\ \A p \in a.em : /\ p[2][1] = vmap[p[1][1]] /\ p[2][2] = vmap[p[1][2]]
                          /\ vec[p[2]] = QMV(a.m, vec[p[1]])
       /\ QIntegral(a.m) /\ QDet(a.m) \in {"1", "-1"}

SetsTo(f(_), cl) == {{f(x) : x \in {cl[i][j] : j \in DOMAIN cl[i]}} : i \in DOMAIN cl}
RECURSIVE SumInts(_)
SumInts(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumInts(Tail(s))
NoRepeat(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)

Same(F, E, o) ==
    CASE o.q \in {"symmetries", "ladder_symmetries"} ->
           LET incs == TLCEval(UNION {{Inc(E, v)[i] : i \in DOMAIN Inc(E, v)} : v \in Verts(E)})
               at == AsMap(e.pos)
               p == TLCEval([v \in DOMAIN at |-> e.pos[at[v]][2]])
               vec == TLCEval([f \in incs |-> QVector(p, f)])
               U == TLCEval(Texts(e.U))
               V == TLCEval(QInverse(U))
               S == TLCEval({Sym(o.a[i]) : i \in DOMAIN o.a})
               T == TLCEval({Sym(o.b[i]) : i \in DOMAIN o.b})
           IN /\ Ret(\A v \in Verts(E) : LET I == Inc(E, v) IN QSumOf([i \in DOMAIN I |-> vec[I[i]]], 1) = QZeroV(e.d),
                     "positions are not barycentric")
              /\ Ret(NoRepeat([i \in DOMAIN o.a |-> Sym(o.a[i])]) /\ NoRepeat([i \in DOMAIN o.b |-> Sym(o.b[i])]),
                     "a symmetry is listed twice")
              /\ Ret(\A a \in S : Symmetry(E, vec, a), "not a symmetry")
              /\ Ret(T = {SymTo(F, U, V, a) : a \in S}, "symmetries depend on the frame")
      [] o.q \in {"vertex_orbits", "translational_orbits"} ->
           Ret(SetsTo(LAMBDA v : F.name[v], o.a) = SetsTo(LAMBDA v : v, o.b), "classes of vertices depend on the frame")
      [] o.q = "edge_orbits" ->
           Ret(SetsTo(LAMBDA f : Canon(EdgeTo(F, f)), o.a) = SetsTo(LAMBDA f : Canon(f), o.b), "classes of edges depend on the frame")
      [] OTHER -> Ret(o.a = o.b, o.q \o " depends on the frame")
Frame == IsEvent("frame") /\
    LET E == TLCEval(EdgesOf(e.edges))
        F == TLCEval(FrameOf)
    IN /\ Ret({Canon(EdgeTo(F, f)) : f \in E} = EdgesOf(e.edges2), "witness: the second graph is not the first in another frame")
       /\ \A i \in DOMAIN e.obs : LET o == e.obs[i]
                                  IN IF o.r # "ok" THEN Ret(FALSE, "call did not return: " \o o.r) ELSE Same(F, E, o)
(* A net in a big cell: e.edges2 is the minimal stable net e.edges on the     *)
(* sublattice with row basis e.B; vertex w[1] of it is the vertex w[2] in the *)
(* cell w[3], for w in e.fibre.  All translations of a minimal net are in its *)
(* lattice and normal, so everything about the big cell follows from the      *)
(* symmetries of the small one: those that keep the sublattice, times the     *)
(* translations modulo it.                                                    *)
RowTimes(s, B) == [k \in 1..e.d |-> SumInts([i \in 1..e.d |-> s[i] * B[i][k]])]
QKeeps(m, H, B) == QHnf([i \in 1..e.d |-> QMV(m, B[i])], e.d) = H
Cover == IsEvent("cover") /\
    LET E == TLCEval(EdgesOf(e.edges))
        E2 == TLCEval(EdgesOf(e.edges2))
        at == TLCEval(AsMap(e.fibre))
        down == TLCEval([w \in DOMAIN at |-> e.fibre[at[w]][2]])
        cell == TLCEval([w \in DOMAIN at |-> e.fibre[at[w]][3]])
        EdgeDown(f) == <<down[f[1]], down[f[2]], VSub(VAdd(cell[f[2]], RowTimes(f[3], e.B)), cell[f[1]])>>
        B == TLCEval(Texts(e.B))
        index == QAbs(QDet(B))
        H == TLCEval(QHnf(B, e.d))
        A == TLCEval({a \in {Sym(e.syms[i]) : i \in DOMAIN e.syms} : QKeeps(a.m, H, B)})
        orbit == TLCEval([v \in Verts(E) |-> {(CHOOSE p \in a.vm : p[1] = v)[2] : a \in A}])
        arc == TLCEval([f \in E |-> {Canon((CHOOSE p \in a.em : p[1] = f)[2]) : a \in A}])
        Above(cl) == {{w \in DOMAIN down : down[w] \in c} : c \in cl}
    IN /\ Ret(/\ {Canon(EdgeDown(f)) : f \in E2} = E /\ DOMAIN down = Verts(E2)
              /\ QInt(Cardinality(E2)) = QMul(index, QInt(Cardinality(E)))
              /\ QInt(Cardinality(Verts(E2))) = QMul(index, QInt(Cardinality(Verts(E)))),
              "witness: not a supercell")
       /\ \A i \in DOMAIN e.obs :
            LET o == e.obs[i]
            IN IF o.r # "ok" THEN Ret(FALSE, "call did not return: " \o o.r)
               ELSE CASE o.q = "nr_symmetries" ->
                           Ret(QInt(o.a) = QMul(index, QInt(Cardinality(A))), "number of symmetries of a supercell")
                      [] o.q = "vertex_orbits" ->
                           Ret({{o.a[k][j] : j \in DOMAIN o.a[k]} : k \in DOMAIN o.a} = Above({orbit[v] : v \in Verts(E)}),
                               "vertex orbits of a supercell")
                      [] o.q = "edge_orbits" ->
                           Ret({{Canon(o.a[k][j]) : j \in DOMAIN o.a[k]} : k \in DOMAIN o.a}
                                 = {{f \in E2 : Canon(EdgeDown(f)) \in c} : c \in {arc[f] : f \in E}},
                               "edge orbits of a supercell")
                      [] o.q = "translational_orbits" ->
                           Ret({{o.a[k][j] : j \in DOMAIN o.a[k]} : k \in DOMAIN o.a} = Above({{v} : v \in Verts(E)}),
                               "translational classes of a supercell")
                      [] o.q = "is_minimal" -> Ret(o.a = (index = "1"), "minimality of a supercell")
                      [] o.q = "is_ladder" -> Ret(o.a = FALSE, "a stable net is no ladder")
                      [] o.q = "minimal_image" ->
                           Ret(o.a = (IF index = "1" THEN <<>> ELSE <<Cardinality(Verts(E)), Cardinality(E)>>),
                               "size of the minimal image of a supercell")
Next == Frame \/ Cover
Spec == Init /\ [][Next]_l
=============================================================================
