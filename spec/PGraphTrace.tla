---------------------------- MODULE PGraphTrace ----------------------------
(* Trace specification for rust_systre::pgraphs / symmetries: every        *)
(* recorded answer of a graph object must be the one the net demands.      *)
(*                                                                         *)
(* graph  starts a new graph object from a raw edge list                   *)
(* place  supplies the barycentric placement (checked here, not trusted)   *)
(* tree   supplies an edge tree; all automorphisms are enumerated from it  *)
(* everything else is an observed call                                     *)
EXTENDS PGraphIso, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, raw, E, d, P, D, F, A, cls, memo
vars == <<l, raw, E, d, P, D, F, A, cls, memo>>
Init == l = 1 /\ raw = <<>> /\ E = {} /\ d = 2 /\ P = <<>> /\ D = 0
        /\ F = <<>> /\ A = {} /\ cls = {} /\ memo = <<>>
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Got(ok, clause) == IF e.r # "ok" THEN Ret(FALSE, "call did not return: " \o e.r)
                   ELSE Ret(ok, clause)
AsSet(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == Cardinality(AsSet(s)) = Len(s)
AsFun(pairs) == [x \in {pairs[i][1] : i \in 1..Len(pairs)} |->
                    (CHOOSE i \in 1..Len(pairs) : pairs[i][1] = x)]

(* ------------------------------------------------------------ set-up --- *)
NewGraph == /\ IsEvent("graph")
            /\ raw' = e.edges /\ E' = EdgesOf(e.edges) /\ d' = e.d
            /\ P' = <<>> /\ D' = 0 /\ F' = <<>> /\ A' = {} /\ cls' = {} /\ memo' = <<>>
Place == /\ IsEvent("place")
         /\ LET p == [v \in Verts(E) |-> e.pos[CHOOSE i \in 1..Len(e.verts) : e.verts[i] = v]]
            IN /\ Ret(AsSet(e.verts) = Verts(E) /\ e.D > 0 /\ Harmonic(E, d, p, e.D)
                        /\ IsZeroV(p[Min(Verts(E))]), "witness: placement")
               /\ P' = p /\ D' = e.D
         /\ UNCHANGED <<raw, E, d, F, A, cls, memo>>
Tree == /\ IsEvent("tree")
        /\ LET f == Figure(E, P, D, 1)
           IN /\ Ret(LocallyStable(E, P, D) /\ TreeOk(f, e.tree, e.root, d), "witness: tree")
              /\ F' = f
              /\ A' = Isos(f, f, e.tree, e.root, d)
        /\ UNCHANGED <<raw, E, d, P, D, cls, memo>>

Obs(op) == IsEvent(op) /\ UNCHANGED <<raw, E, d, P, D, F, A, cls, memo>>

(* ------------------------------------------------ C02: representation --- *)
Edges == Obs("edges") /\ Got(NoDup(e.v) /\ AsSet(e.v) = E, "edges are not the canonical edges, each once")
Vertices == Obs("vertices") /\ Got(e.v = SetToSortSeq(Verts(E), <), "vertices are not the end points in ascending order")
DirEdges == Obs("directed_edges") /\ Got(SameBag(e.v, Directed(E)), "directed edges are not all edges in both directions")
Incid == Obs("incidences") /\ Got(SameBag(e.v, Inc(E, e.a)), "incidences are not the edges leaving the vertex")
ShowEdge(x) == ToString(x[1]) \o " --(" \o FoldLeft(LAMBDA acc, y : acc \o ", " \o ToString(y), ToString(x[3][1]), Tail(x[3]))
               \o ")-> " \o ToString(x[2])
Display == Obs("display") /\ Got(e.v = SetToSortSeq(E, EdgeLt), "printed form is not the ascending canonical list")
CanonEv == Obs("canonical") /\ Got(e.v = Canon(e.a), "canonical form")
NegEv == Obs("neg") /\ Got(e.v = Rev(e.a), "reversed edge")
(* shift vectors: an ordered group                                           *)
LabelEv == Obs("label") /\
           LET a == e.a
               b == e.b
               all == <<a, b, VNeg(a), VAdd(a, b), VAdd(a, VNeg(b)), [i \in 1..d |-> 0]>>
               flag(x) == IF x THEN 1 ELSE 0
           IN Got(/\ e.v[1] = all
                  /\ e.v[2] = [i \in 1..6 |-> <<flag(LexSgn(all[i]) = 0), flag(LexSgn(all[i]) < 0), flag(LexSgn(all[i]) > 0)>>]
                  /\ e.v[3] = LexSgn(all[5]) /\ e.v[4] = flag(a = b), "shift vectors: sum, sign or order")
DimEv == Obs("dim") /\ Got(e.v = d, "dimension")

(* -------------------------------------- C03: independence of history ----- *)
(* the answer of a freshly built copy is remembered, then compared           *)
Norm(x) == IF e.set = 1 THEN AsSet(x) ELSE x
Fresh == /\ IsEvent("fresh")
         /\ memo' = memo @@ (e.q :> <<e.r, Norm(e.v)>>)
         /\ UNCHANGED <<raw, E, d, P, D, F, A, cls>>
Later == Obs("later") /\ Ret(<<e.r, Norm(e.v)>> = memo[e.q], "answer differs from that of a fresh copy")

(* ------------------------------------------ C04: coordination sequence --- *)
Coord == Obs("coordination") /\ Got(e.v = CoordSeq(E, d, e.a, Len(e.v)) /\ Len(e.v) = e.k, "not the sizes of the shells")
Coord2 == Obs("coordination2") /\ Got(/\ e.v[1] = CoordSeq(E, d, e.a, e.k)
                                      /\ e.v[2] = CoordSeq(E, d, e.b, e.k), "interleaved sequences interfere")

(* --------------------------------------------------- C05: connectivity --- *)
Conn == Obs("is_connected") /\ Got(e.v = Connected(E, d), "connectivity")
Comp == Obs("component") /\
        Got(LET k == CompIndex(E, d, e.a) IN
            /\ e.v[1] = CompSize(E, e.a)
            /\ e.v[2] = CompRank(E, d, e.a)
            /\ e.v[3] = (IF k = 0 THEN <<>> ELSE <<k>>), "component measures")

(* -------------------------------------------- C06: shift normalisation --- *)
ShNorm == Obs("shift_normalized") /\
          Got(NoDup(e.v) /\ IsShiftNormalized(E, AsSet(e.v), d), "not the same net with a zero-shift spanning tree")

(* ------------------------------------------ C07: placement, stability ---- *)
(* observed rationals come as <<numerators, denominators>> over D            *)
Pos == Obs("position") /\ Got(e.v = P[e.a], "position is not barycentric")
PosN == Obs("position_normalized") /\ Got(e.v = Cell(P, D, e.a), "normalised position")
EVecEv == Obs("edge_vector") /\ Got(e.v = EVec(P, D, e.a), "edge vector")
Cells == [v \in Verts(E) |-> Cell(P, D, v)]
Stable == \A v, w \in Verts(E) : Cells[v] = Cells[w] => v = w
StarBag(v) == LET st == Star(E, P, D, v) IN [i \in 1..Len(st) |-> st[i][1]]
SecondOrder == \E v, w \in Verts(E) : v # w /\ Cells[v] = Cells[w] /\ SameBag(StarBag(v), StarBag(w))
IsStable == Obs("is_stable") /\ Got(e.v = Stable, "stability")
IsLocal == Obs("is_locally_stable") /\ Got(e.v = LocallyStable(E, P, D), "local stability")
IsSecond == Obs("second_order") /\ Got(e.v = SecondOrder, "second order collisions")
ByDelta == Obs("by_delta") /\
           Got(LET I == Inc(E, e.a)
                   hits == {i \in 1..Len(I) : EVec(P, D, I[i]) = e.x}
               IN IF Cardinality(hits) = 1 /\ e.exact = 1
                  THEN e.v = <<I[CHOOSE i \in hits : TRUE]>> ELSE e.v = <<>>,
               "lookup by unique edge vector")

(* ------------------------------------------------------ C08: symmetries --- *)
AsAut(a) == <<a.m, LET f == AsFun(a.vm) IN [v \in DOMAIN f |-> a.vm[f[v]][2]]>>
Consistent(a) == LET b == AsAut(a) IN
                 /\ Len(a.em) = Len(Directed(E))
                 /\ {a.em[i][1] : i \in 1..Len(a.em)} = AsSet(Directed(E))
                 /\ \A i \in 1..Len(a.em) : a.em[i][2] = EdgeImage(F, b, a.em[i][1])
Syms == Obs("symmetries") /\
        Got(LET auts == [i \in 1..Len(e.v) |-> AsAut(e.v[i])] IN
            /\ AsSet(auts) = A /\ NoDup(auts)
            /\ \A i \in 1..Len(e.v) : Consistent(e.v[i]), "symmetries are not exactly the automorphisms, each once")
NrSyms == Obs("nr_symmetries") /\ Got(e.v = Cardinality(A), "number of symmetries")
Closed == Obs("closed") /\ Got(e.v = TRUE, "symmetries are not closed under composition")
MulEv == Obs("mul") /\
         Got(LET auts == [i \in 1..Len(e.v) |-> AsAut(e.v[i])] IN
             /\ auts[3] = Compose(auts[1], auts[2])
             /\ auts[4] = IdAut(F, d)
             /\ \A i \in 1..4 : Consistent(e.v[i]), "product of symmetries")

(* ----------------------------------------------------------- C09: orbits --- *)
Flat(classes) == FlattenSeq(classes)
VOrb == Obs("vertex_orbits") /\
        Got({AsSet(e.v[i]) : i \in 1..Len(e.v)} = VertexOrbits(F, A)
              /\ NoDup(Flat(e.v)), "vertex orbits")
EOrb == Obs("edge_orbits") /\
        Got({AsSet(e.v[i]) : i \in 1..Len(e.v)} = EdgeOrbits(F, A)
              /\ NoDup(Flat(e.v)), "edge orbits")

(* ------------------------------------------- C10: translations, ladders ---- *)
R == Translations(A, d)
Lad == LadderSyms(A, d, P, D)
GroupOf(classes) == {a \in R : \A i \in 1..Len(classes) :
                          {a[2][v] : v \in AsSet(classes[i])} = AsSet(classes[i])}
OrbitsOf(H) == {{a[2][v] : a \in H} : v \in Verts(E)}
ClassesOk(classes) ==
    LET H == GroupOf(classes) IN
    /\ NoDup(Flat(classes)) /\ AsSet(Flat(classes)) = Verts(E)
    /\ OrbitsOf(H) = {AsSet(classes[i]) : i \in 1..Len(classes)}
    /\ IF Lad = {} THEN H = R
       ELSE /\ H \cap Lad = {}
            /\ \/ Cardinality(H) * (Cardinality(Lad) + 1) = Cardinality(R)
               \/ \A K \in LadderFree(R, Lad, IdAut(F, d), d) :
                     /\ Cardinality(K) * (Cardinality(Lad) + 1) # Cardinality(R)
                     /\ H \subseteq K => H = K
TOrb == /\ IsEvent("translational_orbits")
        /\ Got(ClassesOk(e.v), "translational classes")
        /\ cls' = IF e.r = "ok" THEN {AsSet(e.v[i]) : i \in 1..Len(e.v)} ELSE {}
        /\ UNCHANGED <<raw, E, d, P, D, F, A, memo>>
IsMin == Obs("is_minimal") /\ Got(e.v = (\A c \in cls : Cardinality(c) = 1), "minimality")
IsLad == Obs("is_ladder") /\ Got(e.v = (Lad # {}), "ladder")
NrLad == Obs("nr_ladder_symmetries") /\ Got(e.v = Cardinality(Lad), "number of ladder symmetries")
LadSyms == Obs("ladder_symmetries") /\
           Got(LET auts == [i \in 1..Len(e.v) |-> AsAut(e.v[i])] IN
               /\ AsSet(auts) = Lad /\ NoDup(auts)
               /\ \A i \in 1..Len(e.v) : Consistent(e.v[i]), "ladder symmetries")

(* ----------------------------------------------------- C11: minimal image -- *)
(* e.E2 placed by e.verts, e.pos, e.D2 with an edge tree; e.cands: for each     *)
(* candidate group order a lattice basis is supplied by the harness: e.bases    *)
Split == {H \in LadderFree(R, Lad, IdAut(F, d), d) : Cardinality(H) * (Cardinality(Lad) + 1) = Cardinality(R)}
Allowed == IF Lad = {} THEN {R}
           ELSE IF Split # {} THEN Split
           ELSE LadderFree(R, Lad, IdAut(F, d), d)
(* a basis of the lattice of H scaled by D, by Hermite reduction              *)
RECURSIVE Hnf(_, _, _)
Hnf(S, k, n) ==      \* rows with zeros before column k; returns echelon rows
    IF k > n THEN <<>>
    ELSE LET nz == {x \in S : x[k] # 0}
         IN IF nz = {} THEN Hnf(S, k + 1, n)
            ELSE LET p == CHOOSE x \in nz : \A y \in nz : Abs(x[k]) <= Abs(y[k])
                     q(y) == IF p[k] < 0 THEN -(y[k] \div Abs(p[k])) ELSE y[k] \div p[k]
                     S2 == {VSub(y, VScale(q(y), p)) : y \in S \ {p}}
                 IN IF \E y \in S2 : y[k] # 0 THEN Hnf(S2 \cup {p}, k, n)
                    ELSE <<p>> \o Hnf(S2, k + 1, n)
LatBasis(H) == Hnf(LatGens(P, D, H, d, Min(Verts(E))), 1, d)
Image2 == LET E2 == AsSet(e.v[1])
              p2 == [v \in Verts(E2) |-> e.pos[CHOOSE i \in 1..Len(e.verts) : e.verts[i] = v]]
          IN [E |-> E2, P |-> p2]
MinImg == Obs("minimal_image") /\
    (IF e.r # "ok" THEN Got(TRUE, "")
     ELSE IF e.v = <<>> THEN Ret(\E H \in Allowed : Cardinality(H) = 1, "minimal image missing")
     ELSE IF e.placed = 0 THEN Ret(FALSE, "minimal image is not a connected locally stable net")
     ELSE LET im == Image2 IN
       /\ Ret(/\ AsSet(e.verts) = Verts(im.E)
              /\ Harmonic(im.E, d, im.P, e.D2), "witness: placement of image")
       /\ Ret(\E H \in {h \in Allowed : Cardinality(h) > 1} :
                 LET B == LatBasis(H)
                     Q == Quotient(E, P, D, H, B)
                     rep == {Min({a[2][v] : a \in H}) : v \in Verts(E)}
                     (* positions of representatives in the new basis *)
                     dq == QDenom(D, H, d)
                     pq == [v \in rep |-> InBasis(B, P[v])]
                     m == Lcm(dq, e.D2)
                     f1 == Figure(im.E, im.P, e.D2, m \div e.D2)
                     f2 == Figure(Q, pq, dq, m \div dq)
                 IN /\ Assert(IsLatticeBasis(B, P, D, H, d, Min(Verts(E))), "lattice basis")
                    /\ Harmonic(Q, d, pq, dq)
                    /\ TreeOk(f1, e.tree, e.root, d)
                    /\ Isos(f1, f2, e.tree, e.root, d) # {},
              "minimal image is not the net on its largest translation lattice"))
(* two placed graphs describe the same net up to renaming and basis change     *)
Same == Obs("same_net") /\
    LET E1 == AsSet(e.e1)
        E2 == AsSet(e.e2)
        p1 == [v \in Verts(E1) |-> e.pos1[CHOOSE i \in 1..Len(e.verts1) : e.verts1[i] = v]]
        p2 == [v \in Verts(E2) |-> e.pos2[CHOOSE i \in 1..Len(e.verts2) : e.verts2[i] = v]]
        m == Lcm(e.D1, e.D2)
        f1 == Figure(E1, p1, e.D1, m \div e.D1)
        f2 == Figure(E2, p2, e.D2, m \div e.D2)
    IN /\ Ret(/\ Harmonic(E1, d, p1, e.D1) /\ Harmonic(E2, d, p2, e.D2)
              /\ AsSet(e.verts1) = Verts(E1) /\ AsSet(e.verts2) = Verts(E2)
              /\ TreeOk(f1, e.tree, e.root, d), "witness: pair")
       /\ Ret(Isos(f1, f2, e.tree, e.root, d) # {}, "not the same net")

Next == \/ NewGraph \/ Place \/ Tree \/ Edges \/ Vertices \/ DirEdges \/ Incid \/ Display
        \/ CanonEv \/ NegEv \/ LabelEv \/ DimEv \/ Fresh \/ Later \/ Coord \/ Coord2 \/ Conn \/ Comp \/ ShNorm
        \/ Pos \/ PosN \/ EVecEv \/ IsStable \/ IsLocal \/ IsSecond \/ ByDelta
        \/ Syms \/ NrSyms \/ Closed \/ MulEv \/ VOrb \/ EOrb
        \/ TOrb \/ IsMin \/ IsLad \/ NrLad \/ LadSyms \/ MinImg \/ Same
Spec == Init /\ [][Next]_vars
=============================================================================
