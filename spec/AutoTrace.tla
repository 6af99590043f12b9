------------------------------ MODULE AutoTrace ------------------------------
(* Automorphisms of placed, locally stable nets as in PGraphIso, enumerated   *)
(* completely, but over unbounded rationals written as text: nets may have    *)
(* any denominators, hence many vertices and little symmetry.                 *)
EXTENDS PGraph, QMat, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1

AsMap(s) == [v \in {s[i][1] : i \in DOMAIN s} |-> (CHOOSE i \in DOMAIN s : s[i][1] = v)]
AsFcn(s) == LET at == AsMap(s) IN [v \in DOMAIN at |-> s[at[v]][2]]
QVector(p, f) == [i \in 1..e.d |-> QAdd(QSub(p[f[2]][i], p[f[1]][i]), QInt(f[3][i]))]
RECURSIVE QSumOf(_, _)
QSumOf(s, i) == IF i > Len(s) THEN QZeroV(e.d) ELSE QVAdd(s[i], QSumOf(s, i + 1))
(* star[v]: vector |-> edge that leaves v with this vector                    *)
StarsOf(p, incs) ==
    [v \in DOMAIN incs |->
        LET vec == TLCEval([i \in DOMAIN incs[v] |-> QVector(p, incs[v][i])])
        IN [x \in {vec[i] : i \in DOMAIN vec} |-> incs[v][CHOOSE i \in DOMAIN vec : vec[i] = x]]]

RECURSIVE Extend(_, _, _, _)
(* the vertex map that M and the image of one vertex imply; <<>> when none    *)
Extend(star, M, vm, todo) ==
    IF todo = {} THEN vm
    ELSE LET v == CHOOSE x \in todo : TRUE
             w == vm[v]
             img == TLCEval([x \in DOMAIN star[v] |-> QMV(M, x)])
         IN IF {img[x] : x \in DOMAIN img} # DOMAIN star[w] THEN <<>>
            ELSE LET fresh == {x \in DOMAIN img : star[v][x][2] \notin DOMAIN vm}
                     upd == TLCEval([u \in {star[v][x][2] : x \in fresh} |->
                              star[w][img[CHOOSE x \in fresh : star[v][x][2] = u]][2]])
                     vm2 == TLCEval(vm @@ upd)
                 IN IF \E x \in DOMAIN img : vm2[star[v][x][2]] # star[w][img[x]][2] THEN <<>>
                    ELSE Extend(star, M, vm2, (todo \ {v}) \cup DOMAIN upd)
Ends(star, w, inv, cols) ==          \* cols: images of the picked vectors
    LET M == TLCEval(QMM(QTransp(cols, e.d), inv, e.d))
    IN IF ~QIntegral(M) \/ QAbs(QDet(M)) # "1" THEN {}
       ELSE LET vm == Extend(star, M, e.root :> w, {e.root})
            IN IF vm = <<>> THEN {}
               ELSE IF {vm[v] : v \in DOMAIN star} = DOMAIN star THEN {<<M, vm>>} ELSE {}
RECURSIVE Branch(_, _, _, _, _, _)
Branch(star, w, inv, i, img, cols) ==
    IF i > Len(e.tree) THEN Ends(star, w, inv, cols)
    ELSE LET f == e.tree[i][1]
             h == img[f[1]]
         IN UNION {LET t == star[h][x][2]
                   IN IF f[2] \in DOMAIN img /\ img[f[2]] # t THEN {}
                      ELSE IF Cardinality(DOMAIN star[f[2]]) # Cardinality(DOMAIN star[t]) THEN {}
                      ELSE Branch(star, w, inv, i + 1, IF f[2] \in DOMAIN img THEN img ELSE img @@ (f[2] :> t),
                                  IF e.tree[i][2] = 1 THEN Append(cols, x) ELSE cols)
                   : x \in DOMAIN star[h]}

EdgeTo(star, vec, a, f) == star[a[2][f[1]]][QMV(a[1], vec[f])]
Sets(cl) == {{cl[i][j] : j \in DOMAIN cl[i]} : i \in DOMAIN cl}
Total(cl) == IF cl = <<>> THEN 0 ELSE Len(FlattenSeq(cl))
Autos == IsEvent("autos") /\
    LET E == TLCEval(EdgesOf(e.edges))
        p == TLCEval(AsFcn(e.pos))
        incs == TLCEval([v \in Verts(E) |-> Inc(E, v)])
        star == TLCEval(StarsOf(p, incs))
        dirs == TLCEval(UNION {{incs[v][i] : i \in DOMAIN incs[v]} : v \in DOMAIN incs})
        vec == TLCEval([f \in dirs |-> QVector(p, f)])
        picks == SelectSeq(e.tree, LAMBDA t : t[2] = 1)
        B == TLCEval(QTransp([i \in 1..e.d |-> vec[picks[i][1]]], e.d))
        A == TLCEval(LET inv == TLCEval(QInverse(B))
                     IN UNION {Branch(star, w, inv, 1, e.root :> w, <<>>)
                        : w \in {x \in DOMAIN star : Cardinality(DOMAIN star[x]) = Cardinality(DOMAIN star[e.root])}})
        cell == TLCEval([v \in DOMAIN p |-> [i \in 1..e.d |-> QMod1(p[v][i])]])
        R == TLCEval({a \in A : a[1] = QIdent(e.d)})
        Lad == TLCEval({a \in R : a[2] # [v \in DOMAIN p |-> v] /\ \A v \in DOMAIN p : cell[v] = cell[a[2][v]]})
        Sound(x) == LET a == <<x.m, AsFcn(x.vm)>>
                    IN /\ a \in A
                       /\ {x.em[i][1] : i \in DOMAIN x.em} = dirs /\ Len(x.em) = Cardinality(dirs)
                       /\ \A i \in DOMAIN x.em : x.em[i][2] = EdgeTo(star, vec, a, x.em[i][1])
    IN /\ Ret(/\ DOMAIN p = Verts(E) /\ Component(E, e.root) = Verts(E)
              /\ \A v \in DOMAIN incs : /\ QSumOf([i \in DOMAIN incs[v] |-> vec[incs[v][i]]], 1) = QZeroV(e.d)
                                        /\ Cardinality(DOMAIN star[v]) = Len(incs[v])
              /\ Len(picks) = e.d /\ QDet(B) # "0"
              /\ \A i \in DOMAIN e.tree : /\ e.tree[i][1] \in dirs
                                          /\ \/ e.tree[i][1][1] = e.root
                                             \/ \E j \in 1..(i - 1) : e.tree[j][1][2] = e.tree[i][1][1],
              "witness: placement or tree")
       /\ \A i \in DOMAIN e.obs :
            LET o == e.obs[i]
            IN IF o.r # "ok" THEN Ret(FALSE, "call did not return: " \o o.r)
               ELSE CASE o.q = "symmetries" ->
                           Ret(Len(o.a) = Cardinality(A) /\ (\A j \in DOMAIN o.a : Sound(o.a[j]))
                                 /\ Cardinality({<<o.a[j].m, AsFcn(o.a[j].vm)>> : j \in DOMAIN o.a}) = Len(o.a),
                               "symmetries are not exactly the automorphisms, each once")
                      [] o.q = "nr_symmetries" -> Ret(o.a = Cardinality(A), "number of symmetries")
                      [] o.q = "vertex_orbits" ->
                           Ret(Sets(o.a) = {{a[2][v] : a \in A} : v \in DOMAIN p} /\ Total(o.a) = Cardinality(DOMAIN p), "vertex orbits")
                      [] o.q = "edge_orbits" ->
                           Ret(Sets(o.a) = {{Canon(EdgeTo(star, vec, a, f)) : a \in A} : f \in E} /\ Total(o.a) = Cardinality(E), "edge orbits")
                      [] o.q = "translational_orbits" ->
                           Ret(Lad = {} => Sets(o.a) = {{a[2][v] : a \in R} : v \in DOMAIN p}, "translational classes")
                      [] o.q = "is_minimal" -> Ret(Lad = {} => o.a = (Cardinality(R) = 1), "minimality")
                      [] o.q = "is_ladder" -> Ret(o.a = (Lad # {}), "ladder")
                      [] o.q = "nr_ladder_symmetries" -> Ret(o.a = Cardinality(Lad), "number of ladder symmetries")
                      [] o.q = "minimal_image" ->
                           Ret(Lad = {} => LET k == Cardinality(R)
                                           IN o.a = (IF k = 1 THEN <<>> ELSE <<Cardinality(DOMAIN p) \div k, Cardinality(E) \div k>>),
                               "size of the minimal image")
Next == Autos
Spec == Init /\ [][Next]_l
=============================================================================
