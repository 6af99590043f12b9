------------------------------ MODULE GeomTrace -----------------------------
(* Trace specification of matrices.rs and geometry.rs.                       *)
EXTENDS Affine, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
e == Trace[l]
Ret(ok, clause) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, clause>>)
IsEvent(op) == l <= Len(Trace) /\ e.op = op /\ l' = l + 1
Got(ok, clause) == IF e.r # "ok" THEN Ret(FALSE, "call did not return: " \o e.r) ELSE Ret(ok, clause)
Is2(op, alt, val) == l <= Len(Trace) /\ e.op \in {op, alt} /\ l' = l + 1 /\ Got(e.v = val, e.op)
Is(op, val) == IsEvent(op) /\ Got(e.v = val, op)
N == Len(e.f.m)

(* ---- matrices: results come as [nr, nc, rows] --------------------------- *)
M(rows, nc) == [nr |-> Len(rows), nc |-> nc, rows |-> rows]
A == e.a.rows
B == e.b.rows
RECURSIVE CatRows(_)
CatRows(ms) == IF ms = <<>> THEN <<>> ELSE Head(ms).rows \o CatRows(Tail(ms))
RECURSIVE CatCols(_)
CatCols(ms) == IF Len(ms) = 1 THEN Head(ms).rows ELSE QHCat(Head(ms).rows, CatCols(Tail(ms)))
Flat(rows) == FlattenSeq(rows)
MapM(F(_), rows) == [i \in 1..Len(rows) |-> [j \in 1..Len(rows[i]) |-> F(rows[i][j])]]
Matrices ==
    \/ Is("add", M(QMAdd(A, B), e.a.nc)) \/ Is("addassign", M(QMAdd(A, B), e.a.nc))
    \/ Is("sub", M(QMSub(A, B), e.a.nc)) \/ Is("subassign", M(QMSub(A, B), e.a.nc))
    \/ Is("mul", M(QMM(A, B, e.b.nc), e.b.nc))
    \/ Is("neg", M(QMNeg(A), e.a.nc))
    \/ Is2("scale", "scale_assign", M(QScaleM(e.x, A), e.a.nc))
    \/ Is2("sdiv", "sdiv_assign", M(QScaleM(QDiv("1", e.x), A), e.a.nc))
    \/ Is2("sadd", "sadd_assign", M(MapM(LAMBDA y : QAdd(y, e.x), A), e.a.nc))
    \/ Is2("ssub", "ssub_assign", M(MapM(LAMBDA y : QSub(y, e.x), A), e.a.nc))
    \/ Is("collect", e.a) \/ Is("at", A[e.r0 + 1][e.c0 + 1])
    \/ Is("set", M([A EXCEPT ![e.r0 + 1][e.c0 + 1] = e.x], e.a.nc))
    \/ Is("transpose", M(QTransp(A, e.a.nc), e.a.nr))
    \/ Is("vstack", M(CatRows(e.ms), e.ms[1].nc))
    \/ (IsEvent("hstack") /\ Got(LET c == CatCols(e.ms) IN e.v = M(c, Len(c[1])), "hstack"))
    \/ Is("submatrix", M([i \in 1..(e.r1 - e.r0) |-> SubSeq(A[i + e.r0], e.c0 + 1, e.c1)], e.c1 - e.c0))
    \/ Is("get_row", A[e.i + 1]) \/ Is("get_rows", A)
    \/ Is("get_col", [i \in 1..e.a.nr |-> A[i][e.i + 1]])
    \/ Is("identity", M(QIdent(e.i), e.i)) \/ Is("zero", M(QZeroM(e.i, e.j), e.j))
    \/ Is("unit_vector", M(<<QUnitV(e.i, e.j + 1)>>, e.i))
    \/ Is("is_identity", e.a.nr = e.a.nc /\ A = QIdent(e.a.nr))
    \/ (IsEvent("reshape") /\ Got(/\ e.v.nc = e.i /\ e.v.nr * e.i = e.a.nr * e.a.nc
                                  /\ Len(e.v.rows) = e.v.nr /\ \A k \in 1..e.v.nr : Len(e.v.rows[k]) = e.i
                                  /\ Flat(e.v.rows) = Flat(A), "reshape"))
    \/ Is("row", M(<<e.w>>, Len(e.w)))
    \/ Is("col", M([k \in 1..Len(e.w) |-> <<e.w[k]>>], 1))
    \/ Is("eq", e.a = e.b)

(* ---- operands of shapes s and t, or an element t of a matrix of shape s ---- *)
Fits(what, s, t) ==
    CASE what \in {"at", "set"} -> t[1] < s[1] /\ t[2] < s[2]
      [] what \in {"vec_at", "point_at", "vec_set", "point_set"} -> t[1] < s[1]
      [] what = "get_row" -> t[1] < s[1]
      [] what = "get_col" -> t[2] < s[2]
      [] what = "submatrix" -> t[1] <= s[1] /\ t[2] <= s[2]
      [] what = "reshape" -> (s[1] * s[2]) % t[2] = 0
      [] what = "mul" -> s[2] = t[1]
      [] what \in {"hstack"} -> s[1] = t[1]
      [] what = "vstack" -> s[2] = t[2]
      [] OTHER -> s = t
Refuse == IsEvent("refuse") /\ Ret(~Fits(e.what, e.s, e.t), "witness: operands fit")
          /\ Ret(e.r = "panic", "a result for operands that do not fit: " \o e.what)

(* ---- vectors, points, scalar products ----------------------------------- *)
PosDef(g) == /\ \A i, j \in 1..Len(g) : g[i][j] = g[j][i]
             /\ \A k \in 1..Len(g) : QSgn(QDet([i \in 1..k |-> SubSeq(g[i], 1, k)])) > 0
Quad(g, v, w) == QDot(v, QMV(g, w))
Vectors ==
    \/ Is2("vec_add", "vec_add_assign", QVAdd(e.x, e.w)) \/ Is2("vec_sub", "vec_sub_assign", QVSub(e.x, e.w))
    \/ Is("vec_neg", QVNeg(e.x)) \/ Is2("vec_scale", "vec_scale_assign", QVScale(e.k, e.x))
    \/ Is2("vec_div", "vec_div_assign", QVScale(QDiv("1", e.k), e.x))
    \/ Is2("vec_zero", "origin", QZeroV(e.n))
    \/ Is2("vec_set", "point_set", [e.x EXCEPT ![e.i + 1] = e.k]) \/ Is2("vec_at", "point_at", e.x[e.i + 1])
    \/ Is("listed", [k \in 1..8 |-> e.x]) \/ Is("dims", [k \in 1..5 |-> N])
    \/ Is("vec_modz", [i \in 1..Len(e.x) |-> QMod1(e.x[i])])
    \/ Is("vec_unit", QUnitV(e.n, e.k + 1))
    \/ Is2("point_add", "point_add_assign", QVAdd(e.p, e.x))
    \/ Is2("point_sub_v", "point_sub_assign", QVSub(e.p, e.x)) \/ Is("point_sub_p", QVSub(e.p, e.q))
    \/ Is("sp_default", QIdent(e.n)) \/ Is("sp_apply", Quad(e.g, e.x, e.w))
    (* only symmetric positive definite matrices are scalar products          *)
    \/ (IsEvent("sp_new") /\ IF PosDef(e.g) THEN Got(e.v = e.g, "scalar product")
                              ELSE Ret(e.r = "panic", "accepted a form that is not positive definite"))

(* ---- affine maps ---------------------------------------------------------- *)
Affines ==
    \/ Is("aff_mul", AMul(e.f, e.g))
    \/ (IsEvent("aff_inv") /\ Got(IF AInvertible(e.f)
            THEN Len(e.v) = 1 /\ AValid(e.v[1], N) /\ AMul(e.f, e.v[1]) = AId(N) /\ AMul(e.v[1], e.f) = AId(N)
            ELSE e.v = <<>>, "inverse of an affine map"))
    \/ Is("aff_point", APoint(e.f, e.p)) \/ Is("aff_vector", AVector(e.f, e.x))
    \/ Is("aff_from", [m |-> e.g, s |-> QZeroV(Len(e.g))])
    \/ Is("aff_new", [m |-> e.g, s |-> e.x])
    \/ Is("aff_modz", AModZ(e.f)) \/ Is("aff_isid", e.f = AId(N)) \/ Is("aff_id", AId(e.n))

(* ---- coordinate maps: [fwd, bwd] ----------------------------------------- *)
CM(f) == [fwd |-> f, bwd |-> AInv(f)]
Basis(vs) == [m |-> QTransp(vs, Len(vs[1])), s |-> QZeroV(Len(vs[1]))]
Coords ==
    \/ Is("cm_from", CM([m |-> e.g, s |-> QZeroV(Len(e.g))]))
    \/ Is("cm_new", CM(e.f)) \/ Is("cm_id", CM(AId(e.n))) \/ Is("cm_isid", e.f = AId(N))
    \/ Is("cm_inv", CM(AInv(e.f))) \/ Is("cm_mul", CM(AMul(e.g, e.f)))
    \/ Is("cm_point", APoint(e.f, e.p)) \/ Is("cm_vector", AVector(e.f, e.x))
    \/ Is("cm_aff", AMul(AMul(e.f, e.g), AInv(e.f)))
    (* the transformed form measures transformed vectors as before            *)
    \/ (IsEvent("cm_sp") /\ Got(LET b(k) == AVector(e.f, QUnitV(N, k)) IN
            Len(e.v) = N /\ \A i, j \in 1..N : Quad(e.v, b(i), b(j)) = e.g[i][j], "transformed scalar product"))
    \/ Is("cm_det", QDet(e.f.m))
    \/ (IsEvent("cm_from_basis") /\ Got(
            /\ e.v = CM(Basis(e.vs))
            /\ \A i \in 1..Len(e.vs) : AVector(e.v.fwd, QUnitV(Len(e.vs), i)) = e.vs[i], "coordinate map from a basis"))
    \/ (IsEvent("cm_to_basis") /\ Got(
            /\ e.v = CM(AInv(Basis(e.vs)))
            /\ \A i \in 1..Len(e.vs) : AVector(e.v.fwd, e.vs[i]) = QUnitV(Len(e.vs), i), "coordinate map to a basis"))
Next == Matrices \/ Refuse \/ Vectors \/ Affines \/ Coords
Spec == Init /\ [][Next]_l
=============================================================================
