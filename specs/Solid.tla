------------------------------- MODULE Solid -------------------------------
(* Closed solids made of unit cells of a small grid: every face between a    *)
(* filled and an empty cell becomes two outward triangles.  Grid vertices    *)
(* are then placed by a jitter and a linear map, the same for every face, so *)
(* the surface stays closed while its triangles get a general position.      *)
EXTENDS Geo, SequencesExt

\* a shape: n (cells per axis), cells, step, jit (seed; 0 = none), diag, map
Vert(sh, p) ==
  LET h == p[1] * 7 + p[2] * 13 + p[3] * 29 + sh.jit * 31 + p[1] * p[2] * 5 + p[2] * p[3] * 3 + p[1] * p[3] * 11
      j(k) == IF sh.jit = 0 THEN 0 ELSE ((h \div k) + sh.jit * k) % 2
      q == <<sh.step * p[1] + j(1), sh.step * p[2] + j(2), sh.step * p[3] + j(5)>>
  IN << Dot3(sh.map[1], q), Dot3(sh.map[2], q), Dot3(sh.map[3], q) >>

Dirs6 == << <<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>> >>
\* corners of the face of cell c towards Dirs6[d], counter-clockwise from outside (low corner = c)
FaceCorners(d) ==
  CASE d = 1 -> << <<1,0,0>>, <<1,1,0>>, <<1,1,1>>, <<1,0,1>> >>
    [] d = 2 -> << <<0,0,0>>, <<0,0,1>>, <<0,1,1>>, <<0,1,0>> >>
    [] d = 3 -> << <<0,1,0>>, <<0,1,1>>, <<1,1,1>>, <<1,1,0>> >>
    [] d = 4 -> << <<0,0,0>>, <<1,0,0>>, <<1,0,1>>, <<0,0,1>> >>
    [] d = 5 -> << <<0,0,1>>, <<1,0,1>>, <<1,1,1>>, <<0,1,1>> >>
    [] d = 6 -> << <<0,0,0>>, <<0,1,0>>, <<1,1,0>>, <<1,0,0>> >>

Faces(sh) == {f \in sh.cells \X (1..6) : Add3(f[1], Dirs6[f[2]]) \notin sh.cells}
Rot(s, k) == [i \in 1..Len(s) |-> s[((i - 1 + k) % Len(s)) + 1]]
FaceTris(sh, f) ==
  LET c == f[1]
      qs == [k \in 1..4 |-> Vert(sh, Add3(c, FaceCorners(f[2])[k]))]
      par == (c[1] + c[2] + c[3] + f[2]) % 2
      sw == CASE sh.diag = 0 -> 0 [] sh.diag = 1 -> 1 [] OTHER -> par
      q == Rot(qs, sw)
      t1 == <<q[1], q[2], q[3]>>  t2 == <<q[1], q[3], q[4]>>
  IN IF sh.diag = 3 THEN << Rot(t2, 1), Rot(t1, 2) >> ELSE << t1, t2 >>

RECURSIVE TrisOf(_, _)
TrisOf(sh, fs) == IF fs = {} THEN <<>>
                  ELSE LET f == CHOOSE f \in fs : TRUE IN FaceTris(sh, f) \o TrisOf(sh, fs \ {f})
Triangles(sh) == TrisOf(sh, Faces(sh))

Box(n) == (0..n[1]-1) \X (0..n[2]-1) \X (0..n[3]-1)
Ident == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>
Maps == << Ident,
           << <<0,-1,0>>, <<1,0,0>>, <<0,0,1>> >>,
           << <<1,0,0>>, <<0,0,-1>>, <<0,1,0>> >>,
           << <<1,0,1>>, <<0,1,0>>, <<0,0,1>> >>,
           << <<1,0,0>>, <<1,1,0>>, <<0,0,1>> >>,
           << <<1,1,0>>, <<-1,1,0>>, <<0,0,1>> >>,
           << <<1,0,0>>, <<0,1,1>>, <<0,-1,1>> >>,
           << <<-1,0,0>>, <<0,-1,0>>, <<0,0,1>> >> >>

(* ------------------------------ checks --------------------------------- *)
\* directed edges of the surface, as a sequence of pairs
RECURSIVE LexLt(_, _, _)
LexLt(a, b, k) == IF k > Len(a) THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LexLt(a, b, k + 1)
EdgeList(ts) == [n \in 1..3*Len(ts) |-> LET t == ts[((n - 1) \div 3) + 1]  j == ((n - 1) % 3) + 1 IN t[j] \o t[(j % 3) + 1]]
FlipEdge(e) == <<e[4], e[5], e[6], e[1], e[2], e[3]>>
\* every directed edge is matched by as many opposite ones
ClosedSurface(ts) == LET es == EdgeList(ts)  Lt(a, b) == LexLt(a, b, 1)
                     IN SortSeq(es, Lt) = SortSeq([k \in 1..Len(es) |-> FlipEdge(es[k])], Lt)

\* six times the enclosed volume
RECURSIVE Vol6(_)
Vol6(ts) == IF ts = <<>> THEN 0 ELSE Dot3(Head(ts)[1], Cross3(Head(ts)[2], Head(ts)[3])) + Vol6(Tail(ts))
Det(m) == Dot3(m[1], Cross3(m[2], m[3]))

ProjMin(ts, d) == MinSet({Dot3(d, ts[k][j]) : k \in 1..Len(ts), j \in 1..3})
ProjMax(ts, d) == MaxSet({Dot3(d, ts[k][j]) : k \in 1..Len(ts), j \in 1..3})

\* number of layers of height hn/hd over the extent along d: the least n with n*h >= ext/|d|
LayerCount(ext, d, hn, hd) == CHOOSE n \in 1..2000 :
   /\ n * n * hn * hn * Norm2(d) >= ext * ext * hd * hd
   /\ (n = 1 \/ (n-1) * (n-1) * hn * hn * Norm2(d) < ext * ext * hd * hd)
ExactCount(ext, d, hn, hd, n) == n * n * hn * hn * Norm2(d) = ext * ext * hd * hd
=============================================================================
