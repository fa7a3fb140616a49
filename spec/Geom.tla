-------------------------------- MODULE Geom --------------------------------
(* Coordinates, affine maps and outlines.  Coordinates are integers in 1/100 of *)
(* a user unit, the linear part of a map in 1/1000.                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Unit == 1000
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* division rounding half away from zero
RDiv(n, d) == IF n >= 0 THEN (2 * n + d) \div (2 * d) ELSE -((2 * (-n) + d) \div (2 * d))
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

(* -------------------------------- maps ---------------------------------- *)
Identity == <<Unit, 0, 0, Unit, 0, 0>>

Apply(m, p) == <<RDiv(m[1] * p[1] + m[3] * p[2], Unit) + m[5],
                 RDiv(m[2] * p[1] + m[4] * p[2], Unit) + m[6]>>

\* first n, then m
Mul(m, n) ==
  <<RDiv(m[1] * n[1] + m[3] * n[2], Unit), RDiv(m[2] * n[1] + m[4] * n[2], Unit),
    RDiv(m[1] * n[3] + m[3] * n[4], Unit), RDiv(m[2] * n[3] + m[4] * n[4], Unit),
    RDiv(m[1] * n[5] + m[3] * n[6], Unit) + m[5], RDiv(m[2] * n[5] + m[4] * n[6], Unit) + m[6]>>

Translate(x, y) == <<Unit, 0, 0, Unit, x, y>>

\* one transform function: rotate carries cos and sin (the lexer's job) and its centre
MapOf(f) ==
  CASE f.f = "matrix"    -> <<f.v[1], f.v[2], f.v[3], f.v[4], f.v[5], f.v[6]>>
    [] f.f = "translate" -> Translate(f.v[1], f.v[2])
    [] f.f = "scale"     -> <<f.v[1], 0, 0, f.v[2], 0, 0>>
    [] f.f = "rotate"    -> Mul(Translate(f.v[3], f.v[4]),
                                Mul(<<f.v[1], f.v[2], -f.v[2], f.v[1], 0, 0>>, Translate(-f.v[3], -f.v[4])))
    [] f.f = "skewX"     -> <<Unit, 0, f.v[1], Unit, 0, 0>>
    [] f.f = "skewY"     -> <<Unit, f.v[1], 0, Unit, 0, 0>>

MapOfList(tf) == FoldLeft(LAMBDA m, f : Mul(m, MapOf(f)), Identity, tf)

\* axis-aligned similarity: quarter turns, mirrors and one scale factor
Similarity(m) == \/ m[2] = 0 /\ m[3] = 0 /\ Abs(m[1]) = Abs(m[4])
                 \/ m[1] = 0 /\ m[4] = 0 /\ Abs(m[2]) = Abs(m[3])
ScaleOf(m) == IF m[2] = 0 /\ m[3] = 0 THEN Abs(m[1]) ELSE Abs(m[2])
AxisAligned(m) == \/ m[2] = 0 /\ m[3] = 0
                  \/ m[1] = 0 /\ m[4] = 0
Mirrors(m) == (m[1] \div 10) * (m[4] \div 10) - (m[2] \div 10) * (m[3] \div 10) < 0

(* ------------------------------- outlines -------------------------------- *)
(* A subpath: s start, g segments, z closed.  A segment: k kind, v numbers;     *)
(* the last two numbers are its end point.                                      *)
Pt(v, i) == <<v[i], v[i + 1]>>
SegEnd(seg) == <<seg.v[Len(seg.v) - 1], seg.v[Len(seg.v)]>>
SubEnd(sub) == IF Len(sub.g) = 0 THEN sub.s ELSE SegEnd(sub.g[Len(sub.g)])
LineTo(x, y) == [k |-> "L", v |-> <<x, y>>]

\* commands (absolute, as lexed) to subpaths
Outline(cmds) ==
  LET step(acc, c) ==
        IF c.c = "M" THEN
          [acc EXCEPT !.done = IF acc.open THEN Append(acc.done, acc.cur) ELSE acc.done,
                      !.cur = [s |-> <<c.v[1], c.v[2]>>, g |-> <<>>, z |-> FALSE], !.open = TRUE]
        ELSE IF c.c = "Z" THEN
          IF acc.open
          THEN [acc EXCEPT !.done = Append(acc.done, [acc.cur EXCEPT !.z = TRUE]),
                           !.cur = [s |-> acc.cur.s, g |-> <<>>, z |-> FALSE], !.open = FALSE]
          ELSE acc
        ELSE [acc EXCEPT !.cur.g = Append(acc.cur.g, [k |-> c.c, v |-> c.v]), !.open = TRUE]
      r == FoldLeft(step, [done |-> <<>>, cur |-> [s |-> <<0, 0>>, g |-> <<>>, z |-> FALSE], open |-> FALSE], cmds)
  IN IF r.open THEN Append(r.done, r.cur) ELSE r.done

Pairs(v) == [i \in 1..(Len(v) \div 2) |-> <<v[2 * i - 1], v[2 * i]>>]

PolyOutline(v, closed) ==
  LET ps == Pairs(v)
  IN IF Len(ps) = 0 THEN <<>>
     ELSE <<[s |-> ps[1], g |-> [i \in 1..(Len(ps) - 1) |-> LineTo(ps[i + 1][1], ps[i + 1][2])], z |-> closed]>>

\* full ellipses and rounded rectangles are kept as such: k "O"/"R" pseudo segments
ShapeOutline(geo) ==
  LET v == geo.v IN
  CASE geo.t = "path" -> Outline(geo.c)
    [] geo.t = "line" -> <<[s |-> <<v[1], v[2]>>, g |-> <<LineTo(v[3], v[4])>>, z |-> FALSE]>>
    [] geo.t = "polyline" -> PolyOutline(v, FALSE)
    [] geo.t = "polygon" -> PolyOutline(v, TRUE)
    [] geo.t = "rect" ->
         IF v[3] <= 0 \/ v[4] <= 0 THEN <<>>
         ELSE IF v[5] = 0 \/ v[6] = 0
         THEN <<[s |-> <<v[1], v[2]>>,
                 g |-> <<LineTo(v[1] + v[3], v[2]), LineTo(v[1] + v[3], v[2] + v[4]), LineTo(v[1], v[2] + v[4])>>,
                 z |-> TRUE]>>
         ELSE <<[s |-> <<v[1], v[2]>>, g |-> <<[k |-> "R", v |-> <<v[5], v[6], v[1] + v[3], v[2] + v[4]>>]>>, z |-> TRUE]>>
    [] geo.t = "ellipse" ->
         IF v[3] <= 0 \/ v[4] <= 0 THEN <<>>
         ELSE <<[s |-> <<v[1] - v[3], v[2]>>,
                 g |-> <<[k |-> "A", v |-> <<v[3], v[4], 0, 0, 1, v[1] + v[3], v[2]>>],
                         [k |-> "A", v |-> <<v[3], v[4], 0, 0, 1, v[1] - v[3], v[2]>>]>>, z |-> TRUE]>>
    [] OTHER -> <<>>

(* Image of an outline.  Arcs are mapped exactly for axis-aligned maps; for the  *)
(* others the caller keeps the map beside the outline (Exact is FALSE).          *)
HasArc(subs) == \E i \in DOMAIN subs : \E j \in DOMAIN subs[i].g : subs[i].g[j].k \in {"A", "R"}
Exact(subs, m) == ~HasArc(subs) \/ AxisAligned(m)

MapSeg(m, seg) ==
  LET v == seg.v
      e == Apply(m, SegEnd(seg))
      sc(r, main) == RDiv(r * Abs(main), Unit)
  IN CASE seg.k = "A" ->
            LET straight == m[2] = 0 /\ m[3] = 0
                rx == IF straight THEN sc(v[1], m[1]) ELSE sc(v[2], m[3])
                ry == IF straight THEN sc(v[2], m[4]) ELSE sc(v[1], m[2])
            IN [k |-> "A", v |-> <<rx, ry, v[3], v[4], IF Mirrors(m) THEN 1 - v[5] ELSE v[5], e[1], e[2]>>]
       [] seg.k = "R" ->
            LET straight == m[2] = 0 /\ m[3] = 0
            IN [k |-> "R", v |-> <<IF straight THEN sc(v[1], m[1]) ELSE sc(v[2], m[3]),
                                   IF straight THEN sc(v[2], m[4]) ELSE sc(v[1], m[2]), e[1], e[2]>>]
       [] OTHER -> [k |-> seg.k, v |-> FoldLeft(LAMBDA a, p : a \o Apply(m, p), <<>>, Pairs(v))]

MapOutline(m, subs) ==
  [i \in DOMAIN subs |-> [s |-> Apply(m, subs[i].s), g |-> [j \in DOMAIN subs[i].g |-> MapSeg(m, subs[i].g[j])], z |-> subs[i].z]]

(* ------------------------------ normal form ------------------------------ *)
Cross(o, a, b) == ((a[1] - o[1]) \div 1) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
Dot(o, a, b) == (a[1] - o[1]) * (b[1] - o[1]) + (a[2] - o[2]) * (b[2] - o[2])
\* q lies on the segment from o to e
Between(o, q, e) == /\ Cross(o, q, e) = 0
                    /\ Dot(o, q, e) >= 0
                    /\ Dot(e, q, o) >= 0
                    /\ o = e => q = o

\* curves that run straight along their chord are lines, arcs without radius too; a line of no
\* length, or an arc that ends where it starts, is no segment at all
PlainSeg(o, seg) ==
  LET e == SegEnd(seg) IN
  CASE seg.k = "C" -> IF Between(o, Pt(seg.v, 1), e) /\ Between(o, Pt(seg.v, 3), e) THEN LineTo(e[1], e[2]) ELSE seg
    [] seg.k = "Q" -> IF Between(o, Pt(seg.v, 1), e) THEN LineTo(e[1], e[2]) ELSE seg
    [] seg.k = "A" -> IF seg.v[1] = 0 \/ seg.v[2] = 0 \/ o = e THEN LineTo(e[1], e[2]) ELSE seg
    [] OTHER -> seg

\* join: consecutive lines in one direction become one
PlainSegs(sub, join) ==
  LET step(acc, seg0) ==
        LET o == acc.at
            seg == PlainSeg(o, seg0)
            e == SegEnd(seg)
            n == Len(acc.g)
            prev == IF n > 1 THEN SegEnd(acc.g[n - 1]) ELSE sub.s
        IN IF seg.k = "L" /\ e = o THEN acc
           ELSE IF join /\ seg.k = "L" /\ n > 0 /\ acc.g[n].k = "L" /\ Between(prev, o, e)
           THEN [g |-> [acc.g EXCEPT ![n] = seg], at |-> e]
           ELSE [g |-> Append(acc.g, seg), at |-> e]
  IN FoldLeft(step, [g |-> <<>>, at |-> sub.s], sub.g).g

(* mode: "fill" (only the enclosed area counts), "stroke" (the line itself counts), *)
(* "ends" (markers: its ends count), "nodes" (every vertex counts).                 *)
NormalSub(sub, mode) ==
  LET g0 == PlainSegs(sub, mode # "nodes")
      prev == IF Len(g0) > 1 THEN SegEnd(g0[Len(g0) - 1]) ELSE sub.s
      back == Len(g0) > 0 /\ g0[Len(g0)].k = "L" /\ Between(prev, SegEnd(g0[Len(g0)]), sub.s)
      \* an explicit line back to the start, or some of the way, adds nothing to a closed subpath
      g1 == IF back /\ mode # "nodes" /\ (sub.z \/ mode = "fill") THEN SubSeq(g0, 1, Len(g0) - 1) ELSE g0
      closed == sub.z \/ mode = "fill"
      \* a whole ellipse is the same wherever its outline starts
      c == IF Len(g1) = 0 THEN sub.s ELSE LET e == SegEnd(g1[1]) IN <<(sub.s[1] + e[1]) \div 2, (sub.s[2] + e[2]) \div 2>>
      round == /\ closed /\ mode \notin {"nodes", "ends"} /\ Len(g1) = 2
               /\ \A j \in 1..2 : g1[j].k = "A" /\ g1[j].v[3] = 0
               /\ \A j \in {1, 2, 5} : g1[1].v[j] = g1[2].v[j]
               /\ SegEnd(g1[2]) = sub.s
               /\ \/ sub.s[2] = c[2] /\ Abs(sub.s[1] - c[1]) = g1[1].v[1]
                  \/ sub.s[1] = c[1] /\ Abs(sub.s[2] - c[2]) = g1[1].v[2]
  IN IF round THEN [s |-> c, g |-> <<[k |-> "O", v |-> <<g1[1].v[1], g1[1].v[2], c[1], c[2]>>]>>, z |-> TRUE]
     ELSE [s |-> sub.s, g |-> g1, z |-> closed]

NormalOutline(subs, mode, dots) ==
  LET ns == [i \in DOMAIN subs |-> NormalSub(subs[i], mode)]
      counts(i) == CASE mode = "fill" -> \/ Len(ns[i].g) >= 2
                                         \/ Len(ns[i].g) = 1 /\ ns[i].g[1].k # "L"
                     [] OTHER -> Len(ns[i].g) > 0 \/ (dots /\ (Len(subs[i].g) > 0 \/ subs[i].z))
      keep == SelectSeq([i \in DOMAIN subs |-> i], counts)
  IN [i \in DOMAIN keep |-> ns[keep[i]]]

(* ------------------------------ bounding box ----------------------------- *)
SegPoints(seg) ==
  CASE seg.k = "A" -> LET e == SegEnd(seg) IN {<<e[1] - 2 * seg.v[1], e[2] - 2 * seg.v[2]>>, <<e[1] + 2 * seg.v[1], e[2] + 2 * seg.v[2]>>, e}
    [] seg.k = "O" -> {<<seg.v[3] - seg.v[1], seg.v[4] - seg.v[2]>>, <<seg.v[3] + seg.v[1], seg.v[4] + seg.v[2]>>}
    [] seg.k = "R" -> {SegEnd(seg)}
    [] OTHER -> ToSet(Pairs(seg.v))
SubPoints(sub) == {sub.s} \cup UNION {SegPoints(sub.g[j]) : j \in DOMAIN sub.g}
BoxOf(ps) ==
  LET xs == {p[1] : p \in ps}
      ys == {p[2] : p \in ps}
      mn(S) == CHOOSE x \in S : \A y \in S : x <= y
      mx(S) == CHOOSE x \in S : \A y \in S : x >= y
  IN <<mn(xs), mn(ys), mx(xs), mx(ys)>>
Apart(a, b, gap) == \/ a[3] + gap <= b[1] \/ b[3] + gap <= a[1]
                    \/ a[4] + gap <= b[2] \/ b[4] + gap <= a[2]

\* two sets of points with a line between them (points may lie on it)
Near(P) == \A p \in P : p[1] \in -15000..15000 /\ p[2] \in -15000..15000
Parted(P, Q) ==
  LET side(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
  IN \/ Apart(BoxOf(P), BoxOf(Q), 0)
     \/ /\ Near(P) /\ Near(Q)
        /\ \E a \in P \cup Q, b \in P \cup Q :
              a # b /\ (\A p \in P : side(a, b, p) >= 0) /\ (\A q \in Q : side(a, b, q) <= 0)
=============================================================================
