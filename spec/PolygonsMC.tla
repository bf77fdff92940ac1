----------------------------- MODULE PolygonsMC -----------------------------
(* A contour is drawn point by point on a small grid.                         *)
EXTENDS Polygons
CONSTANTS N, MaxLen, W
VARIABLES g, done
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Init == g = <<>> /\ done = FALSE
\* convex, drawn counterclockwise
Draw == /\ ~done /\ Len(g) < MaxLen
        /\ \E x \in 0..N, y \in 0..N :
             /\ (Len(g) >= 2 => Cross(g[Len(g) - 1], g[Len(g)], <<x, y>>) > 0)
             /\ (Len(g) >= 3 => Cross(g[1], g[2], <<x, y>>) > 0)
             /\ <<x, y>> # (IF g = <<>> THEN <<-1, 0>> ELSE g[Len(g)])
             /\ g' = Append(g, <<x, y>>)
        /\ UNCHANGED done
Close == /\ ~done /\ Len(g) >= 3
         /\ Cross(g[Len(g) - 1], g[Len(g)], g[1]) > 0 /\ Cross(g[Len(g)], g[1], g[2]) > 0
         /\ done' = TRUE /\ UNCHANGED g
Next == Draw \/ Close
Spec == Init /\ [][Next]_<<g, done>>
Pts == ((0 - 1)..(N + 1)) \X ((0 - 1)..(N + 1))
Turn == [i \in DOMAIN g |-> g[(i % Len(g)) + 1]]
Back == [i \in DOMAIN g |-> g[Len(g) + 1 - i]]
OnEdge(p) == \E f \in AllEdges(<<g>>, p) : f[1] = 0
\* a convex contour holds the points to the left of all of its edges
Convex == done => \A p \in Pts : ~OnEdge(p) => (Inside(g, p) <=> \A i \in DOMAIN g : Cross(g[Pred(i, Len(g))], g[i], p) > 0)
\* the order of the points does not matter
Order == done => \A p \in Pts, d \in {-1, 0, 1} : OnEdge(p) \/ (Val(<<g>>, p, W, d) = Val(<<Turn>>, p, W, d) /\ Val(<<g>>, p, W, d) = Val(<<Back>>, p, W, d))
\* the three kinds of interface follow each other inwards, and are full or empty far from the contour
Nested == done => \A p \in Pts :
            LET a == Val(<<g>>, p, W, -1)  b == Val(<<g>>, p, W, 0)  c == Val(<<g>>, p, W, 1)
            IN OnEdge(p) \/ (a[1] <= b[2] /\ b[1] <= c[2] /\ (Inside(g, p) => c = <<Full, Full>>) /\ (~Inside(g, p) => a = <<0, 0>>))
Border == done => \A p \in Pts : OnEdge(p) => /\ 50000 \in Val(<<g>>, p, W, 0)[1]..Val(<<g>>, p, W, 0)[2]
                                              /\ 0 \in Val(<<g>>, p, W, -1)[1]..Val(<<g>>, p, W, -1)[2]
                                              /\ Full \in Val(<<g>>, p, W, 1)[1]..Val(<<g>>, p, W, 1)[2]
=============================================================================
