-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* Matrices as sequences of rows.  The operators are defined here; Mat.java *)
(* evaluates the same definitions eagerly, which TLC would otherwise       *)
(* repeat for every entry of a product.                                    *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences
Dot(a, b) == NSum([k \in 1..Len(a) |-> NMul(a[k], b[k])])
Col(M, c) == [r \in 1..Len(M) |-> M[r][c]]
MMul(A, B) == [r \in 1..Len(A) |-> [c \in 1..Len(B[1]) |-> Dot(A[r], Col(B, c))]]
MAdd(A, B) == [r \in 1..Len(A) |-> [c \in 1..Len(A[1]) |-> NAdd(A[r][c], B[r][c])]]
MSub(A, B) == [r \in 1..Len(A) |-> [c \in 1..Len(A[1]) |-> NSub(A[r][c], B[r][c])]]
MT(A) == [c \in 1..Len(A[1]) |-> Col(A, c)]
Id3 == <<<<One, Zero, Zero>>, <<Zero, One, Zero>>, <<Zero, Zero, One>>>>
Diag3(a, b, c) == <<<<a, Zero, Zero>>, <<Zero, b, Zero>>, <<Zero, Zero, c>>>>
Minor2(M, r1, r2, c1, c2) == NSub(NMul(M[r1][c1], M[r2][c2]), NMul(M[r1][c2], M[r2][c1]))
Det3(M) == NAdd3(NMul(M[1][1], Minor2(M, 2, 3, 2, 3)), NNeg(NMul(M[1][2], Minor2(M, 2, 3, 1, 3))), NMul(M[1][3], Minor2(M, 2, 3, 1, 2)))
Oth(k) == CASE k = 1 -> <<2, 3>> [] k = 2 -> <<3, 1>> [] OTHER -> <<1, 2>>
Inv3(M) == LET d == Det3(M)
               cof(r, c) == Minor2(M, Oth(r)[1], Oth(r)[2], Oth(c)[1], Oth(c)[2])
           IN [r \in 1..3 |-> [c \in 1..3 |-> NDiv(cof(c, r), d)]]
MaxAbs(M) == LET f[r \in 0..Len(M)] == IF r = 0 THEN Zero
                     ELSE LET g[c \in 0..Len(M[1])] == IF c = 0 THEN f[r - 1] ELSE NMax(g[c - 1], NAbs(M[r][c])) IN g[Len(M[1])]
             IN f[Len(M)]
MNear(A, B, tol) == \A r \in 1..Len(A) : \A c \in 1..Len(A[1]) : NNear(A[r][c], B[r][c], tol)
Symmetric(M, tol) == \A r \in 1..3 : \A c \in 1..3 : NNear(M[r][c], M[c][r], tol)
=============================================================================
