-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real arithmetic for the specification.  TLC has no reals, so every      *)
(* operator below is overridden by java/Num.java, in which a real is an    *)
(* IEEE double represented by the TLA+ value <<hi, lo>> (its two 32-bit    *)
(* halves).  Values of this kind are ordinary TLC values: they can be      *)
(* stored in variables, compared with = and enumerated in sets, so the     *)
(* same operators serve the exhaustive models (MC_*.tla) and the           *)
(* validation of recorded executions (Trace.tla).  The bodies given here   *)
(* are placeholders that TLC never evaluates.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

NAdd(a, b) == CHOOSE x : TRUE
NSub(a, b) == CHOOSE x : TRUE
NMul(a, b) == CHOOSE x : TRUE
NDiv(a, b) == CHOOSE x : TRUE
NLt(a, b)  == CHOOSE x : TRUE
NLe(a, b)  == CHOOSE x : TRUE
NNeg(a)    == CHOOSE x : TRUE
NAbs(a)    == CHOOSE x : TRUE
NMin(a, b) == CHOOSE x : TRUE
NMax(a, b) == CHOOSE x : TRUE
Sqrt(a)    == CHOOSE x : TRUE
Cbrt(a)    == CHOOSE x : TRUE
Exp(a)     == CHOOSE x : TRUE
Ln(a)      == CHOOSE x : TRUE
Pow(a, b)  == CHOOSE x : TRUE
Sinh(a)    == CHOOSE x : TRUE
Asinh(a)   == CHOOSE x : TRUE
Tanh(a)    == CHOOSE x : TRUE
Cosh(a)    == CHOOSE x : TRUE
Rat(n, d)  == CHOOSE x : TRUE       \* the real n/d of two integers
Int2Num(n) == CHOOSE x : TRUE
Floor(a)   == CHOOSE x : TRUE       \* an integer
Ulp(a)     == CHOOSE x : TRUE
IsFinite(a) == CHOOSE x : TRUE
Dec(s)     == CHOOSE x : TRUE       \* the real denoted by a decimal string
Show(a)    == CHOOSE x : TRUE       \* a decimal string for a real
Sum(s)     == CHOOSE x : TRUE       \* sum of a sequence of reals
Dot(s, t)  == CHOOSE x : TRUE       \* inner product of two sequences
MaxOf(s)   == CHOOSE x : TRUE
MinOf(s)   == CHOOSE x : TRUE
\* matrices are sequences of rows
MatMul(A, B)   == CHOOSE x : TRUE
Transpose(A)   == CHOOSE x : TRUE
MatAdd(A, B)   == CHOOSE x : TRUE
MatScale(k, A) == CHOOSE x : TRUE
Det(A)         == CHOOSE x : TRUE
Inverse(A)     == CHOOSE x : TRUE
EigSym(A)      == CHOOSE x : TRUE   \* <<eigenvalues, matrix of eigenvector columns>>
FromEig(w, V)  == CHOOSE x : TRUE   \* V diag(w) V^T
ReadLog(f)     == CHOOSE x : TRUE   \* the sequence of records of a JSON-lines file
Merge(a, b)    == CHOOSE x : TRUE   \* record a, completed by the fields of b that a lacks
Env(s)         == CHOOSE x : TRUE   \* an environment variable

a (+) b == NAdd(a, b)
a (-) b == NSub(a, b)
a (.) b == NMul(a, b)
a (/) b == NDiv(a, b)
a \prec b == NLt(a, b)
a \preceq b == NLe(a, b)

Zero == Rat(0, 1)
One  == Rat(1, 1)
Two  == Rat(2, 1)
Half == Rat(1, 2)
Sq(a) == a (.) a
NSgn(a) == IF Zero \prec a THEN One ELSE IF a \prec Zero THEN NNeg(One) ELSE Zero

\* vectors are sequences of reals
VAdd(u, v) == [k \in 1..Len(u) |-> u[k] (+) v[k]]
VSub(u, v) == [k \in 1..Len(u) |-> u[k] (-) v[k]]
VScale(a, v) == [k \in 1..Len(v) |-> a (.) v[k]]
VZero(n)   == [k \in 1..n |-> Zero]
VNorm(v)   == Sqrt(Dot(v, v))
VMaxAbs(v) == MaxOf([k \in 1..Len(v) |-> NAbs(v[k])])
Ident(n)   == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]]
Trace_(A)  == Sum([i \in 1..Len(A) |-> A[i][i]])
MatSub(A, B) == MatAdd(A, MatScale(Rat(-1,1), B))
MatVec(A, v) == [i \in 1..Len(A) |-> Dot(A[i], v)]
MatNorm(A) == Sqrt(Sum([i \in 1..Len(A) |-> Dot(A[i], A[i])]))
MatMaxAbs(A) == MaxOf([i \in 1..Len(A) |-> VMaxAbs(A[i])])

\* closeness, on a stated scale.  Never true of a NaN.
Tol == Dec("1e-8")
Close(a, b, scale) == NAbs(a (-) b) \preceq (Tol (.) scale (+) Dec("1e-300"))
VClose(u, v, scale) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : Close(u[k], v[k], scale)
MClose(A, B, scale) == Len(A) = Len(B) /\ \A k \in 1..Len(A) : VClose(A[k], B[k], scale)
=============================================================================
