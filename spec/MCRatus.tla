------------------------------ MODULE MCRatus ------------------------------
EXTENDS Ratus
\* Instants are integers, two to a millisecond.
MCLe(a, b) == a[1] <= b[1]
MCAdd(a, d) == <<a[1] + d[1]>>
MCRound(a) == <<a[1] - (a[1] % 2)>>
MCMilli == <<2>>
\* abstract: the granularity of MongoDB's expiry
MCSecond == <<2>>
MCRetention == <<2>>
=============================================================================
