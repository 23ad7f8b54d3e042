-------------------------------- MODULE MCAts --------------------------------
(* Histories of files and of the recordings loaded from them.                 *)
EXTENDS AtsFiles, TLC, SequencesExt

CONSTANTS MaxFiles, MaxRecs, MaxChans, Starts, Rates, Announced, Bytes, Factors

VARIABLES W, A

Files == [bytes : Bytes, hlen : {1024, 1028}, start : Starts, rate : Rates, ann : Announced, m : Factors, vals : {<<>>}]
Given(ids) == [i \in DOMAIN ids |-> W[ids[i]]]
\* the samples stored in the k-th file
Stored(k, f) == [f EXCEPT !.vals = [j \in 1..Whole(f) |-> 10 * k + j]]

Init == W = <<>> /\ A = <<>>
NewFile == /\ Len(W) < MaxFiles /\ A = <<>>
           /\ W' \in {Append(W, Stored(Len(W) + 1, f)) : f \in Files} /\ UNCHANGED A
Load == /\ Len(W) > 1 /\ Len(A) < MaxRecs
        /\ \E n \in 1..MaxChans : \E ids \in [1..n -> DOMAIN W] :
             Loadable(Given(ids), 0) /\ A' = Append(A, Recording(W, ids, <<>>))
        /\ UNCHANGED W
Next == NewFile \/ Load
Spec == Init /\ [][Next]_<<W, A>>

\* every sample of every channel is its own file's, within it, scaled by its own factor
Own == \A r \in DOMAIN A : \A c \in DOMAIN A[r].chans :
         LET f == W[A[r].chans[c]]
             s == Samples(W, A[r], c)
         IN /\ Len(s) = A[r].n /\ A[r].n >= 1 /\ 4 * A[r].n <= f.bytes - f.hlen
            /\ A[r].start = f.start /\ A[r].rate = f.rate /\ A[r].n = Length(f) /\ A[r].n <= f.ann
            /\ \A j \in DOMAIN s : s[j] = f.m * (10 * A[r].chans[c] + j)
\* the samples of a channel are those of its file alone, whatever comes with it
Alone == \A r \in DOMAIN A : \A c \in DOMAIN A[r].chans :
           LET k == A[r].chans[c] IN
           Loadable(<<W[k]>>, 0) /\ Samples(W, A[r], c) = Samples(W, Recording(W, <<k>>, <<>>), 1)
\* no order matters for acceptance; all pairs must agree
Symmetric == \A i, j \in DOMAIN W : Loadable(Given(<<i, j>>), 0) = Loadable(Given(<<j, i>>), 0)
Pairs == \A i, j, k \in DOMAIN W :
           Loadable(Given(<<i, j, k>>), 0)
             <=> Loadable(Given(<<i, j>>), 0) /\ Loadable(Given(<<j, k>>), 0) /\ Loadable(Given(<<i, k>>), 0)
\* a calibration per file or none
Calibrated == \A i \in DOMAIN W : \A n \in 0..3 : Loadable(Given(<<i, i>>), n) => n \in {0, 2}
=============================================================================
