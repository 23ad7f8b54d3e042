------------------------------- MODULE AtsFiles -------------------------------
(***************************************************************************)
(* Metronix ATS files: a header, then 32-bit samples.                         *)
(* A file is [bytes |-> size, hlen |-> length of its header, start, rate,       *)
(*   ann |-> announced number of samples, m |-> scale factor (in units of       *)
(*   2^-k volts, k being fixed in a trace), vals |-> stored samples].            *)
(* A recording is [start, rate, n, chans |-> its files, cals |-> calibrations].   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

HeaderSize == 1024

Min2(x, y) == IF x < y THEN x ELSE y
Whole(f) == (f.bytes - f.hlen) \div 4
Readable(f) == f.bytes >= HeaderSize /\ f.hlen >= HeaderSize /\ f.bytes >= f.hlen
Length(f) == Min2(f.ann, Whole(f))
Short(f) == Whole(f) < f.ann

Alike(f, g) == f.start = g.start /\ f.rate = g.rate /\ Length(f) = Length(g)

\* fs: files in the given order; cals: identities of the calibrations, <<>> for none
Loadable(fs, ncal) ==
  /\ fs # <<>>
  /\ \A i \in DOMAIN fs : Readable(fs[i]) /\ Length(fs[i]) > 0
  /\ \A i \in DOMAIN fs : Alike(fs[i], fs[1])
  /\ ncal \in {0, Len(fs)}

NoCalibration == 2      \* the identity of the constant calibration 1

Recording(W, ids, cals) ==
  [start |-> W[ids[1]].start, rate |-> W[ids[1]].rate, n |-> Length(W[ids[1]]), chans |-> ids,
   cals |-> IF cals = <<>> THEN [i \in DOMAIN ids |-> NoCalibration] ELSE cals]

\* samples of a channel, whatever the recordings it is read with
Sample(f, j) == f.vals[j] * f.m
Samples(W, r, c) == [j \in 1..r.n |-> Sample(W[r.chans[c]], j)]
Channels(W, r) == [c \in DOMAIN r.chans |-> Samples(W, r, c)]
=============================================================================
