------------------------------ MODULE Flagger -------------------------------
(* The flagger of one baseline and polarisation, one time step at a time. A spectrum is
   a sequence of integer magnitudes. State:
     n      time steps seen
     med    medians of the spectra so far
     last   last spectrum
     score  transit score of each channel times 4^(n - 2), n >= 2 (alpha is a quarters)
     must   pairs <<time, channel>> (from 1) that must be flagged
     may    ... that may be (a score that equals its threshold exactly may go either way)
   Thresholds are in tenths. *)
EXTENDS Util
Median(q) == SortSeq(q, <)[Len(q) \div 2 + 1]
MAD(q, m) == Median([i \in 1..Len(q) |-> Abs(q[i] - m)])
(* |0.6795 (v - med) / mad| > th; any difference is beyond every threshold if mad = 0 *)
Over(med, mad, v, th) == IF mad = 0 THEN v # med ELSE 6795 * Abs(v - med) > 1000 * th * mad
AtOver(med, mad, v, th) == Over(med, mad, v, th) \/ (mad = 0 /\ th = 0) \/ (mad # 0 /\ 6795 * Abs(v - med) = 1000 * th * mad)
Sampled(q, step) == [i \in 1..(Len(q) \div step) |-> q[(i - 1) * step + 1]]
Around(S, win, nch) == {c \in 1..nch : \E d \in S : Abs(c - d) <= win}
Pow4(n) == CASE n = 0 -> 1 [] n = 1 -> 4 [] n = 2 -> 16 [] n = 3 -> 64 [] n = 4 -> 256 [] OTHER -> 1024
Tail0(q, n) == SubSeq(q, Len(q) - n + 1, Len(q))
F0 == [n |-> 0, med |-> <<>>, last |-> <<>>, score |-> <<>>, must |-> {}, may |-> {}]
FStep(f, q, g) ==
    LET nch == Len(q)
        t == f.n + 1
        smp == Sampled(q, g.step)
        med == Median(smp)
        mad == MAD(smp, med)
        meds == Append(f.med, med)
        win == Tail0(meds, Min(t, g.hist))
        mm == Median(win)
        mmd == MAD(win, mm)
        bMust == t > 1 /\ Over(mm, mmd, med, g.tb)
        bMay == t > 1 /\ AtOver(mm, mmd, med, g.tb)
        mMust == {c \in 1..nch : bMust \/ Over(med, mad, q[c], g.tm)}
        mMay == {c \in 1..nch : bMay \/ AtOver(med, mad, q[c], g.tm)}
        rate(c) == Abs(q[c] - f.last[c])
        score == IF t = 1 THEN <<>>
                 ELSE [c \in 1..nch |-> IF t = 2 THEN rate(c)
                                        ELSE g.a * rate(c) * Pow4(t - 3) + (4 - g.a) * f.score[c]]
        vs == Sampled(score, g.step)
        vmed == Median(vs)
        vmad == MAD(vs, med * Pow4(t - 2))     \* deviations are taken from the magnitudes' median
        vMust == IF t = 1 THEN {} ELSE {c \in 1..nch : Over(vmed, vmad, score[c], g.tv)}
        vMay == IF t = 1 THEN {} ELSE {c \in 1..nch : AtOver(vmed, vmad, score[c], g.tv)}
        At(tt, S) == {<<tt, c>> : c \in Around(S, g.win, nch)}
    IN [n |-> t, med |-> meds, last |-> q, score |-> score,
        must |-> f.must \cup At(t, mMust) \cup At(t, vMust) \cup At(t - 1, vMust),
        may |-> f.may \cup At(t, mMay) \cup At(t, vMay) \cup At(t - 1, vMay)]
RECURSIVE FRun(_, _, _)
FRun(f, qs, g) == IF qs = <<>> THEN f ELSE FRun(TLCEval(FStep(f, Head(qs), g)), Tail(qs), g)
=============================================================================
