----------------------------- MODULE MovesTrace -----------------------------
(* Trace specification of runs of the tree samplers on one tree, as tables of how often which move was seen:          *)
(* conf: the rows, weights and prior, and the log marginal likelihood c.ll[m] (in 1/1024) of the rows in the bits of m *)
(* moves: the chain was at tree `from` n times, and went to the trees `to` so many times (else it stayed)             *)
(* fresh: a node with these rows at depth d was drawn afresh n times, and split by the rules `to` so many times       *)
(* The probabilities of Moves.tla are evaluated with whole numbers (probabilities in 1/16384), and every count has to  *)
(* be within six standard deviations (and 2/3 percent) of what they say; nothing else may happen.                      *)
EXTENDS MovesObs, SequencesExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c
vars == <<l, c>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Least(a, b) == IF a < b THEN a ELSE b
Ll(R) == c.ll[SumOver([r \in RowsOf(c) |-> 2^(r - 1)], R)]
\* exp(-x / 1024) in 1/16384, bit by bit
ExpBits == <<16368, 16352, 16320, 16256, 16130, 15880, 15391, 14459, 12760, 9937, 6027, 2217, 300, 5>>
ExpNeg(x) == IF x >= 16384 THEN 0 ELSE FoldLeft(LAMBDA acc, k : IF (x \div 2^(k - 1)) % 2 = 1 THEN (acc * ExpBits[k]) \div 16384 ELSE acc, 16384, [k \in 1..14 |-> k])
Scaled(r, E) == IF r < 2^16 THEN (r * E) \div 2^14 ELSE IF r < 2^22 THEN ((r \div 64) * E) \div 2^8 ELSE ((r \div 4096) * E) \div 4
\* numbers in 1/4096
Odds(d) == LET A == (4096 * c.a) \div (Den(c, d) - c.a)
               B == (4096 * (Den(c, d + 1) - c.a)) \div Den(c, d + 1)
           IN (((A * B) \div 4096) * B) \div 4096
\* min(1, r exp(x / 1024))
Taken(r, x) == IF x >= 0 THEN IF r >= 4096 \/ ExpNeg(x) = 0 THEN 4096 ELSE Least(4096, (r * 16384) \div ExpNeg(x)) ELSE Least(4096, Scaled(Least(r, 2^22), ExpNeg(0 - x)))
\* the ratio of the prior and the proposals for growing T into N at a leaf of depth d
Steps(T, N, d) == (Odds(d) * (2 - GrowHalves(c, N)) * Cardinality(LeavesOf(c, T))) \div (GrowHalves(c, T) * Cardinality(TwigsOf(c, N)))
Gain(R, f, v) == LET L == LeftOf(c, R, f, v) IN Ll(L) + Ll(R \ L) - Ll(R)
Sum(w) == SumOver(w, DOMAIN w)
GrowMoves(T) ==
  IF GrowHalves(c, T) = 0 THEN {} ELSE
  UNION {{LET N == Put(T, h.p, <<q[1], q[2], <<>>, <<>>>>)
              a == Taken(Steps(T, N, Len(h.p)), Gain(h.rows, q[1], q[2]))
              W == 2 * Cardinality(LeavesOf(c, T)) * Sum(c.w) * Width(c, h.rows, q[1])
          IN [to |-> N, p |-> (a * 4 * GrowHalves(c, T) * c.w[q[1]] * Gap(c, h.rows, q[1], q[2])) \div W] : q \in Cuts(c, h.rows)} : h \in LeavesOf(c, T)}
PruneMoves(T) ==
  {LET N == Put(T, t.p, <<>>)
       a == Taken(2^24 \div (IF Steps(N, T, Len(t.p)) = 0 THEN 1 ELSE Steps(N, T, Len(t.p))), 0 - Gain(t.rows, t.f, t.v))
   IN [to |-> N, p |-> (a * 4 * PruneHalves(c, T)) \div (2 * Cardinality(TwigsOf(c, T)))] : t \in TwigsOf(c, T)}
MovesOf(T) == GrowMoves(T) \cup (IF T = <<>> THEN {} ELSE PruneMoves(T))
\* cnt of n at probability p / 16384
Close(cnt, n, p) == LET e == (n * p) \div 16384
                        v == (e * (16384 - p)) \div 16384
                        d == IF cnt > e THEN cnt - e ELSE e - cnt
                    IN d * d <= 36 * v + 100 + (n \div 150) * (n \div 150)
Seen(to, x) == FoldLeft(LAMBDA acc, t : acc + (IF t[1] = x THEN t[2] ELSE 0), 0, to)
TConf == IsEvent("conf") /\ c' = Ev.c
\* trees that moves lead to
RECURSIVE SoundAt(_, _)
SoundAt(T, R) == IF T = <<>> THEN TRUE
                 ELSE <<T[1], T[2]>> \in Cuts(c, R) /\ c.w[T[1]] > 0 /\ LET L == LeftOf(c, R, T[1], T[2]) IN SoundAt(T[3], L) /\ SoundAt(T[4], R \ L)
TMoves == IsEvent("moves") /\ UNCHANGED c /\ SoundAt(Ev.from, RowsOf(c)) /\ LET M == MovesOf(Ev.from) IN
  /\ \A i \in 1..Len(Ev.to) : \E m \in M : m.to = Ev.to[i][1]
  /\ \A m \in M : Close(Seen(Ev.to, m.to), Ev.n, m.p)
\* drawing a node afresh
Share(w, s) == IF s < 2^16 THEN (w * 16384) \div s ELSE IF s < 2^20 THEN ((w \div 16) * 16384) \div (s \div 16) ELSE ((w \div 512) * 16384) \div (s \div 512)
TFresh == IsEvent("fresh") /\ UNCHANGED c /\ Ev.rows # <<>> /\
  LET R == ToSet(Ev.rows)
      Q == {q \in Cuts(c, R) : c.w[q[1]] > 0}
      K == Cardinality(Q)
      top == MaxOf({Ll(R)} \cup {Ll(R) + Gain(R, q[1], q[2]) : q \in Q})
      W == [q \in Q |-> ExpNeg(top - Ll(R) - Gain(R, q[1], q[2])) \div 4]
      none == Scaled((K * (Den(c, Ev.d) - c.a) * 4096) \div c.a, ExpNeg(top - Ll(R)))
      all == none + SumOver(W, Q)
  IN /\ \A i \in 1..Len(Ev.to) : Ev.to[i][1] \in Q
     /\ \A q \in Q : Close(Seen(Ev.to, q), Ev.n, Share(W[q], all))
     /\ K > 0 => Close(Ev.n - FoldLeft(LAMBDA acc, t : acc + t[2], 0, Ev.to), Ev.n, Share(none, all))
TraceInit == l = 1 /\ c = <<>>
TraceNext == TConf \/ TMoves \/ TFresh
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
