-------------------------------- MODULE Optim -------------------------------
(***************************************************************************)
(* Momentum SGD over private parameters.  Values are words at scale 2^32   *)
(* (the parameters' own scale is 2^16, so 65536 is one last-place unit);   *)
(* hyper-parameters are integers at scale 2^16.  tol counts last-place     *)
(* units by which the code may differ (rounding of each product).          *)
(* A parameter: [v: values, g: gradient or <<>>, has: BOOLEAN, buf, hb:    *)
(* BOOLEAN, tb: tolerance of buf, grp: group number].                      *)
(***************************************************************************)
EXTENDS Word64, Integers, Sequences, FiniteSets
Unit == <<0, 1, 0, 0>>
Scale(x, h) == WSar(WMul(x, WFromInt(h)), 16)              \* x * h/2^16
VScale(v, h) == [i \in 1..Len(v) |-> Scale(v[i], h)]
MagOf(x) == WToInt(WShr(WAbs(x), 32)) + 1                  \* whole units of |x|, rounded up
MaxI(S) == CHOOSE x \in S : \A y \in S : y <= x
Mag(v) == IF Len(v) = 0 THEN 1 ELSE MaxI({MagOf(v[i]) : i \in 1..Len(v)})
T(ws) == ws + 2
\* tolerance of h * v when v has tolerance t
TolMul(ws, v, h, t) == T(ws) + Mag(v) + ((t * (IF h < 0 THEN -h ELSE h)) \div 65536) + 1
\* gradient after thresholding: entries of large magnitude are dropped
Thresh(g, th) == IF th = 0 THEN g ELSE [i \in 1..Len(g) |-> IF WULt(WAbs(g[i]), WMul(WFromInt(th), Unit)) THEN g[i] ELSE WZero]
StepOf(ws, p, hp) ==
  LET g == Thresh(p.g, hp.th)
      t0 == IF hp.th = 0 THEN 0 ELSE T(ws)
      d1 == IF hp.wd = 0 THEN g ELSE VAdd(g, VScale(p.v, hp.wd))
      t1 == IF hp.wd = 0 THEN t0 ELSE t0 + TolMul(ws, p.v, hp.wd, 0)
      buf == IF hp.mom = 0 THEN p.buf
             ELSE IF ~p.hb THEN d1 ELSE VAdd(VScale(p.buf, hp.mom), VScale(d1, hp.omd))
      tb == IF hp.mom = 0 THEN p.tb
            ELSE IF ~p.hb THEN t1 ELSE TolMul(ws, p.buf, hp.mom, p.tb) + TolMul(ws, d1, hp.omd, t1)
      d2 == IF hp.mom = 0 THEN d1 ELSE IF hp.nes THEN VAdd(d1, VScale(buf, hp.mom)) ELSE buf
      t2 == IF hp.mom = 0 THEN t1 ELSE IF hp.nes THEN t1 + TolMul(ws, buf, hp.mom, tb) ELSE tb
  IN [v |-> VSub(p.v, VScale(d2, hp.lr)), tv |-> TolMul(ws, d2, hp.lr, t2), buf |-> buf, tb |-> tb, hb |-> p.hb \/ hp.mom # 0]
Close(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : WAbsLe(WSub(a[i], b[i]), WMul(WFromInt(t), Unit))
=============================================================================
