----------------------------- MODULE ModuleState ----------------------------
(* The state of a tree (with sharing) of modules. Module 1 is the root.       *)
(*   module: [kind, enc, train, kids: sequence of [n |-> name, m |-> module], *)
(*            pars: sequence of [n, v, enc, rg, g], bufs: sequence of [n, v, enc]] *)
(* A plaintext value v is a sequence with the value at every party (they may  *)
(* differ); an encrypted one has the same value everywhere. Values are in     *)
(* eighths. g = <<>> if there is no gradient, else <<value>>.                 *)
(* A key of a state dictionary is the path of names followed by the name.     *)
EXTENDS Integers, Sequences, FiniteSets
Same(v, p) == [i \in 1..Len(v) |-> v[p]]
\* children, each once
Kids(st, m) == LET k == st[m].kids IN SelectSeq([i \in 1..Len(k) |-> [n |-> k[i].n, m |-> k[i].m, first |-> ~(\E j \in 1..(i - 1) : k[j].m = k[i].m)]], LAMBDA x : x.first)
RECURSIVE Sub(_, _), SubAll(_, _, _)
Sub(st, m) == {m} \cup SubAll(st, Kids(st, m), 1)
SubAll(st, ks, i) == IF i > Len(ks) THEN {} ELSE Sub(st, ks[i].m) \cup SubAll(st, ks, i + 1)
\* all paths to modules in traversal order: <<[p |-> path, m |-> module], ...>>
RECURSIVE Paths(_, _, _), PathsAll(_, _, _, _)
Paths(st, m, pre) == <<[p |-> pre, m |-> m]>> \o PathsAll(st, Kids(st, m), 1, pre)
PathsAll(st, ks, i, pre) == IF i > Len(ks) THEN <<>> ELSE Paths(st, ks[i].m, Append(pre, ks[i].n)) \o PathsAll(st, ks, i + 1, pre)
\* the names under which every parameter is listed once
FirstPath(ps, i) == ~(\E j \in 1..(i - 1) : ps[j].m = ps[i].m)
Names(st, m, field) ==
  LET ps == Paths(st, m, <<>>) IN
  UNION {{Append(ps[i].p, x.n) : x \in {st[ps[i].m][field][k] : k \in 1..Len(st[ps[i].m][field])}} : i \in {j \in 1..Len(ps) : FirstPath(ps, j)}}
\* the entries of the state dictionary of m
Entries(st, m) ==
  LET ps == Paths(st, m, <<>>)
      of(i, f) == {[k |-> Append(ps[i].p, st[ps[i].m][f][j].n), v |-> st[ps[i].m][f][j].v, enc |-> st[ps[i].m][f][j].enc] : j \in 1..Len(st[ps[i].m][f])}
  IN UNION {of(i, "pars") \cup of(i, "bufs") : i \in 1..Len(ps)}
Keys(d) == {e.k : e \in d}
\* ---- operations ----
MapMods(st, S, F(_)) == [x \in 1..Len(st) |-> IF x \in S THEN F(st[x]) ELSE st[x]]
Encrypt(st, m, src) ==
  LET F(q) == IF q.enc THEN q
              ELSE [q EXCEPT !.enc = TRUE,
                     !.pars = [j \in 1..Len(q.pars) |-> [q.pars[j] EXCEPT !.v = Same(@, src), !.enc = TRUE, !.g = <<>>]],
                     !.bufs = [j \in 1..Len(q.bufs) |-> [q.bufs[j] EXCEPT !.v = Same(@, src), !.enc = TRUE]]]
  IN MapMods(st, Sub(st, m), F)
Decrypt(st, m) ==
  LET F(q) == IF ~q.enc THEN q
              ELSE [q EXCEPT !.enc = FALSE,
                     !.pars = [j \in 1..Len(q.pars) |-> [q.pars[j] EXCEPT !.enc = FALSE, !.g = <<>>]],
                     !.bufs = [j \in 1..Len(q.bufs) |-> [q.bufs[j] EXCEPT !.enc = FALSE]]]
  IN MapMods(st, Sub(st, m), F)
Train(st, m, mode) ==
  LET F(q) == [q EXCEPT !.train = mode, !.pars = [j \in 1..Len(q.pars) |-> [q.pars[j] EXCEPT !.rg = mode]]] IN MapMods(st, Sub(st, m), F)
ZeroGrad(st, m) == LET F(q) == [q EXCEPT !.pars = [j \in 1..Len(q.pars) |-> [q.pars[j] EXCEPT !.g = <<>>]]] IN MapMods(st, Sub(st, m), F)
SetGrad(st, m, j, g) == [st EXCEPT ![m].pars[j].g = <<g>>]
SetParam(st, m, j, v, rg) == [st EXCEPT ![m].pars[j].v = v, ![m].pars[j].rg = rg, ![m].pars[j].g = <<>>]
SetBuf(st, m, j, v) == [st EXCEPT ![m].bufs[j].v = v]
\* a step of size lr (in eighths); an encrypted model ignores gradients not below the threshold (0: none)
Abs(x) == IF x < 0 THEN -x ELSE x
Kept(g, thr, enc) == ~enc \/ thr = 0 \/ Abs(g) < 8 * thr
Update(st, m, lr, thr) ==
  LET e == st[m].enc
      F(q) == [q EXCEPT !.pars = [j \in 1..Len(q.pars) |->
                 IF q.pars[j].g = <<>> THEN q.pars[j]
                 ELSE [q.pars[j] EXCEPT !.v = [i \in 1..Len(@) |-> IF Kept(q.pars[j].g[1][i], thr, e) THEN @[i] - ((lr * q.pars[j].g[1][i]) \div 8) ELSE @[i]]]]]
  IN MapMods(st, Sub(st, m), F)
Uniform(st, m) == \A x \in Sub(st, m) : st[x].enc = st[m].enc
\* a state dictionary d loaded into m: the entry of the last path of a module counts
LoadErr(st, m, d, strict) ==
  LET es == Entries(st, m) IN
  \/ strict /\ Keys(es) # Keys(d)
  \/ \E e \in es : \E f \in d : e.k = f.k /\ e.enc # f.enc
Load(st, m, d) ==
  LET ps == Paths(st, m, <<>>)
      pathsOf(x) == {i \in 1..Len(ps) : ps[i].m = x}
      val(x, n, old) == LET hit == {i \in pathsOf(x) : Append(ps[i].p, n) \in Keys(d)} IN
                        IF hit = {} THEN old ELSE LET i == CHOOSE i \in hit : \A j \in hit : j <= i IN (CHOOSE f \in d : f.k = Append(ps[i].p, n)).v
  IN [x \in 1..Len(st) |-> IF pathsOf(x) = {} THEN st[x]
        ELSE [st[x] EXCEPT !.pars = [j \in 1..Len(@) |-> [@[j] EXCEPT !.v = val(x, st[x].pars[j].n, @)]],
                           !.bufs = [j \in 1..Len(@) |-> [@[j] EXCEPT !.v = val(x, st[x].bufs[j].n, @)]]]]
\* a container forgets its i-th entry; lists renumber (names 50, 51, ...)
DelKid(st, m, i, renumber) ==
  LET k == st[m].kids
      r == [j \in 1..(Len(k) - 1) |-> IF j < i THEN k[j] ELSE k[j + 1]]
  IN [st EXCEPT ![m].kids = [j \in 1..Len(r) |-> IF renumber THEN [r[j] EXCEPT !.n = 49 + j] ELSE r[j]]]
AddModule(st, m, n, q) == Append([st EXCEPT ![m].kids = Append(@, [n |-> n, m |-> Len(st) + 1])], q)
\* the output of the test modules: the input plus all parameters and buffers below (once per occurrence);
\* a module of kind "param" returns its tensor
RECURSIVE Fwd(_, _, _), FwdKids(_, _, _, _), SumV(_, _, _)
SumV(s, i, p) == IF i > Len(s) THEN 0 ELSE s[i].v[p] + SumV(s, i + 1, p)
Fwd(st, m, x) == LET own == [p \in 1..Len(x) |-> SumV(st[m].pars, 1, p) + SumV(st[m].bufs, 1, p)] IN
                 IF st[m].kind = "param" THEN own ELSE FwdKids(st, st[m].kids, 1, [p \in 1..Len(x) |-> x[p] + own[p]])
FwdKids(st, ks, i, x) == IF i > Len(ks) THEN x
                         ELSE LET y == Fwd(st, ks[i].m, x) IN
                              FwdKids(st, ks, i + 1, IF st[ks[i].m].kind = "param" THEN [p \in 1..Len(x) |-> x[p] + y[p]] ELSE y)
\* ---- properties of every state ----
\* parameters and buffers are encrypted with their module, and encrypted values agree at all parties
Together(st) == \A m \in 1..Len(st) :
  /\ \A f \in {"pars", "bufs"} : \A j \in 1..Len(st[m][f]) :
       /\ st[m][f][j].enc = st[m].enc
       /\ st[m].enc => \A a, b \in 1..Len(st[m][f][j].v) : st[m][f][j].v[a] = st[m][f][j].v[b]
=============================================================================
