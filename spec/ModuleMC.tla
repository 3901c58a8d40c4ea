------------------------------ MODULE ModuleMC ------------------------------
(* All histories of bounded length over a few module trees, two parties.     *)
EXTENDS ModuleState, TLC
CONSTANTS Depth
VARIABLES st, slot, n, gh
vars == <<st, slot, n, gh>>
Par(k, v) == [n |-> k, v |-> <<v, v + 80>>, enc |-> FALSE, rg |-> TRUE, g |-> <<>>]
Buf(k, v) == [n |-> k, v |-> <<v, v + 80>>, enc |-> FALSE]
Mod(ks, ps, bs) == [kind |-> "mod", enc |-> FALSE, train |-> TRUE, kids |-> ks, pars |-> ps, bufs |-> bs]
Kid(a, m) == [n |-> a, m |-> m]
Trees == {<<Mod(<<Kid(1, 2)>>, <<>>, <<>>), Mod(<<>>, <<Par(101, 8)>>, <<Buf(201, 16)>>)>>,
          \* the same module twice below the root, at different levels
          <<Mod(<<Kid(1, 2), Kid(2, 3)>>, <<>>, <<>>), Mod(<<Kid(1, 3)>>, <<Par(101, 8)>>, <<>>), Mod(<<>>, <<Par(101, 24)>>, <<Buf(201, 32)>>)>>}
New == Mod(<<>>, <<Par(101, 40)>>, <<>>)
Init == st \in Trees /\ slot = {} /\ n = 0 /\ gh = [op |-> "none"]
Op ==
  \E m \in 1..Len(st) :
    \/ \E s \in 1..2 : st' = Encrypt(st, m, s) /\ slot' = slot /\ gh' = [op |-> "enc", m |-> m, s |-> s, old |-> st]
    \/ st' = Decrypt(st, m) /\ slot' = slot /\ gh' = [op |-> "dec", m |-> m, old |-> st]
    \/ \E b \in BOOLEAN : st' = Train(st, m, b) /\ slot' = slot /\ gh' = [op |-> "train", m |-> m, old |-> st]
    \/ st' = st /\ slot' = Entries(st, m) /\ gh' = [op |-> "save", m |-> m, old |-> st]
    \/ slot # {} /\ ~LoadErr(st, m, slot, TRUE) /\ st' = Load(st, m, slot) /\ slot' = slot /\ gh' = [op |-> "load", m |-> m, old |-> st]
    \/ st[m].train /\ Uniform(st, m) /\ st' = Update(st, m, 8, 2) /\ slot' = slot /\ gh' = [op |-> "upd", m |-> m, old |-> st]
    \/ st[m].pars # <<>> /\ (\E g \in {8, 24} : st' = SetGrad(st, m, 1, IF st[m].enc THEN <<g, g>> ELSE <<g, g - 8>>)) /\ slot' = slot /\ gh' = [op |-> "grad", m |-> m, old |-> st]
    \/ Len(st) < 4 /\ m = 1 /\ st' = AddModule(st, m, 5 + Len(st), New) /\ slot' = slot /\ gh' = [op |-> "add", m |-> m, old |-> st]
Next == n < Depth /\ n' = n + 1 /\ Op
Spec == Init /\ [][Next]_vars
TogetherInv == Together(st)
AllBelow == gh.op \in {"enc", "dec"} => \A x \in Sub(st, gh.m) : st[x].enc = (gh.op = "enc")
Vs(s) == [m \in 1..Len(s) |-> <<[j \in 1..Len(s[m].pars) |-> s[m].pars[j].v], [j \in 1..Len(s[m].bufs) |-> s[m].bufs[j].v]>>]
\* decryption never changes a value; encryption gives everybody the source's
KeepValues == (gh.op \in {"dec", "train", "save", "grad"} => Vs(st) = Vs(gh.old))
             /\ (gh.op = "enc" => \A m \in Sub(st, gh.m) : ~gh.old[m].enc => \A j \in 1..Len(st[m].pars) : st[m].pars[j].v = Same(gh.old[m].pars[j].v, gh.s))
\* loading what was just saved is the identity; the dictionary has every parameter and buffer
SaveLoad == gh.op = "save" => Load(st, gh.m, slot) = st /\ (Names(st, gh.m, "pars") \cup Names(st, gh.m, "bufs")) \subseteq Keys(slot)
\* after loading, the state saves to what was loaded
LoadSave == gh.op = "load" => {[k |-> e.k, v |-> e.v] : e \in Entries(st, gh.m)} = {[k |-> e.k, v |-> e.v] : e \in slot}
BuffersFixed == gh.op = "upd" => \A m \in 1..Len(st) : st[m].bufs = gh.old[m].bufs
Outside == gh.op \in {"enc", "dec", "train", "upd", "load"} => \A m \in (1..Len(gh.old)) \ Sub(gh.old, gh.m) : st[m] = gh.old[m]
View == <<st, slot, n>>
=============================================================================
