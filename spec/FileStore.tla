----------------------------- MODULE FileStore ------------------------------
(***************************************************************************)
(* Fields written to files and read back.  A program holds fields (spectral *)
(* or physical, scalar, vector or tensor valued) whose contents are known   *)
(* by a version number, changed whenever the program assigns to the field.  *)
(* A file is a map from <<name, form, step>> to the contents stored there:  *)
(* the version of which field, which components, which slice.  A form is    *)
(* <<>> for the whole array and otherwise one entry per axis, -1 for all    *)
(* points or the global number of one plane.                                *)
(***************************************************************************)
EXTENDS Fields, Json
CONSTANTS SEEDS, DIMS, NFIELDS, STEPS

VARIABLES rng, axes, perm, cplx, field, file, grp, hist
vars == <<rng, axes, perm, cplx, field, file, grp, hist>>
S == Len(hist)
Log(r) == hist' = Append(hist, r)

Fams == <<"C", "L", "C", "L", "U">>
RAx(ax) == {i \in 1..Len(ax) : ax[i].k = "R"}
DrawAxes(r) ==
  LET d == RndSet(r, "dim", DIMS)
      nb == RndIn(r, "nb", 0, 2)
      h(i) == Rnd(r, <<"which", i>>, 1000) * 10 + i
      bounded == {i \in 1..d : Cardinality({j \in 1..d : h(j) < h(i)}) < nb}
      fs == {i \in 1..d : i \notin bounded}
      rax == IF RndIn(r, "real", 0, 2) > 0 /\ fs # {} THEN RndSet(r, "rax", fs) ELSE 0
  IN [i \in 1..d |-> DrawAxis(r, i, IF i \in bounded THEN RndSeq(r, <<"fam", i>>, Fams) ELSE IF i = rax THEN "R" ELSE "F", {"none", "D"}, 4, 8)]
DrawPerm(r, ax) ==
  LET d == Len(ax)
      key(i) == IF i \in RAx(ax) THEN 10000 ELSE Rnd(r, <<"perm", i>>, IF ax[i].k = "F" THEN 1000 ELSE 2000) * 10 + i
  IN [j \in 1..d |-> CHOOSE i \in 1..d : Cardinality({l \in 1..d : key(l) < key(i)}) = j - 1]
Files == 1..2
Dim == Len(axes)
NC(k) == CASE k = "scalar" -> 1 [] k = "vector" -> Dim [] k = "tensor" -> Dim * Dim [] k = "mixed" -> Dim + 1
Size(f) == IF field[f].out THEN SpecOf(axes) ELSE PhysOf(axes)
Empty == [k \in {} |-> 0]
(* names of groups; a vector written as scalars uses the name followed by the number of the component *)
Names == <<"u", "phi", "B">>
Scalar(name, c) == <<name, c>>
Group(name, c) == <<name, c>>     \* c = 0: the name itself
Kinds == <<"scalar", "scalar", "vector", "vector", "tensor", "mixed">>

(* ---- requests ---------------------------------------------------------- *)
DrawForm(s, f) == [i \in 1..Dim |-> IF RndIn(rng, <<"sl", s, i>>, 0, 1) = 0 THEN -1 ELSE Rnd(rng, <<"at", s, i>>, Size(f)[i])]
Form(s, f) == LET w == DrawForm(s, f) IN IF (\A i \in 1..Dim : w[i] # -1) THEN [w EXCEPT ![1] = -1] ELSE w
(* item: field, component (0 whole) and form (<<>> whole)                  *)
DrawItem(s, f) == [f |-> f, comp |-> IF field[f].kind = "vector" /\ RndIn(rng, <<"cmp", s>>, 0, 2) = 0 THEN RndIn(rng, <<"cc", s>>, 1, Dim) ELSE 0,
                   form |-> IF RndBool(rng, <<"whole", s>>) THEN <<>> ELSE Form(s, f)]
IsScalar(it) == field[it.f].kind = "scalar" \/ it.comp # 0
(* a group has one rank and one shape; scalars and vectors may not share a name *)
Sort(it) == [out |-> field[it.f].out, kind |-> IF IsScalar(it) THEN "scalar" ELSE field[it.f].kind]
Puts(name, it, asS) ==   \* the groups and components an item writes
  IF ~asS \/ IsScalar(it) THEN {[g |-> Group(name, 0), sort |-> Sort(it), c |-> it.comp, it |-> it]}
  ELSE {[g |-> Group(name, c), sort |-> [Sort(it) EXCEPT !.kind = "scalar"], c |-> c, it |-> it] : c \in 1..NC(field[it.f].kind)}
Key(p, step) == <<p.g, p.it.form, step>>
Val(p) == [f |-> p.it.f, ver |-> field[p.it.f].ver, c |-> p.c, form |-> p.it.form]
Apply(fl, ps, step) ==   \* ps: sequence of puts, the last one wins
  FoldLeft(LAMBDA acc, p : LET kk == TLCEval(Key(p, step)) v == TLCEval(Val(p)) IN TLCEval([k \in DOMAIN acc \cup {kk} |-> IF k = kk THEN v ELSE acc[k]]), fl, ps)
Fitting(g, ps) == \A i \in 1..Len(ps) : /\ ps[i].g \in DOMAIN g => g[ps[i].g] = ps[i].sort
                                           /\ \A j \in 1..Len(ps) : ps[i].g = ps[j].g => ps[i].sort = ps[j].sort
GroupsOf(g, ps) == FoldLeft(LAMBDA acc, p : LET v == TLCEval(p) IN TLCEval([k \in DOMAIN acc \cup {v.g} |-> IF k = v.g THEN v.sort ELSE acc[k]]), g, ps)

Init == /\ rng \in SEEDS
        /\ axes = DrawAxes(rng) /\ perm = DrawPerm(rng, axes)
        /\ cplx = (RAx(axes) = {} /\ \E i \in 1..Len(axes) : IsF(axes[i]))
        /\ field = [f \in 1..NFIELDS |-> [kind |-> RndSeq(rng, <<"kind", f>>, Kinds), out |-> RndBool(rng, <<"out", f>>), ver |-> 0]]
        /\ file = [i \in Files |-> Empty] /\ grp = [i \in Files |-> Empty] /\ hist = <<>>
Begin == /\ S = 0
         /\ Log([axes |-> axes, perm |-> perm, cplx |-> cplx, field |-> field, procs |-> SetToSeq(Procs(axes, perm, FALSE)),
                 mesh |-> [i \in Files |-> RndSeq(rng, <<"mesh", i>>, <<"quadrature", "uniform">>)]])
         /\ UNCHANGED <<rng, axes, perm, cplx, field, file, grp>>
F1 == RndSet(rng, <<"file", S>>, Files)
Change == LET f == RndIn(rng, <<"chg", S>>, 1, NFIELDS) IN
   /\ field' = [field EXCEPT ![f].ver = S] /\ Log([op |-> "change", f |-> f, ver |-> S])
   /\ UNCHANGED <<file, grp>>
(* one write call: one or two names, each with one to three items *)
Write ==
  LET i == F1
      asS == RndIn(rng, <<"asS", S>>, 0, 2) = 0
      step == RndIn(rng, <<"step", S>>, 0, 3)
      nn == RndIn(rng, <<"nn", S>>, 1, 2)
      nm == [j \in 1..nn |-> RndSeq(rng, <<"name", S, (IF j = 1 THEN 0 ELSE 1)>>, Names)]
      f(j) == RndIn(rng, <<"wf", S, j>>, 1, NFIELDS)
      items(j) == [l \in 1..RndIn(rng, <<"ni", S, j>>, 1, 3) |->
                     [DrawItem(<<S, j, l>>, f(j)) EXCEPT !.comp = DrawItem(<<S, j, 1>>, f(j)).comp]]
      ok(it) == ~asS \/ field[it.f].kind \notin {"tensor", "mixed"}      \* only vectors are taken apart
      ps(j) == TLCEval(FoldLeft(LAMBDA acc, it : acc \o SetToSeq(Puts(nm[j], it, asS)), <<>>, items(j)))
      all == IF nn = 1 \/ nm[1] = nm[2] THEN ps(1) ELSE ps(1) \o ps(2)
      use == IF nn = 1 \/ nm[1] = nm[2] THEN 1 ELSE 2
  IN IF Fitting(grp[i], all) /\ \A j \in 1..use : \A l \in 1..Len(items(j)) : ok(items(j)[l])
     THEN /\ file' = [file EXCEPT ![i] = Apply(@, all, step)]
          /\ grp' = [grp EXCEPT ![i] = GroupsOf(@, all)]
          /\ Log([op |-> "write", file |-> i, step |-> step, scalar |-> asS, d |-> [j \in 1..use |-> [name |-> nm[j], items |-> items(j)]]])
          /\ UNCHANGED field
     ELSE Log([op |-> "none"]) /\ UNCHANGED <<field, file, grp>>
Whole(i) == {k \in DOMAIN file[i] : k[2] = <<>>}
Sliced(i) == DOMAIN file[i] \ Whole(i)
Read == LET i == F1 IN
   IF Whole(i) = {} THEN Log([op |-> "none"]) /\ UNCHANGED <<field, file, grp>>
   ELSE LET k == RndSet(rng, <<"rd", S>>, Whole(i)) v == file[i][k] IN
        /\ Log([op |-> "read", file |-> i, name |-> k[1], step |-> k[3], val |-> v, kind |-> grp[i][k[1]].kind, out |-> grp[i][k[1]].out])
        /\ UNCHANGED <<field, file, grp>>
Look == LET i == F1 IN       \* the whole file
   /\ Log([op |-> "look", file |-> i, all |-> [j \in 1..Cardinality(DOMAIN file[i]) |-> LET k == SetToSeq(DOMAIN file[i])[j] IN [k |-> k, v |-> file[i][k]]],
           grp |-> [j \in 1..Cardinality(DOMAIN grp[i]) |-> LET k == SetToSeq(DOMAIN grp[i])[j] IN [g |-> k, s |-> grp[i][k]]]])
   /\ UNCHANGED <<field, file, grp>>
Reopen == LET i == F1 m == RndSeq(rng, <<"mode", S>>, <<"r", "a", "a", "w">>) IN
   /\ IF m = "w" THEN file' = [file EXCEPT ![i] = Empty] /\ grp' = [grp EXCEPT ![i] = Empty] ELSE UNCHANGED <<file, grp>>
   /\ Log([op |-> "reopen", file |-> i, mode |-> m]) /\ UNCHANGED field
Next == \/ Begin
        \/ /\ S >= 1 /\ S <= STEPS
           /\ LET o == RndSeq(rng, <<"op", S>>, <<"write", "write", "write", "change", "change", "read", "read", "look", "reopen">>) IN
              CASE S = STEPS -> Look [] o = "write" -> Write [] o = "change" -> Change [] o = "read" -> Read [] o = "look" -> Look [] OTHER -> Reopen
           /\ UNCHANGED <<rng, axes, perm, cplx>>
Spec == Init /\ [][Next]_vars

(* ---- properties -------------------------------------------------------- *)
(* a stored value is the version its field had when it was last written there: *)
Changes(f, s) == {j \in 2..(s - 1) : hist[j].op = "change" /\ hist[j].f = f}
Version(f, s) == IF Changes(f, s) = {} THEN 0 ELSE hist[CHOOSE j \in Changes(f, s) : \A i \in Changes(f, s) : i <= j].ver
Truncated(i) == {s \in 2..S : hist[s].op = "reopen" /\ hist[s].file = i /\ hist[s].mode = "w"}
Hits(i, k, s) == \E j \in 1..Len(hist[s].d) : hist[s].d[j].name = k[1][1] /\
   \E l \in 1..Len(hist[s].d[j].items) : LET it == hist[s].d[j].items[l] IN
      it.form = k[2] /\ (k[1][2] = 0 <=> (~hist[s].scalar \/ field[it.f].kind = "scalar" \/ it.comp # 0))
Writes(i, k) == {s \in 2..S : hist[s].op = "write" /\ hist[s].file = i /\ hist[s].step = k[3] /\ (\A t \in Truncated(i) : t < s) /\ Hits(i, k, s)}
Stored == \A i \in Files : \A k \in DOMAIN file[i] :
             /\ Writes(i, k) # {}
             /\ LET s == CHOOSE s \in Writes(i, k) : \A t \in Writes(i, k) : t <= s IN file[i][k].ver = Version(file[i][k].f, s)
             /\ k[1] \in DOMAIN grp[i]
(* only a write call changes a file, and only at the names and the step it is given *)
Isolated == [][\A i \in Files : \A k \in DOMAIN file[i] :
                 (k \notin DOMAIN file'[i] \/ file'[i][k] # file[i][k]) =>
                   LET g == hist'[S'] IN g.file = i /\ \/ g.op = "reopen" /\ g.mode = "w"
                                                       \/ g.op = "write" /\ g.step = k[3] /\ \E j \in 1..Len(g.d) : g.d[j].name = k[1][1]]_vars
Emit == S = STEPS + 1 => PrintT(ToJson([steps |-> hist]))
=============================================================================
