----------------------------- MODULE ForestTrace ----------------------------
(* Trace specification for forest collections: edits, copies, reloads, predictions, leaf indices, kernels *)
EXTENDS ForestOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Stay == UNCHANGED fvars
Rule(e) == IF "cats" \in DOMAIN e THEN Cat(e.feat, Range(e.cats)) ELSE Num(e.feat, e.thr)
TBegin == IsEvent("begin") /\ fs' = [x \in {} |-> <<>>] /\ data' = [x \in {} |-> <<>>]
TForest == IsEvent("forest") /\ NewForest(Ev.f, Ev.trees, Ev.dim, Ev.constant, Ev.samples)
TData == IsEvent("data") /\ SetData(Ev.d, Ev.X, Ev.B)
TAdd == IsEvent("add_samples") /\ AddSamples(Ev.f, Ev.num)
TCopy == IsEvent("copy_sample") /\ CopySample(Ev.f, Ev.new + 1, Ev.prev + 1)
TRoot == IsEvent("init_root") /\ InitRoot(Ev.f, Ev.v)
TTake == IsEvent("take_root") /\ TakeRoot(Ev.f)
TSetAll == IsEvent("set_leaves") /\ SetLeaves(Ev.f, Ev.k + 1, Ev.v)
TExpand == IsEvent("expand") /\ ExpandIn(Ev.f, Ev.k + 1, Ev.j + 1, Ev.node, Rule(Ev), Ev.lv, Ev.rv)
TCollapse == (IsEvent("collapse") \/ IsEvent("change_to_leaf")) /\ CollapseIn(Ev.f, Ev.k + 1, Ev.j + 1, Ev.node, Ev.v)
TSetLeaf == IsEvent("set_leaf") /\ SetLeafIn(Ev.f, Ev.k + 1, Ev.j + 1, Ev.node, Ev.v)
TReset == IsEvent("reset_tree") /\ ResetTree(Ev.f, Ev.k + 1, Ev.j + 1)
TCloneInto == IsEvent("clone_into") /\ CloneInto(Ev.f, Ev.k + 1, Ev.j + 1, Ev.f2, Ev.k2 + 1, Ev.j2 + 1)
TReload == IsEvent("forest_json") /\ Ev.resave /\ Reload(Ev.f, Ev.f2)
TLike == IsEvent("adopt") /\ SetF(Ev.f, [s |-> [k \in DOMAIN Ev.s |-> AbsForest(Ev.s[k])], dim |-> Ev.dim, const |-> Ev.constant, nt |-> Ev.nt, root |-> <<>>])
         /\ \A k \in DOMAIN Ev.s : \A j \in DOMAIN Ev.s[k] : Consistent(Ev.s[k][j])

TDump == IsEvent("forest_dump") /\ Stay
  /\ LET o == fs[Ev.f] IN
     /\ Ev.ns = Len(o.s) /\ Ev.nt = o.nt /\ Ev.dim = o.dim /\ Ev.constant = o.const
     /\ Len(Ev.samples) = Len(o.s)
     /\ Len(Ev.pending) = Len(o.root) /\ (o.root # <<>> => AgreesForest(Ev.pending, o.root))
     /\ \A k \in DOMAIN o.s : AgreesForest(Ev.samples[k], o.s[k])
     /\ \A k \in DOMAIN o.s : LET m == Ev.meta[k] IN
          /\ m.nt = o.nt /\ m.dim = o.dim /\ m.const = o.const
          /\ m.nl = LeafBase(o.s[k], o.nt) + Cardinality(Leaves(o.s[k][o.nt]))
          /\ m.allroots = (\A j \in 1..o.nt : Cardinality(DOMAIN o.s[k][j]) = 1)
          /\ m.sumsq = SumSeq([j \in 1..o.nt |-> SumSquares(o.s[k][j])])
TPredict == IsEvent("predict") /\ Stay
  /\ Ev.pred = PredictionOf(Ev.f, Ev.d)
  /\ \A kk \in DOMAIN fs[Ev.f].s : Ev.rawk[kk] = RawOf(Ev.f, kk, Ev.d)
  /\ LET q == NRows(Ev.d) * fs[Ev.f].dim IN Len(Ev.raw) = q * Len(fs[Ev.f].s)
        /\ \A k \in DOMAIN fs[Ev.f].s : SubSeq(Ev.raw, (k-1)*q + 1, k*q) = RawOf(Ev.f, k, Ev.d)
TEns == IsEvent("ens_predict") /\ Stay
  /\ LET k == Ev.k + 1  n == NRows(Ev.d)  q == fs[Ev.f].dim  nt == fs[Ev.f].nt
         P(b, e) == [i \in 1..n |-> FitPart(Ev.f, k, Ev.d, i, b, e)]
         R(b, e) == [x \in 1..(n*q) |-> RawPart(Ev.f, k, Ev.d, ((x-1) \div q) + 1, ((x-1) % q) + 1, b, e)]
         W(v, m, F) == v = [x \in 1..(m + Ev.offset + 2) |-> IF x > Ev.offset /\ x <= Ev.offset + m THEN F[x - Ev.offset] ELSE Sentinel]
     IN /\ W(Ev.out, n, P(Ev.begin, Ev.end)) /\ W(Ev.full, n, P(0, nt)) /\ W(Ev.mat, n, P(0, nt))
        /\ W(Ev.raw, n*q, R(Ev.begin, Ev.end)) /\ W(Ev.rawfull, n*q, R(0, nt))
\* per-tree node prediction: the node every row reaches, and the value predicted from it
TNode == IsEvent("node_predict") /\ Stay
  /\ Agrees(Ev.tree, fs[Ev.f].s[Ev.k+1][Ev.j+1])
  /\ LET T == fs[Ev.f].s[Ev.k+1][Ev.j+1]  H == HeapIds(Ev.tree)  X == data[Ev.d].X IN
     /\ \A i \in DOMAIN X : Ev.ids[i] \in DOMAIN H /\ H[Ev.ids[i]] = Route(T, X[i])
     /\ Ev.ids2 = Ev.ids
     /\ \A i \in DOMAIN X : Ev.vals[i] = IF Ev.basis THEN Dot(LeafOf(T, X[i]), data[Ev.d].B[i]) ELSE LeafOf(T, X[i])[1]
     /\ Ev.vals2 # <<>> => Ev.vals2 = [i \in DOMAIN X |-> LeafOf(T, X[i])[1]]
\* routing of single rules
TRow == IsEvent("rowsplit") /\ Stay
  /\ \A i \in DOMAIN data[Ev.d].X : LET x == data[Ev.d].X[i][Ev.feat + 1] IN
        Ev.left[i][1] = GoesLeft(Rule(Ev), x) /\ Ev.left[i][2] = Ev.left[i][1]
TLeafIdx == IsEvent("leafidx") /\ Stay /\ LeafIdxOK(Ev.f, Ev.k + 1, Ev.d, Ev.idx)
TKernel == IsEvent("kernel") /\ Stay
  /\ LET k == Ev.k + 1 IN
     /\ Ev.tr = KernelOf(Ev.f, k, Ev.d, Ev.d)
     /\ LeafIdxOK(Ev.f, k, Ev.d, Ev.itr)
     /\ "d2" \in DOMAIN Ev =>
          /\ Ev.tt = KernelOf(Ev.f, k, Ev.d2, Ev.d) /\ Ev.te = KernelOf(Ev.f, k, Ev.d2, Ev.d2)
          /\ LeafIdxOK(Ev.f, k, Ev.d2, Ev.ite) /\ SameNumbering(Ev.f, k, Ev.d, Ev.itr, Ev.d2, Ev.ite)
\* predictions of two collections that must be bit-identical (interned doubles), e.g. after a reload of sampled forests
TSame == IsEvent("same") /\ Stay /\ Ev.a = Ev.b
TraceInit == FInit /\ l = 1
TraceNext == TBegin \/ TForest \/ TData \/ TAdd \/ TCopy \/ TRoot \/ TTake \/ TSetAll \/ TExpand \/ TCollapse \/ TSetLeaf \/ TReset \/ TCloneInto \/ TReload
             \/ TLike \/ TDump \/ TPredict \/ TEns \/ TNode \/ TRow \/ TLeafIdx \/ TKernel \/ TSame
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
