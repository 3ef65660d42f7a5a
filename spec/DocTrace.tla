------------------------------ MODULE DocTrace ------------------------------
(* Trace specification of model documents: docs[d] and files[f] are what the calls so far describe (DocObs).          *)
EXTENDS DocObs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, docs, files
vars == <<l, docs, files>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
SetAt(f, k, x) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN x ELSE f[q]]
TBegin == IsEvent("begin") /\ docs' = <<>> /\ files' = <<>>
TNew == IsEvent("new") /\ docs' = SetAt(docs, Ev.d, NewDoc) /\ UNCHANGED files
TStore == IsEvent("store") /\ docs' = [docs EXCEPT ![Ev.d] = DocPut(@, <<Ev.sub, Ev.name>>, [ty |-> Ev.ty, v |-> Ev.v])] /\ UNCHANGED files
TForest == IsEvent("forest") /\ docs' = [docs EXCEPT ![Ev.d] = DocForest(@, Ev.f)] /\ UNCHANGED files
           /\ (Ev.label # "" => Ev.label = ForestLabel(Len(docs[Ev.d].forests) + 1))
TRfx == IsEvent("rfx") /\ docs' = [docs EXCEPT ![Ev.d] = DocRfx(@, Ev.r)] /\ UNCHANGED files
TSave == IsEvent("save") /\ files' = SetAt(files, Ev.file, docs[Ev.d]) /\ UNCHANGED docs
TLoad == IsEvent("load") /\ docs' = SetAt(docs, Ev.d, files[Ev.file]) /\ UNCHANGED files
\* what every getter returns
Shows(d, r) == LET k == <<r.sub, r.name>> IN
  /\ r.has = (k \in DocKeys(d))
  /\ (r.has => r.ty = d.at[k].ty /\ r.v = d.at[k].v)
TRead == /\ IsEvent("read") /\ UNCHANGED <<docs, files>>
         /\ LET d == docs[Ev.d] IN
            /\ \A i \in DOMAIN Ev.vals : Shows(d, Ev.vals[i])
            /\ DocKeys(d) \subseteq {<<Ev.vals[i].sub, Ev.vals[i].name>> : i \in DOMAIN Ev.vals}
            /\ Ev.forests = d.forests
            /\ Ev.rfx = d.rfx
            /\ (Ev.hasnf => Ev.nf = Len(d.forests) /\ Ev.nr = Len(d.rfx) /\ Ev.labels = [i \in 1..Len(d.forests) |-> ForestLabel(i)])
\* the text of the whole document says the same
TText == /\ IsEvent("text") /\ UNCHANGED <<docs, files>>
         /\ LET d == docs[Ev.d] IN {<<Ev.vals[i].sub, Ev.vals[i].name>> : i \in DOMAIN Ev.vals} = DocKeys(d) /\ \A i \in DOMAIN Ev.vals : Shows(d, Ev.vals[i])
TraceInit == l = 1 /\ docs = <<>> /\ files = <<>>
TraceNext == TBegin \/ TNew \/ TStore \/ TForest \/ TRfx \/ TSave \/ TLoad \/ TRead \/ TText
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
