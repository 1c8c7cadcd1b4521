------------------------------ MODULE Dumping ------------------------------
(***************************************************************************)
(* Model of dumping and loading back: every document of at most Length      *)
(* nodes, whose collections have at most Deep children.                    *)
(***************************************************************************)
EXTENDS Whole, Dumper, Json

CONSTANTS Length, Deep

VARIABLES doc, ph, es, cfg
Out == INSTANCE Emitter
vars == <<doc, ph, es, cfg, tx, sc, toks, terr, ps, cs>>

Node(kind, kids) == Tok(kind, <<>>, IF kind = "NS" THEN <<<<StrTag>>, <<97>>>> ELSE <<<<DefaultOf(kind)>>>>, <<1>> \o kids)
Children(size, most) == UNION {[1..h -> 1..size] : h \in 0..most}
NodesOf(size) == {Node("NS", <<>>)} \cup {Node("NQ", c) : c \in Children(size, Deep)}
                   \cup {Node("NM", c) : c \in {s \in Children(size, Deep) : Len(s) % 2 = 0}}
Tables == UNION {[1..size -> NodesOf(size)] : size \in 1..Length}
(* Only what can be reached from the root, in the order of reading *)
Header_(t) == Tok("DOCUMENT", <<>>, <<>>, <<1, 1, 0, 0, 0, Len(t)>>)

TextOf(s) == MakeText([ch |-> s, fin |-> NONE, enc |-> 1])
Settings == LET base == [can |-> 0, ind |-> 2, wid |-> 80, uni |-> 1, br |-> 2, enc |-> 1] IN {base, [base EXCEPT !.can = 1]}

Init == /\ doc \in {<<Header_(t)>> \o t : t \in {u \in Tables : ReadingOrder(u) = [i \in 1..Len(u) |-> i]}}
        /\ cfg \in Settings /\ es = Out!EsInit(cfg) /\ ph = "dump"
        /\ tx = TextOf(<<>>) /\ sc = ScInit /\ toks = <<>> /\ terr = NONE /\ ps = PsInit /\ cs = CsInit

Events == <<Ev("SS", <<>>, <<0>>)>> \o DocumentEvents(doc) \o <<Ev("SE", <<>>, <<>>)>>
Drain[E \in Any] == IF Out!Fine(E) /\ Out!Ready(E) THEN Drain[Out!EmitStep(E)] ELSE E

Dump == /\ ph = "dump" /\ es' = Drain[[es EXCEPT !.q = Events]]
        /\ tx' = TextOf(Out!Output(es')) /\ ph' = "scan"
        /\ PrintT("%%" \o ToJson([cfg |-> cfg, doc |-> doc, text |-> Out!Output(es')]))
        /\ UNCHANGED <<doc, cfg, sc, toks, terr, ps, cs>>
Scan == /\ ph = "scan" /\ LET R == WholeText IN toks' = R.ts /\ terr' = R.er
        /\ ph' = "compose" /\ UNCHANGED <<doc, cfg, es, tx, sc, ps, cs>>
Compose == /\ ph = "compose"
           /\ LET R == AllDocuments IN
              IF R.er = NONE /\ Len(R.docs) = 1 THEN cs' = R.docs[1] /\ ph' = "done" ELSE cs' = cs /\ ph' = "wrong"
           /\ UNCHANGED <<doc, cfg, es, tx, sc, toks, terr, ps>>
Next == Dump \/ Scan \/ Compose
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Accepted == Out!Fine(es) /\ (ph # "dump" => es.q = <<>>)
Loads == ph # "wrong"
Loaded == [i \in 1..Len(cs.nodes) |-> NodeStep(cs.nodes[i])]
SameBack == ph = "done" => SameGraph(Nodes(doc), Loaded)

(* Anchors: for what is referred to more than once, and nothing else *)
Referred(i) == Cardinality({<<h, g>> \in (1..Length) \X (1..Deep) : h <= Len(Nodes(doc)) /\ g <= Len(Kids(Nodes(doc)[h])) /\ Kids(Nodes(doc)[h])[g] = i})
                 + (IF i = 1 THEN 1 ELSE 0)
AnchorsWhereShared ==
  ph = "done" => /\ Len(cs.an) = Cardinality({i \in 1..Len(Nodes(doc)) : Referred(i) > 1})
                 /\ \A a \in 1..Len(cs.an) : Referred(cs.an[a][2]) > 1
                 /\ {cs.an[a][1] : a \in 1..Len(cs.an)} = {AnchorName(a) : a \in 1..Len(cs.an)}
=============================================================================
