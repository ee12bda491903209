------------------------------- MODULE MCNodes -------------------------------
(* Where the nodes of a tree are kept: pages of nodes, in which the children  *)
(* of an array or map lie side by side, and a stack of the arrays and maps    *)
(* being read, which grows.  It refines the messages of module Tree, which    *)
(* knows nothing of pages: whatever the fill level of the pages, no two       *)
(* objects of a message share a node, and going through the nodes from the    *)
(* root gives the objects of the message in order.  The sizes are those of a  *)
(* configuration; TLC prints the shortest message to each fill level, with    *)
(* every next object, as tokens.                                              *)
EXTENDS Tree, TLC, IOUtils

Npp == atoi(IOEnv.MC_NPP)            \* nodes of a page
Depth0 == atoi(IOEnv.MC_DEPTH)       \* levels of the stack at first
MaxTok == atoi(IOEnv.MC_TOK)
MaxLev == atoi(IOEnv.MC_LEV)

\* ---- pages ----
\* spans: what has been handed out; a node is a page and a place in it
Start == [pages |-> << Npp >>, cur |-> 1, next |-> 1, left |-> Npp - 1, spans |-> << [pg |-> 1, at |-> 0, n |-> 1] >>,
          nodes |-> <<>>, stk |-> << [pg |-> 1, at |-> 0, left |-> 1] >>, cap |-> Depth0, cnt |-> 1, toks |-> <<>>]
Overlap(a, b) == a.pg = b.pg /\ a.at < b.at + b.n /\ b.at < a.at + a.n
\* room for n nodes side by side
Room(m, n) ==
  IF n <= m.left THEN [m EXCEPT !.spans = Append(@, [pg |-> m.cur, at |-> m.next, n |-> n]), !.next = @ + n, !.left = @ - n]
  ELSE LET p == Len(m.pages) + 1 IN
    IF n > Npp \/ m.left > Npp \div 8
    THEN [m EXCEPT !.pages = Append(@, n), !.spans = Append(@, [pg |-> p, at |-> 0, n |-> n])]
    ELSE [m EXCEPT !.pages = Append(@, Npp), !.cur = p, !.next = n, !.left = Npp - n, !.spans = Append(@, [pg |-> p, at |-> 0, n |-> n])]
RECURSIVE PopLev(_)
PopLev(s) == IF Len(s) > 1 /\ Last(s).left = 0 THEN PopLev(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* the next object: n children (0: none); what it is called in a program
Object(m, n, tok) ==
  LET t == Last(m.stk)
      a == [m EXCEPT !.stk[Len(m.stk)] = [t EXCEPT !.left = @ - 1, !.at = @ + 1]]
      b == IF n = 0 THEN a ELSE Room(a, n)
      s == Last(b.spans)
      c == IF n = 0 THEN b
           ELSE [b EXCEPT !.stk = Append(@, [pg |-> s.pg, at |-> s.at, left |-> n]), !.cap = IF Len(m.stk) = @ THEN 2 * @ ELSE @,
                          !.cnt = @ + n]
  IN [c EXCEPT !.nodes = Append(@, [pg |-> t.pg, at |-> t.at, n |-> n, kpg |-> s.pg, kat |-> s.at, tok |-> tok]),
               !.stk = PopLev(@), !.toks = Append(@, tok)]
Ended(m) == Last(m.stk).left = 0
\* what is still missing is taken to be leaves
RECURSIVE Fill(_)
Fill(m) == IF Ended(m) THEN m ELSE Fill(Object(m, 0, "l"))

\* ---- what is found in the nodes ----
Places(m) == {<< m.nodes[i].pg, m.nodes[i].at >> : i \in 1..Len(m.nodes)}
Once(m) == Cardinality(Places(m)) = Len(m.nodes)
\* in the order of a walk from the root: levels of places yet to be visited
RECURSIVE Up(_)
Up(q) == IF q # <<>> /\ Last(q).n = 0 THEN Up(SubSeq(q, 1, Len(q) - 1)) ELSE q
Visit(m) ==
  LET inv == [p \in Places(m) |-> CHOOSE i \in 1..Len(m.nodes) : m.nodes[i].pg = p[1] /\ m.nodes[i].at = p[2]]
  IN Loop(LAMBDA s : LET t == Last(s.q)
                         x == m.nodes[inv[<< t.pg, t.at >>]]
                         q == [s.q EXCEPT ![Len(s.q)] = [t EXCEPT !.at = @ + 1, !.n = @ - 1]]
                     IN [q |-> Up(IF x.n = 0 THEN q ELSE Append(q, [pg |-> x.kpg, at |-> x.kat, n |-> x.n])), out |-> Append(s.out, x.tok)],
          LAMBDA s : s.q = <<>>, [q |-> << [pg |-> 1, at |-> 0, n |-> 1] >>, out |-> <<>>]).out

\* ---- the message itself, for module Tree ----
Bytes1(n, map) ==
  IF n = 0 /\ ~map THEN << 5 >>
  ELSE IF map THEN EncMap(B4(n \div 2)) ELSE EncArray(B4(n))

Counts(m) ==
  {n \in {1, 2, 3} \cup (m.left - 2)..(m.left + 2) \cup (Npp - 1)..(Npp + 2) \cup (m.left - Npp \div 8 - 1)..(m.left - Npp \div 8 + 1) : n > 0}

VARIABLES m, data
vars == << m, data >>
Init == m = Start /\ data = <<>>
Hd(d) == [data |-> d, ext |-> TRUE]
Check(a, d) ==
  LET f == Fill(a)
      k == Len(f.nodes) - Len(a.nodes)
      w == Message(Hd(d \o Rep(5, k)), [maxs |-> MaxInt, maxn |-> MaxInt], 0, Len(d) + k)
  IN /\ w.k = "ok" /\ w.p = Len(d) + k /\ w.cnt = f.cnt /\ f.cnt = Len(f.nodes)
     /\ Once(f) /\ Visit(f) = f.toks
Sane(a) ==
  LET s == Last(a.spans) IN
  /\ s.at + s.n <= a.pages[s.pg]
  /\ \A i \in 1..(Len(a.spans) - 1) : ~Overlap(a.spans[i], s)
  /\ Len(a.stk) <= a.cap
  /\ a.left >= 0 /\ a.next + a.left = Npp
Step(n, map) ==
  LET tok == IF n = 0 THEN "l" ELSE (IF map THEN "m" ELSE "a") \o ToString(n)
      a == Object(m, n, tok)
      d == data \o Bytes1(n, map)
  IN /\ PrintT(<< "PROG", a.toks >>)
     /\ Assert(Sane(a), << "overlap", a.toks >>)
     /\ Assert(Check(a, d), << "lost", a.toks >>)
     /\ m' = a /\ data' = d
Next ==
  /\ ~Ended(m) /\ Len(m.toks) < MaxTok
  /\ \/ Len(m.stk) > 1 /\ Step(0, FALSE)
     \/ Len(m.stk) < MaxLev /\ \E n \in Counts(m) : Step(n, FALSE) \/ (n % 2 = 0 /\ Step(n, TRUE))
Spec == Init /\ [][Next]_vars
View == IF Ended(m) THEN << m.toks = <<>> >>
        ELSE << m.left, Min2(Len(m.pages), 3), Len(m.stk), m.cap, Min2(Last(m.stk).left, 2) >>
=============================================================================
