------------------------------- MODULE Words -------------------------------
(* Free text as the full-text index sees it: every word is one or more        *)
(* indexed terms, and a free-text query is widened with its own keywords and  *)
(* their prefixes.  Every word the generated histories use is listed here.    *)
EXTENDS VecMath
Atoms(w) == CASE w = "x-ray"    -> <<"x", "ray">>
              [] w = "it's"     -> <<"it", "s">>
              [] w = "c++"      -> <<"c">>
              [] w = "tag:beta" -> <<"tag", "beta">>
              [] w = "NOT"      -> <<"not">>
              [] w = "Alpha"    -> <<"alpha">>
              [] w = "Gamma"    -> <<"gamma">>
              [] w = "Rays"     -> <<"rays">>
              [] w = "Delta"    -> <<"delta">>
              [] OTHER          -> <<w>>
RECURSIVE Terms(_)
Terms(txt) == IF txt = <<>> THEN <<>> ELSE Atoms(txt[1]) \o Terms(Tail(txt))
Ignored == {"the", "it", "x", "s", "c"}          \* stop words and single characters
Widened == {<<"alp", "alpha">>, <<"alp", "alphabet">>, <<"alpha", "alphabet">>, <<"bet", "beta">>, <<"ray", "rays">>}
Starts(k, t) == k = t \/ <<k, t>> \in Widened
Keys(ws) == SeqSet(Terms(ws)) \ Ignored
(* all words of ws occur, the terms of one word next to each other *)
Occurs(t, a) == \E i \in 0..(Len(t) - Len(a)) : SubSeq(t, i + 1, i + Len(a)) = a
AllIn(ws, txt) == LET t == Terms(txt) IN \A i \in DOMAIN ws : Occurs(t, Atoms(ws[i]))
Hits(txt, keys) == \E t \in SeqSet(Terms(txt)) : \E k \in keys : Starts(k, t)
(* query, keyword bank, alternative phrasings *)
Found(txt, q, kw, alt) ==
  \/ Hits(txt, Keys(q) \cup Keys(kw))
  \/ q # <<>> /\ AllIn(q, txt)
  \/ \E i \in DOMAIN alt : alt[i] # <<>> /\ AllIn(alt[i], txt)
Count(txt, P(_)) == LET t == Terms(txt) IN Cardinality({i \in DOMAIN t : P(t[i])})
(* a is clearly the better answer to the one-word query w *)
Clearly(w, a, b) ==
  LET ea == Count(a, LAMBDA t : t = w)  eb == Count(b, LAMBDA t : t = w)
      pa == Count(a, LAMBDA t : Starts(w, t))  pb == Count(b, LAMBDA t : Starts(w, t))
      la == Len(Terms(a))  lb == Len(Terms(b))
  IN  \/ ea > 0 /\ ea >= eb /\ pa >= pb /\ la < lb
      \/ ea > eb /\ pa > pb /\ la <= lb
Plain(q, kw, alt) == Len(q) = 1 /\ Len(Atoms(q[1])) = 1 /\ Keys(q) # {} /\ kw = <<>> /\ alt = <<>>
Outdoes(q, kw, alt, a, b) == Plain(q, kw, alt) /\ Clearly(Atoms(q[1])[1], a, b)
=============================================================================
