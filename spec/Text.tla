------------------------------- MODULE Text -------------------------------
(* The strings that occur in metadata values and patterns, spelled out, so     *)
(* that order, case, patterns and numbers can be reasoned about.  Generated    *)
(* by tools/gen_text.py from gen/vocab.py.                                     *)
EXTENDS Integers, Sequences, TLC
Alphabet == <<"\n", " ", "\"", "%", "'", "-", ".", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "E", "N", "Q", "T", "_", "a", "b", "d", "e", "f", "i", "l", "n", "o", "q", "r", "s", "t", "u", "x", "y", "z">>
Code == [c \in {Alphabet[i] : i \in 1..Len(Alphabet)} |-> CHOOSE i \in 1..Len(Alphabet) : Alphabet[i] = c]
Spelling == <<
  <<"x", <<"x">>>>,
  <<"y", <<"y">>>>,
  <<"z", <<"z">>>>,
  <<"t1", <<"t", "1">>>>,
  <<"t2", <<"t", "2">>>>,
  <<"t3", <<"t", "3">>>>,
  <<"en", <<"e", "n">>>>,
  <<"EN", <<"E", "N">>>>,
  <<"de", <<"d", "e">>>>,
  <<"it's", <<"i", "t", "'", "s">>>>,
  <<"q\"o", <<"q", "\"", "o">>>>,
  <<"100%", <<"1", "0", "0", "%">>>>,
  <<"a_b", <<"a", "_", "b">>>>,
  <<"axb", <<"a", "x", "b">>>>,
  <<"true", <<"t", "r", "u", "e">>>>,
  <<"false", <<"f", "a", "l", "s", "e">>>>,
  <<"e", <<"e">>>>,
  <<"0", <<"0">>>>,
  <<"1", <<"1">>>>,
  <<"2", <<"2">>>>,
  <<"5", <<"5">>>>,
  <<"9", <<"9">>>>,
  <<"10", <<"1", "0">>>>,
  <<"11", <<"1", "1">>>>,
  <<"25", <<"2", "5">>>>,
  <<"-3", <<"-", "3">>>>,
  <<"2.5", <<"2", ".", "5">>>>,
  <<"5.0", <<"5", ".", "0">>>>,
  <<"07", <<"0", "7">>>>,
  <<"1e1", <<"1", "e", "1">>>>,
  <<"", <<>>>>,
  <<"1200000", <<"1", "2", "0", "0", "0", "0", "0">>>>,
  <<"3450000", <<"3", "4", "5", "0", "0", "0", "0">>>>,
  <<"16777216", <<"1", "6", "7", "7", "7", "2", "1", "6">>>>,
  <<"16777217", <<"1", "6", "7", "7", "7", "2", "1", "7">>>>,
  <<"a\nb", <<"a", "\n", "b">>>>,
  <<" en", <<" ", "e", "n">>>>,
  <<"en ", <<"e", "n", " ">>>>,
  <<"3", <<"3">>>>,
  <<"4", <<"4">>>>,
  <<"6", <<"6">>>>,
  <<"7", <<"7">>>>,
  <<"8", <<"8">>>>,
  <<"12", <<"1", "2">>>>,
  <<"20", <<"2", "0">>>>,
  <<"100", <<"1", "0", "0">>>>,
  <<"e%", <<"e", "%">>>>,
  <<"%n", <<"%", "n">>>>,
  <<"_n", <<"_", "n">>>>,
  <<"%", <<"%">>>>,
  <<"a%b", <<"a", "%", "b">>>>,
  <<"1__%", <<"1", "_", "_", "%">>>>,
  <<"%'s", <<"%", "'", "s">>>>,
  <<"t_", <<"t", "_">>>>,
  <<"%e%", <<"%", "e", "%">>>>,
  <<"_", <<"_">>>>,
  <<"%1%", <<"%", "1", "%">>>>,
  <<"Q\"_", <<"Q", "\"", "_">>>>,
  <<"%n ", <<"%", "n", " ">>>>,
  <<" %", <<" ", "%">>>>,
  <<"t", <<"t">>>>,
  <<"T", <<"T">>>>,
  <<"a", <<"a">>>>,
  <<"'", <<"'">>>>,
  <<"1e", <<"1", "e">>>>>>
Chars == [w \in {Spelling[i][1] : i \in 1..Len(Spelling)} |-> Spelling[CHOOSE i \in 1..Len(Spelling) : Spelling[i][1] = w][2]]
(* in tenths *)
NumTable == <<<<"0", 0>>, <<"1", 10>>, <<"2", 20>>, <<"5", 50>>, <<"9", 90>>, <<"10", 100>>, <<"11", 110>>, <<"25", 250>>, <<"-3", -30>>, <<"2.5", 25>>, <<"5.0", 50>>, <<"07", 70>>, <<"1e1", 100>>, <<"3", 30>>, <<"4", 40>>, <<"6", 60>>, <<"7", 70>>, <<"8", 80>>, <<"12", 120>>, <<"20", 200>>, <<"100", 1000>>, <<"1200000", 12000000>>, <<"3450000", 34500000>>, <<"16777216", 167772160>>, <<"16777217", 167772170>>>>
NumOf == [w \in {NumTable[i][1] : i \in 1..Len(NumTable)} |-> NumTable[CHOOSE i \in 1..Len(NumTable) : NumTable[i][1] = w][2]]
LowerPairs == <<<<"E", "e">>, <<"N", "n">>, <<"Q", "q">>, <<"T", "t">>>>
Lower(c) == IF \E i \in 1..Len(LowerPairs) : LowerPairs[i][1] = c
            THEN LowerPairs[CHOOSE i \in 1..Len(LowerPairs) : LowerPairs[i][1] = c][2] ELSE c
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]
IsNum(w) == w \in DOMAIN NumOf
RECURSIVE SeqLT(_, _)
SeqLT(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] = b[1] THEN SeqLT(Tail(a), Tail(b)) ELSE Code[a[1]] < Code[b[1]]
StrLT(a, b) == SeqLT(Chars[a], Chars[b])
(* values compare as numbers when both are numbers, otherwise as strings *)
ValEQ(a, b) == IF IsNum(a) /\ IsNum(b) THEN NumOf[a] = NumOf[b] ELSE a = b
ValLT(a, b) == IF IsNum(a) /\ IsNum(b) THEN NumOf[a] < NumOf[b] ELSE StrLT(a, b)
ValLE(a, b) == ValLT(a, b) \/ ValEQ(a, b)
(* SQL LIKE, ignoring case: % any characters, _ any one *)
RECURSIVE LikeSeq(_, _)
LikeSeq(p, s) == IF p = <<>> THEN s = <<>>
                 ELSE IF p[1] = "%" THEN \E i \in 0..Len(s) : LikeSeq(Tail(p), SubSeq(s, i + 1, Len(s)))
                 ELSE s # <<>> /\ (p[1] = "_" \/ p[1] = s[1]) /\ LikeSeq(Tail(p), Tail(s))
Like(p, w) == LikeSeq(LowerAll(Chars[p]), LowerAll(Chars[w]))
StartsAt(p, s, i) == i + Len(p) <= Len(s) /\ \A j \in 1..Len(p) : p[j] = s[i + j]
TextPrefix(s, p) == StartsAt(p, s, 0)
TextSuffix(s, p) == Len(p) <= Len(s) /\ StartsAt(p, s, Len(s) - Len(p))
TextContains(s, p) == \E i \in 0..Len(s) : StartsAt(p, s, i)
=============================================================================
