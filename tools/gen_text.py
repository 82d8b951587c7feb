import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
import vocab
def q(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace('\n', '\\n') + '"'
words = []
for w in vocab.VALUES + list(vocab.NUMS) + vocab.PATTERNS + vocab.SUBS:
    if w not in words: words.append(w)
chars = sorted({c for w in words for c in w} | {c.lower() for w in words for c in w})
out = ["------------------------------- MODULE Text -------------------------------",
"(* The strings that occur in metadata values and patterns, spelled out, so     *)",
"(* that order, case, patterns and numbers can be reasoned about.  Generated    *)",
"(* by tools/gen_text.py from gen/vocab.py.                                     *)",
"EXTENDS Integers, Sequences, TLC",
"Alphabet == <<" + ", ".join(q(c) for c in chars) + ">>",
"Code == [c \\in {Alphabet[i] : i \\in 1..Len(Alphabet)} |-> CHOOSE i \\in 1..Len(Alphabet) : Alphabet[i] = c]",
"Spelling == <<"]
out.append(",\n".join("  <<%s, <<%s>>>>" % (q(w), ", ".join(q(c) for c in w)) for w in words) + ">>")
out += ["Chars == [w \\in {Spelling[i][1] : i \\in 1..Len(Spelling)} |-> Spelling[CHOOSE i \\in 1..Len(Spelling) : Spelling[i][1] = w][2]]",
"(* in tenths *)",
"NumTable == <<" + ", ".join("<<%s, %d>>" % (q(k), round(10 * v)) for k, v in vocab.NUMS.items()) + ">>",
"NumOf == [w \\in {NumTable[i][1] : i \\in 1..Len(NumTable)} |-> NumTable[CHOOSE i \\in 1..Len(NumTable) : NumTable[i][1] = w][2]]",
"LowerPairs == <<" + ", ".join("<<%s, %s>>" % (q(c), q(c.lower())) for c in chars if c != c.lower()) + ">>",
r"""Lower(c) == IF \E i \in 1..Len(LowerPairs) : LowerPairs[i][1] = c
            THEN LowerPairs[CHOOSE i \in 1..Len(LowerPairs) : LowerPairs[i][1] = c][2] ELSE c
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]
IsNum(w) == w \in DOMAIN NumOf
RECURSIVE SeqLT(_, _)
SeqLT(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] = b[1] THEN SeqLT(Tail(a), Tail(b)) ELSE Code[a[1]] < Code[b[1]]
StrLT(a, b) == SeqLT(Chars[a], Chars[b])
(* values compare as numbers when both are numbers, otherwise as strings *)
ValEQ(a, b) == IF IsNum(a) /\ IsNum(b) THEN NumOf[a] = NumOf[b] ELSE a = b
ValLT(a, b) == IF IsNum(a) /\ IsNum(b) THEN NumOf[a] < NumOf[b] ELSE StrLT(a, b)
ValLE(a, b) == ValLT(a, b) \/ ValEQ(a, b)
(* SQL LIKE, ignoring case: % any characters, _ any one *)
RECURSIVE LikeSeq(_, _)
LikeSeq(p, s) == IF p = <<>> THEN s = <<>>
                 ELSE IF p[1] = "%" THEN \E i \in 0..Len(s) : LikeSeq(Tail(p), SubSeq(s, i + 1, Len(s)))
                 ELSE s # <<>> /\ (p[1] = "_" \/ p[1] = s[1]) /\ LikeSeq(Tail(p), Tail(s))
Like(p, w) == LikeSeq(LowerAll(Chars[p]), LowerAll(Chars[w]))
StartsAt(p, s, i) == i + Len(p) <= Len(s) /\ \A j \in 1..Len(p) : p[j] = s[i + j]
TextPrefix(s, p) == StartsAt(p, s, 0)
TextSuffix(s, p) == Len(p) <= Len(s) /\ StartsAt(p, s, Len(s) - Len(p))
TextContains(s, p) == \E i \in 0..Len(s) : StartsAt(p, s, i)
============================================================================="""]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Text.tla"), "w").write("\n".join(out) + "\n")
