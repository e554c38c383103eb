------------------------------ MODULE MC_Codec ------------------------------
(* What the definitions of Codec.tla promise, for every string of at most N    *)
(* bytes taken from Alphabet, and every type listed in Types.                  *)
EXTENDS Codec
CONSTANTS N, Alphabet
VARIABLES T, b
ZclList == <<0, 8, 9, 16, 24, 27, 32, 33, 40, 41, 48, 49, 56, 65, 66, 67, 68, 72, 76, 224, 226>>
Types == {Zcl(ZclList[k]) : k \in 1..Len(ZclList)} \cup {Cmd(c) : c \in CmdIds} \cup
         {Zdo(c) : c \in {2, 4, 6, 31, 49, 54, 56, Rsp + 4, Rsp + 5, Rsp + 6, Rsp + 17, Rsp + 18, Rsp + 30, Rsp + 31, Rsp + 49, Rsp + 50, Rsp + 56}} \cup
         {Header, Typed, Address, Route, PowerDesc, Fs(<<Bits(3), Bits(5), Oct(1)>>), Fs(<<I(1), Opt(I(2))>>)}
Init == T \in Types /\ b = <<>>
Next == Len(b) < N /\ \E x \in Alphabet : b' = Append(b, x) /\ UNCHANGED T
Spec == Init /\ [][Next]_<<T, b>>
X == Dec(T, b)
Used == Take(b, Len(b) - Len(X.rest))
\* what is left over is the end of the bytes, and what was used has the same meaning on its own
RestIsTheEnd == X.ok => /\ Len(X.rest) <= Len(b)
                        /\ X.rest = SubSeq(b, Len(b) - Len(X.rest) + 1, Len(b))
UsedMeansTheSame == X.ok => LET y == Dec(T, Used) IN y.ok /\ y.v = X.v /\ y.rest = <<>>
\* no two encodings of a value without others: the used bytes are the only ones of their length with that meaning
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Strings(n - 1), x \in Alphabet}
Unambiguous == X.ok /\ X.exact /\ ~Unknown(X.v) /\ X.rest = <<>> => \A n \in 0..N : \A s \in Strings(n) : LET y == Dec(T, s) IN y.ok /\ y.exact /\ y.v = X.v /\ y.rest = <<>> => s = b
\* a type that does not read to the end is not confused by what follows; nor satisfied with less
RECURSIVE Greedy(_)
Greedy(t) == t.k \in {"all", "opt", "wrsp", "crsp", "sized"} \/ (t.k = "rec" /\ \E k \in 1..Len(t.f) : t.f[k].opt \/ Greedy(t.f[k].t))
PrefixFree == ~Greedy(T) /\ X.ok => \A x \in Alphabet : LET y == Dec(T, Append(b, x)) IN y.ok /\ y.v = X.v /\ y.rest = Append(X.rest, x)
NeedsAll == ~Greedy(T) /\ X.ok /\ X.rest = <<>> /\ b # <<>> => ~Dec(T, Front(b)).ok
=============================================================================
