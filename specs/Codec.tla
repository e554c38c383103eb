-------------------------------- MODULE Codec --------------------------------
(* Wire encodings (C28).                                                       *)
(*                                                                             *)
(* A value is given as a flat sequence of numbers:                             *)
(*   integers     their bytes, least significant first (signed: first 1 if     *)
(*                negative), at least one byte                                 *)
(*   floats       the 8 bytes of the double, or -2 for "not a number"          *)
(*   strings      length and bytes, or -1 for the invalid string               *)
(*   lists        length and items;  fixed lists: items                        *)
(*   records      their fields; -9 where a field is absent                     *)
(*   typed values the type id, then the value                                  *)
(* Dec(T, b): what the bytes b mean as a T: [ok, v, rest, exact].  exact: the  *)
(* value has no other encoding, so that encoding it gives the bytes back.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Fail == [ok |-> FALSE, v |-> <<>>, rest |-> <<>>, exact |-> FALSE]
Done(v, rest) == [ok |-> TRUE, v |-> v, rest |-> rest, exact |-> TRUE]
Loose(v, rest) == [ok |-> TRUE, v |-> v, rest |-> rest, exact |-> FALSE]
Absent == <<-9>>
Take(b, n) == SubSeq(b, 1, n)
Drop(b, n) == SubSeq(b, n + 1, Len(b))
RECURSIVE Num(_)       \* least significant first, at most 3 bytes
Num(b) == IF b = <<>> THEN 0 ELSE b[1] + 256 * Num(Tail(b))

-----------------------------------------------------------------------------
(* types *)
I(n) == [k |-> "int", n |-> n, sg |-> FALSE, be |-> FALSE]
S(n) == [k |-> "int", n |-> n, sg |-> TRUE, be |-> FALSE]
Bits(n) == [k |-> "bits", n |-> n]
Float(e, f) == [k |-> "float", e |-> e, f |-> f]
Oct(p) == [k |-> "oct", p |-> p]
Str(p) == [k |-> "str", p |-> p]
Fix(t, n) == [k |-> "fix", t |-> t, n |-> n]
LV(t, p) == [k |-> "lv", t |-> t, p |-> p]
All(t) == [k |-> "all", t |-> t]                \* as many as there are
Rec(f) == [k |-> "rec", f |-> f]
Opt(t) == [k |-> "opt", t |-> t]                \* what does not fit there is ignored
Typed == [k |-> "typed"]                        \* type id and value
Elems == [k |-> "elems"]                        \* type id, count and elements
By(j) == [k |-> "by", j |-> j]                  \* of the analog type field j tells
Nothing == [k |-> "none"]
Sized(t) == [k |-> "sized", t |-> t]
WriteRsp == [k |-> "wrsp"]
ConfRsp == [k |-> "crsp"]
\* fields: req: only if for all of it, the first byte of field j is one of in (neg: none of them);  opt: may be missing at the end
F(t) == [t |-> t, opt |-> FALSE, req |-> <<>>]
In(x) == [in |-> x, neg |-> FALSE]
Not(x) == [in |-> x, neg |-> TRUE]
Req(j, x) == [j |-> j, in |-> x.in, neg |-> x.neg]
When(t, j, x) == [t |-> t, opt |-> FALSE, req |-> <<Req(j, x)>>]
When2(t, j, x, j2, x2) == [t |-> t, opt |-> FALSE, req |-> <<Req(j, x), Req(j2, x2)>>]
Fs(ts) == Rec([x \in 1..Len(ts) |-> F(ts[x])])
Eui == Fix(I(1), 8)
Key == Fix(I(1), 16)

ZclIds == {0, 255, 16, 48, 49, 56, 57, 58, 65, 66, 67, 68, 72, 76, 80, 81, 224, 225, 226, 232, 233, 234, 240, 241} \cup 8..15 \cup 24..47
Zcl(id) ==
  CASE id \in {0, 255} -> Nothing
    [] id \in 8..15 -> Fix(I(1), id - 7)           \* general data
    [] id = 16 -> I(1)                             \* boolean
    [] id \in 24..31 -> I(id - 23)                 \* bitmaps
    [] id \in 32..39 -> I(id - 31)                 \* unsigned
    [] id \in 40..47 -> S(id - 39)                 \* signed
    [] id = 48 -> I(1)                             \* enumerations
    [] id = 49 -> I(2)
    [] id = 56 -> Float(5, 10)
    [] id = 57 -> Float(8, 23)
    [] id = 58 -> Float(11, 52)
    [] id = 65 -> Oct(1)
    [] id = 66 -> Str(1)
    [] id = 67 -> Oct(2)
    [] id = 68 -> Str(2)
    [] id \in {72, 80, 81} -> Elems                \* array, set, bag
    [] id = 76 -> LV(Typed, 2)                     \* structure
    [] id \in {224, 225} -> Fix(I(1), 4)           \* time of day, date
    [] id = 226 -> I(4)                            \* UTC
    [] id \in {232, 233} -> I(2)                   \* cluster, attribute
    [] id = 234 -> I(4)                            \* BACnet OID
    [] id = 240 -> Eui
    [] id = 241 -> Key
Analog(id) == id \in 32..47 \cup 56..58 \cup 224..226

(* the ZCL frame header; general commands *)
FrameControl == Fs(<<Bits(2), Bits(1), Bits(1), Bits(1), Bits(3)>>)
Header == Rec(<<F(Bits(2)), F(Bits(1)), F(Bits(1)), F(Bits(1)), F(Bits(3)), When(I(2), 2, In(<<1>>)), F(I(1)), F(I(1))>>)
Attr == Fs(<<I(2), Typed>>)
ReadRec == Rec(<<F(I(2)), F(I(1)), When(Typed, 2, In(<<0>>))>>)
Conf == Rec(<<F(I(1)), F(I(2)), When(I(2), 1, In(<<1>>)), When(I(1), 1, Not(<<1>>)), When(I(2), 1, Not(<<1>>)), When(I(2), 1, Not(<<1>>)), When(By(4), 1, Not(<<1>>))>>)
ConfStatus == Rec(<<F(I(1)), F(I(1)), F(I(2)), When2(I(2), 1, In(<<0>>), 2, In(<<1>>)), When2(I(1), 1, In(<<0>>), 2, Not(<<1>>)), When2(I(2), 1, In(<<0>>), 2, Not(<<1>>)),
                    When2(I(2), 1, In(<<0>>), 2, Not(<<1>>)), When2(By(5), 1, In(<<0>>), 2, Not(<<1>>))>>)
CmdIds == 0..13 \cup 17..22
Cmd(id) ==
  CASE id = 0 -> All(I(2))
    [] id = 1 -> All(ReadRec)
    [] id \in {2, 3, 5, 10} -> All(Attr)
    [] id = 4 -> WriteRsp
    [] id = 6 -> All(Conf)
    [] id = 7 -> ConfRsp
    [] id = 8 -> All(Fs(<<I(1), I(2)>>))
    [] id = 9 -> All(ConfStatus)
    [] id = 11 -> Fs(<<I(1), I(1)>>)
    [] id = 12 -> Fs(<<I(2), I(1)>>)
    [] id = 13 -> Fs(<<I(1), All(Fs(<<I(2), I(1)>>))>>)
    [] id \in {17, 19} -> Fs(<<I(1), I(1)>>)
    [] id \in {18, 20} -> Fs(<<I(1), All(I(1))>>)
    [] id = 21 -> Fs(<<I(2), I(1)>>)
    [] id = 22 -> Fs(<<I(1), All(Fs(<<I(2), I(1), I(1)>>))>>)

(* device profile messages *)
NodeDesc == Fs(<<Bits(3), Bits(1), Bits(1), Bits(3), Bits(3), Bits(5), I(1), I(2), I(1), I(2), I(2), I(2), I(1)>>)
PowerDesc == Fs(<<Bits(4), Bits(4), Bits(4), Bits(4)>>)
SimpleDesc == Sized(Fs(<<I(1), I(2), I(2), I(1), LV(I(2), 1), LV(I(2), 1)>>))
Address == Rec(<<F([k |-> "in", in |-> {1, 3}]), When(I(2), 1, In(<<1>>)), When(Eui, 1, In(<<3>>)), When(I(1), 1, In(<<3>>))>>)
Neighbor == Fs(<<Eui, Eui, I(2), Bits(2), Bits(2), Bits(3), Bits(1), Bits(2), Bits(6), I(1), I(1)>>)
Route == Fs(<<I(2), Bits(3), Bits(1), Bits(1), Bits(1), Bits(2), I(2)>>)
Update == Rec(<<F(I(4)), F(I(1)), When(I(1), 2, In(<<0, 1, 2, 3, 4, 5>>)), When(I(1), 2, In(<<254, 255>>)), When(I(2), 2, In(<<255>>))>>)
Binding == Fs(<<Eui, I(1), I(2), Address>>)
Found == Fs(<<I(1), Eui, I(2), Opt(I(1)), Opt(I(1)), Opt(All(I(2)))>>)
Rsp == 32768
ZdoIds == (0..6 \cup 17..23 \cup 25..34 \cup {49, 50, 51, 52, 54, 56})
          \cup {Rsp + x : x \in 0..6 \cup 17..18 \cup 20..34 \cup {49, 50, 51, 52, 54, 56}}
Zdo(id) ==
  CASE id = 0 -> Fs(<<Eui, I(1), I(1)>>)                                         \* NWK_addr
    [] id = 1 -> Fs(<<I(2), I(1), I(1)>>)                                        \* IEEE_addr
    [] id \in {2, 3, 5, 17} -> Fs(<<I(2)>>)                                      \* Node_Desc, Power_Desc, Active_EP, User_Desc
    [] id = 4 -> Fs(<<I(2), I(1)>>)                                              \* Simple_Desc
    [] id = 6 -> Fs(<<I(2), I(2), LV(I(2), 1), LV(I(2), 1)>>)                    \* Match_Desc
    [] id \in {18, 27, 28} -> Fs(<<I(2), Eui>>)                                  \* Discovery_Cache, Remove_node_cache, Find_node_cache
    [] id = 19 -> Fs(<<I(2), Eui, I(1)>>)                                        \* Device_annce
    [] id = 20 -> Fs(<<I(2), Fix(I(1), 16)>>)                                    \* User_Desc_set
    [] id = 21 -> Fs(<<I(2)>>)                                                   \* System_Server_Discovery
    [] id = 22 -> Fs(<<I(2), Eui, I(1), I(1), I(1), LV(I(1), 1)>>)               \* Discovery_store
    [] id = 23 -> Fs(<<I(2), Eui, NodeDesc>>)                                    \* Node_Desc_store
    [] id = 25 -> Fs(<<I(2), Eui, LV(I(1), 1)>>)                                 \* Active_EP_store
    [] id = 26 -> Fs(<<I(2), Eui, SimpleDesc>>)                                  \* Simple_Desc_store
    [] id = 29 -> Fs(<<I(2), I(1), I(1)>>)                                       \* Extended_Simple_Desc
    [] id = 30 -> Fs(<<I(2), I(1)>>)                                             \* Extended_Active_EP
    [] id = 31 -> Fs(<<LV(Eui, 1)>>)                                             \* Parent_annce
    [] id = 32 -> Fs(<<I(2), Eui, I(1), I(2), LV(I(2), 1), LV(I(2), 1)>>)        \* End_Device_Bind
    [] id \in {33, 34} -> Fs(<<Eui, I(1), I(2), Address>>)                       \* Bind, Unbind
    [] id \in {49, 50, 51} -> Fs(<<I(1)>>)                                       \* Mgmt_Lqi, Mgmt_Rtg, Mgmt_Bind
    [] id = 52 -> Fs(<<Eui, I(1)>>)                                              \* Mgmt_Leave
    [] id = 54 -> Fs(<<I(1), I(1)>>)                                             \* Mgmt_Permit_Joining
    [] id = 56 -> Fs(<<Update>>)                                                 \* Mgmt_NWK_Update
    [] id \in {Rsp, Rsp + 1} -> Found
    [] id = Rsp + 2 -> Fs(<<I(1), I(2), Opt(NodeDesc)>>)
    [] id = Rsp + 3 -> Fs(<<I(1), I(2), Opt(PowerDesc)>>)
    [] id = Rsp + 4 -> Fs(<<I(1), I(2), Opt(SimpleDesc)>>)
    [] id \in {Rsp + 5, Rsp + 6} -> Fs(<<I(1), I(2), LV(I(1), 1)>>)
    [] id = Rsp + 17 -> Fs(<<I(1), I(2), I(1), Opt(Fix(I(1), 16))>>)
    [] id \in {Rsp + 18, Rsp + 22, Rsp + 23, Rsp + 25, Rsp + 26, Rsp + 27, Rsp + 32, Rsp + 33, Rsp + 34, Rsp + 52, Rsp + 54} -> Fs(<<I(1)>>)
    [] id = Rsp + 20 -> Fs(<<I(1), I(2)>>)
    [] id = Rsp + 21 -> Fs(<<I(1), I(2)>>)
    [] id = Rsp + 24 -> Fs(<<I(1), Eui, PowerDesc>>)
    [] id = Rsp + 28 -> Fs(<<I(2), I(2), Eui>>)
    [] id = Rsp + 29 -> Fs(<<I(1), I(2), I(1), I(1), I(1), I(1), Opt(All(I(2)))>>)
    [] id = Rsp + 30 -> Fs(<<I(1), I(2), I(1), I(1), All(I(1))>>)
    [] id = Rsp + 31 -> Fs(<<I(1), LV(Eui, 1)>>)
    [] id = Rsp + 49 -> Fs(<<I(1), Opt(Fs(<<I(1), I(1), LV(Neighbor, 1)>>))>>)
    [] id = Rsp + 50 -> Fs(<<I(1), Opt(Fs(<<I(1), I(1), LV(Route, 1)>>))>>)
    [] id = Rsp + 51 -> Fs(<<I(1), I(1), I(1), LV(Binding, 1)>>)
    [] id = Rsp + 56 -> Fs(<<I(1), I(4), I(2), I(2), LV(I(1), 1)>>)

-----------------------------------------------------------------------------
(* bits, most significant first *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
ByteBits(x) == [j \in 1..8 |-> (x \div Pow2(8 - j)) % 2]
BitsOf(b) == FlattenSeq([j \in 1..Len(b) |-> ByteBits(b[j])])
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN 0 ELSE 2 * Val(Front(s)) + Last(s)
BytesOf(s) == [j \in 1..(Len(s) \div 8) |-> Val(SubSeq(s, 8 * j - 7, 8 * j))]
NBits(x, n) == [j \in 1..n |-> (x \div Pow2(n - j)) % 2]
Zeros(n) == [j \in 1..n |-> 0]
\* the double that a float of e exponent bits and these bits is
AsDouble(s, e) ==
  LET x == Val(SubSeq(s, 2, 1 + e))
      f == SubSeq(s, 2 + e, Len(s))
      bias == Pow2(e - 1) - 1
      Pad(y) == y \o Zeros(52 - Len(y))
      One == CHOOSE j \in 1..Len(f) : f[j] = 1 /\ \A h \in 1..(j - 1) : f[h] = 0
      bits == <<s[1]>> \o IF e = 11 THEN Tail(s)
                          ELSE IF x = Pow2(e) - 1 THEN NBits(2047, 11) \o Pad(f)
                          ELSE IF x # 0 THEN NBits(x - bias + 1023, 11) \o Pad(f)
                          ELSE IF 1 \in Range(f) THEN NBits(1 - bias - One + 1023, 11) \o Pad(SubSeq(f, One + 1, Len(f)))
                          ELSE Zeros(63)
  IN IF x = Pow2(e) - 1 /\ 1 \in Range(f) THEN <<-2>> ELSE Reverse(BytesOf(bits))

RECURSIVE Utf8(_)
Cont(b, j) == j <= Len(b) /\ b[j] \in 128..191
Utf8(b) == \/ b = <<>>
           \/ b[1] < 128 /\ Utf8(Tail(b))
           \/ b[1] \in 194..223 /\ Cont(b, 2) /\ Utf8(Drop(b, 2))
           \/ b[1] \in 224..239 /\ Cont(b, 2) /\ Cont(b, 3) /\ (b[1] = 224 => b[2] >= 160) /\ (b[1] = 237 => b[2] < 160) /\ Utf8(Drop(b, 3))
           \/ b[1] \in 240..244 /\ Cont(b, 2) /\ Cont(b, 3) /\ Cont(b, 4) /\ (b[1] = 240 => b[2] >= 144) /\ (b[1] = 244 => b[2] < 144) /\ Utf8(Drop(b, 4))
UpToNul(b) == IF 0 \in Range(b) THEN Take(b, (CHOOSE j \in 1..Len(b) : b[j] = 0 /\ \A h \in 1..(j - 1) : b[h] # 0) - 1) ELSE b
Sign(b) == IF b[Len(b)] >= 128 THEN 1 ELSE 0

RECURSIVE Dec(_, _), DecN(_, _, _, _), DecAll(_, _, _), DecRec(_, _, _, _), DecWrites(_, _), DecConfs(_, _)
\* n items more
DecN(T, b, n, acc) == IF n = 0 \/ T.k = "none" THEN [acc EXCEPT !.rest = b]
                      ELSE LET x == Dec(T, b) IN
                           IF ~x.ok THEN Fail ELSE DecN(T, x.rest, n - 1, [acc EXCEPT !.v = @ \o x.v, !.exact = @ /\ x.exact])
\* items to the end
DecAll(T, b, acc) == IF b = <<>> THEN [ok |-> TRUE, v |-> <<acc.n>> \o acc.v, rest |-> <<>>, exact |-> acc.exact]
                     ELSE LET x == Dec(T, b) IN
                          IF ~x.ok THEN Fail ELSE DecAll(T, x.rest, [v |-> acc.v \o x.v, n |-> acc.n + 1, exact |-> acc.exact /\ x.exact])
\* fields: f still to come;  acc: v so far, vals: the value of each field, grp: widths of the fields of an unfinished byte
Unpack(grp, b) == LET n == 8 * Len(b)
                      s == BitsOf(b)
                      To(j) == n - (IF j = 1 THEN 0 ELSE FoldLeft(LAMBDA x, y : x + y, 0, SubSeq(grp, 1, j - 1)))
                  IN [j \in 1..Len(grp) |-> <<Val(SubSeq(s, To(j) - grp[j] + 1, To(j)))>>]
Sum(grp) == FoldLeft(LAMBDA x, y : x + y, 0, grp)
DecRec(f, j, b, acc) ==
  IF j > Len(f) THEN IF acc.grp # <<>> THEN Fail ELSE [ok |-> TRUE, v |-> FlattenSeq(acc.vals), rest |-> b, exact |-> acc.exact]
  ELSE LET x == f[j]
           here == \A r \in 1..Len(x.req) : (acc.vals[x.req[r].j][1] \in Range(x.req[r].in)) # x.req[r].neg
       IN IF ~here \/ (b = <<>> /\ x.opt) THEN DecRec(f, j + 1, b, [acc EXCEPT !.vals = Append(@, Absent)])
          ELSE IF x.t.k = "bits" \/ (x.t.k = "int" /\ acc.grp # <<>>)
          THEN LET g == Append(acc.grp, IF x.t.k = "bits" THEN x.t.n ELSE 8 * x.t.n)
                   n == Sum(g) \div 8
               IN IF Sum(g) % 8 # 0 THEN DecRec(f, j + 1, b, [acc EXCEPT !.grp = g])
                  ELSE IF Len(b) < n THEN Fail
                  ELSE DecRec(f, j + 1, Drop(b, n), [acc EXCEPT !.grp = <<>>, !.vals = @ \o Unpack(g, Take(b, n))])
          ELSE IF acc.grp # <<>> THEN Fail
          ELSE IF x.t.k = "by" THEN
               LET id == acc.vals[x.t.j][1] IN
               IF id \notin ZclIds \/ ~Analog(id) THEN DecRec(f, j + 1, b, [acc EXCEPT !.vals = Append(@, Absent)])
               ELSE LET d == Dec(Zcl(id), b) IN
                    IF ~d.ok THEN Fail ELSE DecRec(f, j + 1, d.rest, [acc EXCEPT !.vals = Append(@, d.v), !.exact = @ /\ d.exact])
          ELSE LET d == Dec(x.t, b) IN
               IF ~d.ok THEN Fail ELSE DecRec(f, j + 1, d.rest, [acc EXCEPT !.vals = Append(@, d.v), !.exact = @ /\ d.exact])
\* the answer to a write: one "success", or the failures
DecWrites(b, acc) == IF Len(b) < 3 THEN [ok |-> TRUE, v |-> <<acc.n>> \o acc.v, rest |-> b, exact |-> acc.exact]
                     ELSE IF b[1] = 0 THEN DecWrites(Drop(b, 1), [n |-> acc.n + 1, v |-> acc.v \o <<0, -9>>, exact |-> FALSE])
                     ELSE DecWrites(Drop(b, 3), [acc EXCEPT !.n = @ + 1, !.v = @ \o Take(b, 3)])
DecConfs(b, acc) == IF b = <<>> THEN [ok |-> TRUE, v |-> <<acc.n>> \o acc.v, rest |-> <<>>, exact |-> acc.exact]
                    ELSE IF b[1] # 0 THEN IF Len(b) < 4 THEN Fail ELSE DecConfs(Drop(b, 4), [acc EXCEPT !.n = @ + 1, !.v = @ \o Take(b, 4)])
                    ELSE DecConfs(Drop(b, 4), [n |-> acc.n + 1, exact |-> Len(b) = 1 /\ acc.n = 0,
                                               v |-> acc.v \o <<0>> \o (IF Len(b) < 2 THEN Absent ELSE <<b[2]>>) \o (IF Len(b) < 4 THEN Absent ELSE SubSeq(b, 3, 4))])
Empty == [ok |-> TRUE, v |-> <<>>, rest |-> <<>>, exact |-> TRUE]
Dec(T, b) ==
  CASE T.k = "int" -> IF Len(b) < T.n THEN Fail
                      ELSE LET x == IF T.be THEN Reverse(Take(b, T.n)) ELSE Take(b, T.n)
                           IN Done(IF T.sg THEN <<Sign(x)>> \o x ELSE x, Drop(b, T.n))
    [] T.k = "in" -> IF b = <<>> \/ b[1] \notin T.in THEN Fail ELSE Done(<<b[1]>>, Tail(b))
    [] T.k = "float" -> LET n == (1 + T.e + T.f) \div 8 IN
                        IF Len(b) < n THEN Fail
                        ELSE LET v == AsDouble(BitsOf(Reverse(Take(b, n))), T.e) IN [Done(v, Drop(b, n)) EXCEPT !.exact = v # <<-2>>]
    [] T.k = "oct" -> IF Len(b) < T.p \/ Len(b) < T.p + Num(Take(b, T.p)) THEN Fail
                      ELSE LET n == Num(Take(b, T.p)) IN [Done(<<n>> \o SubSeq(b, T.p + 1, T.p + n), Drop(b, T.p + n)) EXCEPT !.exact = \E j \in 1..T.p : b[j] # 255]
    [] T.k = "str" -> IF Len(b) < T.p THEN Fail
                      ELSE IF \A j \in 1..T.p : b[j] = 255 THEN Done(<<-1>>, Drop(b, T.p))
                      ELSE LET n == Num(Take(b, T.p)) IN
                           IF Len(b) < T.p + n THEN Fail
                           ELSE LET x == UpToNul(SubSeq(b, T.p + 1, T.p + n)) IN
                                [Done(IF Utf8(x) THEN <<Len(x)>> \o x ELSE <<-3>>, Drop(b, T.p + n)) EXCEPT !.exact = Len(x) = n /\ Utf8(x)]
    [] T.k = "fix" -> DecN(T.t, b, T.n, Empty)
    [] T.k = "lv" -> IF Len(b) < T.p THEN Fail
                     ELSE LET n == Num(Take(b, T.p)) IN DecN(T.t, Drop(b, T.p), n, [Empty EXCEPT !.v = <<n>>])
    [] T.k = "all" -> DecAll(T.t, b, [n |-> 0, v |-> <<>>, exact |-> TRUE])
    [] T.k = "rec" -> DecRec(T.f, 1, b, [vals |-> <<>>, exact |-> TRUE, grp |-> <<>>])
    [] T.k = "opt" -> LET x == Dec(T.t, b) IN IF x.ok THEN x ELSE [Done(Absent, <<>>) EXCEPT !.exact = b = <<>>]
    [] T.k = "typed" -> IF b = <<>> \/ b[1] \notin ZclIds THEN Fail
                        ELSE LET x == Dec(Zcl(b[1]), Tail(b)) IN IF x.ok THEN [x EXCEPT !.v = <<b[1]>> \o @] ELSE Fail
    [] T.k = "elems" -> IF Len(b) < 3 \/ b[1] \notin ZclIds THEN Fail
                        ELSE LET n == Num(SubSeq(b, 2, 3)) IN DecN(Zcl(b[1]), Drop(b, 3), n, [Empty EXCEPT !.v = <<b[1], n>>])
    [] T.k = "none" -> Done(<<>>, b)
    [] T.k = "sized" -> IF b = <<>> THEN Loose(Absent, <<>>)
                        ELSE IF b[1] = 0 THEN Loose(Absent, Tail(b))
                        ELSE LET x == Dec(T.t, Tail(b)) IN IF x.ok THEN [x EXCEPT !.exact = @ /\ b[1] = Len(b) - 1 - Len(x.rest)] ELSE Fail
    [] T.k = "wrsp" -> IF b = <<>> THEN Fail
                       ELSE IF b[1] = 0 THEN Done(<<1, 0, -9>>, Tail(b))
                       ELSE IF Len(b) < 3 THEN Fail ELSE DecWrites(b, [n |-> 0, v |-> <<>>, exact |-> TRUE])
    [] T.k = "crsp" -> DecConfs(b, [n |-> 0, v |-> <<>>, exact |-> b # <<>>])

(* observed: decoding b as a T gave v and left rest bytes, and encoding v again gave the bytes again *)
Unknown(v) == -3 \in Range(v)      \* text that is not well-formed: any reading will do
Decoded(T, b, ok, v, rest, again) ==
  LET x == Dec(T, b) IN
  /\ ok = x.ok
  /\ ok => /\ rest = Len(x.rest)
           /\ ~Unknown(x.v) => v = x.v
           /\ x.exact => again = Take(b, Len(b) - rest)
(* observed: encoding v as a T gave b *)
Encoded(T, v, b) == LET x == Dec(T, b) IN x.ok /\ x.v = v /\ x.rest = <<>>
(* whether a number (negative or not, and the bytes of its magnitude) is of this type *)
InRange(bits, sg, neg, mag) ==
  LET s == BitsOf(Reverse(mag))
      Top(n) == SubSeq(s, 1, Len(s) - n)      \* beyond n bits
      zero == 1 \notin Range(s)
      fits(n) == n >= Len(s) \/ 1 \notin Range(Top(n))
      lowest == /\ bits - 1 < Len(s) /\ s[Len(s) - bits + 1] = 1 /\ \A j \in 1..Len(s) : j # Len(s) - bits + 1 => s[j] = 0
  IN IF zero THEN TRUE ELSE IF ~sg THEN ~neg /\ fits(bits) ELSE fits(bits - 1) \/ (neg /\ lowest)
\* what a length of p bytes can tell; the largest number stands for something else
Tells(p, n, special) == n < Pow2(8 * p) - (IF special THEN 1 ELSE 0)
=============================================================================
