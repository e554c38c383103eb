-------------------------------- MODULE Image --------------------------------
(* Files of firmware images (C29): what a byte string parses to, and what an   *)
(* image is written as.                                                        *)
(*                                                                             *)
(* Bytes are sequences of 0..255.  Numbers of four bytes are kept as bytes;    *)
(* where one is a length, N32 gives its value, or more than any file has.      *)
(* What cannot be computed here are facts f about the byte string:             *)
(*   f.sha: its first 64 bytes are the SHA-512 of what follows them            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Huge == 1073741824
N16(b, i) == b[i] + 256 * b[i + 1]
N32(b, i) == IF b[i + 3] > 63 THEN Huge ELSE b[i] + 256 * b[i + 1] + 65536 * b[i + 2] + 16777216 * b[i + 3]
Sub(b, i, n) == SubSeq(b, i, i + n - 1)
From(b, i) == SubSeq(b, i, Len(b))
Bit(n, k) == (n \div (2 ^ k)) % 2 = 1
LE16(n) == <<n % 256, n \div 256>>
LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Magic == <<30, 241, 238, 11>>
Bad == [ok |-> FALSE]

\* header: the fields a file starts with
Fixed == 56
Extra(fc) == (IF Bit(fc, 0) THEN 1 ELSE 0) + (IF Bit(fc, 1) THEN 8 ELSE 0) + (IF Bit(fc, 2) THEN 4 ELSE 0)
Header(b) ==
  IF Len(b) < Fixed THEN Bad
  ELSE LET fc == N16(b, 9)
           n == Fixed + Extra(fc)
           s == Fixed + 1
           d == s + (IF Bit(fc, 0) THEN 1 ELSE 0)
           h == d + (IF Bit(fc, 1) THEN 8 ELSE 0)
       IN IF Len(b) < n \/ Sub(b, 1, 4) # Magic THEN Bad
          ELSE [ok |-> TRUE, len |-> n,
                hdr |-> [hv |-> N16(b, 5), hl |-> N16(b, 7), fc |-> fc, manuf |-> N16(b, 11), type |-> N16(b, 13), version |-> Sub(b, 15, 4),
                         stack |-> N16(b, 19), text |-> Sub(b, 21, 32), size |-> Sub(b, 53, 4),
                         sec |-> IF Bit(fc, 0) THEN b[s] ELSE -1,
                         dest |-> IF Bit(fc, 1) THEN Sub(b, d, 8) ELSE <<>>,
                         minhw |-> IF Bit(fc, 2) THEN N16(b, h) ELSE -1,
                         maxhw |-> IF Bit(fc, 2) THEN N16(b, h + 2) ELSE -1]]
WriteHeader(h) == Magic \o LE16(h.hv) \o LE16(h.hl) \o LE16(h.fc) \o LE16(h.manuf) \o LE16(h.type) \o h.version \o LE16(h.stack) \o h.text \o h.size
                  \o (IF Bit(h.fc, 0) THEN <<h.sec>> ELSE <<>>) \o (IF Bit(h.fc, 1) THEN h.dest ELSE <<>>)
                  \o (IF Bit(h.fc, 2) THEN LE16(h.minhw) \o LE16(h.maxhw) ELSE <<>>)
HeaderLength(h) == Fixed + Extra(h.fc)

\* elements fill b exactly
RECURSIVE Elements(_)
Elements(b) == IF b = <<>> THEN [ok |-> TRUE, els |-> <<>>]
               ELSE IF Len(b) < 6 \/ Len(b) < 6 + N32(b, 3) THEN Bad
               ELSE LET n == N32(b, 3)
                        r == Elements(From(b, 7 + n))
                    IN IF r.ok THEN [ok |-> TRUE, els |-> <<[tag |-> N16(b, 1), data |-> Sub(b, 7, n)]>> \o r.els] ELSE Bad
RECURSIVE WriteElements(_)
WriteElements(els) == IF els = <<>> THEN <<>> ELSE LE16(els[1].tag) \o LE32(Len(els[1].data)) \o els[1].data \o WriteElements(Tail(els))

\* an image by the book
Plain(b) == LET h == Header(b) IN
            IF ~h.ok THEN Bad
            ELSE LET size == N32(h.hdr.size, 1) IN
                 IF h.hdr.hl # h.len \/ size < h.len \/ size > Len(b) THEN Bad
                 ELSE LET e == Elements(Sub(b, h.len + 1, size - h.len))
                      IN IF e.ok THEN [ok |-> TRUE, kind |-> "ota", hdr |-> h.hdr, els |-> e.els, data |-> <<>>, rest |-> From(b, size + 1)] ELSE Bad
\* some images of Hue have no elements
Hue(b) == LET h == Header(b) IN
          IF ~h.ok THEN Bad
          ELSE LET size == N32(h.hdr.size, 1) IN
               IF size < h.len \/ size > Len(b) \/ h.hdr.manuf # 4107 THEN Bad
               ELSE LET d == Sub(b, h.len + 1, size - h.len)
                    IN IF Len(d) < 3 \/ Sub(d, 1, 3) # <<42, 0, 1>> THEN Bad
                       ELSE [ok |-> TRUE, kind |-> "hue", hdr |-> h.hdr, els |-> <<>>, data |-> d, rest |-> From(b, size + 1)]
\* Legrand: size in front, 17 bytes behind
IsLegrand(b) == Len(b) > 4 /\ N32(b, 1) + 21 = Len(b)
\* Third Reality: 152 bytes in front, checksummed
IsThird(b, f) == Len(b) > 152 /\ N32(b, 69) + 64 = Len(b) /\ f.sha
\* IKEA: a container; the image may have bytes behind its only element, they belong to it
IsIkea(b) == Len(b) >= 4 /\ Sub(b, 1, 4) = <<78, 71, 73, 83>>
Ikea(b) == IF Len(b) <= 24 THEN Bad
           ELSE LET off == N32(b, 17)
                    size == N32(b, 21)
                IN IF off = Huge \/ size = Huge \/ Len(b) <= off + size THEN Bad
                   ELSE LET p == Plain(Sub(b, off + 1, size)) IN
                        IF ~p.ok \/ p.rest = <<>> THEN p
                        ELSE IF Len(p.els) # 1 \/ p.els[1].tag # 0 THEN Bad
                        ELSE [p EXCEPT !.rest = <<>>, !.els = <<[tag |-> 0, data |-> p.els[1].data \o p.rest]>>, !.hdr.size = LE32(size)]
Parse(b, f) == CASE IsLegrand(b) -> Plain(Sub(b, 5, Len(b) - 21))
                 [] ~IsLegrand(b) /\ IsThird(b, f) -> Plain(From(b, 153))
                 [] ~IsLegrand(b) /\ ~IsThird(b, f) /\ IsIkea(b) -> Ikea(b)
                 [] OTHER -> IF Hue(b).ok THEN Hue(b) ELSE Plain(b)
Write(i) == WriteHeader(i.hdr) \o (IF i.kind = "hue" THEN i.data ELSE WriteElements(i.els))
\* an image can be written if its size is what the header says
Writable(i) == i.kind = "hue" \/ N32(i.hdr.size, 1) = Len(Write(i))

(* embedded Silicon Labs firmware; crc(b): its CRC-32 is that of a file which ends with its own CRC *)
Unknown == "UNKNOWN"
Valid == "VALID"
Invalid == "INVALID"
AllFF(b) == \A i \in 1..Len(b) : b[i] = 255
\* the number of bytes up to and including the end tag, 0: truncated
RECURSIVE Ebl(_, _)
Ebl(b, i) == IF Len(b) < i + 3 THEN 0
             ELSE LET n == 256 * b[i + 2] + b[i + 3] IN
                  IF Len(b) < i + 3 + n THEN 0
                  ELSE IF b[i] = 252 /\ b[i + 1] = 4 THEN i + 3 + n ELSE Ebl(b, i + 4 + n)
RECURSIVE Gbl(_, _)
Gbl(b, i) == IF Len(b) < i + 7 THEN 0
             ELSE LET n == N32(b, i + 4) IN
                  IF n = Huge \/ Len(b) < i + 7 + n THEN 0
                  ELSE IF Sub(b, i, 4) = <<252, 4, 4, 252>> THEN i + 7 + n ELSE Gbl(b, i + 8 + n)
\* crcs: the lengths of the prefixes with such a CRC
Firmware(b, crcs) ==
  IF Len(b) >= 4 /\ Sub(b, 1, 4) = <<235, 23, 166, 3>>
  THEN LET n == Gbl(b, 1) IN IF n # 0 /\ n \in crcs THEN Valid ELSE Invalid
  ELSE IF Len(b) >= 4 /\ Sub(b, 1, 4) = <<0, 0, 0, 140>>
  THEN LET n == IF Len(b) % 64 = 0 THEN Ebl(b, 1) ELSE 0
       IN IF n # 0 /\ AllFF(From(b, n + 1)) /\ n \in crcs THEN Valid ELSE Invalid
  ELSE Unknown
Validity(i, crcs) ==
  IF i.kind # "ota" THEN Unknown
  ELSE LET fw == {k \in 1..Len(i.els) : i.els[k].tag = 0}
           rs == {Firmware(i.els[k].data, crcs[k]) : k \in fw}
       IN IF Invalid \in rs THEN Invalid ELSE IF fw = {} \/ Unknown \in rs THEN Unknown ELSE Valid
=============================================================================
