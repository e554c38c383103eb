------------------------------- MODULE MC_Image -------------------------------
(* Every small image, in every wrapper, cut and with every byte changed.       *)
EXTENDS Image
VARIABLES img, file, what, wrap
vars == <<img, file, what, wrap>>
Zeros(n) == [i \in 1..n |-> 0]
EltSets == {<<>>, <<[tag |-> 0, data |-> <<>>]>>, <<[tag |-> 0, data |-> <<7, 8>>]>>, <<[tag |-> 61440, data |-> <<1>>], [tag |-> 0, data |-> <<0, 0, 0, 0, 0, 0>>]>>}
Complete(h, els, data, kind) ==
  LET n == HeaderLength(h)
      body == IF kind = "hue" THEN Len(data) ELSE Len(WriteElements(els))
  IN [ok |-> TRUE, kind |-> kind, els |-> els, data |-> data, rest |-> <<>>, hdr |-> [h EXCEPT !.hl = n, !.size = LE32(n + body)]]
H(fc, manuf) == [hv |-> 256, hl |-> 0, fc |-> fc, manuf |-> manuf, type |-> 258, version |-> <<1, 2, 3, 4>>, stack |-> 2, text |-> Zeros(32), size |-> Zeros(4),
                 sec |-> IF Bit(fc, 0) THEN 9 ELSE -1, dest |-> IF Bit(fc, 1) THEN <<1, 2, 3, 4, 5, 6, 7, 8>> ELSE <<>>,
                 minhw |-> IF Bit(fc, 2) THEN 3 ELSE -1, maxhw |-> IF Bit(fc, 2) THEN 515 ELSE -1]
Images == {Complete(H(fc, m), e, <<>>, "ota") : fc \in {0, 5, 7, 2}, m \in {1, 4107}, e \in EltSets}
          \cup {Complete(H(fc, 4107), <<>>, d, "hue") : fc \in {0, 4}, d \in {<<42, 0, 1>>, <<42, 0, 1, 5, 6, 7>>}}
Facts == [sha |-> wrap = "third"]
Wrapped(w, b) == CASE w = "none" -> b
                   [] w = "trailing" -> b \o <<1, 2, 3>>
                   [] w = "legrand" -> LE32(Len(b)) \o b \o Zeros(17)
                   [] w = "third" -> Zeros(68) \o LE32(Len(b) + 88) \o Zeros(80) \o b
                   [] w = "ikea" -> <<78, 71, 73, 83>> \o Zeros(12) \o LE32(24) \o LE32(Len(b)) \o b \o <<1, 2>>
                   [] w = "ikeamore" -> <<78, 71, 73, 83>> \o Zeros(12) \o LE32(24) \o LE32(Len(b) + 2) \o b \o <<5, 6>> \o <<1, 2>>
Init == /\ img \in Images
        /\ wrap \in {"none", "trailing", "legrand", "third", "ikea", "ikeamore"}
        /\ file = Wrapped(wrap, Write(img))
        /\ what = "whole"
Next == /\ what = "whole" /\ UNCHANGED <<img, wrap>>
        /\ \/ \E n \in 0..(Len(file) - 1) : file' = SubSeq(file, 1, n) /\ what' = "cut"
           \/ wrap \in {"none", "ikea"} /\ \E i \in 1..Len(file), v \in {0, 1, 60, 255} : file' = [file EXCEPT ![i] = v] /\ what' = "changed"
Spec == Init /\ [][Next]_vars
P == Parse(file, Facts)
Same(p) == p.ok /\ p.kind = img.kind /\ p.hdr = img.hdr /\ p.els = img.els /\ p.data = img.data
Plainly == img.kind = "ota"
\* what was written is what is read
RoundTrip == what = "whole" =>
  CASE wrap = "none" -> Same(P) /\ P.rest = <<>>
    [] wrap = "trailing" -> Same(P) /\ P.rest = <<1, 2, 3>>
    [] wrap \in {"legrand", "third", "ikea"} -> Plainly => Same(P) /\ P.rest = <<>>
    [] wrap = "ikeamore" -> Plainly => IF Len(img.els) = 1 THEN P.ok /\ P.els[1].data = img.els[1].data \o <<5, 6>> ELSE ~P.ok
\* no part of a file is an image (what follows the image in a container may be missing)
NoPart == what = "cut" => \/ wrap \in {"trailing", "ikea", "ikeamore"}
                          \/ ~P.ok
\* whatever is accepted holds nothing but the file
Nothing == P.ok => /\ Writable(P)
                   /\ wrap = "none" => Write(P) \o P.rest = file
                   /\ wrap = "ikea" => LET n == N32(file, 21) IN P.rest = <<>> /\ Write(P) = [i \in 1..n |-> IF i \in 53..56 THEN P.hdr.size[i - 52] ELSE IF i \in (P.hdr.hl + 3)..(P.hdr.hl + 6) /\ Len(P.els) > 0 THEN LE32(Len(P.els[1].data))[i - P.hdr.hl - 2] ELSE file[N32(file, 17) + i]]
=============================================================================
