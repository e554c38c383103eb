----------------------------- MODULE MC_Transfer -----------------------------
(* two devices, an image of a few bytes, every order of requests, failures, delays *)
EXTENDS Transfer
CONSTANTS MaxNow, MaxReq, MaxUp, Devs
VARIABLES known, nreq, served
Image == <<7, 8, 9>>
Hdr == [manuf |-> 1, type |-> 2, version |-> 3, size |-> 3]
MCInit == Init0(Devs) /\ known = [i \in {} |-> 0] /\ nreq = 0 /\ served = {}
NUp == Cardinality(DOMAIN known)
Keep == UNCHANGED <<known, nreq, served>>
Next == \/ \E d \in Devs : NUp < MaxUp /\ Start(d, NUp + 1, Image, Hdr, now) /\ known' = [i \in 1..(NUp + 1) |-> [img |-> Image]] /\ UNCHANGED <<nreq, served>>
        \/ \E d \in Devs : Notify(d, now) /\ Keep
        \/ nreq < MaxReq /\ nreq' = nreq + 1 /\ UNCHANGED <<known, served>> /\ \E d \in Devs :
             \/ \E off \in {0, 1, 3}, max \in {0, 1, 3} : Request(d, nreq, "block", nreq, off, max, TRUE, 0, now)
             \/ \E f \in BOOLEAN : Request(d, nreq, "query", nreq, 0, 0, f, 0, now)
             \/ \E s \in {Success, Abort} : Request(d, nreq, "end", nreq, 0, 0, TRUE, s, now)
        \/ \E p \in pend : Answered(p, now) /\ served' = served \cup {<<p, Answer(p, known)>>} /\ UNCHANGED <<known, nreq>>
        \/ \E p \in fly, ok \in BOOLEAN : Sent(p, ok, ok, now, known) /\ Keep
        \/ \E x \in due : Progress(x.d, x.cur, x.total, now) /\ Keep
        \/ \E d \in Devs : (TimesUp(d) \/ Cleared(d, now) \/ ReadBack(d, now) \/ \E i \in 1..NUp : Cancel(d, i, now) \/ \E s \in {-1, 0, 1, 128, 148, 149, 152} : Returned(d, i, s, now)) /\ Keep
        \/ now < MaxNow /\ Time(now + 1) /\ UNCHANGED <<up, pend, fly, due, ret, post, results>> /\ Keep
MCSpec == MCInit /\ [][Next]_<<tvars, known, nreq, served>>
Bounded == now <= MaxNow
\* every block served is a part of the image where it was asked for, no longer than asked for
ServedRight == \A s \in served : s[1].kind = "block" /\ s[1].by # 0 /\ s[2].status = Success =>
                  /\ Len(s[2].data) <= Min(MaxBlock, s[1].max)
                  /\ Len(s[2].data) > 0
                  /\ \A j \in 1..Len(s[2].data) : s[2].data[j] = Image[s[1].off + j]
\* the bytes of an update that is over are served to nobody who asks afterwards
Turned == \A s \in served : s[1].by = 0 => s[2].status \in {Abort, NoImage}
NeverStuck == \A d \in Devs : Running(d) /\ up[d].dl # 0 => up[d].dl >= now
=============================================================================
