------------------------------- MODULE Transfer -------------------------------
(* Firmware updates of devices (C22).                                          *)
(*                                                                             *)
(* An update notifies the device, answers its requests from the image, and     *)
(* ends once.  Requests are answered concurrently, each by one message.        *)
(* Requests outside of an update are turned down.                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS MaxBlock,     \* bytes a response can carry
          Stall,        \* ms without progress
          Settle        \* ms until the version is read after a successful update
VARIABLES now, up, pend, fly, due, ret, post, results
tvars == <<now, up, pend, fly, due, ret, post, results>>
\* up[d]: the update under way; id 0: none
\* pend: requests received and not answered;  fly: messages the radio is sending
\* due: progress to be reported;  ret: updates that have to return;  post: those that still read the version
\* results: what the updates returned
None == [id |-> 0, img |-> <<>>, hdr |-> [manuf |-> 0, type |-> 0, version |-> 0, size |-> 0], dl |-> 0, told |-> TRUE]
Success == 0
Failure == 1
Malformed == 128
TimeoutSt == 148
NoImage == 152
Abort == 149
Min(a, b) == IF a < b THEN a ELSE b

Init0(D) == /\ now = 0
            /\ up = [d \in D |-> None]
            /\ pend = {} /\ fly = {} /\ due = {} /\ ret = {} /\ post = {}
            /\ results = {}
Running(d) == up[d].id # 0
\* nothing is overdue: a running update whose time is up has ended
Overdue(t) == \E d \in DOMAIN up : Running(d) /\ up[d].dl # 0 /\ up[d].dl < t
\* what happens at once has happened
\* (an update that ends at the very moment when a block has been sent may or may not still report it)
Reported == \A x \in due : up[x.d].id # x.id
Settled == Reported /\ ret = {} /\ \A p \in post : p.cleared
Time(t) == t >= now /\ ~Overdue(t) /\ (t > now => Settled) /\ now' = t

Start(d, id, img, hdr, t) ==
  /\ Time(t)
  /\ IF Running(d)
     THEN ret' = ret \cup {[d |-> d, id |-> id, status |-> -1]} /\ UNCHANGED up
     ELSE up' = [up EXCEPT ![d] = [id |-> id, img |-> img, hdr |-> hdr, dl |-> 0, told |-> FALSE]] /\ UNCHANGED ret
  /\ UNCHANGED <<pend, fly, due, post, results>>

\* the update id of d ends; in the same step its listeners are gone
Ended(d, id, status, cached) ==
  IF id # 0 /\ up[d].id = id
  THEN /\ up' = [up EXCEPT ![d] = None]
       /\ IF status = Success
          THEN post' = post \cup {[d |-> d, id |-> id, at |-> now', cleared |-> ~cached, read |-> FALSE]} /\ UNCHANGED ret
          ELSE ret' = ret \cup {[d |-> d, id |-> id, status |-> status]} /\ UNCHANGED post
  ELSE UNCHANGED <<up, ret, post>>

Notify(d, t) == /\ Time(t)
                /\ Running(d) /\ ~up[d].told
                /\ up' = [up EXCEPT ![d].told = TRUE]
                /\ fly' = fly \cup {[d |-> d, n |-> 0, by |-> up[d].id, kind |-> "notify", tsn |-> -1, off |-> 0, max |-> 0, fits |-> TRUE, status |-> 0]}
                /\ UNCHANGED <<pend, due, ret, post, results>>

\* a request: kind block (off, max), query (fits), end (status)
Request(d, n, kind, tsn, off, max, fits, status, t) ==
  /\ Time(t)
  /\ pend' = pend \cup (IF Running(d) \/ kind \in {"query", "block"}
                        THEN {[d |-> d, n |-> n, by |-> up[d].id, kind |-> kind, tsn |-> tsn, off |-> off, max |-> max, fits |-> fits, status |-> status]}
                        ELSE {})
  /\ UNCHANGED <<up, fly, due, ret, post, results>>
\* the requests of an update that has ended may stay without an answer
Obliged(p) == p.by = 0 \/ p.by = up[p.d].id

Img(p) == up[p.d]
\* bytes asked for
Block(p, img) == LET want == Min(MaxBlock, p.max)
                 IN IF p.off >= Len(img) THEN <<>> ELSE SubSeq(img, p.off + 1, Min(Len(img), p.off + want))
(* the answer to p: its status and, if it is one, the block.  known: the images of all updates by id *)
Answer(p, known) ==
  CASE p.kind = "block" /\ p.by = 0 -> [status |-> Abort, data |-> <<>>]
    [] p.kind = "query" /\ p.by = 0 -> [status |-> NoImage, data |-> <<>>]
    [] p.kind = "block" -> LET b == Block(p, known[p.by].img)
                           IN [status |-> IF b = <<>> THEN Malformed ELSE Success, data |-> b]
    [] p.kind = "query" -> [status |-> IF p.fits THEN Success ELSE NoImage, data |-> <<>>]
    [] OTHER -> [status |-> Success, data |-> <<>>]
\* radio starts to send an answer
Answered(p, t) == /\ Time(t)
                  /\ p \in pend
                  /\ pend' = pend \ {p}
                  /\ fly' = fly \cup {p}
                  /\ UNCHANGED <<up, due, ret, post, results>>
\* the radio is done with it
Sent(p, ok, cached, t, known) ==
  /\ Time(t)
  /\ p \in fly
  /\ fly' = fly \ {p}
  /\ LET live == p.by # 0 /\ up[p.d].id = p.by
         st == Answer(p, known).status
     IN CASE ~live -> UNCHANGED <<up, ret, post, due>>
          [] live /\ p.kind = "block" /\ st = Malformed -> Ended(p.d, p.by, Malformed, cached) /\ UNCHANGED due
          [] live /\ ~ok -> Ended(p.d, p.by, Failure, cached) /\ UNCHANGED due
          [] live /\ ok /\ p.kind = "notify" -> up' = [up EXCEPT ![p.d].dl = t + Stall] /\ UNCHANGED <<ret, post, due>>
          [] live /\ ok /\ p.kind = "block" /\ st = Success ->
               /\ up' = [up EXCEPT ![p.d].dl = t + Stall]
               /\ due' = due \cup {[d |-> p.d, id |-> p.by, at |-> t, n |-> p.n, cur |-> p.off + Len(Answer(p, known).data), total |-> Len(up[p.d].img)]}
               /\ UNCHANGED <<ret, post>>
          [] live /\ ok /\ p.kind = "query" -> IF p.fits THEN UNCHANGED <<up, ret, post, due>> ELSE Ended(p.d, p.by, NoImage, cached) /\ UNCHANGED due
          [] live /\ ok /\ p.kind = "end" -> Ended(p.d, p.by, p.status, cached) /\ UNCHANGED due
  /\ UNCHANGED <<pend, results>>
Progress(d, cur, total, t) ==
  /\ Time(t)
  /\ \E x \in due : x.d = d /\ x.cur = cur /\ x.total = total /\ x.at = t /\ due' = due \ {x}
  /\ UNCHANGED <<up, pend, fly, ret, post, results>>
\* its time is up
TimesUp(d) == /\ Running(d)
              /\ up[d].dl # 0
              /\ up[d].dl >= now
              /\ up[d].dl > now => Settled
              /\ \A e \in DOMAIN up : Running(e) /\ up[e].dl # 0 => up[e].dl >= up[d].dl
              /\ now' = up[d].dl
              /\ Ended(d, up[d].id, TimeoutSt, FALSE)
              /\ UNCHANGED <<pend, fly, due, results>>
Cancel(d, id, t) == /\ Time(t)
                    /\ up' = IF up[d].id = id THEN [up EXCEPT ![d] = None] ELSE up
                    /\ post' = {p \in post : ~(p.d = d /\ p.id = id)}
                    /\ fly' = {p \in fly : ~(p.kind = "notify" /\ p.by = id)}
                    /\ UNCHANGED <<pend, ret, due, results>>
\* a successful update makes the known version void, and reads it again
Cleared(d, t) == /\ Time(t)
                 /\ \E p \in post : p.d = d /\ ~p.cleared /\ p.at = t /\ post' = (post \ {p}) \cup {[p EXCEPT !.cleared = TRUE]}
                 /\ UNCHANGED <<up, pend, fly, due, ret, results>>
ReadBack(d, t) == /\ Time(t)
                  /\ \E p \in post : p.d = d /\ t >= p.at + Settle /\ post' = (post \ {p}) \cup {[p EXCEPT !.read = TRUE]}
                  /\ UNCHANGED <<up, pend, fly, due, ret, results>>
Returned(d, id, status, t) ==
  /\ Time(t)
  /\ \/ \E r \in ret : r.d = d /\ r.id = id /\ r.status = status /\ ret' = ret \ {r} /\ UNCHANGED post
     \/ status = Success /\ \E p \in post : p.d = d /\ p.id = id /\ p.read /\ post' = post \ {p} /\ UNCHANGED ret
  /\ results' = results \cup {[d |-> d, id |-> id, status |-> status]}
  /\ due' = {x \in due : x.id # id}
  /\ UNCHANGED <<up, pend, fly>>
\* nothing under way any more
AllDone(t) == /\ Time(t)
              /\ \A p \in pend : ~Obliged(p)
              /\ fly = {} /\ ret = {} /\ post = {}
              /\ \A d \in DOMAIN up : ~Running(d)
              /\ UNCHANGED <<up, pend, fly, due, ret, post, results>>

OnceOnly == \A r \in results : \A s \in results : r.id = s.id => r = s
NoLateProgress == \A x \in due : x.at = now => ~\E r \in results : r.id = x.id
=============================================================================
