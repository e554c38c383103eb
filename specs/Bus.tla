--------------------------------- MODULE Bus ---------------------------------
(* The listener bus (zigpy.util.ListenableMixin): application, devices, endpoints, clusters, *)
(* groups and the group table each are an emitter.  Listeners may register, remove and emit   *)
(* while they are being called, so emissions nest: `stack` holds the active ones.            *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

CONSTANTS Objs, Lsts, Names, ArgVals,
          Handles   \* listener -> set of event names it has a handler for

VARIABLES regs,     \* emitter -> sequence of <<listener, context?>>
          stack,    \* sequence of [obj, name, arg, todo, res, busy]
          async     \* id -> asynchronous emission [obj, name, arg, todo, calls]
bvars == <<regs, stack, async>>

BInit == regs = [o \in Objs |-> <<>>] /\ stack = <<>> /\ async = <<>>

Top == stack[Len(stack)]
Put(f) == [stack EXCEPT ![Len(stack)] = f]
\* code runs outside of any emission, or inside the listener that is being called
Running == IF stack = <<>> THEN TRUE ELSE Top.busy # 0

Add(o, li, ctx) == /\ Running /\ regs' = [regs EXCEPT ![o] = Append(@, <<li, ctx>>)] /\ UNCHANGED <<stack, async>>

Drop(o, li) ==
    /\ Running
    /\ LET ixs == {i \in 1..Len(regs[o]) : regs[o][i][1] = li}
       IN IF ixs = {} THEN UNCHANGED regs
          ELSE LET i == CHOOSE x \in ixs : \A y \in ixs : x <= y
               IN regs' = [regs EXCEPT ![o] = RemoveAt(@, i)]
    /\ UNCHANGED <<stack, async>>

Interested(o, n) == SelectSeq(regs[o], LAMBDA r : n \in Handles[r[1]])

Emit(o, n, a) ==
    /\ Running
    /\ stack' = Append(stack, [obj |-> o, name |-> n, arg |-> a, todo |-> Interested(o, n), res |-> <<>>, busy |-> 0])
    /\ UNCHANGED <<regs, async>>

\* the next listener is called: the event's arguments, for context listeners after the emitter
Call(li, ctx, n, a) ==
    /\ stack # <<>> /\ Top.busy = 0 /\ Top.todo # <<>>
    /\ Head(Top.todo)[1] = li /\ n = Top.name /\ a = Top.arg
    /\ ctx = (IF Head(Top.todo)[2] THEN Top.obj ELSE "none")
    /\ stack' = Put([Top EXCEPT !.todo = Tail(@), !.busy = li])
    /\ UNCHANGED <<regs, async>>
Returned(li, v) == /\ stack # <<>> /\ Top.busy = li
                   /\ stack' = Put([Top EXCEPT !.busy = 0, !.res = Append(@, v)])
                   /\ UNCHANGED <<regs, async>>
Raised(li) == /\ stack # <<>> /\ Top.busy = li /\ stack' = Put([Top EXCEPT !.busy = 0])
              /\ UNCHANGED <<regs, async>>

\* emission is over: everybody interested has been called, the emitter gets the results
Emitted(res) == /\ stack # <<>> /\ Top.busy = 0 /\ Top.todo = <<>> /\ Top.res = res
                /\ stack' = Front(stack)
                /\ UNCHANGED <<regs, async>>

\* ---- asynchronous emission (coroutine handlers) ---------------------------------------------------
AEmit(k, o, n, a) ==
    /\ Running /\ k = Len(async) + 1
    /\ async' = Append(async, [obj |-> o, name |-> n, arg |-> a, todo |-> Interested(o, n), calls |-> <<>>, over |-> FALSE])
    /\ UNCHANGED <<regs, stack>>
ACall(k, li, ctx, n, a) ==
    /\ k \in 1..Len(async) /\ async[k].todo # <<>> /\ Head(async[k].todo)[1] = li
    /\ n = async[k].name /\ a = async[k].arg /\ ctx = (IF Head(async[k].todo)[2] THEN async[k].obj ELSE "none")
    /\ async' = [async EXCEPT ![k].todo = Tail(@), ![k].calls = Append(@, <<li, "busy", 0>>)]
    /\ UNCHANGED <<regs, stack>>
AEnd(k, i, kind, v) ==
    /\ k \in 1..Len(async) /\ i \in 1..Len(async[k].calls) /\ async[k].calls[i][2] = "busy"
    /\ async' = [async EXCEPT ![k].calls[i] = <<@[1], kind, v>>]
    /\ UNCHANGED <<regs, stack>>
AOk(k) == SelectSeq(async[k].calls, LAMBDA c : c[2] = "ok")
AEmitted(k, res) ==
    /\ k \in 1..Len(async) /\ ~async[k].over /\ async[k].todo = <<>>
    /\ \A i \in 1..Len(async[k].calls) : async[k].calls[i][2] # "busy"
    /\ res = [i \in 1..Len(AOk(k)) |-> AOk(k)[i][3]]
    /\ async' = [async EXCEPT ![k].over = TRUE]
    /\ UNCHANGED <<regs, stack>>

\* at rest nothing is left over: every emission has ended
Rest == stack = <<>> /\ (\A k \in 1..Len(async) : async[k].over) /\ UNCHANGED bvars

\* every frame calls only listeners that were registered and interested when the event was emitted
Isolation == \A i \in 1..Len(stack) : \A j \in 1..Len(stack[i].todo) : stack[i].name \in Handles[stack[i].todo[j][1]]

BNext == \/ \E o \in Objs, li \in Lsts, c \in BOOLEAN : Add(o, li, c)
         \/ \E o \in Objs, li \in Lsts : Drop(o, li)
         \/ \E o \in Objs, n \in Names, a \in ArgVals : Emit(o, n, a)
         \/ \E o \in Objs \cup {"none"}, li \in Lsts, n \in Names, a \in ArgVals : Call(li, o, n, a)
         \/ \E li \in Lsts : Returned(li, li) \/ Raised(li)
         \/ stack # <<>> /\ Emitted(Top.res)
=============================================================================
