------------------------------- MODULE MC_Bus -------------------------------
EXTENDS Bus
VARIABLES called  \* per frame: listeners called, mirrored to check exactly-once in order
MCHandles == [li \in Lsts |-> IF li = 2 THEN {"e"} ELSE Names]
MCSpec == BInit /\ called = <<>> /\ [][
    /\ BNext
    /\ called' = IF Len(stack') > Len(stack) THEN Append(called, [snap |-> Interested(stack'[Len(stack')].obj, stack'[Len(stack')].name), done |-> <<>>])
                 ELSE IF Len(stack') < Len(stack) THEN Front(called)
                 ELSE IF stack # <<>> /\ Top.busy = 0 /\ stack'[Len(stack)].busy # 0
                 THEN [called EXCEPT ![Len(stack)].done = Append(@, Head(Top.todo))]
                 ELSE called ]_<<bvars, called>>
\* what has been called is a prefix of the snapshot; at the end it is the snapshot
Prefix == \A i \in 1..Len(called) : called[i].done \o stack[i].todo = called[i].snap
Small == Len(stack) <= 2 /\ \A o \in Objs : Len(regs[o]) <= 2
=============================================================================
