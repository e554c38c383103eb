import sys, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mkseed import mk
F = "zigpy/datastructures.py"
mk("B02a_resize_wakes_one", "C02", [(F,
"""        for _ in range(min(len(self._waiters), max(0, delta))):
            self._wake_up_next()
""",
"""        if delta > 0 and self._value > 0:
            self._wake_up_next()
""")],
"capacity raised by two or more while two or more callers wait and no release follows",
"raising the capacity wakes only one of the waiters, the others stay blocked although slots are free",
'''
import asyncio
from zigpy.datastructures import PriorityDynamicBoundedSemaphore as S

async def main():
    s = S(0)
    ts = [asyncio.create_task(s.acquire()) for _ in range(2)]
    await asyncio.sleep(0.01)
    s.max_value = 2
    await asyncio.wait_for(asyncio.gather(*ts), 2)

asyncio.run(main())
''')
mk("B02b_equal_priority_lifo", "C02", [(F,
"""            obj = (-priority, self._comparison_counter, fut)
""",
"""            obj = (-priority, len(self._waiters), fut)
"""),
(F, """            self._comparison_counter += 1

            fut""", """            fut""")],
"waiters of one priority queue up while others of a different priority leave the queue in between, so that two waiters get the same tie breaker or an earlier one than a waiter before them",
"the arrival order among waiters of equal priority is lost (or futures are compared and acquire fails)",
'''
import asyncio
from zigpy.datastructures import PriorityDynamicBoundedSemaphore as S

async def main():
    s = S(1)
    order = []

    async def w(n, p):
        async with s(priority=p):
            order.append(n)

    await s.acquire()
    ts = [asyncio.create_task(w("hi", 5))]
    await asyncio.sleep(0)
    ts.append(asyncio.create_task(w("a", 0)))
    await asyncio.sleep(0)
    ts.append(asyncio.create_task(w("b", 0)))
    await asyncio.sleep(0)
    ts[0].cancel()
    s.release()
    await s.acquire(priority=9)
    ts.append(asyncio.create_task(w("c", 0)))
    await asyncio.sleep(0)
    s.release()
    await asyncio.wait_for(asyncio.gather(*ts, return_exceptions=True), 2)
    got = [o for o in order if o != "hi"]
    assert got == sorted(got) and len(got) == 3, order

async def main2():
    # queue, let one of them through, then queue again
    s = S(1)
    order = []

    async def w(n):
        await s.acquire()
        order.append(n)

    await s.acquire()
    ts = []
    for n in "ab":
        ts.append(asyncio.create_task(w(n)))
        await asyncio.sleep(0)
    s.release()
    await asyncio.sleep(0.01)
    for n in "cd":
        ts.append(asyncio.create_task(w(n)))
        await asyncio.sleep(0)
    for _ in range(3):
        s.release()
        await asyncio.sleep(0.01)
    await asyncio.wait_for(asyncio.gather(*ts), 2)
    assert order == list("abcd"), order

asyncio.run(main2())
''')
