import sys, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from mkseed import mk

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from pre import PRE
mk("B01a_leak_after_timeout", "C01", [("zigpy/util.py",
"""        if not self.result.done():
            self.result.cancel()
        self._pending.pop(self.sequence)
""",
"""        if not self.result.done():
            self.result.cancel()
        if exc_type is None or not issubclass(exc_type, asyncio.CancelledError):
            self._pending.pop(self.sequence)
""")],
"a request is cancelled by its caller while the packet is still being sent, and the same sequence number is used again later",
"the cancelled request stays registered, so a later request with this sequence number is refused",
PRE + '''
async def main():
    app, (d, _) = make()
    gate = asyncio.Event()
    async def sender(p):
        await gate.wait()
    app.sender = sender
    for wait in (False, True):
        task = asyncio.create_task(req(d, 7))
        await asyncio.sleep(0.02)
        if wait:
            gate.set()
            await asyncio.sleep(0.02)
        task.cancel()
        await asyncio.gather(task, return_exceptions=True)
    gate.set()
    task = asyncio.create_task(req(d, 7, timeout=2))
    await asyncio.sleep(0.02)
    reply(app, d, 7, 42)
    assert (await task).timeout == 42

asyncio.run(main())
''')
mk("B01b_timeout_counts_sending", "C01", [("zigpy/device.py",
"""                await send_request()

                async with asyncio_timeout(timeout):
                    return await req.result
""",
"""                async with asyncio_timeout(timeout):
                    await send_request()
                    return await req.result
""")],
"sending takes a noticeable part of the reply timeout (busy radio) and the reply comes shortly before the timeout counted from the hand-over",
"the time to wait for the reply starts before the frame was sent, so requests time out too early",
PRE + '''
async def main():
    app, (d, _) = make()
    async def sender(p):
        await asyncio.sleep(0.8)
    app.sender = sender
    task = asyncio.create_task(req(d, 7, timeout=1))
    await asyncio.sleep(1.4)
    reply(app, d, 7, 42)
    assert (await task).timeout == 42

asyncio.run(main())
''')
mk("B03a_no_reply_skips_queue", "C03", [("zigpy/device.py",
"""        async with self._limit_concurrency(priority=priority):
            if not expect_reply:
                await send_request()
                return None

""",
"""        if not expect_reply and priority > t.PacketPriority.NORMAL:
            await send_request()
            return None

        async with self._limit_concurrency(priority=priority):
            if not expect_reply:
                await send_request()
                return None

""")],
"a high priority command that needs no reply is sent while another request to the device is in progress",
"commands without reply no longer wait for their turn",
PRE + '''
async def main():
    app, (d, _) = make()
    sent = []
    async def sender(p):
        sent.append(p.tsn)
    app.sender = sender
    a = asyncio.create_task(req(d, 1, timeout=5))
    await asyncio.sleep(0.02)
    b = asyncio.create_task(req(d, 2, expect_reply=False, priority=1))
    await asyncio.sleep(0.02)
    assert sent == [1], sent
    reply(app, d, 1, 1)
    await a
    await b
    assert sent == [1, 2], sent

asyncio.run(main())
''')
mk("B03b_radio_limit_ignores_priority", "C03", [("zigpy/application.py",
"""        async with self._concurrent_requests_semaphore(priority=priority):
""",
"""        async with self._concurrent_requests_semaphore(
            priority=t.PacketPriority.NORMAL if was_locked else priority
        ):
""")],
"more requests than the radio takes are waiting and they have different priorities",
"the radio-wide queue is served in arrival order only",
PRE + '''
async def main():
    app, ds = make(4, **{conf.CONF_MAX_CONCURRENT_REQUESTS: 1})
    order = []
    async def sender(p):
        async with app._limit_concurrency(priority=p.priority):
            order.append(p.tsn)
            await asyncio.sleep(0.05)
    app.sender = sender
    tasks = []
    for i, prio in enumerate([0, 0, -1, 1]):
        tasks.append(asyncio.create_task(req(ds[i], i, expect_reply=False, priority=prio)))
        await asyncio.sleep(0)
        await asyncio.sleep(0)
    await asyncio.gather(*tasks)
    assert order == [0, 3, 1, 2], order

asyncio.run(main())
''')
