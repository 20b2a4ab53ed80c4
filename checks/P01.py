"""P01: the prefetcher hands on the source's batches, for every schedule of producer and consumer."""
from vlib.common import *
install_goggles_stub()
from vlib import conc
import synthpix.scheduler.prefetch as PRE
from synthpix.scheduler.protocol import EpisodeEnd

CLS = PRE.PrefetchingFlowFieldScheduler


def program(limit):
    """take batches until the end; one request of another size somewhere in between"""
    def consumer(h, p):
        wrong, k = False, 0
        while k <= limit:
            if not wrong and h.choose("wrong size", 2):
                wrong = True
                try:
                    p.get_batch(2)
                except ValueError:
                    pass
                else:
                    h.emit("bad", "a request of another batch size is served")
            try:
                b = p.get_batch(1)
            except StopIteration:
                h.emit("end", k)
                return
            h.emit("deliver", b, (0, 0, k))
            b = None
            k += 1
        h.emit("bad", "more batches than the source has")
    return consumer


def body(ck):
    sizes = [(1, 3), (2, 4), (3, 5)] if TIER == "quick" else [(1, 6), (2, 6), (3, 6), (4, 6)]
    for cap, n in conc.mine(sizes):
        conc.decide(ck, f"buffer of {cap}", conc.Spec(PRE, CLS, program(n), cap, episode_end=EpisodeEnd), n, buffered=cap)
    ck.bounds = "all interleavings; sources of 0 to n batches and buffers of c batches for (c, n) in " + str(sizes)


if __name__ == "__main__":
    main("P01", body, shards=3, functions=fingerprint(CLS.get_batch, CLS._worker, CLS._start_worker, CLS.__init__),
         assumptions=["every operation on a queue, event, lock, thread or on the source is one atomic step", "put and get wake all waiters of a queue",
                      "the consumer's waiting limit does not expire; the producer's limit for the end-of-stream mark may expire at any time"],
         outside="sources and buffers beyond the bounds; several consumers")
