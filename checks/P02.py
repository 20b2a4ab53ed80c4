"""P02: reset and shutdown end, leave no producer behind and nothing of the old run, for every schedule."""
from vlib.common import *
install_goggles_stub()
from vlib import conc
import synthpix.scheduler.prefetch as PRE
from synthpix.scheduler.protocol import EpisodeEnd

CLS = PRE.PrefetchingFlowFieldScheduler


def takes(h, p, most, runs, episodic, checked=True):
    """at most so many requests; what comes is the run's own data in order"""
    k = pos = 0
    while k < most and h.choose("another", 2):
        k += 1
        if episodic and h.choose("next episode", 2):
            p.next_episode()
            checked = False
            continue
        try:
            b = p.get_batch(1)
        except (StopIteration, EpisodeEnd):
            pass
        else:
            if checked:
                h.emit("deliver", b, (runs, 0, pos))
            pos += 1
        b = None


def program(before, after, episodic=False, stops=1):
    """requests; reset, shutdown, or shutdown then reset; requests again; and so on; at the end reset or shutdown"""
    def consumer(h, p):
        runs = i = 0
        takes(h, p, before, runs, episodic)
        while i < stops:
            i += 1
            c = h.choose("stop", 3)
            if c != 0:
                p.shutdown()
            if c != 1:
                p.reset()
                runs += 1
            takes(h, p, after, runs, episodic, c != 1)
        i = 0
        if h.choose("end", 2):
            p.reset()
        else:
            p.shutdown()
    return consumer


def body(ck):
    cases = [(1, 2, 2, 1), (2, 3, 1, 1)] if TIER == "quick" else [(1, 3, 2, 2), (2, 4, 3, 2), (3, 4, 2, 2)]
    for cap, n, before, after in conc.mine(cases):
        conc.decide(ck, f"buffer of {cap}", conc.Spec(PRE, CLS, program(before, after), cap, expiry=True, episode_end=EpisodeEnd), n, depth=32 + 6 * cap, must=("C", "*"), old_worker=True)
    epi = [(1, 2, 1, 1)] if TIER == "quick" else [(1, 2, 2, 1), (2, 2, 2, 2)]
    for cap, L, before, after in conc.mine(epi, len(cases)):
        conc.decide(ck, f"episodes of {L}, buffer of {cap}", conc.Spec(PRE, CLS, program(before, after, True), cap, L=L, finite=False, expiry=True, episode_end=EpisodeEnd), 0, depth=36, must=("C", "*"), old_worker=True)
    ck.bounds = ("all interleavings, every waiting limit may expire at any time; at most b requests, then reset, shutdown, or shutdown and reset, then at most a requests, then reset or shutdown; buffers of c, sources of 0 to n batches, for (c, n, b, a) in "
                 f"{cases}; the same with next_episode among the requests and endless episodes of L steps for (c, L, b, a) in {epi}")


if __name__ == "__main__":
    main("P02", body, shards=3 if TIER == "quick" else 2, functions=fingerprint(CLS.get_batch, CLS._worker, CLS._start_worker, CLS.__init__, CLS.reset, CLS.shutdown, CLS.next_episode),
         assumptions=["every operation on a queue, event, lock, thread or on the source is one atomic step", "put and get wake all waiters of a queue",
                      "the source's get_batch and reset return"],
         outside="programs, sources and buffers beyond the bounds; calls from several threads at once; a source that never returns")
