"""P03: episodes behind the prefetcher, for every schedule and every moment of switching."""
from vlib.common import *
install_goggles_stub()
from vlib import conc
import synthpix.scheduler.prefetch as PRE
from synthpix.scheduler.protocol import EpisodeEnd

CLS = PRE.PrefetchingFlowFieldScheduler


def program(ops, L):
    """any sequence of get, next_episode (and resets)"""
    def consumer(h, p):
        k, t, e, runs, begun = 0, 0, 0, 0, False
        while k < ops:
            k += 1
            c = h.choose("operation", 2 + (runs < 1))
            if c == 0:
                try:
                    b = p.get_batch(1)
                except StopIteration:
                    h.emit("bad", "the stream ends although the source goes on")
                except EpisodeEnd:
                    if t < L:
                        h.emit("bad", f"the episode ends after {t} of {L} steps")
                else:
                    if t >= L:
                        h.emit("bad", "a step is served beyond the end of the episode")
                    else:
                        h.emit("deliver", b, (runs, e, t))
                        t += 1
                b = None
                begun = True
            elif c == 1:
                p.next_episode()
                t, e = 0, e + (1 if begun else 0)
                begun = True
            else:
                p.reset()
                t, e, begun = 0, 0, False
                runs += 1
            if p.steps_remaining() != L - t:
                h.emit("bad", "the number of remaining steps is wrong")
    return consumer


def walk(L, limit):
    """episode after episode until the source ends, wherever that is"""
    def consumer(h, p):
        t = total = 0
        while total <= limit:
            try:
                b = p.get_batch(1)
            except EpisodeEnd:
                if t < L:
                    h.emit("bad", f"the episode ends after {t} of {L} steps")
                p.next_episode()
                t = 0
            except StopIteration:
                h.emit("end", total)
                if p.steps_remaining() != L - t:
                    h.emit("bad", "the number of remaining steps is wrong after the end")
                return
            else:
                h.emit("deliver", b, (0, total // L, t))
                t += 1
                total += 1
            b = None
            if p.steps_remaining() != L - t:
                h.emit("bad", "the number of remaining steps is wrong")
        h.emit("bad", "more steps than the source has")
    return consumer


def body(ck):
    cases = [(1, 2, 5), (2, 2, 4), (3, 2, 4), (2, 1, 4), (2, 3, 4)] if TIER == "quick" else [(1, 2, 7), (2, 2, 6), (3, 2, 6), (2, 1, 6), (2, 3, 7), (4, 3, 7)]
    for cap, L, ops in conc.mine(cases):
        conc.decide(ck, f"episodes of {L}, buffer of {cap}", conc.Spec(PRE, CLS, program(ops, L), cap, L=L, finite=False, episode_end=EpisodeEnd), 0, depth=36 + 7 * (L - 2))
    ends = [(1, 2, 4), (2, 3, 4)] if TIER == "quick" else [(1, 2, 6), (2, 3, 6), (3, 2, 6), (2, 1, 4)]
    for cap, L, n in conc.mine(ends, len(cases)):
        conc.decide(ck, f"episodes of {L} until the source ends, buffer of {cap}", conc.Spec(PRE, CLS, walk(L, n), cap, L=L, finite=True, episode_end=EpisodeEnd), n, depth=30)
    ck.bounds = f"all interleavings; every sequence of m operations get, next_episode, reset; buffers of c, endless episodes of L steps, for (c, L, m) in {cases}; all episodes one after the other for sources of 0 to n steps, (c, L, n) in {ends}"


if __name__ == "__main__":
    main("P03", body, shards=7 if TIER == "quick" else 2, functions=fingerprint(CLS.get_batch, CLS._worker, CLS._start_worker, CLS.__init__, CLS.reset, CLS.next_episode, CLS.steps_remaining),
         assumptions=["every operation on a queue, event, lock, thread or on the source is one atomic step", "put and get wake all waiters of a queue",
                      "the consumer's waiting limits do not expire", "the source serves whole episodes one after the other (D07)"],
         outside="programs beyond the bounds; switching early within a source that ends")
