"""Runs the real prefetching scheduler under controlled interleavings."""

import random
import sys

import wk

wk.quiet()
import goggles  # noqa: E402,F401
import synthpix.make  # noqa: E402,F401  (third-party imports with the real modules)
import importlib  # noqa: E402,F401
import vsched  # noqa: E402

ENV = vsched.Env()
vsched.importlib = importlib
PF = ENV.load("synthpix.scheduler.prefetch")
PROTO = sys.modules["synthpix.scheduler.protocol"]
EpisodeEnd = PROTO.EpisodeEnd


class Run:
    """One controlled execution; records call and return events."""

    def __init__(self, sc):
        self.sc = sc
        self.rng = random.Random(sc["seed"])
        self.ctl = vsched.Controller(
            self.rng, switch=sc["switch"], early=0.0 if sc["strict"] else sc["early"],
            trace_file="scheduler/prefetch.py" if sc["lines"] else None,
        )
        ENV.begin(self.ctl)
        self.ev = []
        self.works = 0
        self.shut_at = None

    def log(self, op, ph, th=0, kind="ok", id=None, t0=None, v=0):
        now = self.ctl.now
        self.ev.append(
            dict(
                op=op, ph=ph, th=th, kind=kind, id=list(id or (0, 0, 0)),
                el=0 if t0 is None else int(round((now - t0) * 1000)),
                since=0 if self.shut_at is None else int(round((now - self.shut_at) * 1000)),
                v=v, alive=ENV.live(),
            )
        )

    def work(self):
        self.works += 1
        if self.works > 1500:
            # a loader that never waits for the consumer: end the recording
            ENV.time.sleep(1e6)
        d = self.delays.pop(0) if self.delays else 0.0
        if d:
            ENV.time.sleep(d)
        else:
            self.ctl.switch()


class Flat:
    """A finite wrapped scheduler: N batches per generation."""

    def __init__(self, run, sc):
        self.r, self.sc = run, sc
        self.gen, self.k, self.calls = 0, 0, 0

    file_list = ["x"]

    def get_flow_fields_shape(self):
        return (4, 4, 2)

    def shutdown(self):
        pass

    def get_batch(self, n):
        self.r.log("u_get", "call")
        self.r.work()
        self.calls += 1
        if self.calls in self.sc["fail"]:
            self.r.log("u_get", "ret", kind="error")
            raise RuntimeError("cannot load")
        if self.k >= self.sc["N"]:
            self.r.log("u_get", "ret", kind="stop")
            raise StopIteration
        self.k += 1
        id = (self.gen, 0, self.k)
        self.r.log("u_get", "ret", id=id)
        return id

    def reset(self):
        self.r.log("u_reset", "call")
        self.r.work()
        self.gen, self.k = self.gen + 1, 0
        self.r.log("u_reset", "ret")


class Episodic(Flat):
    """An endless episodic wrapped scheduler."""

    def __init__(self, run, sc):
        super().__init__(run, sc)
        self.ep, self.step = 1, 0

    @property
    def episode_length(self):
        return self.sc["L"]

    def steps_remaining(self):
        return self.sc["L"] - self.step

    def get_batch(self, n):
        self.r.log("u_get", "call")
        self.r.work()
        self.calls += 1
        if self.calls in self.sc["fail"]:
            self.r.log("u_get", "ret", kind="error")
            raise RuntimeError("cannot load")
        if self.step >= self.sc["L"]:
            self.r.log("u_get", "ret", kind="episode_end")
            raise EpisodeEnd
        self.step += 1
        id = (self.gen, self.ep, self.step)
        self.r.log("u_get", "ret", id=id)
        return id

    def next_episode(self):
        self.r.log("u_next", "call")
        self.r.ctl.switch()
        self.ep, self.step = self.ep + 1, 0
        self.r.log("u_next", "ret")

    def reset(self):
        self.r.log("u_reset", "call")
        self.r.work()
        self.gen, self.ep, self.step = self.gen + 1, 1, 0
        self.r.log("u_reset", "ret")


def kind_of(e):
    if e is None:
        return "ok"
    if isinstance(e, StopIteration):
        return "stop"
    if isinstance(e, EpisodeEnd):
        return "episode_end"
    if isinstance(e, vsched.Deadlock):
        return "hang"
    return "error"


def execute(sc):
    r = Run(sc)
    r.delays = list(sc["delays"])
    state = {}

    def do(th, op, a):
        p = state["p"]
        if op == "sleep":
            ENV.time.sleep(a)
            return "ok"
        t0 = r.ctl.now
        r.log(op, "call", th)
        if op == "shutdown":
            r.shut_at = t0
        err, res = None, None
        before = ENV.live()
        try:
            if op == "get":
                res = p.get_batch(2)
            elif op == "next":
                p.next_episode()
            elif op == "reset":
                p.reset()
                r.shut_at = None
            elif op == "shutdown":
                p.shutdown()
            elif op == "rem":
                res = p.steps_remaining()
            elif op == "running":
                res = int(p.is_running())
        except vsched.Kill:
            raise
        except BaseException as e:  # noqa: BLE001
            err = e
        k = kind_of(err)
        id = (0, 0, 0)
        if op == "get" and err is None:
            id = res if isinstance(res, tuple) and len(res) == 3 else (-1, -1, -1)
        v = int(res) if op in ("rem", "running") and err is None else 0
        r.log(op, "ret", th, kind=k, id=id, t0=t0, v=v)
        if op == "running":
            r.ev[-1]["since"] = before
        if op == "shutdown" and k == "ok" and sc["strict"]:
            ENV.time.sleep(0.05)
            r.log("settled", "ret", th)
        return k

    def client(th, ops):
        for op, a in ops:
            if do(th, op, a) == "hang":
                return

    def main():
        inner = (Episodic if sc["L"] else Flat)(r, sc)
        state["p"] = PF.PrefetchingFlowFieldScheduler(
            inner, 2, buffer_size=sc["buf"], startup_timeout=sc["startup"],
            steady_state_timeout=sc["steady"],
        )
        others = [
            r.ctl.spawn(lambda th=th, ops=ops: client(th, ops), client=True)
            for th, ops in enumerate(sc["clients"][1:], 2)
        ]
        client(1, sc["clients"][0])
        try:
            r.ctl.block(lambda: all(t.done for t in others))
            r.ctl.early_p = 0.0
            ENV.time.sleep(200.0)
        except vsched.Deadlock:
            r.log("get", "ret", 1, kind="hang")
            return
        r.log("end", "ret")
        p = state.pop("p")
        p.__class__.__del__ = lambda self: None
        del p

    r.ctl.spawn(main, client=True)
    if not r.ctl.run():
        r.ev.append(dict(op="get", ph="ret", th=1, kind="hang", id=[0, 0, 0], el=0, since=0, v=0, alive=0))
    return dict(
        id=sc["id"],
        cfg=dict(
            L=sc["L"], buf=sc["buf"], clients=len(sc["clients"]), strict=int(sc["strict"]),
            ignore=sc.get("ignore", []),
            startup=int(sc["startup"] * 1000) - 1, steady=int(sc["steady"] * 1000) - 1,
        ),
        ev=r.ev,
    ), r.ctl.choices


def run(job):
    out, choices = [], 0
    for sc in job["scenarios"]:
        t, c = execute(sc)
        out.append(t)
        choices += c
    return dict(traces=out, choices=choices)


if __name__ == "__main__":
    wk.serve(run)
