"""Trainers: which policy counts as the best, when the user is told, and when training stops."""
import numpy as np
from checks.T01_trainer_protocol import drive
from vlib import train as T
from vlib.core import Scenario

RULE = (
    "random training configurations over scripted environments whose returns cross the stop threshold by chance; best "
    "score/reward/epoch, save_best_fn calls (with the parameters at that moment) and every stop_fn argument compared with a "
    "reference automaton; distinct = (trainer, options, stop point, number of improvements)"
)
MIN = {"runs": 200, "evaluations": 500, "best_saved": 400, "stop_calls": 500, "stopped_in_train": 30, "stopped_in_test": 20, "tests_in_train": 60, "improved": 60, "ran_to_the_end": 60}


def s_best(ctx, rng):
    ses = T.Session(rng, test=bool(rng.random() < 0.93), stop=bool(rng.random() < 0.7), max_epoch=int(rng.integers(1, 7)))
    ses.c["fns"]["best"] = bool(rng.random() < 0.95)
    ses.build()
    w = drive(ctx, rng, "T02", ses)
    if hasattr(w, "tag"):
        ctx.note("improved", w.best_epoch > w.epoch0)
        ctx.note("ran_to_the_end", not w.tag[1])
        ctx.sig(ses.kind, ses.c["score"], ses.c["stop"], ses.c["tit"], ses.c["metric"], w.tag, w.best_epoch, len(ses.ev))
        ctx.sample({"trainer": ses.kind, "best": [w.best, w.best_score, w.best_epoch], "stop": w.tag[1], "events": [e["k"] for e in ses.ev][:60]})


def s_early(ctx, rng):
    """Early stop from the training collections."""
    lvl = float(rng.choice([-1.0, 0.0, 1.0]))
    ses = T.Session(rng, kind=["on", "off"][int(rng.integers(2))], test=True, stop=True, tit=True, other_policy=False, level=lvl, thr=lvl + float(rng.choice([0.0, 0.5, 1.0])),
                    metric=bool(rng.random() < 0.4), ups=1.0, rew_dim=0)
    w = drive(ctx, rng, "T02", ses)
    if hasattr(w, "tag"):
        ctx.note("improved", w.best_epoch > w.epoch0)
        ctx.sig(ses.kind, ses.c["score"], ses.c["metric"], w.tag, w.best_epoch, len(ses.ev))


SCENARIOS = [
    Scenario("best", s_best, 260, 6000),
    Scenario("early", s_early, 120, 3000),
]
