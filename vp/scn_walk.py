"""Model-conformance walks, in several biases."""
from .core import scenario
from .walk import Walk

N = 45


@scenario(["C01", "C02", "C06", "C07", "C31", "C15", "C29", "C22", "C28"], n=40, nt=2000)
def walk_mixed(c):
    """Random histories in lockstep with the model: everything."""
    Walk(c, {}, N).run()


@scenario(["C05", "C06", "C07", "C08", "C09", "C02", "C23"], n=40, nt=2000)
def walk_auth(c):
    """Random histories in lockstep with the model: authorisations and reminders."""
    Walk(c, {"ops": {"callback": 30, "show": 14, "cberror": 4, "badcb": 10, "refresh": 6, "reload": 3}, "good": .45}, N).run()


@scenario(["C08", "C10", "C11", "C12", "C13", "C01", "C14"], n=40, nt=2000)
def walk_refresh(c):
    """Random histories in lockstep with the model: refreshes, failures, time-outs."""
    Walk(c, {"ops": {"refresh": 12, "answer": 30, "advance": 30, "down": 4, "revoke": 1, "cberror": 0, "badcb": 0, "trfinish": 4, "wall": 3}, "good": .7, "short": .3}, N + 15).run()


@scenario(["C03", "C04", "C09", "C10", "C11"], n=40, nt=2000)
def walk_reload(c):
    """Random histories in lockstep with the model: reloads."""
    Walk(c, {"ops": {"reload": 18, "badcb": 6, "refresh": 8}, "good": .75}, N).run()


@scenario(["C15", "C02", "C13"], n=30, nt=1500)
def walk_events(c):
    """Random histories in lockstep with the model: events and their commands."""
    Walk(c, {"ops": {"revoke": 10, "tefinish": 10}, "te_hold": .7, "good": .7}, N).run()


@scenario(["C17", "C18", "C19", "C29", "C14"], n=30, nt=1500)
def walk_dump(c):
    """Random histories in lockstep with the model: dumps, restores, restarts."""
    Walk(c, {"ops": {"dump": 8, "restore": 12, "revoke": 6, "reload": 5, "wall": 4}, "good": .8, "deep": 1}, N).run()
