"""Thread schedules: lists of [steps, pick].  A number of steps between 0 and 1 is a share of
the steps the whole program takes, a negative one a share of the distinct places (lines) the
picked thread reaches when it runs alone (both resolved when they are known)."""


def gen_schedule(rng, length=None, total=3000, styles=("fine", "mixed", "mixed", "coarse", "burst", "pin", "pin", "place", "place", "step")):
    """Slices of wildly different sizes, so that both tight races and long overlaps occur."""
    style = rng.choice(styles)
    if style == "pin":
        return _pin(rng)
    if style == "place":
        return _place(rng)
    if style == "step":
        return _step(rng, total)
    n = length or rng.choice([10, 40, 120, 300])
    out = []
    for i in range(n):
        if style == "fine":
            k = rng.choice([1, 1, 2, 3, 5])
        elif style == "coarse":
            k = rng.choice([8, 20, 60, 150, 400])
        elif style == "burst":
            k = rng.choice([1, 1, 1, 400]) if i % 7 else rng.randint(1, 300)
        else:
            k = rng.choice([1, 2, 5, 12, 30, 80, 250])
        out.append([k, rng.randrange(6) if rng.random() < 0.5 else -1 - rng.randrange(5)])
    return out


def _pin(rng):
    """Few switches at instants spread over the whole execution: one thread is stopped
    somewhere, the others get far or to their end, then it goes on."""
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        out.append([rng.u(5) * rng.choice([1.0, 0.5, 0.1]) or 1, -1 - rng.randrange(5)])
        out.append([rng.choice([0.9, 0.9, 0.5, 0.2, rng.u(4) or 1, 5, 1]), -1 - rng.randrange(5)])
    return [[round(k, 6) if k < 1 else k, t] for k, t in out]


def _place(rng):
    """One to three threads are each brought to a chosen place in their code and left there
    while others go on."""
    first = rng.randrange(4)
    out = [[-(rng.u(6) or 0.5), first + i] for i in range(rng.choice([1, 1, 2, 2, 3]))]
    out.append([rng.choice([0.95, 0.95, 0.6, 0.3, 5, 1]), -1 - rng.randrange(5) if len(out) == 1 else first])
    if rng.random() < 0.3:
        out.append([rng.choice([0.9, 0.3, 7]), -1 - rng.randrange(5)])
    return out


def _step(rng, total):
    """Threads in (almost) equal step: the same code at the same time."""
    k = rng.choice([1, 2, 3, 5, 9, 20])
    lag = rng.choice([0, 0, 1, 2, 3, 7, 15])
    out = [[lag, 0]] if lag else []
    for i in range(min(4000, max(40, 2 * total // k))):
        out.append([k if rng.random() < 0.95 else k + rng.randint(1, 4), -1 - i])
    return out


def resolve(schedule, total, seen=()):
    """seen: per thread the step numbers of every place, in order of first execution."""
    out = []
    for k, t in schedule:
        if -1 < k < 0:
            places = seen[abs(t) % len(seen)] if seen else []
            x = -k * len(places)
            occ = places[int(x)] if places else [1]
            k = occ[int((x - int(x)) * len(occ))]
        elif 0 < k < 1:
            k = max(1, int(k * total))
        out.append([k, t])
    return out


def relative(schedule):
    return any(abs(k) < 1 for k, _ in schedule)
