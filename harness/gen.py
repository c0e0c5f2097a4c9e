"""
A small property-based testing engine.

Generators draw bounded integers ("choices") from a Source. A random Source records its choices; a replay Source gives
recorded choices back (and 0, the simplest choice, when they run out), so that any case can be regenerated, mutated and shrunk
by editing the list of choices - independently of what the generator builds from them. The interface of the generators
follows Hypothesis (integers, booleans, sampled_from, lists, tuples, permutations, composite).
"""
import random
import time


class Invalid(Exception):
    """The choices do not lead to a case."""


class Source:
    MAX_CHOICES = 6000

    def __init__(self, rng=None, prefix=None):
        self.rng = rng
        self.prefix = prefix
        self.choices = []

    def choice(self, top, suggestion=None):
        """
        An integer from 0 to top (inclusive); suggestion is used instead of a uniform draw when cases are drawn at random.
        """
        if len(self.choices) >= self.MAX_CHOICES:
            raise Invalid("too many choices")
        position = len(self.choices)
        if self.prefix is not None and (position < len(self.prefix) or self.rng is None):
            value = self.prefix[position] if position < len(self.prefix) else 0
            value = min(max(int(value), 0), top)
        elif suggestion is not None:
            value = suggestion
        else:
            value = self.rng.randint(0, top)
        self.choices.append(value)
        return value

    def uniform(self, top):
        """
        An unrecorded draw (only for use as a suggestion), None if there is no randomness.
        """
        return self.rng.randint(0, top) if self.rng is not None else None


class Strategy:
    def __init__(self, produce):
        self.produce = produce

    def map(self, func):
        return Strategy(lambda src: func(self.produce(src)))


def draw_from(src):
    return lambda strategy: strategy.produce(src)


def integers(low, high):
    return Strategy(lambda src: low + src.choice(high - low))


def booleans():
    return Strategy(lambda src: bool(src.choice(1)))


def weighted(percent):
    """
    True in about percent % of the cases (shrinks to False).
    """
    return Strategy(lambda src: src.choice(99) >= 100 - percent)


def sampled_from(options):
    options = list(options)
    return Strategy(lambda src: options[src.choice(len(options) - 1)])


def just(value):
    return Strategy(lambda src: value)


def lists(element, min_size=0, max_size=10):
    def produce(src):
        result = []
        if min_size == max_size:
            return [element.produce(src) for _ in range(min_size)]
        extra = src.uniform(max_size - min_size)
        target = None if extra is None else min_size + extra
        while len(result) < max_size:
            if len(result) >= min_size:
                suggestion = None if target is None else int(len(result) < target)
                if not src.choice(1, suggestion):
                    break
            result.append(element.produce(src))
        return result
    return Strategy(produce)


def tuples(*elements):
    return Strategy(lambda src: tuple(e.produce(src) for e in elements))


def permutations(items):
    items = list(items)

    def produce(src):
        result = list(items)
        for i in range(len(result) - 1):
            j = i + src.choice(len(result) - 1 - i)
            result[i], result[j] = result[j], result[i]
        return result
    return Strategy(produce)


def composite(func):
    def make(*args, **kwargs):
        return Strategy(lambda src: func(draw_from(src), *args, **kwargs))
    return make


def one_of(*strategies):
    return Strategy(lambda src: strategies[src.choice(len(strategies) - 1)].produce(src))


# ----------------------------------------------------------------------------------------------------------------------


def generate(strategy, rng=None, prefix=None):
    """
    :return: the case and its choices; raises Invalid.
    """
    src = Source(rng=rng, prefix=prefix)
    case = strategy.produce(src)
    return case, src.choices


def mutate(choices, rng, others=()):
    """
    Change a few choices, or splice two lists of choices.
    """
    result = list(choices)
    for _ in range(rng.randint(1, 4)):
        if not result:
            break
        kind = rng.randint(0, 4)
        i = rng.randrange(len(result))
        if kind == 0:
            result[i] = rng.randint(0, 8)
        elif kind == 1:
            result[i] = rng.randint(0, 2 ** 31)
        elif kind == 2:
            j = min(len(result), i + rng.randint(1, 8))
            del result[i:j]
        elif kind == 3 and others:
            other = rng.choice(others)
            k = rng.randrange(len(other)) if other else 0
            result[i:] = other[k:]
        else:
            j = min(len(result), i + rng.randint(1, 8))
            result[i:i] = result[i:j]
    return result


def shrink(choices, interesting, seconds, max_calls=4000):
    """
    Find a smaller (shorter, then lexicographically smaller) list of choices that is interesting as well.
    :param interesting: a function from a list of choices to the (possibly shorter) list of choices that were really used
        if the case is interesting, otherwise None.
    """
    deadline = time.time() + seconds
    best = list(choices)
    seen = set()
    calls = [0]

    def smaller(a, b):
        return (len(a), a) < (len(b), b)

    def attempt(candidate):
        nonlocal best
        if not smaller(candidate, best):
            return False
        key = tuple(candidate)
        if key in seen or time.time() > deadline or calls[0] >= max_calls:
            return False
        seen.add(key)
        calls[0] += 1
        used = interesting(candidate)
        if used is None:
            return False
        best = used if smaller(used, best) else candidate
        return True

    improved = True
    while improved and time.time() < deadline and calls[0] < max_calls:
        improved = False
        for size in (32, 16, 8, 4, 3, 2, 1):  # delete chunks
            i = len(best) - size
            while i >= 0:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                elif i > 0 and best[i - 1] > 0 and attempt(best[:i - 1] + [best[i - 1] - 1] + best[i + size:]):
                    improved = True
                i -= 1
                i = min(i, len(best) - size)
        for size in (16, 8, 4, 2):  # zero chunks
            i = len(best) - size
            while i >= 0:
                if any(best[i:i + size]) and attempt(best[:i] + [0] * size + best[i + size:]):
                    improved = True
                i -= size
                i = min(i, len(best) - size)
        i = len(best) - 1
        while i >= 0:  # minimise single choices
            i = min(i, len(best) - 1)
            if i < 0:
                break
            if best[i] > 0:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                else:
                    low, high = 0, best[i]
                    while high - low > 1 and i < len(best):
                        mid = (low + high) // 2
                        if attempt(best[:i] + [mid] + best[i + 1:]):
                            improved = True
                            high = best[i] if i < len(best) else mid
                        else:
                            low = mid
            i -= 1
    return best


def make_rng(seed):
    return random.Random(seed)
