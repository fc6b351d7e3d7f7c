"""Shared hypothesis building blocks (all produce JSON-able data)."""
from hypothesis import strategies as st


def ns(lo, hi, grid=1):
    """Multiples of `grid` ns as seconds."""
    return st.integers(-(-lo // grid), hi // grid).map(lambda k: round(k * grid * 1e-9, 12))


def weighted(*pairs):
    """weighted((w, strategy), ...)"""
    flat = []
    for w, s in pairs:
        flat += [s] * w
    return st.one_of(flat) if len(set(map(id, flat))) > 1 else flat[0]


def amp(lo=-1.0, hi=1.0):
    return st.one_of(
        st.sampled_from([a for a in (0.1, 0.25, 0.5, -0.3, 0.017, 0.9, -0.7) if lo <= a <= hi]),
        st.floats(lo, hi, allow_nan=False).map(lambda x: round(x, 4)),
    )


def op(c, **k):
    return {"t": "op", "c": c, "k": k}


pts = st.sampled_from([None, "start", "center", "end"])
