def scaled(v):
    """Adds to every inexact float its value in 1e-5."""
    if isinstance(v, list):
        if len(v) == 2 and v[0] == "flit":
            x = float(v[1]) * 1e5
            return v + [round(x) if abs(x) < 2e9 else 2 * 10 ** 9]
        return [scaled(x) for x in v]
    return v
