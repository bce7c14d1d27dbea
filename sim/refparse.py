"""Independent reading of the library's text files, strict about completeness.

Each function returns (complete, value): complete is False when the file doesn't
hold everything its first line promises; then no reader may take it as a frame.
"""


def _int(tok):
    v = float(tok)
    if v != int(v):
        raise ValueError(tok)
    return int(v)


def _rows(data, width):
    """(n, rows, trailing) of a counted file, or None when it is incomplete."""
    if data is None:
        return None
    text = data.decode("utf-8", errors="replace")
    # a tail that was never written reads as NULs; what precedes them counts
    cut = text.find("\0")
    if cut >= 0:
        text = text[:cut]
    lines = text.split("\n")
    try:
        n = int(lines[0].strip())
    except ValueError:
        return None
    if n < 0:
        return None
    rows = []
    for line in lines[1 : n + 1]:
        tok = line.split()
        if len(tok) != width:
            return None
        try:
            rows.append([float(t) for t in tok])
        except ValueError:
            return None
    if len(rows) != n:
        return None
    return n, rows


def targets(data):
    r = _rows(data, 8)
    if r is None:
        return None
    try:
        return [
            [_int(x[0]), x[1], x[2]] + [_int(t) for t in x[3:]] for x in r[1]
        ]
    except ValueError:
        return None


def path(corres, linkage=None, prio=None, links=False, prios=False):
    """Rows of [x, y, z, p0..p3, prev, next, prio], or None."""
    c = _rows(corres, 8)
    if c is None:
        return None
    n = c[0]
    out = []
    lrows = prows = None
    if links:
        r = _rows(linkage, 5)
        if r is None or r[0] != n:
            return None
        lrows = r[1]
    if prios:
        r = _rows(prio, 6)
        if r is None or r[0] != n:
            return None
        prows = r[1]
    try:
        for i, x in enumerate(c[1]):
            out.append(
                x[1:4]
                + [_int(t) for t in x[4:]]
                + ([_int(lrows[i][0]), _int(lrows[i][1])] if links else [-1, -2])
                + [_int(prows[i][5]) if prios else 4]
            )
    except ValueError:
        return None
    return out
