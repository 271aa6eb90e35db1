"""Helper for edits: sub(path, [(old, new), ...])."""
def sub(p, pairs):
    s = open(p).read()
    for a, b in pairs:
        assert s.count(a) >= 1, (p, a)
        s = s.replace(a, b, 1)
    open(p, 'w').write(s)
