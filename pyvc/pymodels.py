"""Python definitions of library functions, interpreted like any other code."""
__pyvc__ = True

def first(it, default):
    for x in it:
        return x
    return default

def first_or_stop(it):
    for x in it:
        return x
    raise StopIteration
