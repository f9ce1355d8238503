"""Choosing and reading fault points from the log of a fault-free run."""
OPEN, READ, WRITE, SEEK, TRUNC, SYNC, CLOSE, UNLINK, RENAME = range(1, 10)
OTHER, DECK, MESH, OUT, LOG, CONTACT = range(6)

BY_OP = {
    OPEN: ["EACCES", "EMFILE", "ENOSPC", "EIO", "ENOENT", "EINTR"],
    READ: ["EIO", "EINTR"],
    WRITE: ["EIO", "ENOSPC", "TORN_ENOSPC", "TORN_EIO", "SHORT", "EINTR"],
    SEEK: ["EIO"],
    TRUNC: ["EIO", "ENOSPC"],
    SYNC: ["EIO", "ENOSPC"],
    CLOSE: ["EIO", "ENOSPC"],
    UNLINK: ["EACCES", "EIO"],
    RENAME: ["EACCES", "ENOSPC"],
}


def ops(run, rank, classes, kinds=None):
    """Indices of the file operations of one rank on files of some classes."""
    return [i for i, o in enumerate(run["ranks"][rank]["io"]) if o[1] in classes and (kinds is None or o[0] in kinds)]


def op(run, rank, i):
    return run["ranks"][rank]["io"][i]


def pick(lst, u):
    return lst[min(len(lst) - 1, int(u * len(lst)))]


def stride(lst, u, n):
    """About n of the entries, evenly spread, starting at a point chosen by u."""
    k = max(1, len(lst) // n)
    return lst[int(u * k) % k::k]
