_log = []
_meshes = []


def triangulate(opts="", **args):
    _log.append((opts, args))
    return dict(_meshes[len(_log) - 1])
