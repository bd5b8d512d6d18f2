"""tvtk.api: readers of gridded data (semantics of VTK's legacy StructuredPoints).
CONTENT maps a file name to (dimensions, origin, spacing, [(name, tuples)])
where tuples is an (N, components) array (N,) for scalars), x fastest."""
CONTENT = {}


class _Array(object):
    def __init__(self, name, data):
        self.name = name
        self._data = data
        self.number_of_components = data.shape[1] if data.ndim == 2 else 1
        self.number_of_tuples = data.shape[0]

    def to_array(self):
        return self._data


class _PointData(object):
    def __init__(self, arrays):
        self._arrays = arrays
        self.number_of_arrays = len(arrays)

    def get_array_name(self, i):
        return self._arrays[i].name

    def get_array(self, i):
        if isinstance(i, str):
            for a in self._arrays:
                if a.name == i:
                    return a
            return None
        return self._arrays[i]


class _Grid(object):
    def __init__(self, dimensions, origin, spacing, arrays):
        self.dimensions = dimensions
        self.origin = origin
        self.spacing = spacing
        self.point_data = _PointData([_Array(n, a) for n, a in arrays])


class _Reader(object):
    def __init__(self, file_name=""):
        self.file_name = file_name
        self._out = None

    def update(self):
        d, o, s, a = CONTENT[self.file_name]
        self._out = _Grid(d, o, s, a)

    def get_output(self):
        if self._out is None:
            return _Grid((0, 0, 0), (0., 0., 0.), (1., 1., 1.), [])
        return self._out

    output = property(get_output)


class _Tvtk(object):
    StructuredPointsReader = _Reader


tvtk = _Tvtk()
