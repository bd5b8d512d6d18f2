_saved = []
_files = []          # libraries returned by load, set by the harness


class Library(list):
    def __init__(self, version, name, physical_unit, logical_unit, mod_time=None, acc_time=None):
        list.__init__(self)
        self.version = version
        self.name = name
        self.physical_unit = physical_unit
        self.logical_unit = logical_unit

    @classmethod
    def load(cls, fil):
        return _files[0]

    def save(self, fil):
        _saved.append(self)
