class Structure(list):
    def __init__(self, name, mod_time=None, acc_time=None):
        list.__init__(self)
        self.name = name
