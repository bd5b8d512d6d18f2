class Boundary(object):
    def __init__(self, layer, data_type, xy):
        self.layer = layer
        self.data_type = data_type
        self.xy = xy
        self.properties = None
        self.elflags = None
        self.plex = None


class Path(object):
    def __init__(self, layer, data_type, xy):
        self.layer = layer
        self.data_type = data_type
        self.xy = xy
        self.properties = None
        self.path_type = None
        self.width = None


class Text(object):
    def __init__(self, layer, text_type, xy, string):
        self.layer = layer
        self.text_type = text_type
        self.xy = xy
        self.string = string
        self.properties = None


class Node(object):
    def __init__(self, layer, node_type, xy):
        self.layer = layer
        self.node_type = node_type
        self.xy = xy
        self.properties = None
