options = {}
