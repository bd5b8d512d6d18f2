def splprep(x, **kw):
    t = __opaque__("splprep", x, kw)
    return ((t, __opaque__("splprep_u", x, kw)), __opaque__("splprep_fp", x), __opaque__("splprep_ier", x), __opaque__("splprep_msg", x))


def splev(u, tck, der=0, ext=0):
    return [__opaque_array__("splev0", len(u), u, tck), __opaque_array__("splev1", len(u), u, tck)]
