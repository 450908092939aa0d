class StubGap(Exception):
    """The code under test used a library feature the stand-in does not model: no verdict possible."""


def module_getattr(name):
    def __getattr__(attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        raise StubGap("%s.%s" % (name, attr))
    return __getattr__
