"""A module whose functions tell when they are called: they have no effect."""

FIRED = []


def fire(*args, **kw):
    FIRED.append(args)
    return "evaluated"


class Box:
    @staticmethod
    def fire(*args):
        return fire(*args)

    def __class_getitem__(cls, item):
        return fire(item)

    def __call__(self, *args):
        return fire(*args)


box = Box()
