"""Ghost objects used as arguments of functions under contract."""


class Tok(object):
    """an object nothing is known about, except what it was made from"""

    def __init__(self, *what):
        self.what = what

    def __repr__(self):
        return 'Tok%r' % (self.what,)
