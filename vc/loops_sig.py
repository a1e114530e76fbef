class NeedPeel(Exception):
    """a loop body reads a variable that is None before the first iteration and a tensor afterwards"""

    def __init__(self, c):
        self.c = c
