"""stand-in for the progress bar, which is output only"""


class tqdm:
    def __init__(self, it=None, *a, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, *a):
        pass

    def close(self):
        pass
