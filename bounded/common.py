"""Shared helpers of the bounded stand-ins."""
import os
import shutil
import tempfile


def config(**over):
    """Default configuration with document options overridden: config(document={'sec-num-depth': 3})."""
    from plasTeX.Config import defaultConfig
    c = defaultConfig()
    for sec, d in over.items():
        for k, v in d.items():
            c[sec][k] = v
    return c


def parse(src, conf=None, before=None):
    from plasTeX import TeXDocument
    from plasTeX.TeX import TeX
    doc = TeXDocument(config=conf) if conf is not None else TeXDocument()
    tex = TeX(doc)
    if before:
        before(doc, tex)
    tex.input(src)
    tex.parse()
    return doc


def text(n):
    return str(n.textContent)


class scratch:
    """Fresh scratch directory, current directory while inside."""
    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='dvb')
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


def list_shrinks(x):
    """Smaller variants of a JSON tree: drop list elements, recurse."""
    if isinstance(x, list):
        for i in range(len(x)):
            yield x[:i] + x[i + 1:]
        for i in range(len(x)):
            for y in list_shrinks(x[i]):
                yield x[:i] + [y] + x[i + 1:]
    elif isinstance(x, dict):
        for k in x:
            for y in list_shrinks(x[k]):
                d = dict(x)
                d[k] = y
                yield d
