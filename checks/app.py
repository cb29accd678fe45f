"""scenarios that load whole documents through an application"""
from .objs import *  # noqa

APP = '''
import weakref
from pyopenapi.migration.base import ApiBase
from pyopenapi.migration.getter import Getter
from pyopenapi.migration.resolve import Resolver
from pyopenapi.migration.versions.v1_2 import objects as o12
from pyopenapi.migration.versions.v2_0 import objects as o20
from pyopenapi.migration.versions.v3_0_0 import objects as o30

class Source(Getter):
    """hands out the documents of the scenario, and keeps a log"""
    docs = {}
    log = []
    def __init__(self, path):
        super(Source, self).__init__(path)
        self.urls = [path]
    def load(self, path):
        self.log.append(path)
        return self.docs[path]

class App(ApiBase):
    def __init__(self, url, docs, hook=None, sep='!##!'):
        class Src(Source):
            pass
        Src.docs = docs
        Src.log = []
        self.src = Src
        self.prepared = []
        super(App, self).__init__(url, resolver=Resolver(hook, Src), sep=sep)
    def prepare_obj(self, obj, jref):
        self.prepared.append((obj, jref))
        return obj

def load(app, url, to='3.0.0'):
    obj = app.load_obj(url)
    return app.migrate_obj(obj, url, to)
'''


def app_lab(ck):
    L = ck.lab
    if not getattr(ck, '_app', None):
        L.load('scenario_app', APP)
        ck._app = True
    return L


def fn(ck, name):
    L = app_lab(ck)
    m = L.I.import_module('scenario_app')
    return L.base.get(L.base.get(m.id).env).vars[name]


def start(ck, docs, url, to='3.0.0', hook=None, sep=None):
    """-> state, application, what loading gives"""
    L = app_lab(ck)
    st = L.S()
    kw = {}
    if hook is not None:
        kw['hook'] = hook
    if sep is not None:
        kw['sep'] = sep
    app = L.sure(L.call(st, fn(ck, 'App'), url, docs, **kw), 'creating an app')
    out = L.call(st, fn(ck, 'load'), app, url, to)
    return st, app, out
