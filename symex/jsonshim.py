"""The json module for symbolic values: a document carries its value."""
import json

from .core import Unsupported, SymInt, SymBool, SymReal, SymStr
from . import core


class JsonText(str):
    """a JSON document; equal text is not modelled, only what it encodes"""

    def __new__(cls, value):
        o = str.__new__(cls, '{"symbolic": true}')
        o.value = value
        return o

    def __add__(self, other):
        if isinstance(other, str) and not other.strip():
            return self
        raise Unsupported('text appended to a JSON document')

    def strip(self, *a):
        return self

    rstrip = lstrip = strip

    def encode(self, *a, **k):
        raise Unsupported('bytes of a symbolic JSON document')


def key(k):
    if isinstance(k, str):
        return k
    if isinstance(k, (SymInt, SymBool, SymReal, SymStr)):
        if isinstance(k, SymInt) and not k.np:
            return str(int(k))
        raise Unsupported('symbolic key of a JSON object')
    if k is True:
        return 'true'
    if k is False:
        return 'false'
    if k is None:
        return 'null'
    if isinstance(k, int) and type(k) is int:
        return str(k)
    if isinstance(k, float):
        return repr(k)
    raise TypeError('keys must be str, int, float, bool or None, not ' +
                    type(k).__name__)


class Json(object):
    def __init__(self, env):
        self.env = env
        self.JSONDecodeError = json.JSONDecodeError

    def value(self, x, kw, seen=()):
        """what is read back, or the exception of dumping"""
        if id(x) in seen:
            raise ValueError('Circular reference detected')
        if isinstance(x, dict):
            s = seen + (id(x),)
            out = {}
            it = list(x.items())
            if kw.get('sort_keys'):
                it.sort(key=lambda kv: kv[0])
            for k, v in it:
                out[key(k)] = self.value(v, kw, s)
            return out
        if isinstance(x, (list, tuple)):
            s = seen + (id(x),)
            return [self.value(v, kw, s) for v in x]
        if not self.env.jsonable(x):
            if kw.get('default') is not None:
                return self.value(kw['default'](x), kw, seen + (id(x),))
            raise TypeError('Object of type %s is not JSON serializable' %
                            type(x).__name__)
        return x

    def dumps(self, obj, **kw):
        if kw.get('cls') is not None:
            raise Unsupported('JSON encoder class')
        return JsonText(self.value(obj, kw))

    def dump(self, obj, fp, **kw):
        fp.write(self.dumps(obj, **kw))

    def loads(self, s, **kw):
        if kw:
            raise TypeError('unexpected keyword %s' % sorted(kw)[0]
                            ) if 'encoding' in kw else Unsupported(
                                'options of json.loads')
        if isinstance(s, JsonText):
            return self.value(s.value, {})
        return json.loads(s)

    def load(self, fp, **kw):
        return self.loads(fp.read(), **kw)
