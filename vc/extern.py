"""Models (assumed contracts) of the frameworks: torch.nn.Module, tf.Module, importlib, ..."""
import z3
from . import smt
from .values import *
from .interp import MISSING
from .libs import nat
from .builtins_model import mktype, StrCat


class Holder:
    def __init__(self, **k):
        self.__dict__.update(k)


def nn_module(I):
    """torch.nn.Module: buffers are kept in registration order under distinct names and readable as attributes"""
    cls = VClass('Module', [I.object_cls])

    def init(I, a, k):
        o = a[0]
        I.touch(o)
        o.attrs['_buffers'] = VDict()
        o.attrs['training'] = True

    def buffers(I, o):
        b = o.attrs.get('_buffers')
        if b is None:
            raise I.exc('AttributeError', 'cannot assign buffer before Module.__init__() call')
        return b

    def register_buffer(I, a, k):
        o, name, t = a[0], a[1], a[2] if len(a) > 2 else k['tensor']
        h = getattr(I, 'buffer_hook', None)
        if h is not None:
            h(I, o, name, t)
        if 'persistent' in k and k['persistent'] is not True:
            I.notes.append('non-persistent buffer')
            I.nonpersistent = True
        d = buffers(I, o)
        I.setitem(d, name, t)

    def named_buffers(I, a, k):
        o = a[0]
        return I.call(I.getattr(buffers(I, o), 'items'))

    cls.ns['__init__'] = nat('Module.__init__', init)
    cls.ns['register_buffer'] = nat('Module.register_buffer', register_buffer)
    cls.ns['named_buffers'] = nat('Module.named_buffers', named_buffers)
    cls.ns['buffers'] = nat('Module.buffers', lambda I, a, k: I.call(I.getattr(buffers(I, a[0]), 'values')))

    def call(I, a, k):
        return I.call(I.getattr(a[0], 'forward'), a[1:], k)
    cls.ns['__call__'] = nat('Module.__call__', call)

    class H:
        @staticmethod
        def getattr(I, o, name):
            b = o.attrs.get('_buffers')
            if isinstance(b, VDict) and isinstance(name, str) and name in b.items:
                return b.items[name]
            return MISSING
    cls.native = H()
    return cls


def autograd_function(I):
    """torch.autograd.Function: apply(x) runs forward with a fresh context; save_for_backward / saved_tensors"""
    cls = VClass('Function', [I.object_cls])
    ctx_cls = VClass('FunctionCtx', [I.object_cls])

    def save(I, a, k):
        a[0].attrs['saved_tensors'] = tuple(a[1:])
    ctx_cls.ns['save_for_backward'] = nat('save_for_backward', save)

    def apply(I, a, k):
        c, args = a[0], a[1:]
        ctx = VObj(ctx_cls)
        r = I.call(I.getattr(c, 'forward'), [ctx] + list(args), k)
        log = getattr(I, 'autograd_log', None)
        if log is not None:
            log.append((c, ctx, list(args), r))
        return r
    cls.ns['apply'] = VClsM(nat('Function.apply', apply))
    cls.ctx_cls = ctx_cls
    return cls


def tf_module(I):
    cls = VClass('Module', [I.object_cls])

    def init(I, a, k):
        o = a[0]
        I.touch(o)
        o.attrs['_name'] = k.get('name', a[1] if len(a) > 1 else None)
        if isinstance(o.attrs['_name'], str) and not o.attrs['_name'].isidentifier():
            raise I.exc('ValueError', 'not a valid module name')
    cls.ns['__init__'] = nat('tf.Module.__init__', init)
    cls.ns['with_name_scope'] = VStatic(nat('with_name_scope', lambda I, a, k: a[0]))
    cls.ns['name'] = VProp(nat('name', lambda I, a, k: I.getattr(a[0], '_name')))
    return cls


def dims_of(I, x):
    if not hasattr(x, 'shape'):
        raise I.exc('ValueError', 'Attempt to convert a value with an unsupported type to a Tensor.')
    return x.shape


def framework_functions(I, t, tf):
    """the few torch / tensorflow functions the frontends call directly on tensors"""
    from .atensor import AT, AStack

    def is_tensor(I, a, k):
        return isinstance(a[0], (AT, AStack)) and getattr(a[0], 'framework', None) in (None, 'torch')
    t.attrs['is_tensor'] = nat('torch.is_tensor', is_tensor)

    def name_scope(I, a, k):
        o = VObj(VClass('name_scope', [I.object_cls]))
        o.cls.ns['__enter__'] = nat('__enter__', lambda I, a, k: 'scope')
        o.cls.ns['__exit__'] = nat('__exit__', lambda I, a, k: False)
        return o
    tf.attrs['name_scope'] = nat('tf.name_scope', name_scope)

    def convert(I, a, k):
        x = a[0]
        if isinstance(x, (AT, AStack)):
            return x
        if x is None or isinstance(x, VObj):
            raise I.exc('ValueError', 'Attempt to convert a value with an unsupported type to a Tensor.')
        raise Unsupported('tf.convert_to_tensor(%r)' % (x,))
    tf.attrs['convert_to_tensor'] = nat('tf.convert_to_tensor', convert)
    tf.attrs['shape'] = nat('tf.shape', lambda I, a, k: dims_of(I, a[0]))

    def concat(I, a, k):
        vals, axis = a[0], a[1] if len(a) > 1 else k.get('axis')
        out = ()
        for v in I.domain(vals):
            if not isinstance(v, (tuple, VList)):
                raise Unsupported('tf.concat of %r' % (v,))
            out += tuple(v if isinstance(v, tuple) else v.items)
        if axis != 0:
            raise Unsupported('tf.concat of shapes along axis %r' % (axis,))
        return out
    tf.attrs['concat'] = nat('tf.concat', concat)

    def reshape(I, a, k):
        x, new = a[0], a[1] if len(a) > 1 else k['shape']
        return I.call(I.getattr(x, 'reshape'), [tuple(new) if isinstance(new, tuple) else new])
    tf.attrs['reshape'] = nat('tf.reshape', reshape)


def install(I):
    t = NatModule('torch')
    nn = NatModule('torch.nn')
    nn.attrs['Module'] = nn_module(I)
    t.attrs['nn'] = nn
    I.natives['torch'] = t
    I.natives['torch.nn'] = nn
    ag = NatModule('torch.autograd')
    ag.attrs['Function'] = autograd_function(I)
    t.attrs['autograd'] = ag
    I.natives['torch.autograd'] = ag
    tf = NatModule('tensorflow')
    tf.attrs['Module'] = tf_module(I)
    I.natives['tensorflow'] = tf
    framework_functions(I, t, tf)
    j = NatModule('jax')
    I.natives['jax'] = j
    il = NatModule('importlib')

    def import_module(I, a, k):
        from .symstr import SStr, concrete_str
        name = concrete_str(I, a[0]) if isinstance(a[0], SStr) else a[0]
        if not isinstance(name, str):
            raise Unsupported('import of a symbolic module name')
        if name.startswith('.'):
            raise Unsupported('relative import_module')
        h = getattr(I, 'import_hook', None)
        if h is not None:
            r = h(I, name)
            if r is not None:
                return r
        return I.load(name)
    sklearn_models(I)
    keras_models(I)
    il.attrs['import_module'] = nat('importlib.import_module', import_module)
    I.natives['importlib'] = il


# ---------------------------------------------------------------- scikit-learn, Keras
def sklearn_models(I):
    m = NatModule('sklearn.base')
    for n in ('BaseEstimator', 'TransformerMixin'):
        m.attrs[n] = VClass(n, [I.object_cls])
    I.natives['sklearn'] = NatModule('sklearn')
    I.natives['sklearn.base'] = m


class TShape:
    """tf.TensorShape"""

    def __init__(self, dims):
        self.dims = tuple(dims)

    def getattr_(self, I, n):
        if n == 'as_list':
            return Native('as_list', lambda I, a, k: VList(list(self.dims)))
        if n in ('rank', 'ndims'):
            return I.length(self.dims)
        return MISSING

    def domain_(self, I):
        return list(self.dims)

    def getitem_(self, I, i):
        r = I.getitem(self.dims, i)
        return TShape(r) if isinstance(r, tuple) else r

    def len_(self, I):
        return I.length(self.dims)

    def subst_(self, pairs, memo):
        return self

    def mentions_(self, sym):
        return False


def keras_models(I):
    def dims(v):
        return v.dims if isinstance(v, TShape) else tuple(I.domain(v))
    ts = NatModule('tensorflow.python.framework.tensor_shape')
    ts.attrs['TensorShape'] = Native('TensorShape', lambda I, a, k: TShape(dims(a[0])))
    I.natives['tensorflow.python.framework.tensor_shape'] = ts
    I.natives['tensorflow'].attrs['TensorShape'] = ts.attrs['TensorShape']
    fr = NatModule('tensorflow.python.framework')
    fr.attrs['tensor_shape'] = ts
    I.natives['tensorflow.python.framework'] = fr
    cls = VClass('Layer', [I.object_cls])

    def init(I, a, k):
        I.touch(a[0])
        a[0].attrs['built'] = False

    def build(I, a, k):
        I.touch(a[0])
        a[0].attrs['built'] = True

    def call(I, a, k):
        o, x = a[0], a[1]
        if o.attrs.get('built') is not True:
            I.call(I.getattr(o, 'build'), [x.shape])
        return I.call(I.getattr(o, 'call'), a[1:], k)
    for n, f in (('__init__', init), ('build', build), ('__call__', call)):
        cls.ns[n] = nat('Layer.' + n, f)
    L = NatModule('tensorflow.keras.layers')
    L.attrs['Layer'] = cls
    K = NatModule('tensorflow.keras')
    K.attrs['layers'] = L
    I.natives['tensorflow'].attrs['keras'] = K
    I.natives['tensorflow.keras'] = K
    I.natives['tensorflow.keras.layers'] = L
