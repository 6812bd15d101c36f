# The compiled modules are not needed for the pure Python properties: replace them by stand-ins,
# so that the real Python sources can be imported without a build.
import os, sys, types
if os.environ.get('VERIF_STUB'):
    class _M(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return type(name, (), {})
    for _n in ('_io', '_image'):
        sys.modules['stempy.' + _n] = _M('stempy.' + _n)
