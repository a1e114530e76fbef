from common import *
import tempfile, shutil
from kymatio import caching


def one(root, envset, env, given, name, pre, create, how):
    """everything happens below a scratch directory that is also the home and the working directory"""
    home = os.path.join(root, 'home')
    os.makedirs(home)
    os.environ['HOME'] = home
    os.environ.pop('KYMATIO_CACHE', None)
    if envset:
        os.environ['KYMATIO_CACHE'] = env
    base = given if given is not None else env if envset else os.path.join(home, 'kymatio_cache')
    at('KYMATIO_CACHE=%r cache_base_dir=%r name=%r directory %s create=%r %s' % (env if envset else None, given, name, 'exists' if pre else 'missing', create, how))
    f = caching.find_cache_base_dir(given) if how == 'positional' else caching.find_cache_base_dir(cache_base_dir=given)
    check(f == base, lambda: common_current() + ': base directory %r instead of %r' % (f, base))
    want = os.path.join(base, name)
    if os.path.exists(want):
        pre = True
    elif pre and want:
        os.makedirs(want)
    if pre and want:
        open(os.path.join(want, 'keep.txt'), 'w').write('x')
    pre = os.path.exists(want)
    snap = listing(root)
    a, k = ([name, given, create], {}) if how == 'positional' else ([], dict(name=name, cache_base_dir=given, create=create))
    try:
        r = caching.get_cache_dir(*a, **k)
    except ValueError:
        check(not pre and not create, lambda: common_current() + ': ValueError')
        check(listing(root) == snap, lambda: common_current() + ': a rejected call created something')
        return
    except OSError:
        if want == '':
            return
        raise
    check(pre or create, lambda: common_current() + ': no ValueError')
    check(r == want, lambda: common_current() + ': returns %r instead of %r' % (r, want))
    if pre:
        check(listing(root) == snap, lambda: common_current() + ': an existing directory was touched')
    else:
        check(os.path.isdir(want), lambda: common_current() + ': the directory was not created')
        new = set(listing(root)) - set(snap)
        check(all((os.path.join(os.getcwd(), want) + '/').startswith(p.rstrip('/') + '/') for p in new), lambda: common_current() + ': created %s' % sorted(new))


def common_current():
    import common
    return common.CURRENT


def listing(root):
    out = []
    for d, ds, fs in os.walk(root):
        out += [os.path.join(os.path.realpath(d), x) for x in ds + fs]
    return sorted(out)


def sweep():
    i = 0
    for envset, e in ((False, ''), (True, 'env'), (True, 'env/deep/er'), (True, '~lit'), (True, '')):
        for g in (None, 'arg', 'arg/deep', '', '~arg'):
            for name in ('', 'mnist', 'a/b', 'sp ace', '~n', 'MNIST', 'a.b/', ' pad ', 'a\\b'):
                for pre in (False, True):
                    for create in (True, False):
                        for how in ('positional', 'keyword'):
                            root = os.path.realpath(tempfile.mkdtemp(prefix='c17_'))
                            old = os.getcwd()
                            try:
                                os.chdir(root)
                                one(root, envset, os.path.join(root, e) if e and not e.startswith('~') else e,
                                    os.path.join(root, g) if g and not g.startswith('~') else g, name, pre, create, how)
                            finally:
                                os.chdir(old)
                                shutil.rmtree(root)


run(sweep)
