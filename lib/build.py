"""Mirror /repo's working tree into /verif/build/src and build it (clang + AddressSanitizer).

The mirror is refreshed by content (rsync --checksum), so what is built is always exactly
what /repo contains now.  A file lock serialises concurrent builds.
"""
import fcntl
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
SRC = os.path.join(BUILD, 'src')
OBJ = os.path.join(BUILD, 'obj')
WORKER = os.path.join(OBJ, 'src/main/lighttpd2-worker')
ANGEL = os.path.join(OBJ, 'src/angel/lighttpd2')
ANGEL = os.path.join(OBJ, 'src/angel/lighttpd2')
MODDIR = os.path.join(OBJ, 'src/modules')
HARNESS = os.path.join(BUILD, 'harness')


class BuildError(Exception):
    pass


def _run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode('utf-8', 'replace')[-6000:])
        raise BuildError('command failed: %r' % (cmd,))
    return p.stdout


def _env():
    env = dict(os.environ)
    env['CC'] = 'clang'
    env.pop('CFLAGS', None)
    env.pop('LDFLAGS', None)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PATH'] = '/usr/sbin:/usr/bin:/sbin:/bin:' + env.get('PATH', '')
    return env


def build(harness=True):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        _run(['rsync', '-rlc', '--delete', '--exclude', '/_build', '--exclude', '/.git',
              '--exclude', '__pycache__', REPO + '/', SRC + '/'])
        env = _env()
        if not os.path.exists(os.path.join(OBJ, 'build.ninja')):
            subprocess.run(['rm', '-rf', OBJ])
            _run(['meson', 'setup', OBJ, SRC, '--buildtype=debugoptimized', '--wrap-mode=nodownload',
                  '-Db_sanitize=address', '-Db_lundef=false', '-Dwerror=false', '-Dunwind=false'], env=env)
        _run(['ninja', '-C', OBJ], env=env)
        if harness:
            _build_harness(env)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build_harness(env):
    src = os.path.join(VERIF, 'harness', 'harness.c')
    if not os.path.exists(src):
        return
    cflags = subprocess.check_output(
        ['pkg-config', '--cflags', 'glib-2.0', 'gthread-2.0', 'gmodule-2.0', 'lua5.1']).decode().split()
    libs = subprocess.check_output(
        ['pkg-config', '--libs', 'glib-2.0', 'gthread-2.0', 'gmodule-2.0']).decode().split()
    inc = ['-I' + os.path.join(SRC, 'include'), '-I' + os.path.join(OBJ, 'include'),
           '-I' + os.path.join(SRC, 'src', 'modules')]
    main = os.path.join(OBJ, 'src/main')
    common = os.path.join(OBJ, 'src/common')
    _run(['clang', '-g', '-O1', '-std=gnu99', '-w', '-fsanitize=address', '-D_FILE_OFFSET_BITS=64',
          '-D_GNU_SOURCE', '-DHAVE_CONFIG_H', '-o', HARNESS + '.tmp', src] + inc + cflags +
         ['-L' + main, '-L' + common, '-llighttpd2-shared-2.0.0', '-llighttpd2-common-2.0.0',
          '-Wl,-rpath,' + main + ':' + common] + libs + ['-lev', '-lpthread', '-lm'], env=env)
    os.replace(HARNESS + '.tmp', HARNESS)


if __name__ == '__main__':
    build()
    print('built', OBJ)
