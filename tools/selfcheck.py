"""setup_cmd: make sure the framework can run here (nothing is built outside /tmp)."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
sys.dont_write_bytecode = True
import bv, reader
os.makedirs(V + '/evidence', exist_ok=True)
for t in ('git', 'make', 'gcc', 'clang', 'par2', 'strace', 'setfacl'):
    if not shutil.which(t, path='/opt/vp/bin:' + os.environ.get('PATH', '/usr/bin:/bin')):
        print('note: %s not found' % t)
