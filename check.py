#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough]: exit 0 held, 1 VIOLATION."""
import os, sys, traceback, gc, glob, shutil, time, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.dont_write_bytecode = True
import runner
if __name__ == '__main__':
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    # z3's Python objects must not be released by a collection that happens to run in a helper thread: collect between units only
    gc.disable()
    def attempt():
        try:
            rc = runner.main(a[0], tier)
        except Exception:
            traceback.print_exc()
            p = os.path.join(runner.ROOT, 'evidence', 'replay-%s.txt' % a[0])
            open(p, 'w').write('the check could not decide the current source:\n' + traceback.format_exc())
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (a[0], p)); rc = 1
        sys.stdout.flush()
        os._exit(rc)
    t0 = time.time()
    for k in (0, 1):
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.environ['TGV_ELAPSED'] = str(time.time() - t0); attempt()
        def stop(sig, frm, pid=pid):
            try: os.kill(pid, signal.SIGKILL)
            except OSError: pass
            os._exit(128 + sig)
        signal.signal(signal.SIGTERM, stop); signal.signal(signal.SIGINT, stop)
        st = os.waitpid(pid, 0)[1]
        if os.WIFEXITED(st): os._exit(os.WEXITSTATUS(st))
        # the solver library crashed: clean up and run once more
        print('%s: the verifier process died with signal %d after %.0fs%s' % (a[0], os.WTERMSIG(st), time.time() - t0, '; running it again' if k == 0 else ''), flush=True)
        for d in glob.glob(os.path.join(runner.tempfile.gettempdir(), 'tgv-%d-*' % pid)): shutil.rmtree(d, ignore_errors=True)
        if time.time() - t0 > 350: break
    p = os.path.join(runner.ROOT, 'evidence', 'replay-%s.txt' % a[0])
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w').write('the verifier process died before it could decide the current source\n')
    print('VIOLATION property=%s replay=%s no-failing-input-found' % (a[0], p), flush=True)
    os._exit(1)
