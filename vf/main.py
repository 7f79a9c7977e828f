import os
import shutil
import sys
import tempfile

if __name__ == '__main__':
    # All file effects of the code under test stay in this scratch folder
    scratch = tempfile.mkdtemp(prefix='vf_scratch.')
    os.environ['VF_SCRATCH'] = scratch
    os.environ['TMPDIR'] = scratch
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.environ['HOME'] = scratch
    os.makedirs(os.environ['MPLCONFIGDIR'])
    tempfile.tempdir = None
    rc = 3
    try:
        from vf.core import main
        rc = main(sys.argv[1:])
    except BaseException:
        import traceback
        traceback.print_exc()
        print('HARNESS-ERROR')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
