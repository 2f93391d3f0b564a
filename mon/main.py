import os
import sys
import traceback

from mon import core

if __name__ == '__main__':
    me = os.getpid()
    try:
        code = core.main(sys.argv[1:])
    except SystemExit as e:
        code = 3 if e.code else 0
    except BaseException:
        traceback.print_exc()
        code = 3
    finally:
        if os.getpid() == me:
            for pid in core.tree_of(me, core.proc_table())[1:]:
                try:
                    os.kill(pid, 9)
                except OSError:
                    pass
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
