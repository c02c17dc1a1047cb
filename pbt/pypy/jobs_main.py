"""Runs fbuild's own command in the current process."""
import io
import os
import sys
import traceback


def run_main(argv):
    """(exit status, error text) of the fbuild command in the current directory."""
    sys.argv = list(argv)
    sys.path_importer_cache.clear()
    # the script's directory comes first, as for an installed command
    sys.path[:] = [p for p in sys.path if p not in ('', os.getcwd())]
    try:
        import fbuild.main
        res = fbuild.main.main()
    except SystemExit as e:
        res = e.code
        if res is not None and not isinstance(res, int):
            print(res, file=sys.stderr)
            return 1, str(res)
    except BaseException:
        traceback.print_exc()
        return 1, traceback.format_exc()
    if res is None:
        return 0, ''
    if isinstance(res, int):
        return res & 0xff, ''
    return 1, repr(res)
