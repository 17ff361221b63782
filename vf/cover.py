"""Record which lines of quickly are run: set VF_COVER to a file name; see tools/cover.py."""
import os
import sys


def start(name, folder):
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    fd = os.open(name, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    folder = os.path.join(folder, 'quickly') + os.sep

    def line(code, n):
        if code.co_filename.startswith(folder):
            os.write(fd, '{}:{}\n'.format(code.co_filename[len(folder):], n).encode())
        return mon.DISABLE

    mon.use_tool_id(tool, 'vf')
    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.LINE)
