"""Reads documents (length in decimal, newline, bytes) and writes what the Python parser makes of
each, in the compliance form, framed the same way. Argument: the directory of the package."""

import sys

sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from styx.compliance import format_document, format_error
from styx.parser import Parser
from styx.types import ParseError


def work(text):
    try:
        return format_document(Parser(text).parse())
    except ParseError as e:
        return format_error(e)
    except RecursionError:
        return '(deep)'
    except Exception as e:
        m = repr(e).replace("\\", "/").replace('"', "'")
        return f'(crash "{m}")'


while line := sys.stdin.buffer.readline():
    text = sys.stdin.buffer.read(int(line)).decode()
    r = work(text).encode("utf-8", "backslashreplace")
    sys.stdout.buffer.write(b"%d\n" % len(r) + r)
    sys.stdout.buffer.flush()
