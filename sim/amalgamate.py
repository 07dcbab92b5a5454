"""Amalgamates /repo/src into one coco.c the way the project's own build does
(each quoted include inlined once, in order)."""
import os, re

CORE = ["coco_random.c", "coco_suite.c", "coco_observer.c", "coco_archive.c", "coco_version.c", "coco_runtime_c.c"]
INC = re.compile(r'^\s*#\s*include\s+"(.*)"')

def amalgamate(srcdir, roots, out):
    done = set()
    with open(out, "w", encoding="utf-8") as fo:
        def emit(path):
            path = os.path.realpath(path)
            if path in done:
                return
            done.add(path)
            if not os.path.exists(path) and os.path.basename(path) == "coco_version.c":
                fo.write('const char *coco_version = "sim";\n')
                return
            fo.write('#line 1 "%s"\n' % path)
            with open(path, encoding="utf-8", errors="surrogateescape") as fi:
                for n, line in enumerate(fi, 1):
                    m = INC.match(line)
                    if m:
                        emit(os.path.join(os.path.dirname(path), m.group(1)))
                        fo.write('#line %d "%s"\n' % (n + 1, path))
                    else:
                        fo.write(line.encode("utf-8", "surrogateescape").decode("utf-8", "replace")
                                 if "\udc80" <= max(line, default="") <= "\udcff" else line)
        for r in roots:
            emit(os.path.join(srcdir, r))
    return sorted(done)

if __name__ == "__main__":
    import sys
    amalgamate(sys.argv[1], CORE, sys.argv[2])
