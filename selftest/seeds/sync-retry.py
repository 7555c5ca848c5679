PROP = "C09"
NEEDS = "a write-back that is cut short by a file size limit, then another fsync after the limit is lifted"
BREAKS = "after a short write-back the blocks count as clean, so the repeated fsync succeeds without writing them"
EDITS = [(E, '''                new_iterate_blocks.insert ({cit->first, cit->second});''', '''                new_iterate_blocks.insert ({cit->first, cit->second}).first->second = cit->second,
                pptr->set_page_as_dirty (false);''')]
DEMO = '''
B = 4096
import resource
import sys

def retried_fsync():
    # python ignores SIGXFSZ, and what it executes inherits that
    with FS(wrapper=[sys.executable, "-c", "import os,sys; os.execvp(sys.argv[1], sys.argv[1:])"]) as f:
        h = f.create("/a")
        for i in range(4):
            f.write(h, i * B, bytes([65 + i]) * B)
        pid = f.proc.pid
        resource.prlimit(pid, resource.RLIMIT_FSIZE, (2 * B + 100, resource.RLIM_INFINITY))
        try:
            f.fsync(h)
            failed = False
        except OSError:
            failed = True
        resource.prlimit(pid, resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        assert failed
        f.fsync(h)
        want = b"".join(bytes([65 + i]) * B for i in range(4))
        assert f.backing("/a") == want, "lost after retry"
        f.close(h)

main(retried_fsync)
'''
