PROP = "C23"
NEEDS = "writes while the cache has no room left and eviction is off"
BREAKS = "each write into a full cache leaves a descriptor open"
EDITS = [(L, '''        close (fd_caching);
''', '''        if (!cache_full)
            close (fd_caching);
''')]
DEMO = '''
import os
B = 4096

def no_descriptor_is_left():
    with FS(manual="io_block_size=4096\\npage_size=4096\\nno_pages=8") as f:
        h = f.create("/a")
        fds = "/proc/%d/fd" % f.proc.pid
        for i in range(12):
            f.write(h, i * B, b"x" * B)
        before = len(os.listdir(fds))
        for i in range(12, 40):
            f.write(h, i * B, b"y" * B)
        after = len(os.listdir(fds))
        assert after <= before + 1, (before, after)
        f.close(h)

main(no_descriptor_is_left)
'''
