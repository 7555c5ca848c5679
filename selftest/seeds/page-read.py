PROP = "C22"
NEEDS = "a cache with eviction in which the page of one block of a file went to a later block of the same file, then a partial overwrite or a read of the first block"
BREAKS = "the first block is taken for cached in a page that holds another block, and its synchronised bytes are not those read"
EDITS = [(E, '''    return p->is_page_owner (content_owner_id) && (*p).contains_block (block_id);
''', '''    return p->is_page_owner (content_owner_id);
''')]
DEMO = '''
def read_own_block():
    with FS(manual="io_block_size=4096\\npage_size=4096\\nno_pages=8", eviction=True) as f:
        for partial in (False, True):
            n = "/a%d" % partial
            a = f.create(n)
            for i in range(16):
                f.write(a, i * 4096, bytes([65 + i]) * 4096)
                f.fsync(a)
            if partial:
                f.write(a, 10, b"x" * 20)
            got = f.read(a, 0, 4096)
            want = b"A" * 4096
            if partial:
                want = want[:10] + b"x" * 20 + want[30:]
            assert got == want, (partial, len(got), got[:12], got[-4:])
            f.close(a)

main(read_own_block)
'''
