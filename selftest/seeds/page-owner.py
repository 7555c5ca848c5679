PROP = "C22"
NEEDS = "a full cache with eviction, where a page went to the same block number of another file, and then an overwrite of that block of the first file"
BREAKS = "the overwrite of the first file's block lands in the page of the second file, whose contents change"
EDITS = [(E, '''                page_requested_ptr->is_page_owner (content_owner_id) &&
                page_requested_ptr->contains_block (blk_id)) {
''', '''                page_requested_ptr->contains_block (blk_id)) {
''')]
DEMO = '''
def own_pages():
    with FS(manual="io_block_size=4096\\npage_size=4096\\nno_pages=8", eviction=True) as f:
        a = f.create("/a")
        for i in range(8):
            f.write(a, i * 4096, b"a" * 4096)
        f.fsync(a)
        b = f.create("/b")
        for i in range(8):
            f.write(b, i * 4096, b"b" * 4096)
        f.fsync(b)
        f.write(a, 0, b"X" * 4096)
        got = f.read(b, 0, 4096)
        assert got == b"b" * 4096, ("b", got[:8])
        got = f.read(a, 0, 4096)
        assert got == b"X" * 4096, ("a", got[:8])
        f.close(a)
        f.close(b)

main(own_pages)
'''
