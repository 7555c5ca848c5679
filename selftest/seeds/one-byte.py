PROP = "C10"
NEEDS = "a write of exactly the first byte of a block that was not cached"
BREAKS = "the byte is not recorded as readable in its page, so an fsync writes nothing for that block"
EDITS = [(E, '''    if (page_ptr->is_page_owner (cid)) {
        page_ptr->make_block_readable_to (block_id, offset);''', '''    if (page_ptr->is_page_owner (cid) && offset > 0) {
        page_ptr->make_block_readable_to (block_id, offset);''')]
DEMO = '''
def one_byte():
    with FS(manual="io_block_size=4096\\npage_size=4096\\nno_pages=64") as f:
        for n in (1, 2, 4096, 4097, 8193):
            h = f.create("/f%d" % n)
            f.write(h, 0, b"d" * n)
            f.fsync(h)
            f.close(h)
            got = open(f.root + "/f%d" % n, "rb").read()
            assert got == b"d" * n, (n, len(got), got[-3:])

main(one_byte)
'''
