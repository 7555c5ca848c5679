PROP = "C22"
NEEDS = "a file truncated within a cached block and then synchronised or extended"
BREAKS = "the last byte that remains after a truncation is zeroed in the cache"
EDITS = [(E, "page->write_null_from (from_block_id, index_inside_block);", "page->write_null_from (from_block_id, index_inside_block > 1 ? index_inside_block : 0);")]
DEMO = '''
def cut():
    with FS(manual="io_block_size=4096\\npage_size=4096\\nno_pages=64") as f:
        for n in (1, 2, 100, 4097, 4096, 8193):
            h = f.create("/f%d" % n)
            f.write(h, 0, b"d" * 9000)
            f.truncate("/f%d" % n, n)
            got = f.read(h, 0, 9000)
            assert got == b"d" * n, (n, len(got), got[-3:])
            f.close(h)

main(cut)
'''
