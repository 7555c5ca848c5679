PROP = "C12"
NEEDS = "unsynchronised data, then a truncation to exactly one byte past a block boundary"
BREAKS = "the block that still holds the last byte of the file is dropped from the cache, and the byte with it"
EDITS = [(D, '''            } else if (blk_byte_index == 0) {
''', '''            } else if (blk_byte_index <= 1) {
''')]
DEMO = '''
def shrink_keeps_front():
    with FS(manual="io_block_size=4096\\npage_size=4096\\nno_pages=64") as f:
        for n in (4097, 5000, 4096, 1):
            h = f.create("/f%d" % n)
            f.write(h, 0, b"d" * 12000)
            f.truncate("/f%d" % n, n)
            got = f.read(h, 0, 12000)
            assert got == b"d" * n, (n, len(got), got[-3:])
            f.close(h)

main(shrink_keeps_front)
'''
