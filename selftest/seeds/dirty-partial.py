PROP = "C10"
NEEDS = "a block that is cached and already synchronised, then overwritten by a single byte and synchronised again"
BREAKS = "a one-byte overwrite of a synchronised block is not marked unsynchronised, so the next fsync skips it and it is lost"
EDITS = [(P, '''    this->set_page_as_dirty (true);

    memcpy (this->data + off_min''', '''    if (off_max > off_min)
        this->set_page_as_dirty (true);

    memcpy (this->data + off_min''')]
DEMO = '''
def partial_overwrite_is_synchronised():
    with FS(manual="io_block_size=4096\\npage_size=4096\\nno_pages=64") as f:
        h = f.create("/a")
        f.write(h, 0, b"a" * 8192)
        f.fsync(h)
        f.write(h, 4096 + 100, b"b")
        f.fsync(h)
        got = f.backing("/a")
        want = b"a" * 4196 + b"b" + b"a" * (8192 - 4197)
        assert got == want, got[4190:4215]
        f.close(h)

main(partial_overwrite_is_synchronised)
'''
