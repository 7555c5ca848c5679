PROP = "C12"
NEEDS = "a file with exactly two names and data that is not synchronised, one of whose names is removed"
BREAKS = "removing one of two names of a file discards its unsynchronised content although the other name still refers to it"
EDITS = [(C, '''    if (!is_from_cache && before_nlinks > 1) {
''', '''    if (!is_from_cache && item->get_metadata ()->nlinks > 1) {
''')]
DEMO = '''
def other_name_keeps_data():
    with FS() as f:
        h = f.create("/a"); f.write(h, 0, b"a" * 6000); f.fsync(h)
        f.link("/a", "/b")
        f.write(h, 0, b"c" * 6000)
        f.close(h)
        f.unlink("/a")
        h = f.open("/b")
        got = f.read(h, 0, 6000)
        assert got == b"c" * 6000, got[:10]
        f.close(h)

main(other_name_keeps_data)
'''
