PROP = "C11"
NEEDS = "a file with several names and unsynchronised data, only one of which is in the path table, then clear-cache"
BREAKS = "the cached content of a file with several names, not all of them in the path table, survives clear-cache"
EDITS = [(C, '''                           item_buckets.push_back (ref.first);
''', '''                           if (ref.second->get_metadata ()->nlinks != 1)
                               return;
                           item_buckets.push_back (ref.first);
'''), (C, '''        remove_cached_item (it.second, (char*)it.first.c_str (), true);
''', '''        remove_cached_item (it.second, (char*)it.first.c_str (), false);
''')]
DEMO = '''
def cleared():
    with FS() as f:
        h = f.create("/one")
        f.link("/one", "/two")
        f.link("/one", "/three")
        f.clear()
        f.getattr("/one")
        f.write(h, 0, b"x" * 9000)
        f.clear()
        got = f.read(h, 0, 9000)
        assert got.strip(b"\\0") == b"", len(got)
        f.close(h)

main(cleared)
'''
