PROP = "C24"
NEEDS = "a file of 2 GiB or more whose size is already in the cache when it is examined"
BREAKS = "getattr reports a wrong (negative) size for large cached files"
EDITS = [(L, '''            off_t get_size            = meta->size;
''', '''            const int block_size      = this_ ()->FSConfig->IO_BLOCK_SIZE;
            int get_size              = meta->size;
'''), (L, '''                blocks_ioblksize = ((get_size - 1) / this_ ()->FSConfig->IO_BLOCK_SIZE) + 1;
''', '''                blocks_ioblksize = ((get_size - 1) / block_size) + 1;
''')]
DEMO = '''
N = 3 << 30

def large_file():
    with FS() as f:
        with open(f.root + "/big", "wb") as b:
            b.truncate(N)
        for i in range(3):
            assert f.getattr("/big").size == N

main(large_file)
'''
