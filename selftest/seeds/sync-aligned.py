PROP = "C09"
NEEDS = "a synced file is truncated to a smaller size that is a multiple of the block size, then fsynced"
BREAKS = "fsync does not set the size of the backing file when the new size is block aligned: after a power failure the file has its old length and contents again"
EDITS = [(E, '''    if (ftruncate (fd, size) < 0) {''', '''    if ((size == 0 || size % this->config->IO_BLOCK_SIZE != 0) && ftruncate (fd, size) < 0) {''')]
DEMO = '''
B = 4096

def shrunk_file_synced():
    with FS() as f:
        f.put("/a", b"z" * (3 * B), sync=True)
        h = f.open("/a", os.O_RDWR)
        f.truncate("/a", B, h)
        f.fsync(h)
        assert f.backing("/a") == b"z" * B, len(f.backing("/a"))
        f.close(h)
        f.clear()
        assert f.get("/a") == b"z" * B

main(shrunk_file_synced)
'''
