PROP = "C13"
NEEDS = "a rename onto an existing file that has been used through the mount before"
BREAKS = "the replaced file's identity stays attached to the destination path, so the path keeps showing the content of the file that was replaced"
EDITS = [(C, '''        this->file_inode_mapping[new_cid] = inode;
''', '''        this->file_inode_mapping.emplace (new_cid, inode);
''')]
DEMO = '''
def atomic_replace():
    with FS() as f:
        h = f.create("/config"); f.write(h, 0, b"old" * 100); f.fsync(h); f.close(h)
        h = f.create("/config.tmp"); f.write(h, 0, b"new!" * 100); f.close(h)
        f.rename("/config.tmp", "/config")
        assert f.getattr("/config").size == 400, f.getattr("/config").size
        h = f.open("/config")
        got = f.read(h, 0, 400)
        assert got == b"new!" * 100, got[:20]
        f.fsync(h)
        f.close(h)

main(atomic_replace)
'''
